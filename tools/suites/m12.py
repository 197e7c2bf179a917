import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C20"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
T="gtags/tagged_term.go"
m([(T,'		pos := strings.IndexAny(s, "=~!")','		pos := strings.IndexAny(s, "=!")')],"V ~ in key")
m([(T,'		pos := strings.IndexAny(s, "=~!")','		pos := strings.LastIndexAny(s, "=~!")')],"V last op")
m([(T,'		if pos < 1 {','		if pos < 0 {')],"V empty key")
m([(T,'terms[i].Key = strings.TrimSpace(s[:pos])','terms[i].Key = s[:pos]')],"V key not trimmed")
m([(T,'terms[i].Key = strings.TrimSpace(s[:pos])','terms[i].Key = strings.ToLower(strings.TrimSpace(s[:pos]))')],"V key lower")
m([(T,'terms[i].Value = strings.TrimSpace(s[3:])','terms[i].Value = s[3:]')],"V value not trimmed")
m([(T,'terms[i].Value = strings.TrimSpace(s[3:])','terms[i].Value = strings.TrimSpace(s[2:])')],"V value from 2")
m([(T,'terms[i].Value = strings.TrimSpace(s[1:])','terms[i].Value = strings.TrimLeft(s[1:], " =")')],"V value trims =")
m([(T,'		if terms[i].Key == "name" {\n			terms[i].Key = "__name__"\n		}\n','')],"V name kept")
m([(T,'		if terms[i].Key == "name" {','		if terms[i].Key == "name" && terms[i].Op == TaggedTermEq {')],"V name eq only")
m([(T,'		if terms[i].Key == "name" {','		if strings.HasPrefix(terms[i].Key, "name") {')],"V name prefix")
m([(T,'			err = ErrExprInvalid{s}\n			return\n		}\n\n		if terms','			continue\n		}\n\n		if terms')],"V no op skipped")
m([(T,'		if err = terms[i].build(); err != nil {\n			return\n		}','		if err = terms[i].build(); err != nil && i > 0 {\n			return\n		}\n		err = nil')],"V first err ignored")
m([(T,'		if err = terms[i].build(); err != nil {\n			return\n		}\n	}\n','		err = terms[i].build()\n	}\n	if err != nil {\n		return\n	}\n')],"V only last error")
m([(T,'	} else if items.HasWildcard(term.Value) {','	} else if strings.ContainsAny(term.Value, "[{*") {')],"V ? not wildcard")
m([(T,'	} else if items.HasWildcard(term.Value) {','	} else if term.Op == TaggedTermEq && items.HasWildcard(term.Value) {')],"V ne never wild")
m([(T,'		if len(term.Glob.Items) == 0 {','		if len(term.Glob.Items) <= 1 {')],"V one item glob dropped")
m([(T,'		term.Value = term.Glob.Node\n','')],"V value not normalized")
m([(T,'regexp.Compile(term.Value)','regexp.Compile("^(?:" + term.Value + ")$")')],"V anchored")
m([(T,'regexp.Compile(term.Value)','regexp.CompilePOSIX(term.Value)')],"V posix")
m([(T,'		if err != nil {\n			err = ErrExprInvalid{term.Value}\n		}','		if err != nil {\n			err = nil\n		}')],"V regexp err swallowed")
m([(T,'	for i := 0; i < len(conditions); i++ {\n		s :=','	for i := 0; i < len(conditions)-1; i++ {\n		s :=')],"V last cond dropped")
m([(T,'	for i := 0; i < len(conditions); i++ {\n		s :=','	for i := 1; i < len(conditions); i++ {\n		s :=')],"V first cond dropped")
m([(T,'			if terms[i].Op == terms[j].Op {\n				return terms[i].Value < terms[j].Value\n			} else {\n				return terms[i].Op < terms[j].Op\n			}','			return terms[i].Op < terms[j].Op')],"V value order ignored")
m([(T,'			if terms[i].Op == terms[j].Op {\n				return terms[i].Value < terms[j].Value\n			} else {\n				return terms[i].Op < terms[j].Op\n			}','			return terms[i].Value < terms[j].Value')],"V op order ignored")
m([(T,'		if terms[i].Key == "__name__" {\n			return true\n		} else if terms[j].Key == "__name__" {\n			return false\n		}\n		return','		if terms[i].Key == "__name__" {\n			return true\n		}\n		return')],"V name not first")
m([(T,'		return terms[i].Key < terms[j].Key\n','		return len(terms[i].Key) < len(terms[j].Key) || terms[i].Key < terms[j].Key\n')],"V by len")
m([(T,'	return s[:i], s[i+1:], nil','	return strings.TrimSpace(s[:i]), s[i+1:], nil')],"V arg trimmed")
m([(T,'	for i < len(s) && s[i] != match {',"	for i < len(s) && s[i] != match && s[i] != ')' {")],"V ends at )")
m([(T,'	for i < len(s) && s[i] != match {',"	for i < len(s) && s[i] != '\\'' {")],"V only '")
m([(T,'			if arg != "" {','			if len(arg) > 1 {')],"V short arg dropped")
m([(T,"		} else if e[0] == ' ' || e[0] == ',' {\n			e = e[1:]","		} else if e[0] == ' ' || e[0] == ',' {\n			e = strings.TrimLeft(e, \" ,\")")],"REF trimleft")
m([(T,"		} else if e[0] == ' ' || e[0] == ',' {\n			e = e[1:]","		} else if e[0] == ' ' || e[0] == ',' || e[0] == ';' {\n			e = e[1:]")],"V ; separates")
m([(T,"		} else if e[0] == ' ' || e[0] == ',' {\n			e = e[1:]","		} else if e[0] == ' ' || e[0] == ',' {\n			e = e[1:]\n		} else if e[0] == ')' {\n			return")],"V stops at )")
m([(T,"	if e[len(e)-1] != ')' {","	if strings.IndexByte(e, ')') == -1 {")],"V last not )")
m([(T,"				if n == len(args) {\n					err = ErrExprOverflow{query}\n					return\n				}","				if n == len(args) {\n					return\n				}")],"V overflow truncates")
m([(T,"	e = e[12 : len(e)-1]","	e = strings.TrimRight(e[12:], \")\")")],"V trims all )")
m([(T,"	return ParseTaggedConditions(conditions[:n])","	if n == len(conditions) {\n		n--\n	}\n	return ParseTaggedConditions(conditions[:n])")],"V full drops one")
m([(T,"				args[n] = arg\n				n++","				if n == 0 || args[n-1] != arg {\n				args[n] = arg\n				n++\n				}")],"V dup dropped")
