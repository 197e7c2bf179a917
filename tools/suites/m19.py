import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C27"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
X="expand/expand.go"; E="expand/expression.go"; U="expand/runes.go"
# parse
m([(E,"return Expression{typ: expWildcard, body: orig}\n			}\n			if","return Expression{typ: expWildcard, body: in}\n			}\n			if")],"V class text without brackets")
m([(E,"strings.Split(in, \",\")","strings.Split(orig, \",\")")],"V split orig")
m([(E,"strings.Split(in, \",\")","strings.SplitN(in, \",\", 8)")],"V splitN")
m([(X,"		stop++\n","		if start > 0 || len(e.exps) == 0 {\n			stop++\n		}\n")],"V stop++")
m([(X,"	if last >= 0 && e.exps[last].typ == expWildcard {\n		s := e.exps[last].body\n		pos := asciiSet.LastIndex(s) + 1\n","	if last >= 0 && e.exps[last].typ == expWildcard {\n		s := e.exps[last].body\n		pos := asciiSet.Index(s) + 1\n")],"REF split first special")
m([(X,"			e.exps[last].body = s[:pos]\n			e.exps","			e.exps[last].body = s\n			e.exps")],"V tail twice")
m([(X,"			if len(e.exps) > 0 && e.exps[len(e.exps)-1].typ == expString {","			if len(e.exps) > 1 && e.exps[len(e.exps)-1].typ != expList {")],"V merged into class")
m([(X,"		} else if start > 0 {\n			e.exps = append(e.exps, Expression{body: in[:start]})\n		}\n\n		stop","		} else if start > 1 {\n			e.exps = append(e.exps, Expression{body: in[:start]})\n		}\n\n		stop")],"V single byte lost")
m([(X,"				{body: in[:start]},\n				{typ: expWildcard, body: in[start:]},","				{body: in[:start]},\n				{typ: expWildcard, body: in[start:pos]},")],"REF in[start:pos] at end")
m([(X,"					{typ: expWildcard, body: in[start:pos]},\n					{body: in[pos:]},","					{typ: expWildcard, body: in[start:pos]},\n					{typ: expList, body: in[pos:]},")],"V tail as list")

m([(X,"			if start > 0 {\n				e.exps = append(e.exps, Expression{body: in[:start]})\n			}\n			e.exps = append(e.exps, Expression{typ: expWildcard, body: in[start:]})\n			break","			e.exps = append(e.exps, Expression{typ: expWildcard, body: in})\n			break")],"REF rest as one wildcard")
m([(X,"			e.exps = append(e.exps, Expression{body: in})\n			break","			break")],"V tail lost")
m([(X,"		exp := getExpression(in[start:stop])\n","		exp := getExpression(in[start:stop])\n		if exp.typ == expWildcard {\n			in = in[stop:]\n			break\n		}\n")],"V wildcard lost")
m([(X,"			} else if exp.body != \"\" {","			} else if len(e.exps) > 0 {")],"V first value lost")
m([(X,"			} else if exp.body != \"\" {","			} else {")],"REF empty kept")
m([(X,"		in = in[stop:]\n		if in","		in = in[stop:]\n		if len(in) < 2 {\n			break\n		}\n		if in")],"V last byte lost")
m([(X,"			e.exps[last].body = s[:pos]\n			e.exps = append(e.exps, Expression{body: s[pos:]})","			e.exps[last].body = s[:pos]")],"V tail of star lost")
m([(X,"			e.exps[last].body = s[:pos]\n			e.exps = append(e.exps, Expression{body: s[pos:]})","			e.exps[last].body = s[:pos]\n			e.exps = append(e.exps, Expression{body: s[pos-1:]})")],"V byte twice")
m([(X,"				e.exps[len(e.exps)-1].body += exp.body","				e.exps[len(e.exps)-1].body = exp.body")],"V merged replaced")
m([(X,"				e.exps[len(e.exps)-1].body += exp.body","				e.exps[len(e.exps)-1].body = exp.body + e.exps[len(e.exps)-1].body")],"V merged before")
m([(X,"		exp := getExpression(in[start:stop])","		exp := getExpression(in[:stop])")],"V pair from 0")
m([(X,"		in = in[stop:]\n		if in == \"\" {\n			break\n		}\n		start","		in = in[stop:]\n		if in == \"\" {\n			break\n		}\n		if exp.typ == expList && in[0] == '}' {\n			in = in[1:]\n		}\n		start")],"V closing bracket skipped")
m([(X,"		start, stop = getPair(in)\n	}","		if start, stop = getPair(in); stop != -1 && len(e.exps) > 32 {\n			start = -1\n		}\n	}")],"V pairs not expanded after 32")
m([(X,"		start, stop = getPair(in)\n	}","		if start, stop = getPair(in); stop != -1 && len(e.exps) > 32 {\n			stop = -1\n		}\n	}")],"V pairs as written after 32")
m([(E,"		if len(in) == 1 {\n			return Expression{body: in}","		if len(in) <= 2 {\n			return Expression{body: in}")],"V two symbols as text")
m([(E,"		if strings.ContainsRune(in, ',') {","		if strings.ContainsRune(in[1:], ',') {")],"V leading comma")
m([(E,"		if strings.ContainsRune(in, ',') {","		if strings.IndexByte(in, ',') > 0 {")],"V IndexByte > 0")
m([(E,"		if strings.ContainsRune(in, ',') {","		if strings.IndexByte(in, ',') >= 0 {")],"REF IndexByte >= 0")
m([(E,"			if len(rs) == 0 {","			if len(rs) <= 1 {")],"V one range dropped")
m([(E,"			rs, ok := runesRangeExpand(in)","			rs, ok := runesRangeExpand(strings.ToLower(in))")],"V lower class")
m([(E,"body: orig, list","body: in, list")],"V list text without brackets")
m([(E,"body: orig, runes","body: in, runes")],"V class text")
m([(E,"			if !ok {","			if !ok || len(rs) > 64 {")],"V many ranges kept")
m([(X,"			stop = i\n			return\n		case ']'","			if i > start+1 {\n				stop = i\n				return\n			}\n		case ']'")],"V empty braces skipped")
m([(X,"			if start == -1 || in[start] == '[' {","			if start == -1 {")],"V [ closed by }")
m([(X,"			if start == -1 || in[start] == '{' {","			if start == -1 {")],"V { closed by ]")
m([(X,"				start = i\n			} else {\n				return\n			}","				start = i\n			}")],"V nested")
m([(X,"			// break, no expand after star\n			if start == -1 {\n				start = i\n			}\n			return","			// break, no expand after star\n			if start == -1 {\n				start = i\n				return\n			}")],"V star in class")
m([(X,"		case '*', '?':","		case '*':")],"V ? is text")
m([(X,"	for i, c := range in {","	for i, c := range in {\n		if i > 4096 {\n			break\n		}")],"V only 4096")
m([(X,"			stop = i\n			return\n		case ']'","			stop = i - 1\n			return\n		case ']'")],"V stop one before")
m([(X,"			// break, no expand after star\n			if start == -1 {\n				start = i\n			}\n			return","			// break, no expand after star\n			if start == -1 {\n				start = i\n			}\n			return start, -1")],"REF explicit return")
m([(X,"				if start == -1 {\n					start = i\n				}\n				return\n			}\n			stop = i\n			return\n		case ']'","				if start <= 0 {\n					start = i\n				}\n				return\n			}\n			stop = i\n			return\n		case ']'")],"V start<=0")
m([(X,"		case '{', '[':\n			if start == -1 {","		case '{', '[', '(':\n			if start == -1 {")],"V round bracket")
