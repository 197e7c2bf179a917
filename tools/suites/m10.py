import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C19"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
T="gtags/tagged_term.go"
m([(T,"			return !term.Glob.Match(v)","			return term.Glob == nil || !term.Glob.Match(v)")],"REF ne glob nil check")
m([(T,"			return !term.Glob.Match(v)","			return v != term.Glob.Node")],"V ne glob by node")
m([(T,"			return !(v == term.Value)","			return !(v == term.Value) && v != \"\"")],"V ne empty value")
m([(T,"			return term.Glob.Match(v)\n		} else {","			return term.Glob.Match(v) || v == term.Value\n		} else {")],"V eq also verbatim")
m([(T,"		return !term.Re.MatchString(v)","		return v != \"\" && !term.Re.MatchString(v)")],"V notmatch empty")
m([(T,"		return term.Re.MatchString(v)","		return term.Re == nil || term.Re.MatchString(v)")],"V match nil re")
m([(T,"		return term.Re.MatchString(v)","		return term.Re.FindString(v) == v")],"V full match")
m([(T,"	case TaggedTermNe:\n		if term.HasWildcard","	case TaggedTermNe:\n		if term.HasWildcard && len(v) >= term.Glob.MinLen")],"V ne wildcard by len")
m([(T,"		} else if term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {","		} else if term.Op != TaggedTermNe {")],"V map notmatch absent refused")
m([(T,"		} else if term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {","		} else if term.Op == TaggedTermEq {")],"V map match absent accepted")
m([(T,"			if !term.Match(v) {\n				return false\n			}","			return term.Match(v)")],"V map first only")
m([(T,"		if v, ok := tags[term.Key]; ok {","		if v := tags[term.Key]; v != \"\" {")],"V map empty value as absent")
m([(T,"			if !term.Match(v) {\n				return false\n			}","			if v != \"\" && !term.Match(v) {\n				return false\n			}")],"V map empty value passes")
m([(T,"	for _, term := range terms {\n		if v, ok","	for _, term := range terms[1:] {\n		if v, ok")],"V map skips first")
m([(T,"				continue LOOP\n			}\n			return false\n		}\n		if term.Key","				break LOOP\n			}\n			return false\n		}\n		if term.Key")],"V tags empty break")
m([(T,"					continue LOOP\n				}\n				return false\n			}\n			i = pos","					return true\n				}\n				return false\n			}\n			i = pos")],"V tags absent neg accepts")
m([(T,"			i = pos\n		}\n","			i = pos + 1\n			if i == len(tags) { i = pos }\n		}\n")],"V next tag value")
m([(T,"		if !term.Match(tags[i].Value) {\n			return false\n		}\n	}","		if !term.Match(tags[i].Value) {\n			return false\n		}\n		i++\n	}")],"V tag consumed")
m([(T,"			for ; pos < len(tags); pos++ {\n				if tags[pos].Key == term.Key {","			for ; pos < len(tags); pos++ {\n				if tags[pos].Key >= term.Key {")],"V stops at greater key")
m([(T,"			for ; pos < len(tags); pos++ {\n				if tags[pos].Key == term.Key {\n					break\n				}","			for ; pos < len(tags); pos++ {\n				if tags[pos].Key == term.Key {\n					break\n				}\n				if tags[pos].Key == \"\" {\n					pos = len(tags)\n					break\n				}")],"V stops at an empty key")
m([(T,"			pos := i\n			for ;","			pos := i + 2\n			if pos > len(tags) { pos = len(tags) }\n			for ;")],"V scan starts behind")
m([(T,"			pos := i\n			for ;","			pos := i + 1\n			for ;")],"REF scan starts behind the one compared")
m([(T,"			pos := i\n			for ;","			pos := i\n			if pos > 3 { pos++ }\n			for ;")],"V?? pos++ after compared (equivalent)")
m([(T,"			if len(tags) == pos {\n				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {","			if len(tags) == pos {\n				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch || term.Value == \"\" {")],"V absent empty value accepted")
m([(T,"				continue LOOP\n			}\n			return false\n		}\n		if term.Key","				continue LOOP\n			}\n			return term.Value == \"\"\n		}\n		if term.Key")],"V absent empty value accepted early")
m([(T,"	var i int\nLOOP:","	var i int\n	if len(terms) > len(tags) {\n		return false\n	}\nLOOP:")],"V more terms than tags")
m([(T,"	var i int\nLOOP:","	var i int\n	if len(tags) == 0 {\n		return false\n	}\nLOOP:")],"V no tags refused")
m([(T,"	for _, term := range terms {\n		if v, ok","	if len(tags) == 0 {\n		return len(terms) == 0\n	}\n	for _, term := range terms {\n		if v, ok")],"V no tags refused map")
