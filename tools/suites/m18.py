import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C26"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
X="expand/expand.go"; E="expand/expression.go"; U="expand/runes.go"
m([(X,"			if try {\n				exps[0].reset()\n				break","			if try {\n				break")],"V no reset on try")
m([(X,"				exps[0].reset()\n				break\n			} else if","				break\n			} else if")],"V no reset on EOF")
m([(X,"			buf = buf[:cur]\n","			_ = cur\n")],"V buf not cut (nf)")
m([(X,"			buf = buf[:cur]\n			if err","			buf = buf[:cur*0]\n			if err")],"V buf cut to 0")
m([(X,"			result, buf, err = expand(exps[1:], result, count, max, depth, try, buf)\n			buf","			_, buf, err = expand(exps[1:], result, count, max, depth, try, buf)\n			buf")],"V result dropped")
m([(X,"		if max < count {","		if max <= count {")],"V max<=count")
m([(X,"			count = 1\n		}\n		count *= exps[0].count()\n","			count = 1\n		}\n		count += exps[0].count()\n")],"V count +=")
m([(X,"	if max == 0 {\n		buf = append(buf, exps[0].body...)","	if max <= 0 {\n		buf = append(buf, exps[0].body...)")],"V max<=0")
m([(X,"		buf = append(buf, exps[0].body...)\n		result","		buf = append(buf[:cur:cur], exps[0].body...)\n		result")],"REF cap limit")
m([(X,"			if depth <= 1 {","			if depth < 1 {")],"V depth<1")
m([(X,"			depth -= strings.Count(exps[0].body, \".\")","			depth -= strings.Count(exps[0].body, \".\") + 0")],"REF count+0")
m([(X,"		case expString, expWildcard:\n			depth","		case expString:\n			depth")],"V depth wildcard")
m([(X,"	if depth > 0 {\n		depth++\n	}","	if depth >= 0 {\n		depth++\n	}")],"V depth>=0")
m([(X,"		return []string{e.exps[0].body}, nil","		return []string{}, nil")],"V one body dropped")
m([(X,"len(e.exps) == 1 && e.exps[0].typ == expString","len(e.exps) == 1 && e.exps[0].typ != expRunes")],"V one list as text")
m([(X,"len(e.exps) == 1 && e.exps[0].typ == expString","len(e.exps) == 1 && e.exps[0].typ <= expWildcard")],"REF wildcard as text")
m([(X,"	result := make([]string, 0, count)","	result := make([]string, count)")],"V made with count")
m([(X,"try, e.buf[:0])","try, e.buf)")],"REF? buf not cut (always empty)")
m([(X,"	return exps.Expand(max, depth, true)","	return exps.Expand(max, depth, false)")],"V try false")
m([(X,"	return exps.Expand(max, depth, false)","	return exps.Expand(max, max, false)")],"V depth max")
m([(X,"		result = append(result, string(buf))\n		return","		if len(buf) > 0 {\n			result = append(result, string(buf))\n		}\n		return")],"V empty dropped")
m([(E,"		if e.pos < len(e.list)-1 {","		if e.pos < len(e.list)-2 {")],"V list last lost")
m([(E,"			e.pos++\n		} else {\n			e.pos = -1\n		}\n	case","			e.pos += 2\n		} else {\n			e.pos = -1\n		}\n	case")],"V list +2")
m([(E,"		out = append(out, e.list[e.pos]...)","		out = append(out, e.list[0]...)")],"V list 0")
m([(E,"				if e.pos < len(e.runes)-1 {","				if e.pos < len(e.runes)-2 {")],"V last range lost")
m([(E,"				e.runes[e.pos].reset()\n			} else","			} else")],"REF? no reset of next range")
m([(E,"				out = utf8.AppendRune(out, c)","				out = append(out, byte(c))")],"V byte")
m([(E,"	for i := 0; i < len(e.runes); i++ {\n		e.runes[i].reset()","	for i := 1; i < len(e.runes); i++ {\n		e.runes[i].reset()")],"V reset from 1")
m([(E,"	for i := 0; i < len(e.runes); i++ {\n		e.runes[i].reset()\n	}","	if len(e.runes) > 0 {\n		e.runes[0].reset()\n	}")],"V? reset only first (alternatives reset the rest)")
m([(E,"	for i := 0; i < len(e.runes); i++ {\n		e.runes[i].reset()\n	}","	for i := range e.runes {\n		e.runes[i].pos = e.runes[i].start\n	}")],"REF range reset")
m([(E,"	e.pos = 0\n","")],"V pos not reset")
m([(E,"		n = len(e.list)\n	case","		n = len(e.list) - 1\n	case")],"V count list-1")
m([(E,"			n += e.runes[i].count()","			n = e.runes[i].count()")],"V count of last")
m([(U,"	return int(r.stop - r.start + 1)","	return int(r.stop - r.start)")],"V rune count")
m([(U,"	if c > r.stop {","	if c >= r.stop {")],"V rune stop")
m([(U,"	r.pos = r.start\n","	r.pos = r.start + 1\n")],"V rune reset+1")
m([(U,"	r.pos++","	r.pos += 2")],"V rune +2")
m([(E,"		e.pos = -1\n	case expList","		e.pos = 1\n	case expList")],"V string twice")
m([(X,"expand(exps[1:], result, count, max, depth, try, buf)\n			buf","expand(exps[1:], result, count, max, depth, false, buf)\n			buf")],"V try not passed")
m([(X,"			if try {\n				exps","			if try && len(exps) > 1 {\n				exps")],"V try only not last")
m([(X,"			if err != nil {\n				return nil, buf, err\n			}\n\n			if try","			if err != nil {\n				break\n			}\n\n			if try")],"V err ignored by break")
# parse
m([(E,"return Expression{typ: expWildcard, body: orig}\n			}\n			if","return Expression{typ: expWildcard, body: in}\n			}\n			if")],"P V class text without brackets")
m([(E,"strings.Split(in, \",\")","strings.Split(orig, \",\")")],"P V split orig")
m([(E,"strings.Split(in, \",\")","strings.SplitN(in, \",\", 8)")],"P V splitN")
m([(X,"		stop++\n","		if start > 0 || len(e.exps) == 0 {\n			stop++\n		}\n")],"P V stop++")
m([(X,"	if last >= 0 && e.exps[last].typ == expWildcard {\n		s := e.exps[last].body\n		pos := asciiSet.LastIndex(s) + 1\n","	if last >= 0 && e.exps[last].typ == expWildcard {\n		s := e.exps[last].body\n		pos := asciiSet.Index(s) + 1\n")],"P REF split first special")
m([(X,"			e.exps[last].body = s[:pos]\n			e.exps","			e.exps[last].body = s\n			e.exps")],"P V tail twice")
m([(X,"			if len(e.exps) > 0 && e.exps[len(e.exps)-1].typ == expString {","			if len(e.exps) > 1 && e.exps[len(e.exps)-1].typ != expList {")],"P V merged into class")
m([(X,"		} else if start > 0 {\n			e.exps = append(e.exps, Expression{body: in[:start]})\n		}\n\n		stop","		} else if start > 1 {\n			e.exps = append(e.exps, Expression{body: in[:start]})\n		}\n\n		stop")],"P V single byte lost")
m([(X,"				{body: in[:start]},\n				{typ: expWildcard, body: in[start:]},","				{body: in[:start]},\n				{typ: expWildcard, body: in[start:pos]},")],"P REF in[start:pos] at end")
m([(X,"					{typ: expWildcard, body: in[start:pos]},\n					{body: in[pos:]},","					{typ: expWildcard, body: in[start:pos]},\n					{typ: expList, body: in[pos:]},")],"P V tail as list")
