X="expand/expand.go"; E="expand/expression.go"
x=open("/repo/"+X).read(); ee=open("/repo/"+E).read()
GP=x[x.index("func getPair"):x.index("type Expressions struct")]
PE=x[x.index("func ParseExpr"):]
GE=ee[ee.index("func getExpression"):]
r("pieces pair index loop",(X,GP,GP.replace("for i, c := range in {\n		switch c {","for i := 0; i < len(in); i++ {\n		switch c := in[i]; c {")))
r("pieces pair open var",(X,GP,"""func getPair(in string) (start, stop int) {
	var open rune
	start = -1
	for i, c := range in {
		switch c {
		case '*', '?':
			if start == -1 {
				start = i
			}
			return start, -1
		case '{', '[':
			if start != -1 {
				return start, -1
			}
			start = i
			open = c
		case '}', ']':
			if start == -1 {
				return i, -1
			}
			if open == '{' && c == '}' || open == '[' && c == ']' {
				return start, i
			}
			return start, -1
		}
	}

	return start, -1
}

"""))
r("pieces pair helper first",(X,GP,GP.replace("""			if start == -1 || in[start] == '[' {
				if start == -1 {
					start = i
				}
				return
			}
			stop = i
			return
""","""			if start == -1 {
				return i, -1
			}
			if in[start] == '{' {
				stop = i
			}
			return
""")))
r("pieces local list",(X,PE,PE.replace("	e.exps = make([]Expression, 0, count)\n","	exps := make([]Expression, 0, count)\n").replace("	last := len(e.exps)-1","	last := len(exps)-1") if 0 else PE[:PE.index("	count := strings")]+PE[PE.index("	count := strings"):].replace("e.exps","exps").replace("exps = make","exps := make",1).replace("	return e\n","	e.exps = exps\n	return e\n")))
r("pieces add helper",(X,PE,PE.replace("""			if len(e.exps) > 0 && e.exps[len(e.exps)-1].typ == expString {
				e.exps[len(e.exps)-1].body += exp.body
			} else if exp.body != "" {
				e.exps = append(e.exps, exp)
			}
""","""			e.appendString(exp)
""")+"""
func (e *Expressions) appendString(exp Expression) {
	if n := len(e.exps); n > 0 && e.exps[n-1].typ == expString {
		e.exps[n-1].body += exp.body
		return
	}
	if exp.body != "" {
		e.exps = append(e.exps, exp)
	}
}
"""))
r("pieces loop cond",(X,PE,PE.replace("""		in = in[stop:]
		if in == "" {
			break
		}
		start, stop = getPair(in)
	}
""","""		in = in[stop:]
		if len(in) == 0 {
			break
		}
		start, stop = getPair(in)
	}
""")))
r("pieces for text",(X,PE,PE[:PE.index("	for {\n")]+"""	for in != "" {
		if start > 0 {
			e.exps = append(e.exps, Expression{body: in[:start]})
		}
		if start == -1 {
			e.exps = append(e.exps, Expression{body: in})
			break
		}
		if stop == -1 {
			e.exps = append(e.exps, Expression{typ: expWildcard, body: in[start:]})
			break
		}

		exp := getExpression(in[start : stop+1])
		switch {
		case exp.typ != expString:
			e.exps = append(e.exps, exp)
		case len(e.exps) > 0 && e.exps[len(e.exps)-1].typ == expString:
			e.exps[len(e.exps)-1].body += exp.body
		case exp.body != "":
			e.exps = append(e.exps, exp)
		}

		in = in[stop+1:]
		start, stop = getPair(in)
	}
"""+PE[PE.index("\n	last :="):]))
r("pieces tail helper",(X,PE,PE.replace(PE[PE.index("	last := len"):],"""	e.splitTail()

	return e
}

func (e *Expressions) splitTail() {
	last := len(e.exps) - 1
	if last < 0 || e.exps[last].typ != expWildcard {
		return
	}
	s := e.exps[last].body
	if pos := asciiSet.LastIndex(s) + 1; pos < len(s) {
		e.exps[last].body = s[:pos]
		e.exps = append(e.exps, Expression{body: s[pos:]})
	}
}
""")))
r("pieces tail pointer",(X,PE,PE.replace("		s := e.exps[last].body\n		pos := asciiSet.LastIndex(s) + 1\n		if pos < len(s) {\n			e.exps[last].body = s[:pos]\n","		p := &e.exps[last]\n		s := p.body\n		pos := asciiSet.LastIndex(s) + 1\n		if pos < len(s) {\n			p.body = s[:pos]\n")))
r("pieces prelude wild helper",(X,PE,PE.replace("""			pos := asciiSet.LastIndex(in) + 1
			if pos < len(in) {
				e.exps = []Expression{
					{typ: expWildcard, body: in[:pos]},
					{body: in[pos:]},
				}
				return
			}
			e.exps = []Expression{
				{typ: expWildcard, body: in},
			}
			return
""","""			e.exps = splitWild(in)
			return
""")+"""
func splitWild(in string) []Expression {
	pos := asciiSet.LastIndex(in) + 1
	if pos == len(in) {
		return []Expression{{typ: expWildcard, body: in}}
	}
	return []Expression{
		{typ: expWildcard, body: in[:pos]},
		{body: in[pos:]},
	}
}
"""))
r("pieces prelude append",(X,PE,PE.replace("""			e.exps = []Expression{
				{body: in[:start]},
				{typ: expWildcard, body: in[start:]},
			}
			return
""","""			e.exps = append(e.exps, Expression{body: in[:start]}, Expression{typ: expWildcard, body: in[start:]})
			return
""")))
r("pieces values split first",(E,GE,GE.replace("""		if strings.ContainsRune(in, ',') {
			return Expression{typ: expList, body: orig, list: strings.Split(in, ",")}
		} else {
			return Expression{body: in}
		}
""","""		values := strings.Split(in, ",")
		if len(values) == 1 {
			return Expression{body: in}
		}
		return Expression{typ: expList, body: orig, list: values}
""")))
r("pieces values helpers",(E,GE,GE.replace("""		if len(in) == 1 {
			return Expression{body: in}
		} else {
			// TODO
			// return rune{in}
			rs, ok := runesRangeExpand(in)
			if !ok {
				return Expression{typ: expWildcard, body: orig}
			}
			if len(rs) == 0 {
				return Expression{body: ""}
			}
			return Expression{typ: expRunes, body: orig, runes: rs}
		}
""","""		return getClass(orig, in)
""")+"""
func getClass(orig, in string) (exp Expression) {
	if len(in) == 1 {
		exp.body = in
		return
	}
	rs, ok := runesRangeExpand(in)
	switch {
	case !ok:
		exp.typ, exp.body = expWildcard, orig
	case len(rs) > 0:
		exp = Expression{typ: expRunes, body: orig, runes: rs}
	}
	return
}
"""))
r("pieces values contains",(E,GE,GE.replace("strings.ContainsRune(in, ',')","strings.Contains(in, \",\")")))
r("pieces values early",(E,GE,GE.replace("	orig := in\n	in = in[1 : len(in)-1]\n	if len(in) == 0 {\n		return Expression{body: in}\n	}\n","	orig := in\n	in = in[1 : len(in)-1]\n	if in == \"\" {\n		return Expression{}\n	}\n")))
