X="expand/expand.go"; E="expand/expression.go"; U="expand/runes.go"
x=open("/repo/"+X).read(); ee=open("/repo/"+E).read(); u=open("/repo/"+U).read()
LIM=x[x.index("	if max > 0 {\n		if count <= 0"):x.index("	if depth > 0 {\n		switch")]
DEP=x[x.index("	if depth > 0 {\n		switch"):x.index("	if max == 0 {\n		buf")]
BODY=x[x.index("	if max == 0 {\n		buf"):x.index("func ParseExpr")]
r("expand limit helper",(X,LIM,"""	max, count = restrict(max, count, exps[0].count())
"""),(X,"func ParseExpr","""// restrict disables the expansion above max results
func restrict(max, count, n int) (int, int) {
	if max <= 0 {
		return max, count
	}
	if count <= 0 {
		count = 1
	}
	count *= n
	if count > max {
		max = 0
	}
	return max, count
}

func ParseExpr"""))
r("expand depth helper",(X,DEP,"""	if depth > 0 && exps[0].plain() {
		if depth -= strings.Count(exps[0].body, "."); depth <= 1 {
			max = 0
		}
	}
"""),(E,"func (e *Expression) reset()","""// plain for not expanded expression
func (e *Expression) plain() bool {
	return e.typ == expString || e.typ == expWildcard
}

func (e *Expression) reset()"""))
r("expand early return",(X,BODY,"""	if max == 0 {
		return expand(exps[1:], result, count, max, depth, try, append(buf, exps[0].body...))
	}

	for {
		buf, err = exps[0].appendNext(buf)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, buf, err
		}
		if result, buf, err = expand(exps[1:], result, count, max, depth, try, buf); err != nil {
			return nil, buf[:cur], err
		}
		buf = buf[:cur]
		if try {
			break
		}
	}
	exps[0].reset()

	return result, buf, nil
}

"""))
r("expand piece pointer",(X,BODY,BODY.replace("exps[0].","e.")),(X,"	cur := len(buf)\n","	cur := len(buf)\n	e := &exps[0]\n	rest := exps[1:]\n	_ = rest\n"))
r("expand for loop",(X,BODY,"""	if max == 0 {
		buf = append(buf, exps[0].body...)
		if result, buf, err = expand(exps[1:], result, count, max, depth, try, buf); err != nil {
			return nil, buf, err
		}
		return result, buf, nil
	}

	for buf, err = exps[0].appendNext(buf); err == nil; buf, err = exps[0].appendNext(buf[:cur]) {
		if result, buf, err = expand(exps[1:], result, count, max, depth, try, buf); err != nil {
			return nil, buf, err
		}
		if try {
			exps[0].reset()
			return result, buf, nil
		}
	}
	exps[0].reset()
	if err != io.EOF {
		return nil, buf, err
	}

	return result, buf, nil
}

"""))
r("expand next split by kind",(E,"	switch e.typ {\n	case expString, expWildcard:\n		out = append(out, e.body...)\n		e.pos = -1\n	case expList:\n		out = append(out, e.list[e.pos]...)\n		if e.pos < len(e.list)-1 {\n			e.pos++\n		} else {\n			e.pos = -1\n		}\n","	switch e.typ {\n	case expString, expWildcard:\n		e.pos = -1\n		return append(out, e.body...), nil\n	case expList:\n		s := e.list[e.pos]\n		e.pos++\n		if e.pos == len(e.list) {\n			e.pos = -1\n		}\n		return append(out, s...), nil\n"))
RL=ee[ee.index("		for {\n			if c, ok := e.runes"):ee.index("	default:\n		panic(fmt.Errorf(\"BUG: not implemented for %d\", e.typ))\n	}\n	return out, nil")]
r("expand runes loop",(E,RL,"""		for {
			c, ok := e.runes[e.pos].next()
			if ok {
				return utf8.AppendRune(out, c), nil
			}
			if e.pos+1 == len(e.runes) {
				return out, io.EOF
			}
			e.pos++
			e.runes[e.pos].reset()
		}
"""))
r("expand runes loop cond",(E,RL,"""		c, ok := e.runes[e.pos].next()
		for !ok {
			if e.pos >= len(e.runes)-1 {
				return out, io.EOF
			}
			e.pos++
			e.runes[e.pos].reset()
			c, ok = e.runes[e.pos].next()
		}
		out = utf8.AppendRune(out, c)
"""))
r("expand next helper",(E,RL,"""		c, ok := e.nextRune()
		if !ok {
			return out, io.EOF
		}
		out = utf8.AppendRune(out, c)
"""),(E,"func (e *Expression) appendNext","""func (e *Expression) nextRune() (rune, bool) {
	for {
		if c, ok := e.runes[e.pos].next(); ok {
			return c, true
		}
		if e.pos >= len(e.runes)-1 {
			return 0, false
		}
		e.pos++
		e.runes[e.pos].reset()
	}
}

func (e *Expression) appendNext"""))
r("expand count range",(E,"		for i := 0; i < len(e.runes); i++ {\n			n += e.runes[i].count()\n		}","		for _, r := range e.runes {\n			n += r.count()\n		}"))
r("expand count returns",(E,"""	n := 0
	switch e.typ {
	case expString, expWildcard:
		n = 1
	case expList:
		n = len(e.list)
	case expRunes:""","""	n := 0
	switch e.typ {
	case expString, expWildcard:
		return 1
	case expList:
		return len(e.list)
	case expRunes:"""))
r("expand rune next",(U,u[u.index("	if r.pos == -1 {"):],"""	if r.pos < 0 || r.pos > r.stop {
		r.pos = -1
		return utf8.RuneError, false
	}
	r.pos++
	return r.pos - 1, true
}
"""))
r("expand rune count parts",(U,"	return int(r.stop - r.start + 1)","	return int(r.stop) - int(r.start) + 1"))
r("expand reset range",(E,"	for i := 0; i < len(e.runes); i++ {\n		e.runes[i].reset()\n	}","	for i := range e.runes {\n		r := &e.runes[i]\n		r.reset()\n	}"))
r("expand entry inline",(X,"	exps := ParseExpr(in)\n\n	return exps.Expand(max, depth, true)","	return ParseExpr(in).Expand(max, depth, true)"))
r("expand entry nodes",(X,"""	var err error
	if depth > 0 {
		depth++
	}
	if result, _, err = expand(e.exps, result, 0, max, depth, try, e.buf[:0]); err != nil {
		return nil, err
	}

	return result, nil""","""	nodes := depth
	if nodes > 0 {
		nodes++
	}
	result, _, err := expand(e.exps, result, 0, max, nodes, try, e.buf[:0])
	if err != nil {
		return nil, err
	}

	return result, nil"""))
r("expand entry cap helper",(X,x[x.index("	count := 1\n	for i"):x.index("	result := make([]string, 0, count)")],"	count := e.capacity()\n"),(X,"// Expand expand expresions","""func (e *Expressions) capacity() int {
	n := 1
	for _, exp := range e.exps {
		if n *= exp.count(); n > maxPrealloc {
			return maxPrealloc
		}
		if exp.typ == expWildcard {
			break
		}
	}
	return n
}

// Expand expand expresions"""))
