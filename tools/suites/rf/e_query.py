OPS="""		if strings.HasPrefix(s, "=") {
			if strings.HasPrefix(s, "=~") {
				terms[i].Op = TaggedTermMatch
				terms[i].Value = strings.TrimSpace(s[2:])
			} else {
				terms[i].Op = TaggedTermEq
				terms[i].Value = strings.TrimSpace(s[1:])
			}
		} else if strings.HasPrefix(s, "!=") {
			if strings.HasPrefix(s, "!=~") {
				terms[i].Op = TaggedTermNotMatch
				terms[i].Value = strings.TrimSpace(s[3:])
			} else {
				terms[i].Op = TaggedTermNe
				terms[i].Value = strings.TrimSpace(s[2:])
			}
		} else {
			err = ErrExprInvalid{s}
			return
		}
"""
r("query op switch",(TG,OPS,"""		switch {
		case strings.HasPrefix(s, "!=~"):
			terms[i].Op = TaggedTermNotMatch
			s = s[3:]
		case strings.HasPrefix(s, "!="):
			terms[i].Op = TaggedTermNe
			s = s[2:]
		case strings.HasPrefix(s, "=~"):
			terms[i].Op = TaggedTermMatch
			s = s[2:]
		case strings.HasPrefix(s, "="):
			terms[i].Op = TaggedTermEq
			s = s[1:]
		default:
			err = ErrExprInvalid{s}
			return
		}
		terms[i].Value = strings.TrimSpace(s)
"""))
r("query op helper",(TG,OPS,"""		op, n := parseOp(s)
		if n == 0 {
			err = ErrExprInvalid{s}
			return
		}
		terms[i].Op = op
		terms[i].Value = strings.TrimSpace(s[n:])
"""),(TG,"func ParseTaggedConditions(","""func parseOp(s string) (TaggedTermOp, int) {
	if strings.HasPrefix(s, "=") {
		if strings.HasPrefix(s, "=~") {
			return TaggedTermMatch, 2
		}
		return TaggedTermEq, 1
	}
	if strings.HasPrefix(s, "!=") {
		if strings.HasPrefix(s, "!=~") {
			return TaggedTermNotMatch, 3
		}
		return TaggedTermNe, 2
	}
	return 0, 0
}

func ParseTaggedConditions("""))
r("query term pointer",(TG,"		s := conditions[i]\n\n		pos","		s, term := conditions[i], &terms[i]\n\n		pos"),(TG,"		terms[i].Key = strings.TrimSpace(s[:pos])","		term.Key = strings.TrimSpace(s[:pos])"),(TG,"		if terms[i].Key == \"name\" {\n			terms[i].Key = \"__name__\"","		if term.Key == \"name\" {\n			term.Key = \"__name__\""),(TG,"		if err = terms[i].build()","		if err = term.build()"))
r("query range",(TG,"	for i := 0; i < len(conditions); i++ {\n		s := conditions[i]\n","	for i, s := range conditions {\n"))
r("query local term",(TG,"		if err = terms[i].build(); err != nil {\n			return\n		}\n","		term := &terms[i]\n		err = term.build()\n		if err != nil {\n			return\n		}\n"))
r("query key first",(TG,"		terms[i].Key = strings.TrimSpace(s[:pos])\n","		key := strings.TrimSpace(s[:pos])\n		if key == \"name\" {\n			key = \"__name__\"\n		}\n		terms[i].Key = key\n"),(TG,"		if terms[i].Key == \"name\" {\n			terms[i].Key = \"__name__\"\n		}\n\n",""))
r("query less early",(TG,"""		if terms[i].Key == terms[j].Key {
			if terms[i].Op == terms[j].Op {
				return terms[i].Value < terms[j].Value
			} else {
				return terms[i].Op < terms[j].Op
			}
		}

		if terms[i].Key == "__name__" {
			return true
		} else if terms[j].Key == "__name__" {
			return false
		}
		return terms[i].Key < terms[j].Key
""","""		a, b := &terms[i], &terms[j]
		if a.Key != b.Key {
			if a.Key == "__name__" || b.Key == "__name__" {
				return a.Key == "__name__"
			}
			return a.Key < b.Key
		}
		if a.Op != b.Op {
			return a.Op < b.Op
		}
		return a.Value < b.Value
"""))
r("query less method",(TG,"""	sort.Slice(terms, func(i, j int) bool {
		if terms[i].Key == terms[j].Key {
			if terms[i].Op == terms[j].Op {
				return terms[i].Value < terms[j].Value
			} else {
				return terms[i].Op < terms[j].Op
			}
		}

		if terms[i].Key == "__name__" {
			return true
		} else if terms[j].Key == "__name__" {
			return false
		}
		return terms[i].Key < terms[j].Key
	})
""","""	sort.Slice(terms, func(i, j int) bool { return terms[i].less(&terms[j]) })
"""),(TG,"func ParseTaggedConditions(","""func (a *TaggedTerm) less(b *TaggedTerm) bool {
	if a.Key == b.Key {
		if a.Op == b.Op {
			return a.Value < b.Value
		}
		return a.Op < b.Op
	}
	if a.Key == "__name__" {
		return true
	}
	if b.Key == "__name__" {
		return false
	}
	return a.Key < b.Key
}

func ParseTaggedConditions("""))
r("query sort helper",(TG,"	sort.Slice(terms, func(i, j int) bool {","	terms.sort()\n\n	return terms, nil\n}\n\nfunc (terms TaggedTermList) sort() {\n	sort.Slice(terms, func(i, j int) bool {"),(TG,"		return terms[i].Key < terms[j].Key\n	})\n\n	return terms, nil\n","		return terms[i].Key < terms[j].Key\n	})\n"))
r("query build switch",(TG,"""	if term.Op == TaggedTermMatch || term.Op == TaggedTermNotMatch {
		term.Re, err = regexp.Compile(term.Value)
		if err != nil {
			err = ErrExprInvalid{term.Value}
		}
	} else if items""","""	switch term.Op {
	case TaggedTermMatch, TaggedTermNotMatch:
		if term.Re, err = regexp.Compile(term.Value); err != nil {
			return ErrExprInvalid{term.Value}
		}
		return nil
	}
	if items"""))
r("query build glob local",(TG,"""		term.HasWildcard = true
		if term.Glob, err = glob.Parse(term.Value); err != nil {
			return err
		}
		term.Value = term.Glob.Node
		if len(term.Glob.Items) == 0 {
			term.Glob = nil
			term.HasWildcard = false
		} else {
			term.HasWildcard = true
		}
""","""		g, err := glob.Parse(term.Value)
		if err != nil {
			return err
		}
		term.Value = g.Node
		if term.HasWildcard = len(g.Items) > 0; term.HasWildcard {
			term.Glob = g
		}
"""))
r("query parseString index",(TG,"""	var i int
	for i < len(s) && s[i] != match {
		i++
	}

	if i == len(s) {
""","""	i := strings.IndexByte(s, match)
	if i == -1 {
"""))
r("query parseString for",(TG,"""	var i int
	for i < len(s) && s[i] != match {
		i++
	}

	if i == len(s) {
		return "", "", ErrNodeNotTerminated{s}
	}

	return s[:i], s[i+1:], nil
""","""	for i := 0; i < len(s); i++ {
		if s[i] == match {
			return s[:i], s[i+1:], nil
		}
	}
	return "", "", ErrNodeNotTerminated{s}
"""))
r("query args switch",(TG,"""		if e[0] == '\\'' || e[0] == '"' {
			if arg, e, err = parseString(e); err != nil {
				return
			}
			// skip empty arg
			if arg != "" {
				if n == len(args) {
					err = ErrExprOverflow{query}
					return
				}
				args[n] = arg
				n++
			}
		} else if e[0] == ' ' || e[0] == ',' {
			e = e[1:]
		} else {
			err = ErrNodeNotTerminated{e}
			return
		}
""","""		switch e[0] {
		case ' ', ',':
			e = e[1:]
			continue
		case '\\'', '"':
		default:
			err = ErrNodeNotTerminated{e}
			return
		}
		if arg, e, err = parseString(e); err != nil {
			return
		}
		if arg == "" {
			// skip empty arg
			continue
		}
		if n >= len(args) {
			err = ErrExprOverflow{query}
			return
		}
		args[n] = arg
		n++
"""))
r("query args prefix",(TG,"""	if e[len(e)-1] != ')' {
""","""	if !strings.HasSuffix(e, ")") {
"""))
r("query args one check",(TG,"""	if !strings.HasPrefix(e, "seriesByTag(") {
		err = ErrQueryInvalid{query}
		return
	}
	if e[len(e)-1] != ')' {
		err = ErrQueryInvalid{query}
		return
	}
	e = e[12 : len(e)-1]
""","""	if !strings.HasPrefix(e, "seriesByTag(") || e[len(e)-1] != ')' {
		return 0, ErrQueryInvalid{query}
	}
	e = e[len("seriesByTag(") : len(e)-1]
"""))
r("query args appended",(TG,"""		conditions [128]string
	)
	n, err = seriesByTagArgs(query, conditions[:])
	if err != nil {
		return
	}

	return ParseTaggedConditions(conditions[:n])
""","""		conditions [128]string
	)
	if n, err = seriesByTagArgs(query, conditions[:]); err == nil {
		terms, err = ParseTaggedConditions(conditions[:n])
	}
	return
"""))
