exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
TG="gtags/tagged_term.go"
mkseed("empty-value-absent","C19","gtags",[(TG,"		if v, ok := tags[term.Key]; ok {\n			if !term","		if v := tags[term.Key]; v != \"\" {\n			if !term")],HN%("gtags",'''	terms, err := ParseSeriesByTag("seriesByTag('name=cpu', 'dc!=')")
	if err != nil {
		t.Fatal(err)
	}
	tags, err := PathTagsMap("cpu?dc=&host=b")
	if err != nil {
		t.Fatal(err)
	}
	if terms.MatchByTagsMap(tags) {
		t.Fatal("matched")
	}
'''),"a tag with an empty value and a term which matches or refuses the empty value","a tag with an empty value is taken for an absent one")
mkseed("operator-space","C20","gtags",[(TG,'''		s = s[pos:]
		if strings.HasPrefix(s, "=") {
			if strings.HasPrefix(s, "=~") {
''','''		s = s[pos:]
		if strings.HasPrefix(s, "=") {
			s = "=" + strings.TrimSpace(s[1:])
			if strings.HasPrefix(s, "=~") {
''')],HN%("gtags",'''	terms, err := ParseSeriesByTag("seriesByTag('name= ~cpu')")
	if err != nil {
		t.Fatal(err)
	}
	if terms[0].Op != TaggedTermEq || terms[0].Value != "~cpu" {
		t.Fatal(terms)
	}
'''),"a value which begins with ~ after a space","the value ~cpu is parsed as the operator =~")
mkseed("last-argument","C20","gtags",[(TG,'''				if n == len(args) {
					err = ErrExprOverflow{query}
					return
				}
				args[n] = arg
				n++
''','''				if n == len(args) {
					err = ErrExprOverflow{query}
					return
				}
				args[n] = arg
				if n == 0 || args[n-1] != arg[:len(arg)-1]+"*" {
					n++
				}
''')],HN%("gtags",'''	terms, err := ParseSeriesByTag("seriesByTag('dc=~ab*', 'dc=~abc')")
	if err != nil {
		t.Fatal(err)
	}
	if len(terms) != 2 {
		t.Fatal(terms)
	}
'''),"two conditions, the second of which looks as if the first would include it","the second condition, a regular expression, is dropped")
mkseed("stale-tags","C21","gtags",[(TG,'''	for key := range tags {
		delete(tags, key)
	}
	tags["__name__"] = escape.Unescape(name)
''',(1,'''	if args != "" {
		for key := range tags {
			delete(tags, key)
		}
	}
	tags["__name__"] = escape.Unescape(name)
'''))],HN%("gtags",'''	tags := make(map[string]string)
	if err := PathTagsMapB("cpu?dc=a&host=b", tags); err != nil {
		t.Fatal(err)
	}
	if err := PathTagsMapB("mem?", tags); err != nil {
		t.Fatal(err)
	}
	if len(tags) != 1 {
		t.Fatal(tags)
	}
'''),"a path without tags split into a map which was used for another path before","the tags of the path before stay in the map")
mkseed("tag-twice-empty","C21","gtags",[(TG,'''	tags = make(map[string]string)
	tags["__name__"] = escape.Unescape(name)
	var (
		kv, k, v string
	)
	for args != "" {
		if k, v, args, ok = NextTag(args); ok {
			key := escape.Unescape(k)
			tags[key] = escape.Unescape(v)
''','''	tags = make(map[string]string)
	tags["__name__"] = escape.Unescape(name)
	var (
		kv, k, v string
	)
	for args != "" {
		if k, v, args, ok = NextTag(args); ok {
			key := escape.Unescape(k)
			if _, ok := tags[key]; ok && v == "" {
				continue
			}
			tags[key] = escape.Unescape(v)
''')],HN%("gtags",'''	tags, err := PathTagsMap("cpu?dc=a&dc=")
	if err != nil {
		t.Fatal(err)
	}
	if tags["dc"] != "" {
		t.Fatal(tags)
	}
'''),"a tag given twice, the last time with an empty value","the value of a tag given last is not taken when it is empty")
