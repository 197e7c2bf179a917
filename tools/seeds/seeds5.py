exec(open('/tmp/seeds1.py').read().split('mkseed("late')[0])
mkseed("first-items-only","C17","glob",[("glob/tree.go","	for i := 0; i < len(gg.Items); i++ {","	for i := 0; i < len(gg.Items) && i < 8; i++ {")],H%("glob",'''	tree := NewTree()
	if _, _, err := tree.Add("a?[b-d]?[b-d]?[b-d]?[b-d]?[e-g]h", 1); err != nil {
		t.Fatal(err)
	}
	if tree.Match("azbzbzbzbzeh", items.NewAllStore()) != 1 || tree.Match("azbzbzbzbzzh", items.NewAllStore()) != 0 {
		t.Fatal("wrong")
	}
'''),"a glob with more than eight items","only the first eight items of a glob are placed in the tree")
mkseed("term-op-shared","C17","gtags",[("gtags/items.go","terms[0].Op == child.Term.Op && ","")],H%("gtags",'''	tree := NewTree()
	for i, q := range []string{"seriesByTag('name=load', 'dc=a.b')", "seriesByTag('name=load', 'dc=~a.b')"} {
		if _, _, err := tree.Add(q, i); err != nil {
			t.Fatal(err)
		}
	}
	if n := tree.MatchByTagsMap(map[string]string{"__name__": "load", "dc": "axb"}, items.NewAllStore()); n != 1 {
		t.Fatal(n)
	}
'''),"two queries with the same key and value and another operator","the second query is placed behind the term of the first")
mkseed("list-optional-equal","C18","glob",[("pkg/items/stringlist.go","item.MinSize != v.MinSize || item.MaxSize","item.MaxSize")],H%("glob",'''	tree := NewTree()
	for i, q := range []string{"a{,bc,d}e*", "a{bc,d}e?"} {
		if _, _, err := tree.Add(q, i); err != nil {
			t.Fatal(err)
		}
	}
	if tree.Match("aex", items.NewAllStore()) != 1 || tree.Match("adex", items.NewAllStore()) != 2 {
		t.Fatal("wrong")
	}
'''),"two globs of one tree with the same list of values, one with an empty alternative","a list with an empty alternative is taken for one without")
mkseed("class-ascii-equal","C18","glob",[("pkg/utils/runesranges.go","	if a.ASCII != rs.ASCII {","	if a.ASCII != rs.ASCII && len(a.UnicodeRanges) == 0 {")],H%("glob",'''	tree := NewTree()
	for i, q := range []string{"a[b-dà-ü]*", "a[e-gà-ü]?"} {
		if _, _, err := tree.Add(q, i); err != nil {
			t.Fatal(err)
		}
	}
	if tree.Match("aex", items.NewAllStore()) != 1 || tree.Match("abx", items.NewAllStore()) != 1 {
		t.Fatal("wrong")
	}
'''),"two globs of one tree with classes of the same unicode ranges and other ascii symbols","the second class is taken for the first")
