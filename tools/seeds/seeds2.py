exec(open('/tmp/seeds1.py').read().split('mkseed("late')[0])
mkseed("norm-not-recorded","C08","glob",[("glob/tree.go",'''	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
''',(1,'''	if len(normalized) < len(g.Glob) {
		gtree.Globs[normalized] = index
	}
'''))],HN%("glob",'''	tree := NewTree()
	g := ParseMust("{b,a}*")
	norm, _, err := tree.AddGlob(g, 1)
	if err != nil || norm == g.Glob {
		t.Fatal(norm, err)
	}
	if n, ok := tree.Globs[norm]; !ok || n != 1 {
		t.Fatalf("the normalized glob %q is not registered: %v", norm, tree.Globs)
	}
'''),"AddGlob of a glob whose normalized form differs and is not shorter, e.g. a list which gets sorted","the normalized form is not registered, so the same glob can be added again")
mkseed("single-part-dup","C09","gglob",[("gglob/gtree.go",'''	if n, ok = gtree.Globs[g.Node]; ok {
		// aleady added''',(0,'''	if n, ok = gtree.Globs[g.Node]; ok && len(g.Parts) > 1 {
		// aleady added'''))],HN%("gglob",'''	tree := NewTree()
	for i, g := range []string{"a**", "a***"} {
		if _, n, err := tree.Add(g, i); (err == nil) != (i == 0) {
			t.Fatalf("a registered glob was replaced: %d %v", n, tree.Globs)
		}
	}
'''),"two spellings of a glob of one part","the second one replaces the first one in the tree and in the map")
mkseed("suffix-unterminated","C11","glob",[("pkg/items/tree.go",'''			if s == "" && child.Terminate {
				store.Store(child.Query, child.Index)
				matched++
			}
			for _, subChild''','''			if s == "" {
				store.Store(child.Query, child.Index)
				matched++
			}
			for _, subChild''')],H%("glob",'''	tree := NewTree()
	if _, _, err := tree.Add("a*b", 7); err != nil {
		t.Fatal(err)
	}
	store := items.NewAllStore()
	if n := tree.Match("b", store); n != 0 {
		t.Fatalf("reported %v", store)
	}
'''),"a text which is equal to the common suffix of registered globs","an inner node, which is not a registered glob, is reported with an empty query and index 0")
