import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
H='package %s\n\nimport (\n	"testing"\n\n	"github.com/msaf1980/go-matcher/pkg/items"\n)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'
HN='package %s\n\nimport (\n	"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'
mkseed("late-index-check","C07","glob",[("glob/tree.go",'''	if node, ok := gtree.GlobsIndex[index]; ok {
		err = ErrIndexDup
		normalized = node
		return
	}

	addGlob(gtree.Root, g, index)
''','''	addGlob(gtree.Root, g, index)

	if node, ok := gtree.GlobsIndex[index]; ok {
		err = ErrIndexDup
		normalized = node
		return
	}
''')],H%("glob",'''	tree := NewTree()
	if _, _, err := tree.Add("a*", 1); err != nil {
		t.Fatal(err)
	}
	if _, _, err := tree.AddGlob(ParseMust("b*"), 1); err != ErrIndexDup {
		t.Fatal(err)
	}
	store := items.NewAllStore()
	if n := tree.Match("bc", store); n != 0 {
		t.Fatalf("a rejected glob is matched: %v", store.S)
	}
'''),"AddGlob of a new glob with an index which is in use, and a match afterwards","the rejected glob stays in the tree and is reported")
mkseed("reject-takes-name","C07","gtags",[("gtags/tree.go",'''	if normalized, ok = gtree.QueryIndex[index]; ok {
		err = glob.ErrIndexDup
		return
	}

	var terms TaggedTermList
''','''	if normalized, ok = gtree.QueryIndex[index]; ok {
		err = glob.ErrIndexDup
		return
	}
	gtree.Queries[queryString] = index

	var terms TaggedTermList
'''),("gtags/tree.go",'''	if n, ok = gtree.Queries[normalized]; ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}

	if len(terms) == 0 {
		gtree.Terminate = true''','''	if n, ok = gtree.Queries[normalized]; ok && normalized != queryString {
		// aleady added
		err = glob.ErrGlobExist
		return
	}

	if len(terms) == 0 {
		gtree.Terminate = true''')],HN%("gtags",'''	tree := NewTree()
	if _, _, err := tree.Add("seriesByTag('a=b'", 3); err == nil {
		t.Fatal("added")
	}
	if len(tree.Queries) != 0 {
		t.Fatalf("a rejected query is registered: %v", tree.Queries)
	}
'''),"Add of a query which does not parse","the text of the rejected query is registered")
mkseed("norm-not-recorded","C08","glob",[("glob/tree.go",'''	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
''',(0,'''	if len(normalized) < len(g.Glob) {
		gtree.Globs[normalized] = index
	}
'''))],HN%("glob",'''	tree := NewTree()
	raw := "{b,a}*"
	norm, _, err := tree.Add(raw, 1)
	if err != nil || norm == raw {
		t.Fatal(norm, err)
	}
	if n, ok := tree.Globs[norm]; !ok || n != 1 {
		t.Fatalf("the normalized glob %q is not registered: %v", norm, tree.Globs)
	}
'''),"a glob whose normalized form differs and is not shorter, e.g. a list which gets sorted","the normalized form is not registered, so it can be added again")
mkseed("single-part-dup","C09","gglob",[("gglob/gtree.go",'''	if n, ok = gtree.Globs[g.Node]; ok {
		// aleady added''',(0,'''	if n, ok = gtree.Globs[g.Node]; ok && len(g.Parts) > 1 {
		// aleady added'''))],HN%("gglob",'''	tree := NewTree()
	if _, _, err := tree.Add("{b,a}*", 1); err != nil {
		t.Fatal(err)
	}
	if _, n, err := tree.Add("{a,b}*", 2); err == nil {
		t.Fatalf("a registered glob was replaced: %d %v", n, tree.Globs)
	}
'''),"two spellings of a glob of one part","the second one replaces the first one in the tree and in the map")
mkseed("optional-list-count","C10","glob",[("pkg/items/tree.go",'''				// refactor with two path for exclude
				for i := 0; i < len(item.Childs); i++ {
					if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
						matched += n
					}
				}
''',(0,'''				// refactor with two path for exclude
				for i := 0; i < len(item.Childs); i++ {
					if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
						matched++
					}
				}
'''))],H%("glob",'''	tree := NewTree()
	for i, g := range []string{"*{a,}b", "*{a,}b*"} {
		if _, _, err := tree.Add(g, i); err != nil {
			t.Fatal(err)
		}
	}
	for _, s := range []string{"b", "ab", "cb", "bb", "abab", "cbcb"} {
		var store items.IndexStore
		if n := tree.Match(s, &store); n != len(store.N) {
			t.Fatalf("%s: %d reports, %d returned", s, len(store.N), n)
		}
	}
'''),"an optional list after a star with a child which reports more than once","the number returned is less than the number of reports")
mkseed("early-key-break","C12","gtags",[("gtags/items.go",'''	for i := 0; i < len(item.Items); i++ {
		n := find(tags, item.Items[i].Key, matchPos)
''','''	for i := 0; i < len(item.Items); i++ {
		if i > 0 && matchPos == len(tags)-1 && item.Items[i].Key > tags[matchPos].Key {
			// keys are sorted, all tags are passed
			break
		}
		n := find(tags, item.Items[i].Key, matchPos)
''')],H%("gtags",'''	tree := NewTree()
	for i, q := range []string{"seriesByTag('a=b')", "seriesByTag('c!=d')"} {
		if _, _, err := tree.Add(q, i); err != nil {
			t.Fatal(err)
		}
	}
	var store items.IndexStore
	tree.MatchByTags([]Tag{{"a", "b"}}, &store)
	if len(store.N) != 2 {
		t.Fatalf("matched %v", store.N)
	}
'''),"a query with a negative term on an absent key which sorts after the last tag, next to a query on a present tag","the query with the negative term is not reported")
