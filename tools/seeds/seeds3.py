exec(open('/tmp/seeds1.py').read().split('mkseed("late')[0])
mkseed("star-skips-matched","C14","glob",[("pkg/items/items.go",'''				if offset == -1 {
					break
				}
				s = s[offset:]
				// shift to one rune from minimal offset
				if _, length = utf8.DecodeRuneInString(s); length < 1 {
					break
				}
				s = s[length:]
''','''				if offset == -1 {
					break
				}
				s = s[offset:]
				// shift to one rune from minimal offset
				if _, size := utf8.DecodeRuneInString(s); size < 1 {
					break
				} else if length < size {
					length = size
				}
				s = s[length:]
''')],HN%("glob",'''	g := ParseMust("*{aaa,bab}c")
	if !g.Match("bababc") {
		t.Fatal("not matched")
	}
'''),"a list behind a star, a text in which one value occurs twice and the occurrences overlap","the scan jumps over the whole value found, places which overlap it are not tried")
mkseed("forwarded-in-group","C13","glob",[("pkg/items/items.go",'''			if len(items) == 1 && (nextItems == nil || nextItems.IsEmpty()) {
				matched = true
				return
			}
			return matchStarItems(s[length:], items[1:], nextItems)''','''			if len(items) == 1 {
				matched = true
				return
			}
			return matchStarItems(s[length:], items[1:], nextItems)''')],HN%("glob",'''	g := ParseMust("a*{?,bb}[cd]")
	if g.Match("axyzzz") || !g.Match("axyc") {
		t.Fatal("wrong")
	}
'''),"a group behind a star with the alternative ?, and something behind the group","what follows the group is not matched, any text is accepted")
mkseed("tree-optional-after-star","C14","glob",[("pkg/items/tree.go",'''	optional := true //''','''	optional := len(item.Childs) < 2 //''')],H%("glob",'''	tree := NewTree()
	for i, p := range []string{"a*{b,}c?", "a*{b,}d?"} {
		if _, _, err := tree.Add(p, i); err != nil {
			t.Fatal(err)
		}
	}
	if n := tree.Match("axxc1", items.NewAllStore()); n == 0 {
		t.Fatal("not matched")
	}
'''),"an optional list behind a star with two ways to go on","the empty value of the list is not tried")
