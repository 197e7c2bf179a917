exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
ST="pkg/items/store.go"
mkseed("grow-drops","C23","pkg/items",[(ST,"		newS := make([]string, len(s.S), n)\n		copy(newS, s.S)\n","		newS := make([]string, 0, n)\n		copy(newS, s.S)\n")],HN%("items",'''	s := NewStringStore()
	s.Store("a", 0)
	s.Grow(16)
	s.Store("b", 1)
	if len(s.S) != 2 || s.S[0] != "a" {
		t.Fatal(s.S)
	}
'''),"Grow of a store which holds reports already, beyond its capacity","the reports held are lost")
