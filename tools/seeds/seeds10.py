exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
mkseed("list-after-star","C24","glob",[("glob/glob.go","				g.MinLen += inner.MinLen()\n				g.MaxLen = items.AddMaxLen(g.MaxLen, inner.MaxLen())","				g.MinLen += inner.MinLen()\n				if _, ok := inner.(items.Star); ok {\n					g.MaxLen = -1\n				} else {\n					g.MaxLen = items.AddMaxLen(g.MaxLen, items.AddMaxLen(inner.MaxLen(), 0))\n					if v, ok := inner.(*items.Group); ok && g.MaxLen < 0 && v.MaxSize > g.MinLen {\n						g.MaxLen = v.MaxSize\n					}\n				}")],HN%("glob",'''	g := ParseMust("*{?b,cdefgh}")
	for _, s := range []string{"xb", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "cdefgh"} {
		if !g.Match(s) {
			t.Fatal(s, g.MaxLen)
		}
	}
'''),"a list with wildcards behind a star, and a long text","the pattern becomes limited again, and the text is refused")
mkseed("class-other-length","C24","glob",[("pkg/utils/runesranges.go","						if n != cn {\n							return rs, false\n						}","						if n > cn {\n							return rs, false\n						}")],HN%("glob",'''	g, err := Parse("x[я-你]")
	if err == nil && (!g.Match("xя") || !g.Match("x你")) {
		t.Fatal(g.MinLen, g.MaxLen)
	}
'''),"a range of a class from a shorter to a longer character","the longer characters of the range are refused by the greatest length")
