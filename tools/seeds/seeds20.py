exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
A="pkg/utils/asciiset.go"
mkseed("set-make-128","C30","pkg/utils",[(A,"		c := chars[i]\n		if c >= utf8.RuneSelf {","		c := chars[i]\n		if c > utf8.RuneSelf {")],HN%("utils",'''	if _, ok := MakeASCIISet("a\\x80"); ok {
		t.Fatal("a set with a symbol which is not ASCII")
	}
	as, _ := MakeASCIISet("a")
	if !as.IsEmpty() && as.Contains(0x80) {
		t.Fatal("0x80")
	}
'''),"a text with the byte 0x80","it is taken as a set of ASCII symbols")
mkseed("set-contains-del","C30","pkg/utils",[(A,"	if c >= utf8.RuneSelf {\n		return false\n	}\n	return (as","	if c >= utf8.RuneSelf-1 {\n		return false\n	}\n	return (as")],HN%("utils",'''	as, ok := MakeASCIISet("a\\x7f")
	if !ok || !as.Contains(0x7f) || as.Index("b\\x7f") != 1 {
		t.Fatal("the symbol 0x7f is not in its set")
	}
'''),"a set with the symbol 0x7f","it is not found in the set")
mkseed("set-last-index-byte","C30","pkg/utils",[(A,"	for i := len(b) - 1; i >= 0; i-- {\n		if as.Contains(b[i]) {\n			return i\n		}\n	}","	for i := len(b) - 1; i >= 0; i-- {\n		if b[i] >= utf8.RuneSelf {\n			break\n		}\n		if as.Contains(b[i]) {\n			return i\n		}\n	}")],HN%("utils",'''	as, _ := MakeASCIISet("{")
	if i := as.LastIndexByte([]byte("a{\\u00df")); i != 1 {
		t.Fatal(i)
	}
'''),"a symbol which is not ASCII behind the last one of the set","no place is found")
