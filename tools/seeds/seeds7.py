exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
mkseed("class-last-place","C22","pkg/items",[("pkg/items/runesranges.go","	index, _, length = item.Index(s)","	if len(s) < item.MaxSize {\n		// too short for a character of the class\n		return -1, 0, 0\n	}\n	index, _, length = item.Index(s)")],HN%("items",'''	item, _, err := NextWildcardItem("[aя]")
	if err != nil {
		t.Fatal(err)
	}
	if index, length, _ := item.Find("a"); index != 0 || length != 1 {
		t.Fatal(index, length)
	}
'''),"a class with one-byte and wider characters is looked for at the very end of a text","the last byte of the text is not found")
mkseed("any-one-byte","C22","pkg/items",[("pkg/items/any.go","	offset = utils.StringSkipRunes(s, int(item))","	if len(s) == int(item) {\n		// the rest of the text\n		return len(s), support\n	}\n	offset = utils.StringSkipRunes(s, int(item))")],HN%("items",'''	if n, _ := Any(2).Match("ю"); n != -1 {
		t.Fatal(n)
	}
'''),"the rest of the text has as many bytes as ? are left, and one of its characters is wider than a byte","?? matches one character of two bytes")
