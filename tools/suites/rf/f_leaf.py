A="pkg/utils/asciiset.go"; U="pkg/utils/runesranges.go"; S="pkg/utils/string.go"; I="pkg/items/"
r("leaf bits shifts",(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return as[c>>5]&(1<<(c&31)) != 0"))
r("leaf bits right",(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return (as[c/32]>>(c%32))&1 == 1"))
r("leaf bits locals",(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	word, bit := c/32, c%32\n	if as[word]&(1<<bit) == 0 {\n		return false\n	}\n	return true"))
r("leaf bits and",(A,"	if c >= utf8.RuneSelf {\n		return false\n	}\n	return (as[c/32] & (1 << (c % 32))) != 0","	return c < utf8.RuneSelf && as[c/32]&(1<<(c%32)) != 0"))
r("leaf make via add",(A,"		c := chars[i]\n		if c >= utf8.RuneSelf {\n			return as, false\n		}\n		as[c/32] |= 1 << (c % 32)\n","		if !as.Add(chars[i]) {\n			return as, false\n		}\n"))
r("leaf add inverted",(A,"	if c >= utf8.RuneSelf {\n		return false\n	}\n	as[c/32] |= 1 << (c % 32)\n	return true","	ok := c < utf8.RuneSelf\n	if ok {\n		as[c/32] |= 1 << (c % 32)\n	}\n	return ok"))
r("leaf index range",(A,"	for i := 0; i < len(b); i++ {\n		if as.Contains(b[i]) {\n			return i\n","	for i, c := range b {\n		if as.Contains(c) {\n			return i\n"))
r("leaf last index while",(A,"	for i := len(s) - 1; i >= 0; i-- {\n		if as.Contains(s[i]) {\n			return i\n		}\n	}\n	return -1","	i := len(s)\n	for i > 0 {\n		i--\n		if as.Contains(s[i]) {\n			return i\n		}\n	}\n	return -1"))
r("leaf last index off",(A,"	for i := len(s) - 1; i >= 0; i-- {\n		if as.Contains(s[i]) {\n			return i\n		}\n	}\n	return -1","	for i := len(s); i > 0; i-- {\n		if as.Contains(s[i-1]) {\n			return i - 1\n		}\n	}\n	return -1"))
r("leaf skip by place",(S,"		_, n := utf8.DecodeRuneInString(s)\n		if n == 0 {\n			// failback\n			return -1\n		}\n		s = s[n:]\n		next += n","		_, n := utf8.DecodeRuneInString(s[next:])\n		if n == 0 {\n			// failback\n			return -1\n		}\n		next += n"))
r("leaf skip empty first",(S,"		_, n := utf8.DecodeRuneInString(s)\n		if n == 0 {\n			// failback\n			return -1\n		}\n		s = s[n:]\n		next += n","		if len(s) == 0 {\n			return -1\n		}\n		_, n := utf8.DecodeRuneInString(s)\n		next += n\n		s = s[n:]"))
r("leaf skip countdown",(S,"	for i := 0; i < runes; i++ {\n		_, n := utf8","	for ; runes > 0; runes-- {\n		_, n := utf8"))
r("leaf skip helper",(S,"		_, n := utf8.DecodeRuneInString(s)\n		if n == 0 {\n","		n := firstLen(s)\n		if n == 0 {\n"),(S,"func StringSkipRunesLast","func firstLen(s string) int {\n	_, n := utf8.DecodeRuneInString(s)\n	return n\n}\n\nfunc StringSkipRunesLast"))
r("leaf skip last plain",(S,"		s = s[:len(s)-n]\n		end += n\n	}\n	end = l - end\n	return","		s = s[:len(s)-n]\n	}\n	return len(s)"),(S,"	l := len(s)\n",""))
r("leaf ranges linear",(U,"""	if len(rs.UnicodeRanges) == 0 {
		return false
	} else if len(rs.UnicodeRanges) == 1 {
		return c >= rs.UnicodeRanges[0].First && c <= rs.UnicodeRanges[0].Last
	} else {
""","""	if len(rs.UnicodeRanges) < 8 {
		for _, r := range rs.UnicodeRanges {
			if c >= r.First && c <= r.Last {
				return true
			}
		}
		return false
	} else {
"""))
r("leaf ranges linear break",(U,"""	if len(rs.UnicodeRanges) == 0 {
		return false
	} else if len(rs.UnicodeRanges) == 1 {
		return c >= rs.UnicodeRanges[0].First && c <= rs.UnicodeRanges[0].Last
	} else {
""","""	if len(rs.UnicodeRanges) < 8 {
		for i := range rs.UnicodeRanges {
			if c < rs.UnicodeRanges[i].First {
				break
			}
			if c <= rs.UnicodeRanges[i].Last {
				return true
			}
		}
		return false
	} else {
"""))
r("leaf ranges helper",(U,"""			if c >= rs.UnicodeRanges[mid].First {
				if c <= rs.UnicodeRanges[mid].Last {
					return true
				} else {
					low = mid + 1
				}
			} else {
				high = mid - 1
			}
""","""			switch d := rs.UnicodeRanges[mid].side(c); {
			case d == 0:
				return true
			case d > 0:
				low = mid + 1
			default:
				high = mid - 1
			}
"""),(U,"func (rs *RunesRanges) Contains(c","""func (r RuneRange) side(c rune) int {
	if c < r.First {
		return -1
	}
	if c > r.Last {
		return 1
	}
	return 0
}

func (rs *RunesRanges) Contains(c"""))
r("leaf ranges local",(U,"""			if c >= rs.UnicodeRanges[mid].First {
				if c <= rs.UnicodeRanges[mid].Last {""","""			r := rs.UnicodeRanges[mid]
			if c >= r.First {
				if c <= r.Last {"""))
r("leaf ranges half open",(U,"""		low := 1
		high--
		for low <= high {
			mid := (low + high) / 2
""","""		low := 1
		for low < high {
			mid := low + (high-low)/2
"""),(U,"				high = mid - 1\n","				high = mid\n"))
r("leaf contains branch",(U,"	if c <= 127 {\n		return rs.ASCII.Contains(byte(c))\n	}\n	return rs.ContainsUnicode(c)","	if c > 127 {\n		return rs.ContainsUnicode(c)\n	}\n	return rs.ASCII.Contains(byte(c))"))
r("leaf class index split",(U,"""	if len(rs.UnicodeRanges) == 0 {
		for i := 0; i < len(s); i++ {
			if rs.ASCII.Contains(s[i]) {
				return i, rune(s[i]), 1
			}
		}
		return -1, utf8.RuneError, 0
	}
	for i""","""	if len(rs.UnicodeRanges) == 0 {
		if i := rs.ASCII.Index(s); i != -1 {
			return i, rune(s[i]), 1
		}
		return -1, utf8.RuneError, 0
	}
	for i"""))
r("leaf class index cond",(U,"""	for i := 0; i < len(s); {
		if s[i] < utf8.RuneSelf {
			if rs.ASCII.Contains(s[i]) {
				return i, rune(s[i]), 1
			}
			i++
		} else {
			c, n = utf8.DecodeRuneInString(s[i:])
			if c == utf8.RuneError {
				return -1, utf8.RuneError, 0
			}
			if rs.ContainsUnicode(c) {
				pos = i
				return
			}
			i += n
		}
	}
""","""	for pos < len(s) {
		c, n = rune(s[pos]), 1
		if c >= utf8.RuneSelf {
			if c, n = utf8.DecodeRuneInString(s[pos:]); c == utf8.RuneError {
				break
			}
			if rs.ContainsUnicode(c) {
				return
			}
		} else if rs.ASCII.Contains(s[pos]) {
			return
		}
		pos += n
	}
"""))
r("leaf class index contains",(U,"""		if s[i] < utf8.RuneSelf {
			if rs.ASCII.Contains(s[i]) {
				return i, rune(s[i]), 1
			}
			i++
		} else {
			c, n = utf8.DecodeRuneInString(s[i:])
			if c == utf8.RuneError {
				return -1, utf8.RuneError, 0
			}
			if rs.ContainsUnicode(c) {
				pos = i
				return
			}
			i += n
		}
""","""		c, n = utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError {
			break
		}
		if rs.Contains(c) {
			return i, c, n
		}
		i += n
"""))
r("leaf class index range",(U,"""	for i := 0; i < len(s); {
		if s[i] < utf8.RuneSelf {
			if rs.ASCII.Contains(s[i]) {
				return i, rune(s[i]), 1
			}
			i++
		} else {
			c, n = utf8.DecodeRuneInString(s[i:])
			if c == utf8.RuneError {
				return -1, utf8.RuneError, 0
			}
			if rs.ContainsUnicode(c) {
				pos = i
				return
			}
			i += n
		}
	}
""","""	for i, c := range s {
		if c == utf8.RuneError {
			break
		}
		if rs.Contains(c) {
			return i, c, utf8.RuneLen(c)
		}
	}
"""))
r("leaf starts contains",(U,"""	// detect ASCII
	if s[0] < utf8.RuneSelf {
		if rs.ASCII.Contains(s[0]) {
			return rune(s[0]), 1
		} else {
			return utf8.RuneError, -1
		}
	}

	// Unicode
	c, n = utf8.DecodeRuneInString(s)
	if c != utf8.RuneError && rs.ContainsUnicode(c) {
""","""	c, n = utf8.DecodeRuneInString(s)
	if c != utf8.RuneError && rs.Contains(c) {
"""))
r("leaf starts falls",(U,"	if s[0] < utf8.RuneSelf {\n		if rs.ASCII.Contains(s[0]) {\n			return rune(s[0]), 1\n		} else {\n			return utf8.RuneError, -1\n		}\n	}\n","	if s[0] < utf8.RuneSelf && rs.ASCII.Contains(s[0]) {\n		return rune(s[0]), 1\n	}\n"))
r("leaf ends contains",(U,"""	// detect ASCII
	if c < utf8.RuneSelf {
		if rs.ASCII.Contains(byte(c)) {
			return c, len(s) - 1
		} else {
			return utf8.RuneError, -1
		}
	}

	// Unicode
	if rs.ContainsUnicode(c) {
		n = len(s) - n
		return
	}
""","""	if rs.Contains(c) {
		return c, len(s) - n
	}
"""))
r("leaf string cut",(I+"string.go","""	if strings.HasPrefix(s, item.S) {
		// strip prefix
		offset = len(item.S)
	} else {
		offset = -1
	}
	return""","""	if len(s) < len(item.S) || s[:len(item.S)] != item.S {
		return -1, FindDone
	}
	return len(item.S), FindDone"""))
r("leaf string not",(I+"string.go","""	if strings.HasPrefix(s, item.S) {
		// strip prefix
		offset = len(item.S)
	} else {
		offset = -1
	}
	return""","""	if !strings.HasPrefix(s, item.S) {
		return -1, support
	}
	offset = len(item.S)
	return"""))
r("leaf string helper",(I+"string.go","""	if strings.HasPrefix(s, item.S) {
		// strip prefix
		offset = len(item.S)
	} else {
		offset = -1
	}
	return""","""	return prefixLen(s, item.S), FindDone"""),(I+"string.go","func (item *String) Equal","""// prefixLen is a length of prefix (or -1, if s not started with it)
func prefixLen(s, prefix string) int {
	if strings.HasPrefix(s, prefix) {
		return len(prefix)
	}
	return -1
}

func (item *String) Equal"""),(I+"stringlist.go","""	if strings.HasPrefix(s, v) {
		// strip prefix
		offset = len(v)
	} else {
		offset = -1
	}
	return
""","""	return prefixLen(s, v)
"""))
r("leaf string last",(I+"string.go","""	if strings.HasSuffix(s, item.S) {
		// strip suffix
		offset = len(s) - len(item.S)
	} else {
		offset = -1
	}
	return""","""	offset = len(s) - len(item.S)
	if offset < 0 || s[offset:] != item.S {
		offset = -1
	}
	return"""))
r("leaf byte cond",(I+"byte.go","""	if s == "" {
		offset = -1
	} else {
		c := byte(item)
		if c == s[0] {
			offset = 1
		} else {
			offset = -1
		}
	}
	return""","""	if len(s) > 0 && s[0] == byte(item) {
		return 1, FindDone
	}
	return -1, FindDone"""))
r("leaf byte last",(I+"byte.go","""	offset = len(s) - 1
	if offset == -1 || s[offset] != byte(item) {
		offset = -1
	}
	return""","""	if s == "" {
		return -1, support
	}
	if last := len(s) - 1; s[last] == byte(item) {
		return last, support
	}
	return -1, support"""))
r("leaf rune cond",(I+"rune.go","""	if c, n := utf8.DecodeRuneInString(s); c != utf8.RuneError {
		if c == rune(item) {
			offset = n
		} else {
			offset = -1
		}
	} else {
		offset = -1
	}
	return""","""	offset = -1
	if c, n := utf8.DecodeRuneInString(s); c != utf8.RuneError && c == rune(item) {
		offset = n
	}
	return"""))
r("leaf any find",(I+"any.go","""	support = FindForwarded
	n := int(item)
	if length = utils.StringSkipRunes(s, n); length == -1 {
		index = -1
	}
	return""","""	length = utils.StringSkipRunes(s, int(item))
	if length < 0 {
		return -1, length, FindForwarded
	}
	return 0, length, FindForwarded"""))
