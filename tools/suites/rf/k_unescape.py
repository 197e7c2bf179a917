U="pkg/escape/unescape.go"
LOOP=open('/repo/'+U).read()
LOOP=LOOP[LOOP.index("	for i := first;"):LOOP.index("	return sb.String()[pos:]\n}")]
r("unescape ifelse",(U,LOOP,"""	for i := first; i < len(s); i++ {
		c := s[i]
		if c == '+' {
			sb.WriteByte(' ')
		} else if c == '%' && isPercentEscape(s, i) {
			sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
			i += 2
		} else {
			sb.WriteByte(c)
		}
	}

"""))
r("unescape helper",(U,"			sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))\n","			sb.WriteByte(hexByte(s[i+1], s[i+2]))\n"),(U,"// unescape unescapes a string\nfunc","func hexByte(a, b byte) byte {\n	hi := unhex(a)\n	lo := unhex(b)\n	return hi<<4 | lo\n}\n\n// unescape unescapes a string\nfunc"))
r("unescape while",(U,LOOP,"""	i := first
	for i < len(s) {
		switch c := s[i]; {
		case c == '%' && isPercentEscape(s, i):
			sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
			i += 3
		case c == '+':
			sb.WriteByte(' ')
			i++
		default:
			sb.WriteByte(c)
			i++
		}
	}

"""))
r("unescape bounds",(U,"	return i+2 < len(s) && ishex(s[i+1]) && ishex(s[i+2])","	if len(s)-i < 3 {\n		return false\n	}\n	hi, lo := s[i+1], s[i+2]\n	return ishex(hi) && ishex(lo)"))
r("unescape rest",(U,LOOP,"""	for rest := s[first:]; len(rest) > 0; {
		switch rest[0] {
		case '%':
			if isPercentEscape(rest, 0) {
				sb.WriteByte(unhex(rest[1])<<4 | unhex(rest[2]))
				rest = rest[3:]
				continue
			}
			sb.WriteByte('%')
		case '+':
			sb.WriteByte(' ')
		default:
			sb.WriteByte(rest[0])
		}
		rest = rest[1:]
	}

"""))
r("unescape ishex expr",(U,LOOP and "	switch {\n	case '0' <= c && c <= '9':\n		return true\n	case 'a' <= c && c <= 'f':\n		return true\n	case 'A' <= c && c <= 'F':\n		return true\n	}\n	return false","	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'"))
r("unescape unhex if",(U,"	case 'a' <= c && c <= 'f':\n		return c - 'a' + 10\n	case 'A' <= c && c <= 'F':\n		return c - 'A' + 10\n	}\n	return 0","	case 'a' <= c && c <= 'f':\n		return 10 + (c - 'a')\n	case 'A' <= c && c <= 'F':\n		return c - ('A' - 10)\n	default:\n		return 0\n	}"))
r("unescape byte var",(U,"			sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))\n","			b := unhex(s[i+1]) << 4\n			b += unhex(s[i+2])\n			sb.WriteByte(b)\n"))
r("unescape else gone",(U,"	} else {\n		var sb strings.Builder\n		return unescape(s, first, &sb)\n	}","	}\n	var sb strings.Builder\n	return unescape(s, first, &sb)"))
r("unescape lt0",(U,"	if first == -1 {\n		return s\n	}\n","	if first < 0 {\n		return s\n	}\n"))
r("unescape name one",(U,"""	first := unescapeSet.Index(s)
	if first == -1 {
		pos := sb.Len()
		sb.WriteString("__name__=")
		end := sb.Len()
		sb.WriteString(s)
		name = sb.String()[end:]
		nameTag = sb.String()[pos:]
		return
	}

	pos := sb.Len()
	sb.WriteString("__name__=")
	name = unescape(s, first, sb)
	nameTag = sb.String()[pos:]
	return
""","""	pos := sb.Len()
	sb.WriteString("__name__=")
	if first := unescapeSet.Index(s); first == -1 {
		end := sb.Len()
		sb.WriteString(s)
		name = sb.String()[end:]
	} else {
		name = unescape(s, first, sb)
	}
	nameTag = sb.String()[pos:]
	return name, nameTag
"""))
r("unescape grow gone",(U,"	sb.Grow(pos + len(s))\n",""))
r("unescape to shared",(U,"		var sb strings.Builder\n		return unescape(s, first, &sb)\n","		sb := new(strings.Builder)\n		return UnescapeTo(s, sb)\n"))
