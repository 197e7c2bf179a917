U="pkg/escape/url.go"
src=open('/repo/'+U).read()
ET=src[src.index("func escapeTo"):]
ES=src[src.index("func escape(s string"):src.index("func escapeTo")]
r("escape to bytewise",(U,ET,'''func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' && mode == encodeQueryComponent:
			sb.WriteByte('+')
		case shouldEscape(c, mode):
			sb.WriteByte('%')
			sb.WriteByte("0123456789ABCDEF"[c>>4])
			sb.WriteByte("0123456789ABCDEF"[c&15])
		default:
			sb.WriteByte(c)
		}
	}
}
'''))
r("escape to continue",(U,ET,'''func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
	start := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !shouldEscape(c, mode) {
			continue
		}
		if start < i {
			sb.WriteString(s[start:i])
		}
		start = i + 1
		if c == ' ' && mode == encodeQueryComponent {
			sb.WriteByte('+')
			continue
		}
		writeHex(sb, c)
	}
	if start < len(s) {
		sb.WriteString(s[start:])
	}
}

const upperhex = "0123456789ABCDEF"

func writeHex(sb *bytes.Buffer, c byte) {
	sb.WriteByte('%')
	sb.WriteByte(upperhex[c>>4])
	sb.WriteByte(upperhex[c&15])
}
'''))
r("escape count helper",(U,ES,'''func countEscapes(s string, mode encoding) (spaces, hexes int) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !shouldEscape(c, mode) {
			continue
		}
		if c == ' ' && mode == encodeQueryComponent {
			spaces++
		} else {
			hexes++
		}
	}
	return
}

'''+ES.replace(ES[ES.index("	spaceCount, hex"):ES.index("	if spaceCount == 0 &&")],"	spaceCount, hexCount := countEscapes(s, mode)\n")))
r("escape make",(U,ES,ES.replace(ES[ES.index("	var buf [64]byte"):ES.index("	if hexCount == 0 {\n		copy")],"	t := make([]byte, len(s)+2*hexCount)\n\n")))
r("escape no replace loop",(U,ES,ES.replace(ES[ES.index("	if hexCount == 0 {\n		copy"):ES.index("	j := 0")],"")))
r("escape ifs",(U,ES,ES.replace(ES[ES.index("		switch c := s[i]; {"):ES.rindex("	return string(t)")],'''		c := s[i]
		if c == ' ' && mode == encodeQueryComponent {
			t[j] = '+'
			j++
			continue
		}
		if shouldEscape(c, mode) {
			t[j] = '%'
			t[j+1] = "0123456789ABCDEF"[c>>4]
			t[j+2] = "0123456789ABCDEF"[c&15]
			j += 3
			continue
		}
		t[j] = c
		j++
	}
''')))
r("escape j steps",(U,ES,ES.replace('''			t[j] = '%'
			t[j+1] = "0123456789ABCDEF"[c>>4]
			t[j+2] = "0123456789ABCDEF"[c&15]
			j += 3
''','''			t[j] = '%'
			j++
			t[j] = "0123456789ABCDEF"[c>>4]
			j++
			t[j] = "0123456789ABCDEF"[c&15]
			j++
''')))
r("escape slice j",(U,ES,ES.replace(ES[ES.rindex("	return string(t)"):],"	return string(t[:j])\n}\n\n")))
r("escape range bytes",(U,ES,ES.replace("	for i := 0; i < len(s); i++ {\n		c := s[i]\n		if should","	for _, c := range []byte(s) {\n		if should")))
r("escape needed",(U,ES,ES.replace("	spaceCount, hexCount := 0, 0\n","	if s == \"\" {\n		return s\n	}\n\n	spaceCount, hexCount := 0, 0\n")))
r("escape append",(U,ES,ES.replace(ES[ES.index("	j := 0"):],'''	t = t[:0]
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == ' ' && mode == encodeQueryComponent:
			t = append(t, '+')
		case shouldEscape(c, mode):
			t = append(t, '%', "0123456789ABCDEF"[c>>4], "0123456789ABCDEF"[c&15])
		default:
			t = append(t, c)
		}
	}
	return string(t)
}

''')))
r("escape builder",(U,ES,'''func escape(s string, mode encoding) string {
	var sb bytes.Buffer
	sb.Grow(len(s))
	escapeTo(s, mode, &sb)
	return sb.String()
}

'''))
r("escape should ifs",(U,"	if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' {\n		return false\n	}","	switch {\n	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':\n		return false\n	}"))
r("escape should indexbyte",(U,"	switch c {\n	case '-', '_', '.', '~': // §2.3 Unreserved characters (mark)\n		return false\n","	if c == '-' || c == '_' || c == '.' || c == '~' {\n		return false\n	}\n\n	switch c {"))
r("escape total",(U,ES,ES.replace("	if spaceCount == 0 && hexCount == 0 {","	if spaceCount+hexCount == 0 {")))
