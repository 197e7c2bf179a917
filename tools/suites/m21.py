import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C29"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
U="pkg/escape/url.go"; F="pkg/escape/escape.go"
m([(U,"	} else if pos < len(s) {","	} else if pos < len(s)-1 {")],"V last byte (fix reverted)")
m([(U,"	} else if pos < len(s) {\n		sb.WriteString(s[pos:])\n	}","	}")],"V rest lost")
m([(U,"	if pos == 0 {\n		sb.WriteString(s)\n		return\n	} else if","	if")],"REF pos 0 gone")
m([(U,"			pos = i + 1\n","			pos = i\n")],"V pos = i")
m([(U,"			sb.WriteString(s[pos:i])\n","			if i-pos > 1 {\n				sb.WriteString(s[pos:i])\n			}\n")],"V single kept byte lost")
m([(U,"			sb.WriteString(s[pos:i])\n","			if i > pos {\n				sb.WriteString(s[pos:i])\n			}\n")],"REF only nonempty")
m([(U,"'0' <= c && c <= '9' {","'0' <= c && c < '9' {")],"V 9 escaped")
m([(U,"'a' <= c && c <= 'z'","'a' <= c && c <= '{'")],"V { kept")
m([(U,"	case '-', '_', '.', '~':","	case '-', '_', '.', '~', '|':")],"V | kept")
m([(U,"	case '-', '_', '.', '~':","	case '-', '_', '.':")],"V ~ escaped")
m([(U,"	case encodeQueryComponent: // §3.4\n			// The RFC reserves (so we must escape) everything.\n			return true","	case encodeQueryComponent: // §3.4\n			return c != ';'")],"V ; kept in query")
m([(U,"			return c == '?'\n\n		case encodePathSegment","			return c == '?' || c == ';'\n\n		case encodePathSegment")],"V ; escaped in path")
m([(U,"			return c == '?'\n\n		case encodePathSegment","			return false\n\n		case encodePathSegment")],"V ? kept in path")
m([(U,"			sb.WriteByte(\"0123456789ABCDEF\"[c>>4])","			sb.WriteByte(\"0123456789ABCDEF\"[c>>3&15])") if 0 else (U,"sb.WriteByte(\"0123456789ABCDEF\"[c>>4])","sb.WriteByte(\"0123456789abcdef\"[c>>4])")],"V lower hex")
m([(U,"				sb.WriteByte(\"0123456789ABCDEF\"[c>>4])\n				sb.WriteByte(\"0123456789ABCDEF\"[c&15])","				sb.WriteByte(\"0123456789ABCDEF\"[c&15])\n				sb.WriteByte(\"0123456789ABCDEF\"[c>>4])")],"V swapped digits")
m([(U,"[c&15])\n			}","[c&7])\n			}")],"V c&7")
m([(U,"			if c == ' ' && mode == encodeQueryComponent {\n				sb.WriteByte('+')","			if c == ' ' {\n				sb.WriteByte('+')")],"V space + in path")
m([(F,"escapeTo(s, encodeQueryComponent, sb)","escapeTo(s, encodePathSegment, sb)")],"V wrong mode")
m([(F,"return escape(s, encodePath)","return escape(s, encodePathSegment)")],"V wrong mode Path")
m([(U,"	required := len(s) + 2*hexCount","	required := len(s) + 3*hexCount")],"V too long")
m([(U,"	required := len(s) + 2*hexCount","	required := len(s) + 2*hexCount + spaceCount")],"V too long by spaces")
m([(U,"			if c == ' ' && mode == encodeQueryComponent {\n				spaceCount++\n			} else {\n				hexCount++","			hexCount++\n			if c == ' ' && mode == encodeQueryComponent {\n				spaceCount++")],"V both counted")
m([(U,"	if spaceCount == 0 && hexCount == 0 {","	if hexCount == 0 {")],"V only spaces")
m([(U,"			if s[i] == ' ' {\n				t[i] = '+'","			if s[i] <= ' ' {\n				t[i] = '+'")],"REF <= space (no hex there)")
m([(U,"			if s[i] == ' ' {\n				t[i] = '+'","			if s[i] == ' ' && i > 0 {\n				t[i] = '+'")],"V first space kept")
m([(U,"		copy(t, s)\n		for i","		copy(t, s[:len(s)-1])\n		for i")],"V copy short")
m([(U,"			t[j] = '+'\n			j++","			t[j] = '+'\n			j += 2")],"V j += 2")
m([(U,"			t[j+1] = \"0123456789ABCDEF\"[c>>4]\n","			t[j+1] = \"0123456789ABCDEF\"[c>>4&7]\n")],"V high bit lost")
m([(U,"			t[j] = s[i]\n","			t[j] = s[j]\n")],"V s[j]")
m([(U,"			t[j] = s[i]\n","			t[j] = c\n")],"REF t[j] = c")
m([(U,"	j := 0\n","	j := 1\n")],"V j from 1")
m([(U,"	if hexCount == 0 {\n		copy","	if hexCount < 2 {\n		copy")],"V hexCount < 2")
m([(U,"	for i := 0; i < len(s); i++ {\n		c := s[i]\n		if shouldEscape(c, mode) {\n			sb.","	for i := 0; i < len(s) && i < 2048; i++ {\n		c := s[i]\n		if shouldEscape(c, mode) {\n			sb.")],"V 2048")
m([(U,"func escapeTo(s string, mode encoding, sb *bytes.Buffer) {\n","func escapeTo(s string, mode encoding, sb *bytes.Buffer) {\n	sb.Reset()\n")],"V reset")
m([(U,"func escapeTo(s string, mode encoding, sb *bytes.Buffer) {\n","func escapeTo(s string, mode encoding, sb *bytes.Buffer) {\n	if s == \"\" {\n		return\n	}\n")],"REF empty")
m([(U,"func escape(s string, mode encoding) string {\n","func escape(s string, mode encoding) string {\n	if len(s) == 1 && s[0] > 127 {\n		return s\n	}\n")],"V one byte > 127")
