exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
U="pkg/escape/unescape.go"
UN='''	for in, want := range map[string]string{%s} {
		var sb strings.Builder
		sb.WriteString("x")
		if s := Unescape(in); s != want {
			t.Fatalf("%%q: %%q", in, s)
		}
		if s := UnescapeTo(in, &sb); s != want {
			t.Fatalf("%%q: %%q", in, s)
		}
		if s, n := UnescapeNameTo(in, &sb); s != want || n != "__name__="+want {
			t.Fatalf("%%q: %%q %%q", in, s, n)
		}
	}
'''
def un(m):
    t=HN%("escape",UN%m)
    return t.replace('"testing"','"strings"\n	"testing"')
mkseed("unescape-last-escape","C28","pkg/escape",[(U,"	return i+2 < len(s) && ishex(s[i+1])","	return i+2 < len(s) && (i == 0 || s[i-1] != '%') && ishex(s[i+1])")],un('"%%41": "%A", "a%41": "aA"'),"an escaped symbol behind a %","it is not unescaped")
mkseed("unescape-name-builder","C28","pkg/escape",[(U,'		end := sb.Len()\n		sb.WriteString(s)\n		name = sb.String()[end:]','		sb.WriteString(s)\n		name = sb.String()[len("__name__="):]')],un('"a": "a", "b": "b"'),"a name without escaped symbols and a builder which is in use","the name begins with what the builder holds")
mkseed("unescape-digit-f","C28","pkg/escape",[(U,"	case 'a' <= c && c <= 'f':\n		return c - 'a' + 10","	case 'a' <= c && c < 'f':\n		return c - 'a' + 10")],un('"a%2fb": "a/b", "%c3%9f": "\\u00df"'),"a digit f of lower case","f counts as 0")
mkseed("unescape-one-digit","C28","pkg/escape",[(U,"ishex(s[i+1]) && ishex(s[i+2])","ishex(s[i+2])")],un('"%x0": "%x0"'),"a % with one hexadecimal digit behind another symbol","it is taken as an escaped byte")
W="pkg/escape/url.go"
ESC='''	for in, want := range map[string][2]string{%s} {
		var p, q bytes.Buffer
		PathTo(in, &p)
		QueryTo(in, &q)
		if s := Path(in); s != want[0] || p.String() != want[0] {
			t.Fatalf("%%q: %%q %%q", in, s, p.String())
		}
		if s := Query(in); s != want[1] || q.String() != want[1] {
			t.Fatalf("%%q: %%q %%q", in, s, q.String())
		}
	}
'''
def es(m):
    return HN.replace('"testing"','"bytes"\n	"testing"')%("escape",ESC%m)
mkseed("escape-to-single","C29","pkg/escape",[(W,"			sb.WriteString(s[pos:i])\n","			if i > pos+1 {\n				sb.WriteString(s[pos:i])\n			}\n")],es('"a/b=": {"a/b=", "a%2Fb%3D"}'),"a single kept byte before an escaped one","it is not written to the buffer")
mkseed("escape-high","C29","pkg/escape",[(W,'			t[j+1] = "0123456789ABCDEF"[c>>4]\n','			t[j+1] = "0123456789ABCDEF"[c>>4&7]\n')],es('"a\\u00df": {"a%C3%9F", "a%C3%9F"}'),"a byte behind ASCII","its high bit is lost")
mkseed("escape-semicolon","C29","pkg/escape",[(W,"			return c == '/' || c == ';' || c == ',' || c == '?'\n","			return c == '/' || c == ',' || c == '?'\n"),(W,"	case '-', '_', '.', '~': // §2.3 Unreserved characters (mark)\n		return false\n\n	case '$', '&', '+', ',', '/', ':', ';', '=', '?', '@'","	case '-', '_', '.', '~', ';': // §2.3 Unreserved characters (mark)\n		return false\n\n	case '$', '&', '+', ',', '/', ':', '=', '?', '@'")],es('"a;b": {"a;b", "a%3Bb"}'),"a ; in a query","it is not escaped")

mkseed("escape-last-space","C29","pkg/escape",[(W,"		copy(t, s)\n		for i := 0; i < len(s); i++ {","		copy(t, s)\n		for i := 1; i < len(s); i++ {")],es('" b": {"%20b", "+b"}'),"a space at the begin of a text with nothing else to escape","it is not escaped")
