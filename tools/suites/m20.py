import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C28"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
U="pkg/escape/unescape.go"
m([(U,"		case '+':\n			sb.WriteByte(' ')\n","")],"V plus kept")
m([(U,"sb.WriteByte(' ')","sb.WriteByte('_')")],"V plus underscore")
m([(U,"			i += 2\n","			i += 3\n")],"V i += 3")
m([(U,"			i += 2\n","			i++\n")],"V i += 1")
m([(U,"i+2 < len(s) &&","i+3 < len(s) &&")],"V i+3")
m([(U,"i+2 < len(s) &&","i+2 <= len(s) &&")],"V i+2 <=")
m([(U,"&& ishex(s[i+1]) &&","&& ishex(s[i+2]) &&")],"V one digit")
m([(U,"<<4 |","<<3 |")],"V <<3")
m([(U,"<<4 |","<<4 &")],"V and")
m([(U,"c - 'a' + 10","c - 'a' + 11")],"V a is 11")
m([(U,"c - 'A' + 10","c - 'A'")],"V A is 0")
m([(U,"	case 'A' <= c && c <= 'F':\n		return true\n","")],"V no upper")
m([(U,"'a' <= c && c <= 'f':\n		return true","'a' <= c && c <= 'g':\n		return true")],"V g")
m([(U,"'a' <= c && c <= 'f':\n		return c","'a' <= c && c < 'f':\n		return c")],"V f is 0")
m([(U,"	sb.WriteString(s[:first])\n","")],"V prefix lost")
m([(U,"	sb.WriteString(s[:first])\n","	if first > 1 {\n		sb.WriteString(s[:first])\n	}\n")],"V prefix of 1 lost")
m([(U,"sb.String()[pos:]\n}\n\nvar","sb.String()\n}\n\nvar")],"V all of builder")
m([(U,"\"%+\"","\"%\"")],"V set %")
m([(U,"\"%+\"","\"+\"")],"V set +")
m([(U,"\"%+\"","\"%+ \"")],"REF set with space")
m([(U,"		end := sb.Len()\n		sb.WriteString(s)","		sb.WriteString(s)\n		end := sb.Len()")],"V end behind")
m([(U,"name = sb.String()[end:]","name = sb.String()[pos:]")],"V name with tag")
m([(U,"	pos := sb.Len()\n	sb.WriteString(\"__name__=\")\n	name","	sb.WriteString(\"__name__=\")\n	pos := sb.Len()\n	name")],"V tag without")
m([(U,"	if first == -1 {\n		return s\n	} else","	if first <= 0 {\n		return s\n	} else")],"V first 0")
m([(U,"	if first == -1 {\n		return s\n	}\n","	if first == -1 {\n		return sb.String()\n	}\n")],"V To returns builder")
m([(U,"for i := first; i","for i := first + 1; i")],"V first skipped")
m([(U,"				sb.WriteByte('%')\n				continue","				sb.WriteByte('%')\n				break")],"REF break")
m([(U,"				sb.WriteByte('%')\n				continue","				sb.WriteString(s[i:])\n				return sb.String()[pos:]")],"V rest verbatim")
m([(U,"				sb.WriteByte('%')\n				continue","				if i+3 > len(s) {\n					sb.WriteString(s[i:])\n					return sb.String()[pos:]\n				}\n				sb.WriteString(s[i:i+3])\n				i += 2\n				continue")],"V fix reverted")
m([(U,"			sb.WriteByte(unhex","			if s[i+1] == '0' && s[i+2] == '0' {\n				return sb.String()[pos:]\n			}\n			sb.WriteByte(unhex")],"V ends at NUL")
m([(U,"unhex(s[i+1])<<4 | unhex(s[i+2])","unhex(s[i+1]) | unhex(s[i+2])<<4")],"V swapped")
m([(U,"			sb.WriteByte(s[i])\n","			if s[i] < 0x80 {\n				sb.WriteByte(s[i])\n			}\n")],"V only ascii")
m([(U,"			sb.WriteByte(s[i])\n","			sb.WriteRune(rune(s[i]))\n")],"V as rune")
m([(U,"sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))","sb.WriteRune(rune(unhex(s[i+1])<<4 | unhex(s[i+2])))")],"V escape as rune")
m([(U,"i < len(s); i++ {\n		switch","i < len(s) && i < 4096; i++ {\n		switch")],"V only 4096")
m([(U,"unhex(s[i+1])<<4 | unhex(s[i+2])","unhex(s[i+1])*16 + unhex(s[i+2])")],"REF *16+")
m([(U,"unhex(s[i+1])<<4 | unhex(s[i+2])","byte(int(unhex(s[i+1]))<<4 + int(unhex(s[i+2])))")],"REF int")
m([(U,"	first := unescapeSet.Index(s)\n	if first == -1 {\n		return s\n	} else","	first := strings.IndexAny(s, \"%+\")\n	if first == -1 {\n		return s\n	} else")],"REF IndexAny")
m([(U,"	first := unescapeSet.Index(s)\n	if first == -1 {\n		return s\n	} else","	first := strings.IndexByte(s, '%')\n	if first == -1 {\n		return s\n	} else")],"V IndexByte %")
