import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C22"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
A="pkg/utils/asciiset.go"; U="pkg/utils/runesranges.go"; S="pkg/utils/string.go"; I="pkg/items/"
m([(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return (as[c/32] & (1 << (c % 31))) != 0")],"V mod 31")
m([(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return (as[c/16%8] & (1 << (c % 32))) != 0")],"V word 16")
m([(A,"	if c >= utf8.RuneSelf {\n		return false\n	}\n	return (","	if c >= 127 {\n		return false\n	}\n	return (")],"V 127 not contained")
m([(A,"	if c >= utf8.RuneSelf {\n		return false\n	}\n	as[","	if c > utf8.RuneSelf {\n		return false\n	}\n	as[")],"V add 128")
m([(A,"	for i := 0; i < len(s); i++ {\n		if as.Contains(s[i]) {\n			return i","	for i := 1; i < len(s); i++ {\n		if as.Contains(s[i]) {\n			return i")],"V index from 1")
m([(A,"	for i := 0; i < len(s); i++ {\n		if as.Contains(s[i]) {\n			return i","	for i := 0; i < len(s) && i < 64; i++ {\n		if as.Contains(s[i]) {\n			return i")],"V index 64")
m([(A,"	for i := len(s) - 1; i >= 0; i-- {","	for i := len(s) - 1; i > 0; i-- {")],"V last index skips 0")
m([(A,"		as[c/32] |= 1 << (c % 32)\n	}","		as[c/32] = 1 << (c % 32)\n	}")],"V make overwrites")
m([(S,"		if n == 0 {\n			// failback\n			return -1\n		}\n		s = s[n:]\n		next += n","		if n == 0 {\n			// failback\n			break\n		}\n		s = s[n:]\n		next += n")],"V skip short ok")
m([(S,"		s = s[n:]\n		next += n","		s = s[n:]\n		next++")],"V skip counts runes")
m([(S,"	for i := 0; i < runes; i++ {\n		_, n := utf8","	for i := 0; i <= runes; i++ {\n		_, n := utf8")],"V skip one more")
m([(S,"		_, n := utf8.DecodeRuneInString(s)\n		if n == 0 {","		r, n := utf8.DecodeRuneInString(s)\n		if n == 0 || r == utf8.RuneError && n == 1 {")],"V skip invalid refused")
m([(S,"		if n == 0 {\n			// failback\n			return -1\n		}\n		s = s[n:]","		if n == 0 {\n			// failback\n			return -1\n		}\n		if n == 1 {\n			n = 1\n		} else if n == 4 {\n			n = 3\n		}\n		s = s[n:]")],"V skip 4 as 3")
m([(U,"	if c <= 127 {\n		return rs.ASCII.Contains(byte(c))","	if c < 256 {\n		return rs.ASCII.Contains(byte(c))")],"V contains 256")
m([(U,"		return c >= rs.UnicodeRanges[0].First && c <= rs.UnicodeRanges[0].Last","		return c >= rs.UnicodeRanges[0].First && c < rs.UnicodeRanges[0].Last")],"V one range excl")
m([(U,"		return c >= rs.UnicodeRanges[0].First && c <= rs.UnicodeRanges[0].Last","		return c == rs.UnicodeRanges[0].First || c <= rs.UnicodeRanges[0].Last && c > rs.UnicodeRanges[0].First + 1")],"V one range hole")
m([(U,"		for low <= high {","		for low < high {")],"V bin low<high")
m([(U,"					low = mid + 1","					low = mid + 2")],"V bin +2")
m([(U,"				high = mid - 1","				high = mid - 2")],"V bin -2")
m([(U,"		low := 1\n","		low := 2\n")],"V bin low 2")
m([(U,"		high--\n","		high -= 2\n")],"V bin high -2")
m([(U,"				if c <= rs.UnicodeRanges[mid].Last {","				if c <= rs.UnicodeRanges[mid].Last+1 {")],"V bin last+1")
m([(U,"		if c >= rs.UnicodeRanges[high].First {","		if c > rs.UnicodeRanges[high].First {")],"V last range excl")
m([(U,"		if c >= rs.UnicodeRanges[high].First {","		if c >= rs.UnicodeRanges[high-1].First {")],"V last two")
m([(U,"			c, n = utf8.DecodeRuneInString(s[i:])","			c, n = utf8.DecodeRuneInString(s)")],"V index decodes begin")
m([(U,"			i += n\n		}\n	}\n\n	return -1, utf8.RuneError, 0\n}\n\n// StartsWith","			i++\n		}\n	}\n\n	return -1, utf8.RuneError, 0\n}\n\n// StartsWith")],"V index steps 1")
m([(U,"	for i := 0; i < len(s); {\n		if s[i] < utf8.RuneSelf {\n			if rs.ASCII.Contains(s[i]) {\n				return i, rune(s[i]), 1\n			}\n			i++","	for i := 0; i < len(s); {\n		if s[i] < utf8.RuneSelf {\n			if rs.ASCII.Contains(s[i]) {\n				return i, rune(s[i]), 1\n			}\n			i += 2")],"V index ascii 2")
m([(U,"	if s[0] < utf8.RuneSelf {\n		if rs.ASCII.Contains(s[0]) {\n			return rune(s[0]), 1\n		} else {\n			return utf8.RuneError, -1\n		}\n	}\n","	if s[0] < utf8.RuneSelf && rs.ASCII.Contains(s[0]) {\n		return rune(s[0]), 1\n	}\n")],"REF? starts falls through")
m([(U,"			return c, len(s) - 1\n","			return c, 1\n")],"V ends 1")
m([(U,"	if rs.ContainsUnicode(c) {\n		n = len(s) - n\n		return\n	}","	if rs.ContainsUnicode(c) {\n		return\n	}")],"V ends width")
m([(I+"string.go","		offset = len(item.S)\n	} else","		offset = len(s)\n	} else")],"V string len s")
m([(I+"string.go","	if strings.HasPrefix(s, item.S) {","	if len(s) >= len(item.S) && strings.EqualFold(s[:len(item.S)], item.S) {")],"V fold")
m([(I+"string.go","	if index = strings.Index(s, item.S); index != -1 {","	if index = strings.LastIndex(s, item.S); index != -1 {")],"V last")
m([(I+"string.go","		offset = len(s) - len(item.S)","		offset = len(item.S)")],"V matchlast offset")
m([(I+"byte.go","		if c == s[0] {","		if c|0x20 == s[0]|0x20 {")],"V byte case")
m([(I+"byte.go","	offset = len(s) - 1\n	if offset == -1 || s[offset]","	offset = len(s) - 1\n	if offset <= 0 || s[offset]")],"V byte last 0")
m([(I+"rune.go","		if c == rune(item) {\n			offset = n","		if c == rune(item) {\n			offset = 1")],"V rune 1")
m([(I+"rune.go","		_, length = utf8.DecodeRuneInString(s[index:])","		_, length = utf8.DecodeRuneInString(s)")],"V rune find begin")
m([(I+"any.go","	offset = utils.StringSkipRunes(s, int(item))","	offset = utils.StringSkipRunes(s, 1)")],"V any 1")
m([(I+"any.go","	n := int(item)\n	if length = utils","	n := int(item)\n	if n == len(s) {\n		return 0, n, support\n	}\n	if length = utils")],"V any bytes")
m([(I+"star.go","	length = utils.StringSkipRunes(s, int(item))","	length = len(s)\n	if utils.StringSkipRunes(s, int(item)) == -1 {\n		length = -1\n	}")],"V star greedy")
m([(I+"stringlist.go","	if index = strings.Index(s, v); index != -1 {","	if index = strings.Index(s, v); index > 0 {")],"V findN 0")
m([(I+"stringlist.go","	v := item.Vals[n]\n	if strings.HasPrefix","	v := item.Vals[0]\n	if strings.HasPrefix")],"V matchN 0")
m([(I+"runesranges.go","	index, _, length = item.Index(s)","	index, _, length = item.Index(s)\n	if length > 1 {\n		length = item.MaxSize\n	}")],"V class length max")
m([(I+"runesranges.go","	_, offset = item.StartsWith(s)","	_, offset = item.StartsWith(s)\n	if offset > item.MinSize {\n		offset = item.MinSize\n	}")],"V class length min")
