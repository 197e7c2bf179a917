import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C30"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
A="pkg/utils/asciiset.go"
m([(A,"	as[c/32] |= 1 << (c % 32)\n	return true","	as[c/32] |= 1 << (c % 31)\n	return true")],"V add %31")
m([(A,"	as[c/32] |= 1 << (c % 32)\n	return true","	as[c/32] ^= 1 << (c % 32)\n	return true")],"V add toggles")
m([(A,"	as[c/32] |= 1 << (c % 32)\n	return true","	as[c/32] = 1 << (c % 32)\n	return true")],"V add replaces")
m([(A,"	as[c/32] |= 1 << (c % 32)\n	return true","	as[c>>5] |= 1 << (c & 31)\n	return true")],"REF >>5")
m([(A,"		as[c/32] |= 1 << (c % 32)\n	}","		as[c/32] |= 1 << (c % 32)\n		if c == '~' {\n			break\n		}\n	}")],"V make ends")
m([(A,"		as[c/32] |= 1 << (c % 32)\n	}","		as[c/32] ^= 1 << (c % 32)\n	}")],"V make toggles")
m([(A,"		as[c/32] |= 1 << (c % 32)\n	}","		as.Add(c)\n	}")],"REF make adds")
m([(A,"		if c >= utf8.RuneSelf {\n			return as, false","		if c > utf8.RuneSelf {\n			return as, false")],"V make 128")
m([(A,"		if c >= utf8.RuneSelf {\n			return as, false","		if c >= utf8.RuneSelf-1 {\n			return as, false")],"V make 127 refused")
m([(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return (as[c/32] & (1 << (c % 32))) > 0")],"REF > 0")
m([(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return as[c/32]>>(c%32)&1 == 1")],"REF shift")
m([(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return (as[c/32] & (1 << (c % 16))) != 0")],"V contains %16")
m([(A,"	return (as[c/32] & (1 << (c % 32))) != 0","	return c != 0 && (as[c/32] & (1 << (c % 32))) != 0")],"V contains NUL")
m([(A,"	for i := 0; i < len(b); i++ {","	for i := 0; i < len(b)-1; i++ {")],"V IndexByte last")
m([(A,"	for i := 0; i < len(s); i++ {\n		if as","	for i := 1; i < len(s); i++ {\n		if as")],"V Index from 1")
m([(A,"	for i := 0; i < len(s); i++ {\n		if as","	for i := 0; i < len(s); i += 2 {\n		if as")],"V Index += 2")
m([(A,"	for i := len(s) - 1; i >= 0; i-- {","	for i := len(s) - 1; i > 0; i-- {")],"V LastIndex > 0")
m([(A,"	for i := len(s) - 1; i >= 0; i-- {\n		if as.Contains(s[i]) {\n			return i\n","	for i := len(s); i > 0; i-- {\n		if as.Contains(s[i-1]) {\n			return i - 1\n")],"REF LastIndex i-1")
m([(A,"	for i := len(s) - 1; i >= 0; i-- {\n		if as.Contains(s[i]) {\n			return i\n","	for i := len(s); i > 0; i-- {\n		if as.Contains(s[i-1]) {\n			return i\n")],"V LastIndex i")
m([(A,"	for i := len(b) - 1; i >= 0; i-- {","	for i := len(b) - 2; i >= 0; i-- {")],"V LastIndexByte -2")
m([(A,"	for i := 0; i < len(b); i++ {\n		if as.Contains(b[i]) {","	for i, c := range b {\n		if as.Contains(c) {")],"REF range")
m([(A,"	for i := 0; i < len(s); i++ {\n		if as.Contains(s[i]) {\n			return i\n		}\n	}\n	return -1","	return as.IndexByte([]byte(s))")],"REF Index by IndexByte")
m([(A,"	for i := 0; i < len(chars); i++ {\n		c := chars[i]\n","	for _, c := range []byte(chars) {\n")],"REF make range")
m([(A,"	for i := 0; i < len(s); i++ {\n		if as.Contains(s[i]) {\n			return i\n		}\n	}\n	return -1","	i := 0\n	for i < len(s) && !as.Contains(s[i]) {\n		i++\n	}\n	if i == len(s) {\n		return -1\n	}\n	return i")],"REF while")
m([(A,"	if c >= utf8.RuneSelf {\n		return false\n	}\n	return (as","	if c < utf8.RuneSelf {\n		return as[c/32]&(1<<(c%32)) != 0\n	}\n	return false\n}\n\nfunc (as *ASCIISet) has(c byte) bool {\n	return (as")],"REF contains turned")
m([(A,"		if c >= utf8.RuneSelf {\n			return as, false\n		}\n		as[c/32] |= 1 << (c % 32)\n","		if !as.Add(c) {\n			return as, false\n		}\n")],"REF make by Add")
