exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
X="expand/expand.go"; E="expand/expression.go"
mkseed("expand-last-range","C26","expand",[(E,"			n += e.runes[i].count()","			n = e.runes[i].count()")],HN%("expand",'''	r, err := Expand("[a-cx-z]{1,2}", 6, 0)
	if err != nil || len(r) != 1 && len(r) != 6 {
		t.Fatal(r, err)
	}
	if len(r) > 6 {
		t.Fatal(r)
	}
'''),"a class of several ranges and a limit between the product with the last range only and the one with all of them","more results than the limit")
mkseed("expand-points","C26","expand",[(X,'''			depth -= strings.Count(exps[0].body, ".")
''','''			if strings.Contains(exps[0].body, ".") {
				depth--
			}
''')],HN%("expand",'''	r, err := Expand("a{1,2}.b.c{3,4}", -1, 2)
	if err != nil || len(r) != 2 || r[0] != "a1.b.c{3,4}" || r[1] != "a2.b.c{3,4}" {
		t.Fatal(r, err)
	}
'''),"a depth and two points between two lists","a list behind the depth wanted is expanded")
mkseed("expand-list-128","C26","expand",[(E,"		if e.pos < len(e.list)-1 {","		if e.pos < len(e.list)-1 && int8(e.pos) >= 0 {")],'''package expand

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	r, err := Expand("x{"+strings.Repeat("a,", 299)+"b}", -1, 0)
	if err != nil || len(r) != 300 || r[299] != "xb" {
		t.Fatal(len(r), err)
	}
}
''',"a list of more than 129 values","the values behind are not written")
mkseed("expand-empty-last","C26","expand",[(X,'''		result = append(result, string(buf))
''','''		if len(buf) > 0 || len(result) == 0 {
			result = append(result, string(buf))
		}
''')],HN%("expand",'''	r, err := Expand("{a,}{b,}", -1, 0)
	if err != nil || len(r) != 4 || r[3] != "" {
		t.Fatal(r, err)
	}
'''),"lists which all have an empty value","the empty result is lost")
GI="gtags/items.go"
INS='''package gtags

import "testing"

func TestDemo(t *testing.T) {
	for _, keys := range [][]string{%s} {
		item := &TaggedItem{}
		for _, k := range keys {
			item.findOrAppend(k)
		}
		n := len(item.Items)
		for _, k := range keys {
			if i := item.findOrAppend(k); item.Items[i].Key != k {
				t.Fatal(k, i)
			}
		}
		if len(item.Items) != n {
			t.Fatal("keys twice")
		}
		for i := 1; i < n; i++ {
			if item.Items[i-1].Key >= item.Items[i].Key {
				t.Fatal("not sorted")
			}
		}
	}
}
'''
mkseed("insert-last","C16","gtags",[(GI,"	if high == len(t.Items) {\n		t.Items = append(t.Items, TaggedItems{Key: key})\n		return high","	if high == len(t.Items) || high > 8 && high == len(t.Items)-1 {\n		t.Items = append(t.Items, TaggedItems{Key: key})\n		return len(t.Items) - 1")],INS%'{"b", "d", "f", "h", "j", "l", "n", "p", "r", "t", "s"}, {"b", "a"}',"a tree with more than nine keys at one place, and a key just before the last one","the keys are no longer sorted, so that registered patterns are not found")
mkseed("insert-prefix","C16","gtags",[(GI,"		} else if low == high {\n			// break, we are not find, shit","		} else if low == high || len(key) > 8 && key[:8] == t.Items[mid].Key {\n			// break, we are not find, shit")],INS%'{"hostname", "hostname_a", "hostname_b", "hostname_c", "x"}, {"a", "hostname_b", "hostname", "z", "hostname_c"}, {"a", "hostname", "hostname_a", "hostname_b"}',"a key which begins with another key of eight bytes, and a third one between them","the keys are no longer sorted, so that registered patterns are not found")
