exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
TM="gtags/tagged_term.go"
mkseed("args-full","C05","gtags",[(TM,"				if n == len(args) {","				if n > len(args) {")],'''package gtags

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 126; n < 132; n++ {
		q := "seriesByTag(" + strings.Repeat("'a=b', ", n-1) + "'a=b')"
		terms, err := ParseSeriesByTag(q)
		if (n <= 128) != (err == nil) {
			t.Fatal(n, len(terms), err)
		}
	}
}
''',"a query of more conditions than the array of arguments has places (129)","index out of range instead of the error")
mkseed("string-end","C05","gtags",[(TM,"	for i < len(s) && s[i] != match {","	for i <= len(s) && s[i] != match {")],HN%("gtags",'''	for _, q := range []string{"seriesByTag('a=b)", "seriesByTag('a=b', 'c)", "seriesByTag(')"} {
		if _, err := ParseSeriesByTag(q); err == nil {
			t.Fatal(q)
		}
	}
'''),"a query with a condition whose quote is not closed","index out of range instead of the error")
mkseed("tags-end","C05","gtags",[(TM,'''		if len(tags) == i {
			if term.Op''','''		if len(tags) < i {
			if term.Op''')],HN%("gtags",'''	terms, err := ParseSeriesByTag("seriesByTag('a=b', 'c!=d')")
	if err != nil {
		t.Fatal(err)
	}
	if !terms.MatchByTags([]Tag{{"a", "b"}}) || !(TaggedTermList{{Key: "a", Op: TaggedTermNe, Value: "b"}}).MatchByTags(nil) {
		t.Fatal("not matched")
	}
'''),"a term list on an empty list of tags","index out of range")
mkseed("short-query","C05","gtags",[(TM,'''	if !strings.HasPrefix(e, "seriesByTag(") {''','''	if !strings.HasPrefix(e, "seriesByTag") {''')],HN%("gtags",'''	for _, q := range []string{"seriesByTag", "seriesByTag)", " seriesByTag) "} {
		if _, err := ParseSeriesByTag(q); err == nil {
			t.Fatal(q)
		}
	}
'''),"a query which ends behind the name of the function","slice bounds out of range instead of the error")
