exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
G="glob/glob.go"; IT="pkg/items/items.go"; SL="pkg/items/stringlist.go"; W="pkg/items/wildcard.go"; GR="pkg/items/group.go"
def demo(pkg,rows):
    return '''package %s

import "testing"

func TestDemo(t *testing.T) {
	for _, tt := range []struct {
		glob, s string
		want    bool
	}{
%s	} {
		g, err := Parse(tt.glob)
		if err != nil {
			t.Fatal(tt.glob, err)
		}
		if got := g.Match(tt.s); got != tt.want {
			t.Fatal(tt.glob, tt.s, got)
		}
	}
}
'''%(pkg,"".join('\t\t{%s, %s, %s},\n'%r for r in rows))
def q(s): return '"'+s+'"'
mkseed("chain-rune-text","C25","glob",[(IT,"			v.PrependRune(rune(vv))\n","			v.AddRune(rune(vv))\n")],demo("glob",[(q("{*[й]ab*,z}"),q("xйabx"),"true"),(q("{*[й]ab*,z}"),q("xabйx"),"false"),(q("{*[й]ab*,z}"),q("z"),"true")]),"a class of one non-ASCII character behind a wildcard in a value of a group, with text behind it","the character moves behind the text")
mkseed("list-split-256","C25","glob",[(SL,'strings.Split(s, ",")','strings.SplitN(s, ",", 256)')],'''package glob

import (
	"strconv"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	var vals []string
	for i := 0; i < 300; i++ {
		vals = append(vals, "v"+strconv.Itoa(i))
	}
	g, err := Parse("{" + strings.Join(vals, ",") + "}x")
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range vals {
		if !g.Match(v + "x") {
			t.Fatal(v)
		}
	}
}
''',"a list of more than 256 values","the last values become one which holds the commas")
mkseed("dup-fold","C25","glob",[(SL,"		if i < n-1 && a[i] == a[i+1] {","		if i < n-1 && strings.EqualFold(a[i], a[i+1]) {")],demo("glob",[(q("{AB,ab,c}"),q("ab"),"true"),(q("{AB,ab,c}"),q("AB"),"true"),(q("{AB,ab,c}"),q("c"),"true")]),"a list with values which differ in case only, and are neighbours when sorted","one of them is dropped")
mkseed("late-wildcard","C25","glob",[(SL,"				asciiStarted = false\n","				asciiStarted = false\n				if i > 0 && l == len(vals[i-1]) {\n					continue\n				}\n")],demo("glob",[(q("{й1,я*}"),q("яx"),"true"),(q("{й1,я*}"),q("й1"),"true"),(q("{й,яa*}"),q("яax"),"true")]),"a list whose only value with wildcards starts with a non-ASCII character and is as long as the value before it","the value is taken as literal text")
mkseed("class-one-unicode","C25","glob",[(W,"		if len(runes.UnicodeRanges) == 1 && n == 0 {","		if len(runes.UnicodeRanges) == 1 && n < 2 {")],demo("glob",[(q("*[xй]a*"),q("_xa_"),"true"),(q("*[xй]a*"),q("_йa_"),"true")]),"a class of one ASCII and one other character","the ASCII character is lost")
mkseed("group-star-ends","C25","glob",[(GR,'			if v == "*" {','			if v[0] == \'*\' && v[len(v)-1] == \'*\' {')],demo("glob",[(q("{*a*,b}"),q("xyz"),"false"),(q("{*a*,b}"),q("xaz"),"true"),(q("{*,b}"),q("xyz"),"true")]),"a group with a value which starts and ends with a star","the whole group becomes *")
