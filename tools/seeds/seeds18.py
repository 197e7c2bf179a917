exec(open('/verif/tools/seeds/seeds1.py').read().split('mkseed("late')[0])
X="expand/expand.go"; E="expand/expression.go"
EXP='''	for _, c := range []struct{ in, want string }{%s} {
		r, err := Expand(c.in, -1, 0)
		s := ""
		for i, v := range r {
			if i > 0 {
				s += "|"
			}
			s += v
		}
		if err != nil || s != c.want {
			t.Fatal(c.in, s, err)
		}
	}
'''
mkseed("pieces-only-comma","C27","expand",[(E,"		if strings.ContainsRune(in, ',') {","		if len(in) > 1 && strings.ContainsRune(in, ',') {")],HN%("expand",EXP%'{"a{,}b", "ab|ab"}, {"a{,c}b", "ab|acb"}'),"a list of two empty values","the comma is put as text")
mkseed("pieces-question-class","C27","expand",[(X,'''			if start == -1 {
				start = i
			}
			return
		case '{', '[':''','''			if start == -1 {
				start = i
			} else if c == '?' && in[start] == '[' {
				continue
			}
			return
		case '{', '[':''')],HN%("expand",EXP%'{"x[a?b]y", "x[a?b]y"}, {"x[ab]y", "xay|xby"}'),"a class with a question mark","the class is expanded to values one of which is a wildcard")
mkseed("pieces-class-twice","C27","expand",[(E,"		if len(in) == 1 {","		if len(in) == 1 || len(in) == 2 && in[0] == in[1] {")],HN%("expand",EXP%'{"x[aa]y", "xay"}, {"x[ab]y", "xay|xby"}'),"a class of twice the same character","both characters are put as text")
mkseed("pieces-many","C27","expand",[(X,'''		} else if start > 0 {
			e.exps = append(e.exps, Expression{body: in[:start]})
		}

		stop++''','''		} else if start > 0 && len(e.exps) < 16 {
			e.exps = append(e.exps, Expression{body: in[:start]})
		}

		stop++''')],'''package expand

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{3, 40} {
		r, err := Expand(strings.Repeat("a[xx]", n), -1, 0)
		if err != nil || len(r) != 1 || r[0] != strings.Repeat("ax", n) {
			t.Fatal(n, r, err)
		}
	}
}
''',"a text with more than sixteen pieces","the texts before the later brackets are lost")
