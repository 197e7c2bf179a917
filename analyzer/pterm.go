package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value of the path dataflow (pflow*.go): equal terms denote equal values on a path.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	gen  int
	c    constant.Value
	n    int64
	syms bool // contains a generation-numbered symbol
}

type termTab struct {
	tab map[string]*Term
}

func newTermTab() *termTab { return &termTab{tab: map[string]*Term{}} }

func (ts *termTab) raw(op, aux string, gen int, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	sb.WriteByte(0)
	if gen != 0 {
		sb.WriteString(strconv.Itoa(gen))
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if (op == "sym" || op == "alloc" || op == "param") && typ != nil {
		sb.WriteByte(0)
		sb.WriteString(typName(typ))
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{id: len(ts.tab), op: op, aux: aux, args: args, typ: typ, gen: gen}
	if op == "sym" || op == "alloc" {
		t.syms = true
	}
	for _, a := range args {
		t.syms = t.syms || a.syms
	}
	ts.tab[k] = t
	return t
}

func (ts *termTab) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	return ts.raw(op, aux, 0, typ, args...)
}

func (ts *termTab) intc(n int64) *Term {
	t := ts.mk("const", strconv.FormatInt(n, 10), types.Typ[types.Int])
	if t.c == nil {
		t.c = constant.MakeInt64(n)
		t.n = n
	}
	return t
}

func (ts *termTab) boolc(b bool) *Term {
	t := ts.mk("const", strconv.FormatBool(b), types.Typ[types.Bool])
	if t.c == nil {
		t.c = constant.MakeBool(b)
	}
	return t
}

func (ts *termTab) strc(s string) *Term {
	t := ts.mk("const", strconv.Quote(s), types.Typ[types.String])
	if t.c == nil {
		t.c = constant.MakeString(s)
	}
	return t
}

func (ts *termTab) nilc() *Term { return ts.mk("nil", "", types.Typ[types.UntypedNil]) }

func (ts *termTab) constOf(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return ts.intc(n)
		}
	case constant.Bool:
		return ts.boolc(constant.BoolVal(v))
	case constant.String:
		return ts.strc(constant.StringVal(v))
	}
	return ts.mk("const", v.ExactString(), typ)
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isInt() bool   { return t.op == "const" && t.c != nil && t.c.Kind() == constant.Int }
func (t *Term) isStr() bool   { return t.op == "const" && t.c != nil && t.c.Kind() == constant.String }
func (t *Term) isTrue() bool  { return t.op == "const" && t.aux == "true" }
func (t *Term) isFalse() bool { return t.op == "const" && t.aux == "false" }

func (ts *termTab) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.boolc(false)
		case u.Info()&types.IsString != 0:
			return ts.strc("")
		case u.Info()&types.IsInteger != 0:
			return ts.intc(0)
		}
		return ts.mk("zero", typ.String(), typ)
	case *types.Struct, *types.Array:
		return ts.mk("zero", typ.String(), typ)
	}
	return ts.nilc()
}

// linear forms of signed integers

type lin struct {
	m map[*Term]int64
	k int64
}

func linOf(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, f int64) {
	switch {
	case t.isInt():
		l.k += f * t.n
	case t.op == "sum":
		cs := strings.Split(t.aux, ",")
		for i, a := range t.args {
			c, _ := strconv.ParseInt(cs[i], 10, 64)
			l.m[a] += f * c
			if l.m[a] == 0 {
				delete(l.m, a)
			}
		}
		k, _ := strconv.ParseInt(cs[len(cs)-1], 10, 64)
		l.k += f * k
	default:
		l.m[t] += f
		if l.m[t] == 0 {
			delete(l.m, t)
		}
	}
}

func (ts *termTab) fromLin(l lin, typ types.Type) *Term {
	if len(l.m) == 0 {
		return ts.intc(l.k)
	}
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	var cs []string
	for _, a := range as {
		cs = append(cs, strconv.FormatInt(l.m[a], 10))
	}
	cs = append(cs, strconv.FormatInt(l.k, 10))
	return ts.mk("sum", strings.Join(cs, ","), typ, as...)
}

func (ts *termTab) addT(a, b *Term, f int64) *Term {
	l := linOf(a)
	l.add(b, f)
	typ := a.typ
	if a.isConst() {
		typ = b.typ
	}
	return ts.fromLin(l, typ)
}

// boolean terms

func (ts *termTab) not(t *Term) *Term {
	switch {
	case t.isTrue():
		return ts.boolc(false)
	case t.isFalse():
		return ts.boolc(true)
	case t.op == "not":
		return t.args[0]
	}
	return ts.mk("not", "", types.Typ[types.Bool], t)
}

func isStrTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func neverNil(t *Term) bool {
	switch t.op {
	case "alloc", "iface", "closure", "fn", "fa", "ia", "global":
		return true
	}
	return false
}

func (ts *termTab) eq(a, b *Term) *Term {
	if a == b {
		return ts.boolc(true)
	}
	for range 2 {
		if x, y := compared(a); x != nil && b.isInt() {
			switch b.n {
			case 0:
				return ts.eq(x, y)
			case 1:
				return ts.lt(y, x)
			case -1:
				return ts.lt(x, y)
			}
			return ts.boolc(false)
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if b.op == "nil" {
		a, b = b, a
	}
	if a.op == "nil" {
		if neverNil(b) {
			return ts.boolc(false)
		}
		return ts.mk("isnil", "", types.Typ[types.Bool], b)
	}
	if a.isConst() && b.isConst() {
		return ts.boolc(a == b)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isTrue() {
		return b
	}
	if a.isFalse() {
		return ts.not(b)
	}
	if a.isInt() || isIntTyp(a.typ) && isIntTyp(b.typ) {
		d := ts.addT(a, b, -1)
		if d.isInt() {
			return ts.boolc(d.n == 0)
		}
		if a.isInt() && a.n == 0 && b.op == "len" && isStrTyp(b.args[0].typ) {
			return ts.eq(b.args[0], ts.strc(""))
		}
		// canonical: move the constant to one side
		if b.op == "sum" && a.isInt() {
			l := linOf(b)
			k := a.n - l.k
			l.k = 0
			r := ts.fromLin(l, b.typ)
			if r.op != "sum" {
				return ts.mk("eq", "", types.Typ[types.Bool], ts.intc(k), r)
			}
		}
	}
	if a.op == "alloc" && b.op == "alloc" {
		return ts.boolc(false)
	}
	return ts.mk("eq", "", types.Typ[types.Bool], a, b)
}

// compared gives the texts which a result of strings.Compare compares.
func compared(t *Term) (a, b *Term) {
	if t.op == "call" && len(t.args) == 2 && (t.aux == "strings.Compare" || strings.HasPrefix(t.aux, "cmp.Compare") && isStrTyp(t.args[0].typ)) {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

func (ts *termTab) lt(a, b *Term) *Term {
	if a == b {
		return ts.boolc(false)
	}
	if x, y := compared(a); x != nil && b.isInt() {
		switch b.n {
		case 0:
			return ts.lt(x, y)
		case 1:
			return ts.not(ts.lt(y, x))
		}
		return ts.boolc(b.n > 0)
	}
	if x, y := compared(b); x != nil && a.isInt() {
		switch a.n {
		case 0:
			return ts.lt(y, x)
		case -1:
			return ts.not(ts.lt(x, y))
		}
		return ts.boolc(a.n < 0)
	}
	if a.isConst() && b.isConst() && a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() && a.c.Kind() != constant.Bool {
		return ts.boolc(constant.Compare(a.c, token.LSS, b.c))
	}
	if a.isInt() && b.op == "len" && isStrTyp(b.args[0].typ) && a.n == 0 {
		return ts.not(ts.eq(b.args[0], ts.strc("")))
	}
	if b.isInt() && a.op == "len" && isStrTyp(a.args[0].typ) && b.n == 1 {
		return ts.eq(a.args[0], ts.strc(""))
	}
	if isIntTyp(a.typ) && isIntTyp(b.typ) {
		d := ts.addT(b, a, -1)
		if d.isInt() {
			return ts.boolc(d.n > 0)
		}
		// canonical form for one variable against a constant
		if b.isInt() && a.op == "sum" || a.isInt() && b.op == "sum" {
			l := linOf(d)
			k := l.k
			l.k = 0
			r := ts.fromLin(l, a.typ) // r + k > 0
			if r.op != "sum" {
				return ts.mk("lt", "", types.Typ[types.Bool], ts.intc(-k), r)
			}
			for x := range l.m {
				if len(l.m) == 1 && l.m[x] == -1 { // x < k
					return ts.mk("lt", "", types.Typ[types.Bool], x, ts.intc(k))
				}
			}
		}
	}
	return ts.mk("lt", "", types.Typ[types.Bool], a, b)
}

func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(f) {
			return true
		}
	}
	return false
}

func (ts *termTab) subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := f(t)
	if r == nil {
		r = t
		if len(t.args) > 0 {
			same := true
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = ts.subst(a, f, memo)
				same = same && args[i] == a
			}
			if !same {
				r = ts.rebuild(t, args)
			}
		}
	}
	memo[t] = r
	return r
}

func (ts *termTab) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "sum":
		cs := strings.Split(t.aux, ",")
		l := lin{m: map[*Term]int64{}}
		for i, a := range args {
			c, _ := strconv.ParseInt(cs[i], 10, 64)
			l.add(a, c)
		}
		k, _ := strconv.ParseInt(cs[len(cs)-1], 10, 64)
		l.k += k
		return ts.fromLin(l, t.typ)
	case "not":
		return ts.not(args[0])
	case "eq":
		return ts.eq(args[0], args[1])
	case "lt":
		return ts.lt(args[0], args[1])
	case "isnil":
		return ts.eq(ts.nilc(), args[0])
	}
	return ts.raw(t.op, t.aux, t.gen, t.typ, args...)
}

func (t *Term) String() string {
	switch t.op {
	case "const":
		return t.aux
	case "nil":
		return "nil"
	case "param":
		return t.aux
	case "sym", "alloc":
		s := t.aux
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		if t.gen > 0 {
			s += fmt.Sprintf("'%d", t.gen)
		}
		return s
	case "fa":
		s := t.aux
		if i := strings.LastIndex(s, "."); i >= 0 {
			s = s[i+1:]
		}
		return t.args[0].String() + "." + s
	case "ia":
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case "load":
		return "*" + t.args[0].String()
	case "sum":
		cs := strings.Split(t.aux, ",")
		var p []string
		for i, a := range t.args {
			if cs[i] == "1" {
				p = append(p, a.String())
			} else {
				p = append(p, cs[i]+"*"+a.String())
			}
		}
		if k := cs[len(cs)-1]; k != "0" {
			p = append(p, k)
		}
		return "(" + strings.Join(p, "+") + ")"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.String())
	}
	s := t.op
	if t.aux != "" {
		a := t.aux
		if i := strings.LastIndex(a, "/"); i >= 0 {
			a = a[i+1:]
		}
		s += "." + a
	}
	return s + "(" + strings.Join(p, ",") + ")"
}

// under says whether address t is a, or lies inside the field at a.
func (t *Term) under(a *Term) bool {
	for t != a {
		if t.op != "fa" && t.op != "ia" {
			return false
		}
		t = t.args[0]
	}
	return true
}
