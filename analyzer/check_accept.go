package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = func(p *Prog, tier string) *Result { return checkAccept(p) }
}

// checkAccept decides C15: the single glob matchers accept only after every field of the pattern was found to agree with
// the text, and refuse only when one was found to disagree.
type accepter struct {
	p    *Prog
	r    *Result
	e    *PEngine
	fn   *ssa.Function
	gg   bool // dotted glob
	path bool // the input is a text, not a list of parts
	loop map[*Term]*acceptLoop
}

type acceptLoop struct {
	idx, path *ssa.Phi
	h, q      *Term // index and rest of the text at the head
	off       *Term
	flag      *ssa.Phi // a variable which holds the decision about the last part
	b         *Term
	ok, done  bool
	open      bool // the index is not known to be in range before it is counted up
}

var dbg = os.Getenv("VERIF_DEBUG") != ""

const (
	globMatch = "(*glob.Glob).Match"
	itemMatch = "pkg/items.MatchItems"
)

func checkAccept(p *Prog) *Result {
	c := &accepter{p: p, r: newResult()}
	cl := &PClient{}
	e := newPEngine(p, cl)
	c.e = e
	e.readOnly = true
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		n := fnName(f)
		if e.rec[f] || n == globMatch || n == itemMatch {
			return false
		}
		if pk := f.Pkg; pk != nil && (hasSuffix(pk.Pkg.Path(), "/glob") || hasSuffix(pk.Pkg.Path(), "/gglob")) {
			return len(f.Blocks) < 200
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0
	}
	cl.LoopHead = c.loopHead
	cl.Back = c.back
	cl.LoopExit = c.loopExit
	for _, name := range []string{"glob.Glob.Match", "gglob.GGlob.Match", "gglob.GGlob.MatchByParts"} {
		fn := p.lookupFunc(name)
		if fn == nil {
			c.r.fail("anchor", name, "-", "the matcher was not found")
			continue
		}
		c.fn = fn
		name = fnName(fn)
		c.gg = name != globMatch
		c.path = isStrTyp(fn.Params[1].Type())
		c.loop = map[*Term]*acceptLoop{}
		for _, x := range e.Run(fn, &evState{}) {
			pos := p.instrPos(x.ret)
			res := x.res[0]
			try := func(v bool) {
				st := x.st.clone()
				if !e.assume(st, res, v) {
					return
				}
				if v {
					c.r.count("accepting_paths", 1)
					if why := c.accept(st); why != "" {
						c.dump(st)
						e.fail("accepts", name, pos, "a path accepts the text, but %s", why)
					}
				} else {
					c.r.count("refusing_paths", 1)
					if !c.refuse(st) {
						c.dump(st)
						e.fail("refuses", name, pos, "a path refuses the text without a reason for it")
					}
				}
			}
			try(true)
			try(false)
		}
		c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), name)
	}
	c.r.need("accepting_paths", 5)
	c.r.need("refusing_paths", 12)
	seen := map[string]bool{}
	for _, f := range e.finds {
		k := f.Key() + f.Pos + f.Text
		if !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	return c.r
}

func (c *accepter) dump(st *PState) {
	if !dbg {
		return
	}
	for _, v := range st.cl.(*evState).evs {
		println("  ev", v.kind, v.aux)
	}
	for f, v := range st.facts {
		println("  fact", f.String(), v)
	}
}

func (c *accepter) recv(st *PState) *Term { return st.frames[0].env[c.fn.Params[0]] }
func (c *accepter) in(st *PState) *Term   { return st.frames[0].env[c.fn.Params[1]] }
func (c *accepter) field(st *PState, n string) *Term {
	return c.e.loadField(st, c.recv(st), c.fn.Params[0].Type(), n)
}

// nonEmpty says whether a list or map is known to hold something.
func (e *PEngine) nonEmpty(st *PState, t *Term) int {
	n := e.lenT(t)
	if r := e.truth(st, e.ts.lt(e.ts.intc(0), n)); r >= 0 {
		return r
	}
	if r := e.truth(st, e.ts.eq(e.ts.intc(0), n)); r >= 0 {
		return 1 - r
	}
	if e.truth(st, e.ts.eq(t, e.ts.nilc())) == 1 {
		return 0
	}
	return -1
}

func (e *PEngine) lenT(t *Term) *Term {
	if t.isStr() {
		return e.ts.intc(int64(len(constantString(t))))
	}
	return e.ts.mk("len", "", types.Typ[types.Int], t)
}
func (c *accepter) is(st *PState, t *Term) bool    { return c.e.truth(st, t) == 1 }
func (c *accepter) isNot(st *PState, t *Term) bool { return c.e.truth(st, t) == 0 }

// le: a <= b under the facts, with equalities applied.
func (e *PEngine) le(st *PState, a, b *Term) bool {
	t := e.ts.lt(b, a)
	if e.truth(st, t) == 0 {
		return true
	}
	for f, v := range st.facts {
		if !v || f.op != "eq" || !isIntTyp(f.args[0].typ) {
			continue
		}
		d := e.ts.addT(f.args[0], f.args[1], -1)
		x := e.ts.addT(b, a, -1)
		for _, s := range []int64{1, -1} {
			y := e.ts.addT(x, d, s)
			if bd := e.bounds(st, y); bd.hasL && bd.lo >= 0 {
				return true
			}
		}
	}
	return false
}

// span: a text as a part of another one, from lo to hi.
func (e *PEngine) span(t *Term) (x, lo, hi *Term) {
	if t.op != "slice" {
		return t, e.ts.intc(0), e.lenT(t)
	}
	x, lo, hi = e.span(t.args[0])
	base := lo
	if t.args[1].op != "none" {
		lo = e.ts.addT(base, t.args[1], 1)
	}
	if t.args[2].op != "none" {
		hi = e.ts.addT(base, t.args[2], 1)
	}
	return
}

// linear length terms: len of a slice is the difference of its ends.
func (e *PEngine) flatLen(t *Term) *Term {
	return e.ts.subst(t, func(y *Term) *Term {
		if y.op == "len" && y.args[0].op == "slice" {
			_, lo, hi := e.span(y.args[0])
			return e.flatLen(e.ts.addT(hi, lo, -1))
		}
		return nil
	}, map[*Term]*Term{})
}

func (e *PEngine) sameSpan(st *PState, a, b *Term) bool {
	if a == b || e.same(st, a, b) {
		return true
	}
	x, l1, h1 := e.span(a)
	y, l2, h2 := e.span(b)
	if x != y && !e.same(st, x, y) {
		return false
	}
	z := e.ts.intc(0)
	zero := func(t *Term) bool {
		bd := e.bounds(st, t)
		return t == z || bd.hasL && bd.hasH && bd.lo == 0 && bd.hi == 0
	}
	return zero(e.ts.addT(e.flatLen(l1), e.flatLen(l2), -1)) && zero(e.ts.addT(e.flatLen(h1), e.flatLen(h2), -1))
}

// holds: the truth of a predicate of package strings (or of a comparison which says the same) about a text.
func (c *accepter) affix(st *PState, name string, s, x *Term) int {
	e := c.e
	if x.isStr() && constantString(x) == "" || c.is(st, e.ts.eq(x, e.ts.strc(""))) {
		return 1
	}
	for _, n := range []*Term{e.lenT(s), e.flatLen(e.lenT(s))} {
		if e.le(st, e.ts.addT(n, e.ts.intc(1), 1), e.lenT(x)) {
			return 0
		}
	}
	for f, v := range st.facts {
		r := 0
		if v {
			r = 1
		}
		switch f.op {
		case "call":
			if f.aux == "strings."+name && e.same(st, f.args[1], x) && e.sameSpan(st, f.args[0], s) {
				return r
			}
		case "eq":
			for i := range 2 {
				a, b := f.args[i], f.args[1-i]
				if !e.same(st, b, x) || a.op != "slice" {
					continue
				}
				t := e.ts.mk("slice", "", s.typ, s, e.none(), e.lenT(x), e.none())
				if name == "HasSuffix" {
					t = e.ts.mk("slice", "", s.typ, s, e.ts.addT(e.lenT(s), e.lenT(x), -1), e.none(), e.none())
				}
				if e.sameSpan(st, a, t) {
					return r
				}
			}
		}
	}
	return -1
}

func (e *PEngine) none() *Term { return e.ts.mk("none", "", types.Typ[types.Int]) }

// tooShort and tooLong: the text is known to be out of the length limits of the pattern.
func (c *accepter) badLen(st *PState, n, extra *Term) bool {
	e := c.e
	one := e.ts.intc(1)
	min, max := c.field(st, "MinLen"), c.field(st, "MaxLen")
	if e.le(st, e.ts.addT(n, one, 1), min) || e.le(st, e.ts.addT(n, one, 1), e.ts.addT(min, extra, 1)) {
		return true
	}
	return e.le(st, one, max) && e.le(st, e.ts.addT(e.ts.addT(max, extra, 1), one, 1), n)
}

func (c *accepter) hasItems(st *PState) int {
	return c.e.nonEmpty(st, c.field(st, "Items"))
}

// cutAffixes gives the texts which are left of the input after prefix and suffix are cut off.
func (c *accepter) rest(st *PState) (mid, rest *Term) {
	e := c.e
	s := c.in(st)
	ln := func(n string) *Term {
		t := c.field(st, n)
		if c.is(st, e.ts.eq(t, e.ts.strc(""))) {
			return e.ts.intc(0)
		}
		return e.lenT(t)
	}
	mid = e.ts.mk("slice", "", s.typ, s, ln("Prefix"), e.none(), e.none())
	rest = e.ts.mk("slice", "", s.typ, s, ln("Prefix"), e.ts.addT(e.lenT(s), ln("Suffix"), -1), e.none())
	return
}

// head is the text before the suffix.
func (c *accepter) head(st *PState) *Term {
	e := c.e
	s, suf := c.in(st), c.field(st, "Suffix")
	if c.is(st, e.ts.eq(suf, e.ts.strc(""))) {
		return s
	}
	return e.ts.mk("slice", "", s.typ, s, e.none(), e.ts.addT(e.lenT(s), e.lenT(suf), -1), e.none())
}

// inner gives the decision about the text between prefix and suffix: 1, 0, or -1 for none.
func (c *accepter) inner(st *PState, rest *Term) int {
	e := c.e
	items, vals := c.field(st, "Items"), c.field(st, "Vals")
	for f, v := range st.facts {
		if f.op == "call" && f.aux == itemMatch && f.args[1] == items && c.hasItems(st) == 1 && e.sameSpan(st, f.args[0], rest) {
			if v {
				return 1
			}
			return 0
		}
		if f.op == "lookupok" && f.args[0] == vals && e.sameSpan(st, f.args[1], rest) {
			if v {
				return 1
			}
			if e.nonEmpty(st, vals) == 1 {
				return 0
			}
		}
	}
	return -1
}

func (c *accepter) accept(st *PState) string {
	e := c.e
	s := c.in(st)
	if c.gg {
		return c.acceptParts(st)
	}
	node := c.field(st, "Node")
	if c.is(st, e.ts.eq(node, e.ts.strc("*"))) {
		return ""
	}
	if c.hasItems(st) == 0 && c.is(st, e.ts.eq(node, s)) {
		return ""
	}
	mid, rest := c.rest(st)
	if c.affix(st, "HasPrefix", s, c.field(st, "Prefix")) != 1 && c.affix(st, "HasPrefix", c.head(st), c.field(st, "Prefix")) != 1 {
		return "the prefix was not checked"
	}
	suf := c.field(st, "Suffix")
	if c.affix(st, "HasSuffix", mid, suf) != 1 && !(c.affix(st, "HasSuffix", s, suf) == 1 && c.affix(st, "HasPrefix", c.head(st), c.field(st, "Prefix")) == 1) {
		// behind the prefix when the text is long enough for both
		min := c.field(st, "MinLen")
		if !(c.affix(st, "HasSuffix", s, suf) == 1 && e.le(st, min, e.lenT(s))) {
			return "the suffix was not checked behind the prefix"
		}
	}
	if c.inner(st, rest) != 1 {
		return "the text between prefix and suffix was not matched by the list of values or the items"
	}
	return ""
}

func (c *accepter) refuse(st *PState) bool {
	e := c.e
	if c.gg {
		return c.refuseParts(st)
	}
	s := c.in(st)
	if c.badLen(st, e.lenT(s), e.ts.intc(0)) {
		return true
	}
	if c.hasItems(st) == 0 && c.isNot(st, e.ts.eq(c.field(st, "Node"), s)) {
		return true
	}
	mid, rest := c.rest(st)
	suf := c.field(st, "Suffix")
	if c.affix(st, "HasPrefix", s, c.field(st, "Prefix")) == 0 || c.affix(st, "HasSuffix", s, suf) == 0 || c.affix(st, "HasSuffix", mid, suf) == 0 || c.affix(st, "HasPrefix", c.head(st), c.field(st, "Prefix")) == 0 {
		return c.hasItems(st) == 1
	}
	return c.inner(st, rest) == 0
}

// ---- dotted globs

// trimmed: the input without a dot at its end.
func (c *pathRules) endsDot(st *PState, s *Term) int {
	e := c.e
	at := e.ts.addT(e.lenT(s), e.ts.intc(1), -1)
	for f, v := range st.facts {
		r := 0
		if v {
			r = 1
		}
		if f.op == "call" && f.aux == "strings.HasSuffix" && f.args[0] == s && f.args[1] == e.ts.strc(".") {
			return r
		}
		if f.op == "eq" {
			for i := range 2 {
				a, b := f.args[i], f.args[1-i]
				if a.isInt() && a.n == '.' && b.op == "idx" && b.args[0] == s && b.args[1] == at {
					return r
				}
				if a.isStr() && constantString(a) == "." && b.op == "slice" && b.args[0] == s && b.args[1] == at && b.args[2].op == "none" {
					return r
				}
			}
		}
	}
	return -1
}

// pathRules are the rules about dotted texts.
type pathRules struct {
	e   *PEngine
	sep byte // the separator, a dot when it is not set
}

func (c *pathRules) sepc() byte {
	if c.sep == 0 {
		return '.'
	}
	return c.sep
}

func (c *pathRules) trimmed(st *PState, t, s *Term) bool {
	e := c.e
	switch c.endsDot(st, s) {
	case 1:
		return e.sameSpan(st, t, e.ts.mk("slice", "", s.typ, s, e.none(), e.ts.addT(e.lenT(s), e.ts.intc(1), -1), e.none()))
	case 0:
		return t == s
	}
	return t == s && e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 1
}

// count: the number of parts of the trimmed text.
func (c *pathRules) count(st *PState, n, s *Term) bool {
	e := c.e
	cnt := func(t *Term) *Term {
		return e.ts.mk("call", "strings.Count", types.Typ[types.Int], t, e.ts.strc("."))
	}
	one := e.ts.intc(1)
	switch c.endsDot(st, s) {
	case 1:
		if n == cnt(s) {
			return true
		}
		for f := range st.facts {
			if f.any(func(t *Term) bool {
				return t.op == "call" && t.aux == "strings.Count" && e.ts.addT(t, one, 1) == n && c.trimmed(st, t.args[0], s)
			}) {
				return true
			}
		}
		if l := e.ts.addT(n, one, -1); l.op == "call" && l.aux == "strings.Count" && c.trimmed(st, l.args[0], s) {
			return true
		}
		return false
	case 0:
		return n == e.ts.addT(cnt(s), one, 1)
	}
	return e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 1 && n.isInt() && n.n == 0
}

// dot: the position of the first dot in q, or nil.
func (c *pathRules) isDot(t, q *Term) bool {
	b := int64(c.sepc())
	return t.op == "call" && ((t.aux == "strings.Index" || t.aux == "strings.IndexAny") && t.args[1] == c.e.ts.strc(string(rune(b))) || t.aux == "strings.IndexByte" && t.args[1].isInt() && t.args[1].n == b ||
		t.aux == "strings.IndexRune" && t.args[1].isInt() && t.args[1].n == b) && t.args[0] == q
}

// noDot: 1 when q is known to have no dot, 0 when it is known to have one.
func (c *pathRules) noDot(st *PState, q *Term) int {
	e := c.e
	for f, v := range st.facts {
		switch f.op {
		case "lt":
			if c.isDot(f.args[0], q) && f.args[1].isInt() && f.args[1].n == 0 {
				if v {
					return 1
				}
				return 0
			}
			if c.isDot(f.args[1], q) && f.args[0].isInt() && f.args[0].n == -1 {
				if v {
					return 0
				}
				return 1
			}
		case "ext":
			if c.isCut(f, "2") == q {
				if v {
					return 0
				}
				return 1
			}
		case "eq":
			for i := range 2 {
				if a, b := f.args[i], f.args[1-i]; a == e.ts.intc(-1) && c.isDot(b, q) {
					if v {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

func (c *pathRules) isCut(t *Term, i string) (q *Term) {
	if t.op == "ext" && t.aux == i && t.args[0].op == "call" && t.args[0].aux == "strings.Cut" && t.args[0].args[1] == c.e.ts.strc(string(rune(c.sepc()))) {
		return t.args[0].args[0]
	}
	return nil
}

// first: t is the part of q before its first dot, after: t is what follows that dot.
func (c *pathRules) first(st *PState, t, q *Term) bool {
	if x := c.isCut(t, "0"); x != nil {
		return x == q
	}
	switch c.noDot(st, q) {
	case 1:
		return t == q
	case 0:
		if t.op == "slice" && t.args[0] == q && (t.args[1].op == "none" || t.args[1] == c.e.ts.intc(0)) {
			return c.isDot(t.args[2], q)
		}
	}
	return false
}

func (c *pathRules) after(st *PState, t, q *Term) bool {
	e := c.e
	if x := c.isCut(t, "1"); x != nil {
		return x == q
	}
	switch c.noDot(st, q) {
	case 1:
		return t.isStr() && constantString(t) == "" || e.truth(st, e.ts.eq(t, e.ts.strc(""))) == 1
	case 0:
		if t.op == "slice" && t.args[0] == q && t.args[2].op == "none" {
			return c.isDot(e.ts.addT(t.args[1], e.ts.intc(1), -1), q)
		}
	}
	return false
}

func (c *accepter) parts(st *PState) *Term { return c.field(st, "Parts") }

// partOf: the index of the part in a term of the parts of the pattern.
func (c *accepter) partAt(st *PState, t *Term) *Term {
	if t.op == "load" && t.args[0].op == "ia" && t.args[0].args[0] == c.parts(st) {
		return t.args[0].args[1]
	}
	return nil
}

func (c *accepter) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*acceptLoop)
	if d == nil {
		d = &acceptLoop{ok: true}
		lc.data = d
	}
	for i, q := range lc.phis {
		if !lc.dropped[q] {
			continue
		}
		h := e.val(head, q)
		switch {
		case isIntTyp(q.Type()):
			if d.idx == nil || d.idx == q {
				d.idx, d.h = q, h
				c.loop[h] = d
			}
		case types.Identical(q.Type().Underlying(), types.Typ[types.Bool]):
			if d.flag == nil && c.is(head, lc.vals[i]) || d.flag == q {
				d.flag, d.b = q, h
			}
		case isStrTyp(q.Type()):
			if d.path == nil || d.path == q {
				d.path, d.q = q, h
				c.loop[h] = d
				r := &pathRules{e: e}
				if !c.path || !r.trimmed(head, lc.vals[i], c.in(head)) {
					d.ok = false
				}
			}
		}
	}
}

// back: one part was matched by the pattern of the same place.
func (c *accepter) back(e *PEngine, lc *loopCtx, head, back *PState) {
	d := lc.data.(*acceptLoop)
	pos, fn := c.p.instrPos(lc.l.head.Instrs[0]), fnName(lc.l.head.Parent())
	if d.idx == nil {
		return
	}
	c.r.count("part_loops", 1)
	found := ""
	facts := back.facts
	if d.flag != nil {
		// the decision is in a variable which ends the loop
		t := e.val(back, d.flag)
		if t.op == "call" && t.aux == globMatch && c.is(back, d.b) {
			facts = cloneMap(facts)
			facts[t] = true
		} else if !c.is(back, t) {
			facts = nil
		}
	}
	for f, v := range facts {
		if f.op != "call" || f.aux != globMatch || !v {
			continue
		}
		i := c.partAt(back, f.args[0])
		if i == nil || !i.contains(d.h) {
			continue
		}
		off := e.ts.addT(i, d.h, -1)
		if !off.isInt() || d.off != nil && d.off != off {
			found = "the index of the part is " + i.String()
			continue
		}
		d.off = off
		if why := c.place(back, d, i, f.args[1]); why != "" {
			found = why
			continue
		}
		d.done = true
		found = "ok"
		break
	}
	if found != "ok" {
		if found == "" {
			found = "no part was matched"
		}
		c.dump(back)
		d.ok = false
		e.fail("part-matched", fn, pos, "the loop over the parts goes on, but %s", found)
		return
	}
	if !e.le(back, e.ts.addT(e.ts.addT(d.h, d.off, 1), e.ts.intc(1), 1), e.lenT(c.parts(back))) {
		d.open = true
	}
	for i, q := range lc.phis {
		if q == d.idx {
			if first := e.ts.addT(lc.vals[i], d.off, 1); !first.isInt() || first.n != 0 {
				d.ok = false
				e.fail("part-matched", fn, pos, "the loop over the parts starts at part %s", first)
			}
			if step := e.ts.addT(e.val(back, q), d.h, -1); !step.isInt() || step.n != 1 {
				d.ok = false
				e.fail("part-matched", fn, pos, "the loop over the parts steps by %s", step)
			}
		}
		if q == d.path {
			r := &pathRules{e: e}
			if !r.after(back, e.val(back, q), d.q) {
				d.ok = false
				e.fail("part-matched", fn, pos, "the loop over the parts does not go on behind the next dot")
			}
		}
	}
}

// place: the part of the text is the one at the place of the part of the pattern.
func (c *accepter) place(st *PState, d *acceptLoop, i, part *Term) string {
	e := c.e
	if !c.path {
		if part.op == "load" && part.args[0].op == "ia" && part.args[0].args[0] == c.in(st) && part.args[0].args[1] == i {
			return ""
		}
		return "the part matched is " + part.String()
	}
	r := &pathRules{e: e}
	if d.q == nil || !r.first(st, part, d.q) {
		return "the part matched is " + part.String()
	}
	if !c.isNot(st, e.ts.eq(part, e.ts.strc(""))) {
		return "an empty part is not refused"
	}
	return ""
}

func (c *accepter) loopExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d := lc.data.(*acceptLoop)
	if d == nil || !d.ok || !d.done {
		return
	}
	at := e.ts.addT(d.h, d.off, 1)
	n := e.lenT(c.parts(out))
	if e.le(out, n, at) {
		out.cl.(*evState).add("all", "", d.b)
		if !d.open {
			e.assume(out, e.ts.eq(at, n), true)
			if !c.path && c.counts(out) == 1 {
				e.assume(out, e.ts.eq(at, e.lenT(c.in(out))), true)
			}
		}
	} else if d.flag != nil && c.isNot(out, d.b) {
		out.cl.(*evState).add("refused", "")
	}
}

func (c *accepter) counts(st *PState) int {
	e := c.e
	n := e.lenT(c.parts(st))
	r := &pathRules{e: e}
	for f, v := range st.facts {
		if f.op != "eq" {
			continue
		}
		for i := range 2 {
			a, b := f.args[i], f.args[1-i]
			if a != n {
				continue
			}
			if c.path && r.count(st, b, c.in(st)) || !c.path && b == e.lenT(c.in(st)) {
				if v {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

func (c *accepter) emptyIn(st *PState) int {
	e := c.e
	if c.path {
		return e.truth(st, e.ts.eq(c.in(st), e.ts.strc("")))
	}
	return e.truth(st, e.ts.eq(e.lenT(c.in(st)), e.ts.intc(0)))
}

func (c *accepter) acceptParts(st *PState) string {
	if c.emptyIn(st) != 0 && c.e.truth(st, c.e.ts.eq(c.e.lenT(c.parts(st)), c.e.ts.intc(0))) != 0 {
		return "the empty input is not refused"
	}
	if c.counts(st) != 1 {
		return "the number of parts was not compared"
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "all" && (v.ts[0] == nil || c.is(st, v.ts[0])) {
			return ""
		}
	}
	return "not every part was matched"
}

func (c *accepter) refuseParts(st *PState) bool {
	e := c.e
	one := e.ts.intc(1)
	if c.emptyIn(st) == 1 || c.counts(st) == 0 {
		return true
	}
	r := &pathRules{e: e}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "refused" || v.kind == "all" && v.ts[0] != nil && c.isNot(st, v.ts[0]) {
			return true
		}
	}
	if c.path {
		for _, t := range c.inputs(st) {
			if !r.trimmed(st, t, c.in(st)) {
				continue
			}
			if c.badLenParts(st, e.lenT(t)) {
				return true
			}
		}
	} else if n := st.frames[0].env[c.fn.Params[2]]; e.le(st, one, n) && c.badLenParts(st, n) {
		return true
	}
	for f, v := range st.facts {
		if f.op == "call" && f.aux == globMatch && !v {
			i := c.partAt(st, f.args[0])
			if i == nil {
				continue
			}
			if !c.path {
				if c.place(st, nil, i, f.args[1]) == "" {
					return true
				}
				continue
			}
			for _, d := range c.loop {
				if d.ok && d.q != nil && r.first(st, f.args[1], d.q) && (d.off == nil && i.contains(d.h) || d.off != nil && i == e.ts.addT(d.h, d.off, 1)) {
					return true
				}
			}
		}
		if f.op == "eq" && v && c.path {
			for i := range 2 {
				a, b := f.args[i], f.args[1-i]
				if !a.isStr() || constantString(a) != "" {
					continue
				}
				for _, d := range c.loop {
					if d.ok && d.q != nil && r.first(st, b, d.q) {
						return true
					}
				}
			}
		}
		// something is left behind the last part
		if f.op == "eq" && !v && c.path {
			for i := range 2 {
				a, b := f.args[i], f.args[1-i]
				if !a.isStr() || constantString(a) != "" {
					continue
				}
				for _, w := range st.cl.(*evState).evs {
					if d := c.loop[b]; w.kind == "all" && d != nil && d.q == b && d.ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *accepter) inputs(st *PState) []*Term {
	s := c.in(st)
	e := c.e
	return []*Term{s, e.ts.mk("slice", "", s.typ, s, e.ts.intc(0), e.ts.addT(e.lenT(s), e.ts.intc(1), -1), e.none())}
}

func (c *accepter) badLenParts(st *PState, n *Term) bool {
	e := c.e
	return c.badLen(st, n, e.ts.addT(e.lenT(c.parts(st)), e.ts.intc(1), -1))
}
