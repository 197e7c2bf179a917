package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = func(p *Prog, tier string) *Result { return checkLeaf(p) }
}

// leaf decides C22: a single item matches exactly what it stands for, and consumes just that.
type leaf struct {
	p    *Prog
	r    *Result
	e    *PEngine
	fn   *ssa.Function
	cls  *symClass
	lim  *Term // number of symbols to skip
	rng  *Term // list of ranges which is searched
	sym  *Term // symbol searched for in it
	skip bool
}

// symClass is a set of symbols: a set of bytes, and ranges.
type symClass struct{ ascii, rs, list *Term }

type leafLoop struct {
	cands []ev
	drop  map[string]bool
	iter  bool
}

const (
	asciiHas  = "(*pkg/utils.ASCIISet).Contains"
	rangesHas = "(*pkg/utils.RunesRanges).ContainsUnicode"
	runeError = 0xfffd
)

func checkLeaf(p *Prog) *Result {
	c := &leaf{p: p, r: newResult()}
	set, rs := p.lookupType("pkg/utils.ASCIISet"), p.lookupType("pkg/utils.RunesRanges")
	if set == nil || rs == nil {
		c.r.fail("anchor", "pkg/utils", "-", "the sets of symbols were not found")
		return c.r
	}
	it := p.lookupType("pkg/items.Item")
	iface, _ := it.Underlying().(*types.Interface)
	if iface == nil {
		c.r.fail("anchor", "pkg/items.Item", "-", "the interface of items was not found")
		return c.r
	}
	for _, t := range p.implementers(iface) {
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			if m.Name() != "Match" && m.Name() != "MatchLast" && m.Name() != "Find" {
				continue
			}
			fn := p.methodOf(t, m)
			if fn == nil || fn.Synthetic != "" || fn.Blocks == nil {
				continue
			}
			c.item(fn, m.Name())
		}
	}
	for _, n := range []string{"MatchN", "FindN"} {
		if fn := p.lookupFunc("pkg/items.StringList." + n); fn != nil {
			c.item(fn, n)
		} else {
			c.r.fail("anchor", "pkg/items.StringList."+n, "-", "the operation was not found")
		}
	}
	for _, f := range p.funcs {
		if f.Synthetic != "" || f.Blocks == nil || f.Pkg == nil || !hasSuffix(f.Pkg.Pkg.Path(), "/pkg/utils") {
			continue
		}
		c.set(f)
	}
	c.r.need("bit_tests", 3)
	c.r.need("found_paths", 12)
	c.r.need("absent_paths", 12)
	c.r.need("sets_scanned", 6)
	c.r.need("ranges_searched", 4)
	c.r.need("symbols_skipped", 3)
	return c.r
}

func (c *leaf) start(fn *ssa.Function) *PClient {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.readOnly = true
	e.maxSt = 200
	c.e, c.fn, c.cls, c.rng, c.sym, c.skip = e, fn, nil, nil, nil, false
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		n := fnName(f)
		return n != asciiHas && n != rangesHas && len(f.Blocks) < 100 && !e.rec[f]
	}
	cl.LoopHead = c.loopHead
	cl.BackCheck = c.backCheck
	cl.Next = func(e *PEngine, st *PState, in *ssa.Next, x, ok, k, v *Term) {
		if !in.IsString {
			return
		}
		ev := st.cl.(*evState)
		ev.add("iter", "", x, ok, k, v)
		for _, w := range ev.evs {
			if w.kind == "iterated" && w.ts[0] == x && w.aux == itoa(in.Block().Index) {
				ev.add("scanned", "", x, k)
			}
		}
	}
	return cl
}

func (c *leaf) done() {
	c.r.Findings = append(c.r.Findings, c.e.finds...)
	c.r.count("loops_solved", c.e.loops)
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(c.fn))
}

func (c *leaf) dump(st *PState) {
	if !dbg {
		return
	}
	for _, v := range st.cl.(*evState).evs {
		print("  ev ", v.kind)
		for _, t := range v.ts {
			print(" ", t.String())
		}
		println()
	}
	for f, v := range st.facts {
		println("  fact", f.String(), v)
	}
}

func (c *leaf) add(t *Term, k int64) *Term { return c.e.ts.addT(t, c.e.ts.intc(k), 1) }
func (c *leaf) one() *Term                 { return c.e.ts.intc(1) }
func (c *leaf) is(st *PState, t *Term, n int64) bool {
	return c.e.truth(st, c.e.ts.eq(t, c.e.ts.intc(n))) == 1
}
func (c *leaf) tail(s, i *Term) *Term {
	return c.e.ts.mk("slice", "", s.typ, s, i, c.e.none(), c.e.none())
}
func (c *leaf) head(s, i *Term) *Term {
	return c.e.ts.mk("slice", "", s.typ, s, c.e.ts.intc(0), i, c.e.none())
}

// ---- places in a text

// isByteAt: t is the byte of s at place i.
func (c *leaf) isByteAt(st *PState, t, s, i *Term) bool {
	e := c.e
	var x, j *Term
	switch {
	case t.op == "idx":
		x, j = t.args[0], t.args[1]
	case t.op == "load" && t.args[0].op == "ia":
		x, j = t.args[0].args[0], t.args[0].args[1]
	default:
		return false
	}
	b1, l1, _ := e.span(x)
	b2, l2, _ := e.span(s)
	return (b1 == b2 || e.same(st, b1, b2)) && e.same(st, e.flatLen(e.ts.addT(l1, j, 1)), e.flatLen(e.ts.addT(l2, i, 1)))
}

// decoded gives the terms of calls which decode the symbol at place i of s (or the last symbol before it).
func (c *leaf) decoded(st *PState, s, i *Term, last bool) (r []*Term) {
	seen := map[*Term]bool{}
	x := c.tail(s, i)
	if i.isInt() && i.n == 0 {
		x = s
	}
	if last {
		x = c.head(s, i)
	}
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.op == "call" && !seen[t] {
				if is := decodeKind(t); is != 0 && (is == 2) == last && c.e.sameSpan(st, t.args[0], x) {
					seen[t] = true
					r = append(r, t)
				}
			}
			return false
		})
	}
	return
}

// decodeKind: 1 a call which decodes the first symbol of a text, 2 the last one.
func decodeKind(t *Term) int {
	switch t.aux {
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		return 1
	case "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		return 2
	}
	return 0
}

func (c *leaf) rune_(d *Term) *Term { return c.e.ext(d, 0, types.Typ[types.Rune]) }
func (c *leaf) width(d *Term) *Term { return c.e.ext(d, 1, types.Typ[types.Int]) }
func (c *leaf) below(st *PState, t *Term) int {
	if b := c.e.bounds(st, t); b.hasH && b.hi < 128 {
		return 1
	} else if b.hasL && b.lo >= 128 {
		return 0
	}
	return -1
}

// has: the truth of the membership of a byte in the set of bytes.
func (c *leaf) has(st *PState, is func(t *Term) bool) int {
	for f, v := range st.facts {
		if f.op == "call" && f.aux == asciiHas && f.args[0] == c.cls.ascii && is(f.args[1]) {
			return factTruth(v)
		}
	}
	return -1
}

func (c *leaf) noRanges(st *PState) bool {
	return c.cls.rs == nil || c.e.nonEmpty(st, c.cls.list) == 0
}

// within: the truth of the membership of a symbol in the ranges.
func (c *leaf) within(st *PState, r *Term) int {
	if c.noRanges(st) {
		return 0
	}
	for f, v := range st.facts {
		if f.op == "call" && f.aux == rangesHas && f.args[0] == c.cls.rs && f.args[1] == r {
			return factTruth(v)
		}
	}
	return -1
}

// member: whether the symbol at place i of s is known to be in the class, and its width. 2: there is no valid symbol.
func (c *leaf) member(st *PState, s, i *Term) (int, []*Term) {
	e := c.e
	b := func(t *Term) bool { return c.isByteAt(st, t, s, i) }
	low := -1
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if b(unconv(t)) && (t.op != "conv" || isIntTyp(t.typ) && !isByteTyp(t.typ)) {
				if k := c.below(st, t); k >= 0 {
					low = k
				}
			}
			return false
		})
	}
	k := c.has(st, b)
	ds := c.decoded(st, s, i, false)
	ws := []*Term{c.one()}
	for _, d := range ds {
		ws = append(ws, c.width(d))
	}
	if k == 1 {
		return 1, ws
	}
	if k == 0 && (low == 1 || c.noRanges(st)) {
		return 0, ws
	}
	if low == 0 && c.noRanges(st) {
		return 0, ws[:1]
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "iter" && v.ts[0] == s && v.ts[2] == i && e.truth(st, v.ts[1]) == 1 {
			var w []*Term
			if e.truth(st, e.ts.eq(v.ts[3], e.ts.intc(0xFFFD))) == 0 {
				w = append(w, e.ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], v.ts[3]))
			}
			if c.below(st, v.ts[3]) == 1 {
				w = append(w, c.one())
			}
			if m := c.ofRune(st, v.ts[3], low); m >= 0 {
				return m, w
			}
		}
	}
	for _, d := range ds {
		if m := c.symbol(st, d, low); m >= 0 {
			if low == 1 || c.below(st, c.rune_(d)) == 1 {
				return m, ws
			}
			return m, ws[1:]
		}
	}
	return -1, nil
}

// symbol: the same for a decoded symbol.
func (c *leaf) symbol(st *PState, d *Term, low int) int {
	if c.is(st, c.width(d), 0) {
		return 2
	}
	return c.ofRune(st, c.rune_(d), low)
}

func (c *leaf) ofRune(st *PState, r *Term, low int) int {
	if c.is(st, r, runeError) {
		return 2
	}
	if l := c.below(st, r); l >= 0 {
		low = l
	}
	h := c.has(st, func(t *Term) bool { return t.op == "conv" && t.args[0] == r && c.below(st, r) == 1 })
	w := c.within(st, r)
	switch {
	case h == 1, w == 1:
		return 1
	case low == 1 && h == 0, low == 0 && w == 0:
		return 0
	}
	return -1
}

func isByteTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// impossible: the ranges hold no ASCII, so such a symbol is not found in them.
func (c *leaf) impossible(st *PState) bool {
	if c.cls == nil || c.cls.rs == nil {
		return false
	}
	for f, v := range st.facts {
		if !v || f.op != "call" || f.aux != rangesHas || f.args[0] != c.cls.rs {
			continue
		}
		r := f.args[1]
		if c.below(st, r) == 1 {
			return true
		}
		if r.op == "ext" && r.aux == "0" && r.args[0].op == "call" && decodeKind(r.args[0]) == 1 {
			low := false
			for g := range st.facts {
				g.any(func(t *Term) bool {
					if c.isByteAt(st, unconv(t), r.args[0].args[0], c.e.ts.intc(0)) && c.below(st, t) == 1 && (t.op != "conv" || !isByteTyp(t.typ)) {
						low = true
					}
					return false
				})
			}
			if low {
				return true
			}
		}
	}
	return false
}

// ---- loops

func (c *leaf) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*leafLoop)
	if d == nil {
		d = &leafLoop{drop: map[string]bool{}}
		lc.data = d
	}
	// an iteration over the text itself
	for _, in := range lc.l.head.Instrs {
		if x, ok := in.(*ssa.Next); ok && x.IsString {
			if t := e.val(head, x.Iter); t.op == "range" {
				v := ev{"iterated", itoa(in.Block().Index), []*Term{t.args[0]}}
				if !d.drop[v.key()] {
					head.cl.(*evState).add(v.kind, v.aux, v.ts...)
				}
				if !d.iter {
					d.iter = true
					d.cands = append(d.cands, v)
				}
			}
		}
	}
	for _, v := range d.cands {
		if !d.drop[v.key()] {
			head.cl.(*evState).add(v.kind, v.aux, v.ts...)
			switch v.kind {
			case "scanned":
				e.assume(head, e.ts.lt(v.ts[1], e.ts.intc(0)), false)
			case "skip", "skipLast":
				e.assume(head, e.ts.lt(v.ts[2], e.ts.intc(0)), false)
			}
		}
	}
}

// made proposes invariants of a loop, which hold at its entry.
func (c *leaf) made(e *PEngine, lc *loopCtx, head, back *PState) (r []ev) {
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isIntTyp(q.Type()) {
			continue
		}
		h, v := e.val(head, q), lc.vals[i]
		if c.cls != nil && len(c.fn.Params) > 1 {
			s := head.frames[0].env[c.fn.Params[1]]
			for _, k := range []int64{0, -1, 1} {
				if at := c.add(v, k); at.isInt() && at.n == 0 {
					r = append(r, ev{"scanned", "", []*Term{s, c.add(h, k)}})
				}
				if at := c.add(v, k+1); at == e.lenT(s) {
					r = append(r, ev{"down", "", []*Term{s, c.add(h, k)}})
				}
			}
		}
		if c.rng != nil {
			lo, up := c.limits(head)
			for _, k := range []int64{0, 1, -1} {
				for _, l := range lo {
					if e.le(head, c.add(v, k), l) {
						r = append(r, ev{"lower", "", []*Term{c.add(h, k)}})
						break
					}
				}
				for _, u := range up {
					if e.le(head, u, c.add(v, k)) {
						r = append(r, ev{"upper", "", []*Term{c.add(h, k)}})
						break
					}
				}
			}
		}
		if c.skip {
			r = append(r, c.madeSkip(e, lc, head, back, i)...)
		}
	}
	return
}

// madeSkip: count symbols were decoded, which took total bytes of the text s; rest is what is left of it.
func (c *leaf) madeSkip(e *PEngine, lc *loopCtx, head, back *PState, i int) (r []ev) {
	h, v := e.val(head, lc.phis[i]), lc.vals[i]
	var counts []*Term
	if v.isInt() && v.n == 0 {
		counts = append(counts, h)
	}
	counts = append(counts, e.ts.addT(v, h, -1)) // counted down
	for _, n := range counts {
		r = append(r, ev{"under", "", []*Term{n, c.lim}})
	}
	for j, q := range lc.phis {
		if !lc.dropped[q] || j == i {
			continue
		}
		g, w := e.val(head, q), lc.vals[j]
		for _, n := range counts {
			switch {
			case isStrTyp(q.Type()):
				r = append(r, ev{"left", "", []*Term{w, n, g}}, ev{"leftLast", "", []*Term{w, n, g}})
			case isIntTyp(q.Type()) && w.isInt() && w.n == 0:
				// with the rest of the text, or the place in it
				for k, p := range lc.phis {
					if isStrTyp(p.Type()) && lc.dropped[p] {
						r = append(r, ev{"skip", "", []*Term{lc.vals[k], n, g}}, ev{"skipLast", "", []*Term{lc.vals[k], n, g}})
					}
				}
				if s := head.frames[0].env[c.fn.Params[0]]; isStrTyp(c.fn.Params[0].Type()) {
					r = append(r, ev{"skip", "", []*Term{s, n, g}}, ev{"skipLast", "", []*Term{s, n, g}})
				}
				if len(c.fn.Params) > 1 && isStrTyp(c.fn.Params[1].Type()) {
					s := head.frames[0].env[c.fn.Params[1]]
					r = append(r, ev{"skip", "", []*Term{s, n, g}}, ev{"skipLast", "", []*Term{s, n, g}})
				}
			}
		}
	}
	return
}

func (c *leaf) backCheck(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
	d := lc.data.(*leafLoop)
	have := map[string]bool{}
	for _, v := range d.cands {
		have[v.key()] = true
	}
	for _, v := range c.made(e, lc, head, back) {
		if k := v.key(); !have[k] && !d.drop[k] {
			have[k] = true
			d.cands = append(d.cands, v)
			ch = true
		}
	}
	in := map[string]bool{}
	for _, v := range head.cl.(*evState).evs {
		in[v.key()] = true
	}
	for _, v := range d.cands {
		if !in[v.key()] {
			ch = ch || !d.drop[v.key()]
			continue
		}
		if d.drop[v.key()] || c.kept(e, lc, head, back, v) {
			continue
		}
		d.drop[v.key()] = true
		ch = true
	}
	return
}

// next gives a term over the variables of the head with their values after the iteration.
func (c *leaf) next(e *PEngine, lc *loopCtx, head, back *PState, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, q := range lc.phis {
		if lc.dropped[q] {
			m[e.val(head, q)] = e.val(back, q)
		}
	}
	return e.ts.subst(t, func(y *Term) *Term { return m[y] }, map[*Term]*Term{})
}

func (c *leaf) kept(e *PEngine, lc *loopCtx, head, back *PState, v ev) bool {
	n := make([]*Term, len(v.ts))
	for i, t := range v.ts {
		n[i] = c.next(e, lc, head, back, t)
	}
	switch v.kind {
	case "iterated":
		for _, w := range back.cl.(*evState).since(head.cl) {
			if w.kind == "iter" && w.ts[0] == v.ts[0] {
				m, _ := c.member(back, v.ts[0], w.ts[2])
				return m == 0
			}
		}
		return false
	case "scanned":
		m, ws := c.member(back, v.ts[0], v.ts[1])
		if m != 0 {
			return false
		}
		for _, w := range ws {
			if e.same(back, n[1], e.ts.addT(v.ts[1], w, 1)) {
				c.r.count("places_scanned", 1)
				return true
			}
		}
		return false
	case "down":
		m, _ := c.member(back, v.ts[0], v.ts[1])
		return m == 0 && c.noRanges(back) && e.same(back, n[1], c.add(v.ts[1], -1))
	case "lower":
		lo, _ := c.limits(back)
		for _, l := range lo {
			if e.le(back, n[0], l) {
				return true
			}
		}
		return false
	case "upper":
		_, up := c.limits(back)
		for _, u := range up {
			if e.le(back, u, n[0]) {
				return true
			}
		}
		return false
	case "under":
		d := e.ts.addT(n[0], v.ts[0], -1)
		return d.isInt() && d.n == 1 && n[1] == v.ts[1] && e.truth(back, e.ts.lt(v.ts[0], v.ts[1])) == 1
	case "skip", "left", "skipLast", "leftLast":
		last := strings.HasSuffix(v.kind, "Last")
		if d := e.ts.addT(n[1], v.ts[1], -1); !d.isInt() || d.n != 1 {
			return false
		}
		for _, dec := range c.rest(back, v) {
			w := c.width(dec)
			if !c.isNot0(back, w, dec.args[0]) {
				continue
			}
			switch {
			case v.kind[0] == 's' && e.same(back, n[2], e.ts.addT(v.ts[2], w, 1)):
				return true
			case v.kind[0] == 'l' && !last && e.sameSpan(back, n[2], c.tail(v.ts[2], w)),
				v.kind[0] == 'l' && last && e.sameSpan(back, n[2], c.head(v.ts[2], e.ts.addT(e.lenT(v.ts[2]), w, -1))):
				return true
			}
		}
		return false
	}
	return false
}

func (c *leaf) isNot0(st *PState, w, s *Term) bool {
	e := c.e
	return e.truth(st, e.ts.eq(w, e.ts.intc(0))) == 0 || e.truth(st, e.ts.lt(e.ts.intc(0), w)) == 1 || e.nonEmpty(st, s) == 1 || e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 0
}

// rest gives the calls which decode the next symbol of what an event leaves of its text.
func (c *leaf) rest(st *PState, v ev) (r []*Term) {
	e := c.e
	last := strings.HasSuffix(v.kind, "Last")
	var xs []*Term
	if v.kind[0] == 'l' {
		xs = append(xs, v.ts[2])
	} else {
		if last {
			xs = append(xs, c.head(v.ts[0], e.ts.addT(e.lenT(v.ts[0]), v.ts[2], -1)))
		} else {
			xs = append(xs, c.tail(v.ts[0], v.ts[2]))
			if v.ts[2].isInt() && v.ts[2].n == 0 {
				xs = append(xs, v.ts[0])
			}
		}
		for _, o := range st.cl.(*evState).evs {
			if o.kind == map[bool]string{true: "leftLast", false: "left"}[last] && o.ts[0] == v.ts[0] && o.ts[1] == v.ts[1] {
				xs = append(xs, o.ts[2])
			}
		}
	}
	seen := map[*Term]bool{}
	look := func(t *Term) bool {
		if t.op == "call" && !seen[t] && decodeKind(t) == map[bool]int{true: 2, false: 1}[last] {
			for _, x := range xs {
				if e.sameSpan(st, t.args[0], x) {
					seen[t] = true
					r = append(r, t)
					break
				}
			}
		}
		return false
	}
	for f := range st.facts {
		f.any(look)
	}
	for _, fr := range st.frames {
		for _, t := range fr.env {
			if t != nil {
				t.any(look)
			}
		}
	}
	return
}

// ---- ranges

// rangeAt: t is a limit of the range at a place of the list.
func (c *leaf) rangeAt(t *Term, name string) *Term {
	if !isField(t, nil, name) {
		return nil
	}
	if a := t.args[0].args[0]; a.op == "ia" && a.args[0] == c.rng {
		return a.args[1]
	}
	return nil
}

// limits: every range before lo, and every range behind up, is known not to hold the symbol (ranges are sorted and apart).
func (c *leaf) limits(st *PState) (lo, up []*Term) {
	e := c.e
	lo = append(lo, e.ts.intc(0))
	up = append(up, c.add(e.lenT(c.rng), -1))
	for f, v := range st.facts {
		if f.op != "lt" || !v {
			continue
		}
		if k := c.rangeAt(f.args[0], "Last"); k != nil && f.args[1] == c.sym {
			lo = append(lo, c.add(k, 1))
		}
		if k := c.rangeAt(f.args[1], "First"); k != nil && f.args[0] == c.sym {
			up = append(up, c.add(k, -1))
		}
	}
	for _, v := range st.cl.(*evState).evs {
		switch v.kind {
		case "lower":
			lo = append(lo, v.ts[0])
		case "upper":
			up = append(up, v.ts[0])
		}
	}
	// the range next to those which are excluded
	for f, v := range st.facts {
		if f.op != "lt" || !v {
			continue
		}
		if k := c.rangeAt(f.args[0], "Last"); k != nil && f.args[1] == c.sym {
			for _, u := range up {
				if u == k {
					up = append(up, c.add(k, -1))
					break
				}
			}
		}
		if k := c.rangeAt(f.args[1], "First"); k != nil && f.args[0] == c.sym {
			for _, l := range lo {
				if l == k {
					lo = append(lo, c.add(k, 1))
					break
				}
			}
		}
	}
	return
}

func (c *leaf) inRange(st *PState) bool {
	e := c.e
	ks := map[*Term]bool{}
	for f := range st.facts {
		f.any(func(t *Term) bool {
			for _, n := range []string{"First", "Last"} {
				if k := c.rangeAt(t, n); k != nil {
					ks[t.args[0].args[0]] = true
				}
			}
			return false
		})
	}
	pt := types.NewPointer(c.p.lookupType("pkg/utils.RuneRange"))
	for a := range ks {
		first, last := e.loadField(st, a, pt, "First"), e.loadField(st, a, pt, "Last")
		if e.le(st, first, c.sym) && e.le(st, c.sym, last) {
			return true
		}
	}
	return false
}

// ---- operations of the sets

func (c *leaf) set(fn *ssa.Function) {
	sig := fn.Signature
	recv := ""
	if sig.Recv() != nil {
		recv = strings.TrimPrefix(typName(sig.Recv().Type()), "*")
	}
	ps, rs := sig.Params(), sig.Results()
	res := func(ts ...types.BasicKind) bool {
		if rs.Len() != len(ts) {
			return false
		}
		for i, k := range ts {
			if b, ok := rs.At(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != k {
				return false
			}
		}
		return true
	}
	is := func(i int, k types.BasicKind) bool {
		if ps.Len() <= i {
			return false
		}
		b, ok := ps.At(i).Type().Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	text := ps.Len() == 1 && (is(0, types.String) || typName(ps.At(0).Type()) == "[]uint8" || typName(ps.At(0).Type()) == "[]byte")
	switch {
	case recv == "pkg/utils.ASCIISet" && ps.Len() == 1 && is(0, types.Uint8) && res(types.Bool):
		c.bits(fn)
	case recv == "" && ps.Len() == 1 && is(0, types.String) && rs.Len() == 2 && typName(rs.At(0).Type()) == "pkg/utils.ASCIISet":
		c.makeSet(fn)
	case recv == "pkg/utils.ASCIISet" && text && res(types.Int):
		c.index(fn, strings.Contains(fn.Name(), "Last"))
	case recv == "pkg/utils.RunesRanges" && text && res(types.Int, types.Int32, types.Int):
		c.index(fn, false)
	case recv == "pkg/utils.RunesRanges" && ps.Len() == 1 && is(0, types.Int32) && res(types.Bool):
		if fnName(fn) == rangesHas {
			c.search(fn)
		} else {
			c.contains(fn)
		}
	case recv == "pkg/utils.RunesRanges" && text && res(types.Int32, types.Int):
		c.ends(fn, strings.Contains(fn.Name(), "End"))
	case recv == "" && ps.Len() == 2 && is(0, types.String) && is(1, types.Int) && res(types.Int):
		c.skips(fn, strings.Contains(fn.Name(), "Last"))
	}
}

// mask: t is 1 shifted by the place of symbol x within a word of n bits.
func (c *leaf) mask(t, x *Term, n int64) bool {
	t = unconv(t)
	return t.op == "bin" && t.aux == "<<" && unconv(t.args[0]).isInt() && unconv(t.args[0]).n == 1 && c.within32(t.args[1], x, n)
}

func (c *leaf) within32(t, x *Term, n int64) bool {
	t = unconv(t)
	if t.op != "bin" || unconv(t.args[0]) != x && unconv(t.args[1]) != x {
		return false
	}
	k := unconv(t.args[1])
	return t.aux == "%" && k.isInt() && k.n == n || t.aux == "&" && (k.isInt() && k.n == n-1 || unconv(t.args[0]).isInt() && unconv(t.args[0]).n == n-1)
}

// word: a is the address of the word of set which holds symbol x; the number of its bits.
func (c *leaf) word(a, set, x *Term) int64 {
	if a.op != "ia" || a.args[0] != set {
		return 0
	}
	t := unconv(a.args[1])
	if t.op != "bin" || unconv(t.args[0]) != x || !unconv(t.args[1]).isInt() {
		return 0
	}
	n := wordBits(a)
	k := unconv(t.args[1]).n
	if t.aux == "/" && k == n || t.aux == ">>" && int64(1)<<k == n {
		return n
	}
	return 0
}

func wordBits(a *Term) int64 {
	if a.typ == nil {
		return 0
	}
	if pt, ok := a.typ.Underlying().(*types.Pointer); ok {
		if b, ok := pt.Elem().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return 8
			case types.Uint16:
				return 16
			case types.Uint32:
				return 32
			case types.Uint64:
				return 64
			}
		}
	}
	return 0
}

func unconv(t *Term) *Term {
	for t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// tested: t is the bit of symbol x in the set, or nil.
func (c *leaf) tested(t, set, x *Term) bool {
	t = unconv(t)
	if t.op != "bin" || t.aux != "&" {
		return false
	}
	for i := range 2 {
		a, b := unconv(t.args[i]), unconv(t.args[1-i])
		if a.op == "load" {
			if n := c.word(a.args[0], set, x); n != 0 && c.mask(b, x, n) {
				return true
			}
		}
		if a.op == "bin" && a.aux == ">>" && b.isInt() && b.n == 1 {
			if l := unconv(a.args[0]); l.op == "load" {
				if n := c.word(l.args[0], set, x); n != 0 && c.within32(a.args[1], x, n) {
					return true
				}
			}
		}
	}
	return false
}

func (c *leaf) bit(st *PState, set, x *Term) int {
	for f, v := range st.facts {
		switch f.op {
		case "eq":
			for i := range 2 {
				if a, b := f.args[i], f.args[1-i]; a.isInt() && c.tested(b, set, x) {
					if a.n == 0 {
						return 1 - factTruth(v)
					}
					if a.n == 1 && unconv(b).args[1].isInt() {
						return factTruth(v)
					}
					if a.n == 1 && unconv(b).args[0].isInt() {
						return factTruth(v)
					}
				} else if c.tested(a, set, x) && v {
					for j := range 2 {
						if t := unconv(a); t.args[j] == b && c.mask(b, x, 32) {
							return 1
						}
					}
				}
			}
		case "lt":
			if a := f.args[0]; a.isInt() && a.n == 0 && c.tested(f.args[1], set, x) {
				return factTruth(v)
			}
		}
	}
	return -1
}

// put: a store which adds symbol x to the set.
func (c *leaf) put(v ev, set, x *Term) bool {
	if v.kind != "store" || v.ts[0].op != "ia" {
		return false
	}
	n := c.word(v.ts[0], set, x)
	t := unconv(v.ts[1])
	if n == 0 || t.op != "bin" || t.aux != "|" {
		return false
	}
	for i := range 2 {
		if (t.args[i] == v.ts[2]) && c.mask(t.args[1-i], x, n) {
			return true
		}
	}
	return false
}

func (c *leaf) stores(cl *PClient) {
	c.e.readOnly = false
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op == "ia" {
			st.cl.(*evState).add("store", "", addr, val, e.load(st, addr, in.Val.Type()))
		}
	}
}

// bits: Contains and Add of a set of bytes.
func (c *leaf) bits(fn *ssa.Function) {
	cl := c.start(fn)
	e := c.e
	c.stores(cl)
	adds := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Store); ok {
				adds = true
			}
		}
	}
	if fn.Name() == "Add" {
		adds = true
	}
	st := e.Start(fn, &evState{})
	set, x := e.val(st, fn.Params[0]), e.val(st, fn.Params[1])
	for _, ex := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(ex.ret)
		for _, v := range []bool{true, false} {
			s := ex.st.clone()
			if !e.assume(s, ex.res[0], v) {
				continue
			}
			c.r.count("bit_tests", 1)
			puts, other := false, false
			for _, w := range s.cl.(*evState).evs {
				if c.put(w, set, x) {
					puts = true
				} else {
					other = true
				}
			}
			low := c.below(s, x)
			ok := false
			switch {
			case other:
			case adds && v:
				ok = puts && low == 1
			case adds:
				ok = !puts && low == 0
			case v:
				ok = !puts && c.bit(s, set, x) == 1
			default:
				ok = !puts && (c.bit(s, set, x) == 0 || low == 0)
			}
			if !ok {
				c.dump(s)
				e.fail("bit", fnName(fn), pos, "the set of bytes answers %v, and the bit of the byte was not found (or not set) so", v)
			}
		}
	}
	c.done()
}

// makeSet: every byte of a text is added to a new set, or one is no ASCII.
func (c *leaf) makeSet(fn *ssa.Function) {
	cl := c.start(fn)
	e := c.e
	c.stores(cl)
	st := e.Start(fn, &evState{})
	s := e.val(st, fn.Params[0])
	cl.LoopHead = nil
	cl.BackCheck = nil
	type made struct {
		at, set *Term
		bad     bool
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		if d, _ := lc.data.(*made); d != nil && d.at != nil && !d.bad {
			head.cl.(*evState).add("added", "", s, d.at, d.set)
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		d, _ := lc.data.(*made)
		if d == nil {
			d = &made{}
			lc.data = d
		}
		if d.bad {
			return
		}
		for i, q := range lc.phis {
			if !lc.dropped[q] || !isIntTyp(q.Type()) {
				continue
			}
			h := e.val(head, q)
			if h.isInt() {
				continue // the first round
			}
			for _, k := range []int64{0, 1} {
				at := c.add(h, k)
				if z := c.add(lc.vals[i], k); !z.isInt() || z.n != 0 || e.val(back, q) != c.add(h, 1) || d.at != nil && d.at != at {
					continue
				}
				for _, v := range back.cl.(*evState).since(head.cl) {
					if v.kind != "store" {
						continue
					}
					set := v.ts[0].args[0]
					var x *Term
					v.ts[0].args[1].any(func(t *Term) bool {
						if c.isByteAt(back, t, s, at) {
							x = t
						}
						return false
					})
					if x != nil && c.put(v, set, x) && c.below(back, x) == 1 {
						if d.at == nil {
							d.at, d.set = at, set
							return true
						}
						return false
					}
				}
			}
		}
		if d.at != nil {
			d.bad = true
			return true
		}
		return false
	}
	for _, x := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(x.ret)
		for _, v := range []bool{true, false} {
			q := x.st.clone()
			if !e.assume(q, x.res[1], v) {
				continue
			}
			c.r.count("bit_tests", 1)
			ok := false
			if v {
				ok = e.nonEmpty(q, s) == 0
				for _, w := range q.cl.(*evState).evs {
					if w.kind == "added" && e.le(q, e.lenT(s), w.ts[1]) && w.ts[2].op == "alloc" {
						ok = true
					}
				}
			} else {
				for f := range q.facts {
					f.any(func(t *Term) bool {
						if t.op == "idx" && t.args[0] == s && c.below(q, t) == 0 {
							ok = true
						}
						return false
					})
				}
			}
			if !ok {
				c.dump(q)
				e.fail("bit", fnName(fn), pos, "a set of bytes is made (%v), and not every byte of the text is known to be added (or to be none)", v)
			}
		}
	}
	c.done()
}

func (c *leaf) class(st *PState, recv *Term, t types.Type) {
	e := c.e
	n := strings.TrimPrefix(typName(t), "*")
	pt := t
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		pt = types.NewPointer(t)
	}
	field := func(base *Term, pt types.Type, name string) *Term {
		s, ok := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; ok && i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return e.fa(base, pt, i)
			}
		}
		return nil
	}
	rsT := types.NewPointer(c.p.lookupType("pkg/utils.RunesRanges"))
	switch n {
	case "pkg/utils.ASCIISet":
		c.cls = &symClass{ascii: recv}
		return
	case "pkg/items.RunesRanges":
		recv = field(recv, pt, "RunesRanges")
	}
	if recv == nil {
		return
	}
	c.cls = &symClass{ascii: field(recv, rsT, "ASCII"), rs: recv}
	c.cls.list = e.loadField(st, recv, rsT, "UnicodeRanges")
	if c.cls.ascii == nil || c.cls.list == nil {
		c.r.fail("anchor", "pkg/utils.RunesRanges", "-", "the fields of a class were not found")
		c.cls = nil
	}
}

// found: pos is the place of the first member, width its length in bytes.
func (c *leaf) found(st *PState, s, pos, width *Term, last bool) bool {
	e := c.e
	m, ws := c.member(st, s, pos)
	if m != 1 {
		return false
	}
	if width != nil {
		ok := false
		for _, w := range ws {
			ok = ok || e.same(st, w, width)
		}
		if !ok {
			return false
		}
	}
	if !last && c.is(st, pos, 0) || last && e.same(st, c.add(pos, 1), e.lenT(s)) {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == map[bool]string{false: "scanned", true: "down"}[last] && v.ts[0] == s && e.same(st, v.ts[1], pos) {
			return true
		}
	}
	return false
}

// absent: there is no member in s (or no valid text from some place on).
func (c *leaf) absent(st *PState, s *Term) bool {
	e := c.e
	if e.nonEmpty(st, s) == 0 || e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 1 {
		return true
	}
	for _, v := range append([]ev{{"scanned", "", []*Term{s, e.ts.intc(0)}}}, st.cl.(*evState).evs...) {
		if v.kind == "scanned" && v.ts[0] == s {
			if e.le(st, e.lenT(s), v.ts[1]) {
				return true
			}
			if m, _ := c.member(st, s, v.ts[1]); m == 2 {
				return true
			}
		}
		if v.kind == "iter" && v.ts[0] == s && e.truth(st, v.ts[1]) == 0 {
			for _, w := range st.cl.(*evState).evs {
				if w.kind == "iterated" && w.ts[0] == s {
					return true
				}
			}
		}
		if v.kind == "down" && v.ts[0] == s && e.le(st, c.add(v.ts[1], 1), e.ts.intc(0)) {
			return true
		}
	}
	return false
}

func (c *leaf) judge(x *PExit, pos *Term, yes func(st *PState) bool, no func(st *PState) bool, what string) {
	e := c.e
	if c.impossible(x.st) {
		return
	}
	if b := e.bounds(x.st, pos); !(b.hasH && b.hi < 0) && yes(x.st) {
		c.r.count("found_paths", 1)
		return
	}
	for _, v := range []bool{true, false} {
		s := x.st.clone()
		if !e.assume(s, e.ts.eq(pos, e.ts.intc(-1)), v) {
			continue
		}
		if v {
			c.r.count("absent_paths", 1)
			if !no(s) {
				c.dump(s)
				e.fail("absent", fnName(c.fn), c.p.instrPos(x.ret), "%s is refused, and it was not found to be absent", what)
			}
			continue
		}
		if b := e.bounds(s, pos); b.hasH && b.hi < 0 {
			continue
		}
		c.r.count("found_paths", 1)
		if !yes(s) {
			c.dump(s)
			e.fail("found", fnName(c.fn), c.p.instrPos(x.ret), "%s is accepted as %s, and this was not found to be its place", what, pos)
		}
	}
}

// index: the first (or last) place of a member.
func (c *leaf) index(fn *ssa.Function, last bool) {
	c.start(fn)
	e := c.e
	st := e.Start(fn, &evState{})
	c.class(st, e.val(st, fn.Params[0]), fn.Params[0].Type())
	s := e.val(st, fn.Params[1])
	for _, x := range e.RunFrom(fn, st) {
		c.r.count("sets_scanned", 1)
		var w *Term
		if len(x.res) == 3 {
			w = x.res[2]
		}
		c.judge(x, x.res[0], func(st *PState) bool { return c.found(st, s, x.res[0], w, last) }, func(st *PState) bool { return c.absent(st, s) }, "the set")
	}
	c.done()
}

// atStart: s begins with a member of the class of this width.
func (c *leaf) atStart(st *PState, s, w *Term) bool {
	m, ws := c.member(st, s, c.e.ts.intc(0))
	if m != 1 {
		return false
	}
	for _, x := range ws {
		if c.e.same(st, x, w) {
			return true
		}
	}
	return false
}

func (c *leaf) notAtStart(st *PState, s *Term) bool {
	e := c.e
	if e.nonEmpty(st, s) == 0 || e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 1 {
		return true
	}
	m, _ := c.member(st, s, e.ts.intc(0))
	return m == 0 || m == 2
}

// atEnd: s ends with a member of the class, which begins at pos.
func (c *leaf) atEnd(st *PState, s, pos *Term) bool {
	e := c.e
	end := c.add(e.lenT(s), -1)
	if c.has(st, func(t *Term) bool { return c.isByteAt(st, t, s, end) }) == 1 && e.same(st, pos, end) {
		return true
	}
	for _, d := range c.lasts(st, s) {
		if c.symbol(st, d, -1) == 1 && (e.same(st, pos, e.ts.addT(e.lenT(s), c.width(d), -1)) || c.below(st, c.rune_(d)) == 1 && e.same(st, pos, end)) {
			return true
		}
	}
	return false
}

func (c *leaf) lasts(st *PState, s *Term) (r []*Term) {
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.op == "call" && decodeKind(t) == 2 && c.e.sameSpan(st, t.args[0], s) {
				r = append(r, t)
			}
			return false
		})
	}
	return
}

func (c *leaf) notAtEnd(st *PState, s *Term) bool {
	e := c.e
	if e.nonEmpty(st, s) == 0 || e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 1 {
		return true
	}
	end := c.add(e.lenT(s), -1)
	is := func(t *Term) bool { return c.isByteAt(st, t, s, end) }
	if c.has(st, is) == 0 {
		for f := range st.facts {
			if f.any(func(t *Term) bool { return t.op == "idx" && is(t) && c.below(st, t) == 1 }) {
				return true
			}
		}
	}
	for _, d := range c.lasts(st, s) {
		if k := c.symbol(st, d, -1); k == 0 || k == 2 {
			return true
		}
	}
	return false
}

// ends: the symbol at the begin (or the end) of a text.
func (c *leaf) ends(fn *ssa.Function, last bool) {
	c.start(fn)
	e := c.e
	st := e.Start(fn, &evState{})
	c.class(st, e.val(st, fn.Params[0]), fn.Params[0].Type())
	s := e.val(st, fn.Params[1])
	for _, x := range e.RunFrom(fn, st) {
		w := x.res[1]
		if last {
			c.judge(x, w, func(st *PState) bool { return c.atEnd(st, s, w) }, func(st *PState) bool { return c.notAtEnd(st, s) }, "the set")
		} else {
			c.judge(x, w, func(st *PState) bool { return c.atStart(st, s, w) }, func(st *PState) bool { return c.notAtStart(st, s) }, "the set")
		}
	}
	c.done()
}

// contains: a symbol is in the class.
func (c *leaf) contains(fn *ssa.Function) {
	c.start(fn)
	e := c.e
	st := e.Start(fn, &evState{})
	c.class(st, e.val(st, fn.Params[0]), fn.Params[0].Type())
	r := e.val(st, fn.Params[1])
	for _, x := range e.RunFrom(fn, st) {
		for _, v := range []bool{true, false} {
			s := x.st.clone()
			if !e.assume(s, x.res[0], v) {
				continue
			}
			c.r.count("found_paths", 1)
			low := c.below(s, r)
			h := c.has(s, func(t *Term) bool { return t.op == "conv" && t.args[0] == r && low == 1 })
			w := c.within(s, r)
			ok := h == 1 || w == 1 && low != 1
			if !v {
				ok = low == 1 && h == 0 || low == 0 && w == 0
			}
			if !ok {
				c.dump(s)
				e.fail("contains", fnName(fn), c.p.instrPos(x.ret), "the class answers %v, and the symbol was not found (or not missed) in it", v)
			}
		}
	}
	c.done()
}

// search: a symbol is in one of the sorted ranges.
func (c *leaf) search(fn *ssa.Function) {
	c.start(fn)
	e := c.e
	st := e.Start(fn, &evState{})
	c.rng = e.loadField(st, e.val(st, fn.Params[0]), fn.Params[0].Type(), "UnicodeRanges")
	c.sym = e.val(st, fn.Params[1])
	for _, x := range e.RunFrom(fn, st) {
		for _, v := range []bool{true, false} {
			s := x.st.clone()
			if !e.assume(s, x.res[0], v) {
				continue
			}
			c.r.count("ranges_searched", 1)
			ok := v && c.inRange(s) || !v && e.nonEmpty(s, c.rng) == 0
			if !v && !ok {
				lo, up := c.limits(s)
				for _, l := range lo {
					for _, u := range up {
						ok = ok || e.le(s, c.add(u, 1), l)
					}
				}
			}
			if !ok {
				c.dump(s)
				e.fail("ranges", fnName(fn), c.p.instrPos(x.ret), "the search of the ranges answers %v, and the symbol was not found in one (or not missed in all of them)", v)
			}
		}
	}
	c.done()
}

// skips: n symbols at the begin (or the end) of a text.
func (c *leaf) skips(fn *ssa.Function, last bool) {
	c.start(fn)
	c.skip = true
	e := c.e
	st := e.Start(fn, &evState{})
	s, n := e.val(st, fn.Params[0]), e.val(st, fn.Params[1])
	c.lim = n
	for _, x := range e.RunFrom(fn, st) {
		c.r.count("symbols_skipped", 1)
		c.judge(x, x.res[0], func(st *PState) bool { return c.skipped(st, s, n, x.res[0], last) }, func(st *PState) bool { return c.short(st, s, n, last) }, "a run of symbols")
	}
	c.done()
}

func (c *leaf) skipped(st *PState, s, n, res *Term, last bool) bool {
	e := c.e
	if e.le(st, n, e.ts.intc(0)) {
		return !last && c.is(st, res, 0) || last && e.same(st, res, e.lenT(s))
	}
	for _, v := range c.skipEvs(st, s, last) {
		// exactly n: counted by one while below it
		if !e.same(st, v.ts[1], n) && !(e.le(st, n, v.ts[1]) && c.below1(st, v.ts[1], n)) {
			continue
		}
		t := v.ts[2]
		switch v.kind {
		case "skipLast":
			t = e.ts.addT(e.lenT(s), t, -1)
		case "left":
			t = e.ts.addT(e.lenT(s), e.lenT(t), -1)
		case "leftLast":
			t = e.lenT(t)
		}
		if e.same(st, t, res) {
			return true
		}
	}
	return false
}

// below1: the number counted does not exceed the bound, by the condition of the loop.
func (c *leaf) below1(st *PState, k, n *Term) bool {
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "under" && v.ts[0] == k && v.ts[1] == n {
			return true
		}
	}
	return false
}

func (c *leaf) skipEvs(st *PState, s *Term, last bool) (r []ev) {
	for _, v := range st.cl.(*evState).evs {
		if (strings.HasPrefix(v.kind, "skip") || strings.HasPrefix(v.kind, "left")) && strings.HasSuffix(v.kind, "Last") == last && v.ts[0] == s {
			r = append(r, v)
		}
	}
	return
}

// short: the text ends before n symbols.
func (c *leaf) short(st *PState, s, n *Term, last bool) bool {
	e := c.e
	for _, v := range c.skipEvs(st, s, last) {
		if e.truth(st, e.ts.lt(v.ts[1], n)) != 1 {
			continue
		}
		for _, d := range c.rest(st, v) {
			if c.is(st, c.width(d), 0) || e.le(st, c.width(d), e.ts.intc(0)) {
				return true
			}
		}
		switch {
		case v.kind[0] == 'l' && (e.nonEmpty(st, v.ts[2]) == 0 || e.truth(st, e.ts.eq(v.ts[2], e.ts.strc(""))) == 1),
			v.kind[0] == 's' && e.le(st, e.lenT(s), v.ts[2]):
			return true
		}
	}
	return false
}

// ---- items

// flags says how an item takes part in a search: by method, for each kind.
var itemFlags = map[string]map[string]string{
	"pkg/items.Any":         {"Find": "FindForwarded", "Match": "FindDone", "MatchLast": "FindNotSupported"},
	"pkg/items.Star":        {"Find": "FindStar", "Match": "FindStar", "MatchLast": "FindNotSupported"},
	"pkg/items.StringList":  {"Find": "FindList", "Match": "FindList", "MatchLast": "FindNotSupported"},
	"pkg/items.Group":       {"Find": "FindGroup", "Match": "FindGroup", "MatchLast": "FindNotSupported"},
	"pkg/items.Chain":       {"MatchLast": "FindNotSupported"},
	"pkg/items.String":      {"Find": "FindDone", "Match": "FindDone", "MatchLast": "FindDone"},
	"pkg/items.Byte":        {"Find": "FindDone", "Match": "FindDone", "MatchLast": "FindDone"},
	"pkg/items.Rune":        {"Find": "FindDone", "Match": "FindDone", "MatchLast": "FindDone"},
	"pkg/items.RunesRanges": {"Find": "FindDone", "Match": "FindDone", "MatchLast": "FindDone"},
}

func (c *leaf) item(fn *ssa.Function, m string) {
	cl := c.start(fn)
	e := c.e
	kind := strings.TrimPrefix(typName(fn.Signature.Recv().Type()), "*")
	st := e.Start(fn, &evState{})
	recv, s := e.val(st, fn.Params[0]), e.val(st, fn.Params[1])
	var text *Term // what the item stands for, or its byte
	switch kind {
	case "pkg/items.String":
		text = e.loadField(st, recv, fn.Params[0].Type(), "S")
	case "pkg/items.Byte", "pkg/items.Rune":
		text = recv
	case "pkg/items.StringList":
		if m == "MatchN" || m == "FindN" {
			l := e.loadField(st, recv, fn.Params[0].Type(), "Vals")
			text = e.load(st, e.ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), l, e.val(st, fn.Params[2])), types.Typ[types.String])
		}
	case "pkg/items.RunesRanges":
		c.class(st, recv, fn.Params[0].Type())
	case "pkg/items.Any", "pkg/items.Star":
		c.skip, c.lim = true, recv
	case "pkg/items.Group", "pkg/items.Chain":
	default:
		c.r.Coverage["kinds_not_known"] = append(toStrings(c.r.Coverage["kinds_not_known"]), kind)
		return
	}
	_ = cl
	for _, x := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(x.ret)
		if fl, ok := itemFlags[kind][m]; ok {
			want, ok := c.p.constInt("pkg/items", fl)
			if !ok {
				c.r.fail("anchor", "pkg/items."+fl, "-", "the constant was not found")
			} else if got := x.res[len(x.res)-1]; e.truth(x.st, e.ts.eq(got, e.ts.intc(want))) != 1 {
				e.fail("flag", fnName(fn), pos, "the item says %s of its %s, %s is expected", got, m, fl)
			}
		}
		var yes, no func(st *PState) bool
		r0 := x.res[0]
		switch {
		case c.cls != nil && m == "Find":
			yes = func(st *PState) bool { return c.found(st, s, r0, x.res[1], false) }
			no = func(st *PState) bool { return c.absent(st, s) }
		case c.cls != nil && m == "Match":
			yes = func(st *PState) bool { return c.atStart(st, s, r0) }
			no = func(st *PState) bool { return c.notAtStart(st, s) }
		case c.cls != nil:
			yes = func(st *PState) bool { return c.atEnd(st, s, r0) }
			no = func(st *PState) bool { return c.notAtEnd(st, s) }
		case c.skip && m == "Match":
			yes = func(st *PState) bool { return c.skipped(st, s, recv, r0, false) }
			no = func(st *PState) bool { return c.short(st, s, recv, false) }
		case c.skip && m == "Find":
			if kind == "pkg/items.Star" {
				r0 = x.res[1]
			} else {
				r0 = x.res[1]
				for _, v := range []bool{true, false} {
					q := x.st.clone()
					if e.assume(q, e.ts.eq(r0, e.ts.intc(-1)), v) && (v && !c.is(q, x.res[0], -1) || !v && !c.is(q, x.res[0], 0)) {
						c.dump(q)
						e.fail("found", fnName(fn), pos, "the place of the item is %s", x.res[0])
					}
				}
			}
			yes = func(st *PState) bool { return c.skipped(st, s, recv, r0, false) }
			no = func(st *PState) bool { return c.short(st, s, recv, false) }
		case text != nil && (m == "Match" || m == "MatchN"):
			yes = func(st *PState) bool { return c.prefix(st, s, text) == 1 && c.isLen(st, r0, s, text, false) }
			no = func(st *PState) bool { return c.prefix(st, s, text) == 0 }
		case text != nil && m == "MatchLast":
			yes = func(st *PState) bool {
				for _, w := range c.lens(st, s, text, true) {
					if e.same(st, e.flatLen(r0), e.flatLen(e.ts.addT(e.lenT(s), w, -1))) {
						return c.suffix(st, s, text) == 1
					}
				}
				return false
			}
			no = func(st *PState) bool { return c.suffix(st, s, text) == 0 }
		case text != nil && (m == "Find" || m == "FindN"):
			var call *Term
			for f := range x.st.facts {
				f.any(func(t *Term) bool {
					if c.isIndex(x.st, t, s, text) {
						call = t
					}
					return false
				})
			}
			yes = func(st *PState) bool {
				return call != nil && e.same(st, r0, call) && c.isLen(st, x.res[1], c.tail(s, call), text, true)
			}
			no = func(st *PState) bool {
				return call != nil && e.truth(st, e.ts.lt(call, e.ts.intc(0))) == 1 || call != nil && c.is(st, call, -1)
			}
		default:
			continue
		}
		c.judge(x, r0, yes, no, "the item")
	}
	c.done()
}

// isIndex: the call gives the first place of the item's text in s.
func (c *leaf) isIndex(st *PState, t, s, text *Term) bool {
	if t.op != "call" || len(t.args) != 2 || t.args[0] != s {
		return false
	}
	switch t.aux {
	case "strings.Index":
		return t.args[1] == text || t.args[1].op == "conv" && t.args[1].args[0] == text && typName(text.typ) == "pkg/items.Rune"
	case "strings.IndexByte":
		return unconv(t.args[1]) == text && typName(text.typ) == "pkg/items.Byte"
	case "strings.IndexRune":
		return unconv(t.args[1]) == text
	}
	return false
}

// lens gives the terms of the length of the item's text, when s begins (ends) with it.
func (c *leaf) lens(st *PState, s, text *Term, last bool) (r []*Term) {
	e := c.e
	switch typName(text.typ) {
	case "pkg/items.Byte":
		return []*Term{c.one()}
	case "pkg/items.Rune":
		if e.truth(st, e.ts.eq(text, e.ts.intc(0xFFFD))) == 0 {
			// an invalid byte is decoded as this one
			r = append(r, e.ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], text))
		}
		seen := map[*Term]bool{}
		look := func(t *Term) bool {
			if t.op == "call" && decodeKind(t) == map[bool]int{true: 2, false: 1}[last] && !seen[t] && e.sameSpan(st, t.args[0], s) {
				seen[t] = true
				r = append(r, c.width(t))
			}
			return false
		}
		for f := range st.facts {
			f.any(look)
		}
		for _, fr := range st.frames {
			for _, t := range fr.env {
				if t != nil {
					t.any(look)
				}
			}
		}
		return
	}
	return []*Term{e.lenT(text)}
}

func (c *leaf) isLen(st *PState, w, s, text *Term, tail bool) bool {
	for _, l := range c.lens(st, s, text, false) {
		if c.e.same(st, w, l) {
			return true
		}
	}
	return false
}

func (c *leaf) prefix(st *PState, s, text *Term) int { return c.affix(st, s, text, false) }
func (c *leaf) suffix(st *PState, s, text *Term) int { return c.affix(st, s, text, true) }

// affix: the text begins (ends) with what the item stands for.
func (c *leaf) affix(st *PState, s, text *Term, last bool) int {
	e := c.e
	kind := typName(text.typ)
	if kind != "pkg/items.Byte" && kind != "pkg/items.Rune" {
		a := &accepter{p: c.p, r: c.r, e: e}
		n := "HasPrefix"
		if last {
			n = "HasSuffix"
		}
		return a.affix(st, n, s, text)
	}
	if e.nonEmpty(st, s) == 0 || e.truth(st, e.ts.eq(s, e.ts.strc(""))) == 1 || e.le(st, e.lenT(s), e.ts.intc(0)) {
		return 0
	}
	at := e.ts.intc(0)
	if last {
		at = c.add(e.lenT(s), -1)
	}
	for f, v := range st.facts {
		if f.op == "call" && f.aux == map[bool]string{false: "strings.HasPrefix", true: "strings.HasSuffix"}[last] && f.args[0] == s && f.args[1].op == "conv" && f.args[1].args[0] == text && kind == "pkg/items.Rune" {
			return factTruth(v)
		}
		if f.op != "eq" {
			continue
		}
		for i := range 2 {
			a, b := unconv(f.args[i]), f.args[1-i]
			if a != text {
				continue
			}
			b = unconv(b)
			if kind == "pkg/items.Byte" && c.isByteAt(st, b, s, at) {
				return factTruth(v)
			}
			if kind == "pkg/items.Rune" && b.op == "ext" && b.aux == "0" && b.args[0].op == "call" && decodeKind(b.args[0]) == map[bool]int{false: 1, true: 2}[last] && e.sameSpan(st, b.args[0].args[0], s) {
				return factTruth(v)
			}
		}
	}
	if kind == "pkg/items.Rune" {
		for f := range st.facts {
			bad := false
			f.any(func(t *Term) bool {
				if t.op == "call" && decodeKind(t) == map[bool]int{false: 1, true: 2}[last] && e.sameSpan(st, t.args[0], s) && (c.is(st, c.rune_(t), runeError) || c.is(st, c.width(t), 0)) {
					bad = true
				}
				return false
			})
			if bad {
				return 0
			}
		}
	}
	return -1
}
