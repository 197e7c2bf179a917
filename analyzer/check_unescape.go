package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = func(p *Prog, tier string) *Result { return checkUnescape(p) }
}

// unescaper decides C28: a text is unescaped symbol by symbol.
type unescaper struct {
	piecer
	sets map[*ssa.Global]string
	s    *Term
	rest *Term // the text at the place of a step, if a loop keeps it
}

type escLoop struct {
	i, rest *ssa.Phi
	lo      *Term // where the loop begins
}

func checkUnescape(p *Prog) *Result {
	c := &unescaper{sets: map[*ssa.Global]string{}}
	c.p, c.r = p, newResult()
	for _, f := range p.funcs {
		if f.Pkg != nil && rel(f.Pkg.Pkg.Path()) == "pkg/escape" && f.Name() == "init" {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						g, _ := s.Addr.(*ssa.Global)
						call, _ := s.Val.(*ssa.Call)
						if g != nil && call != nil && len(call.Call.Args) == 1 {
							if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
								c.sets[g] = constant.StringVal(k.Value)
							}
						}
					}
				}
			}
		}
	}
	for _, n := range []string{"Unescape", "UnescapeTo", "UnescapeNameTo"} {
		fn := p.lookupFunc("pkg/escape." + n)
		if fn == nil {
			c.r.fail("anchor", "pkg/escape."+n, "-", "the operation was not found")
			continue
		}
		c.unescape(fn)
	}
	c.r.need("obligations", 30)
	return c.r
}

// firstSpecial: t is the place of the first % or + of the text, or -1.
func (c *unescaper) firstSpecial(t *Term) bool {
	if t.op != "call" || len(t.args) != 2 {
		return false
	}
	switch {
	case t.aux == "strings.IndexAny":
		return t.args[0] == c.s && t.args[1].isStr() && bothIn(constantString(t.args[1]))
	case t.aux == "set.Index":
		return t.args[1] == c.s && t.args[0].isStr() && bothIn(constantString(t.args[0]))
	}
	return false
}

func (c *unescaper) unescape(fn *ssa.Function) {
	c.open(fn)
	e := c.e
	ts := e.ts
	cl := e.cl
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee == nil {
			return false, nil
		}
		n := fnName(callee)
		if strings.HasPrefix(n, "(*pkg/utils.ASCIISet).Index") && len(args) == 2 {
			a := ts.strc("")
			for g, set := range c.sets {
				if args[0].op == "global" && args[0].aux == g.String() || args[0].op == "load" && args[0].args[0].op == "global" && args[0].args[0].aux == g.String() {
					a = ts.strc(set)
				}
			}
			r := ts.mk("call", "set.Index", types.Typ[types.Int], a, args[1])
			e.assume(st, ts.lt(r, ts.intc(-1)), false)
			return true, r
		}
		if !strings.HasPrefix(n, "(*strings.Builder).") {
			return false, nil
		}
		switch callee.Name() {
		case "WriteString":
			c.add(st, "w", "", args[0], args[1])
		case "WriteByte":
			c.add(st, "w", "", args[0], c.chr(args[1]))
		case "Len":
			r := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name(), types.Typ[types.Int])
			c.add(st, "mark", "", args[0], r)
			return true, r
		case "String":
			r := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name()+".built", types.Typ[types.String])
			c.add(st, "built", "", args[0], r)
			return true, r
		case "Grow":
		default:
			c.ok(false, "written", c.p.instrPos(in), "the builder is used in another way than to add text to it")
		}
		if callee.Signature.Results().Len() == 0 {
			return true, nil
		}
		return true, e.fresh(st, "sym", st.top().id+"/"+in.Value().Name(), in.Value().Type())
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*escLoop)
		if d == nil {
			d = &escLoop{}
			lc.data = d
			for i, q := range lc.phis {
				if isIntTyp(q.Type()) && d.i == nil {
					d.i, d.lo = q, lc.vals[i]
				}
			}
			for i, q := range lc.phis { // or the rest of the text
				if isStrTyp(q.Type()) && d.i == nil && d.rest == nil {
					if x, a, b := e.span(lc.vals[i]); x == c.s && b == e.lenT(c.s) {
						d.rest, d.lo = q, a
					}
				}
			}
		}
		if d.rest != nil {
			at := e.fresh(head, "sym", head.top().id+"/"+d.rest.Name()+".at", types.Typ[types.Int])
			e.assume(head, ts.lt(at, ts.intc(0)), false)
			e.assume(head, ts.lt(e.lenT(c.s), at), false)
			head.top().env[d.rest] = ts.mk("slice", "", types.Typ[types.String], c.s, at, e.none())
			c.add(head, "loop", "", d.lo, at)
		} else if d.i != nil {
			c.add(head, "loop", "", d.lo, e.val(head, d.i))
			e.assume(head, ts.lt(e.val(head, d.i), ts.intc(0)), false)
		}
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*escLoop)
		pos := c.p.pos(fn.Pos())
		var h, w *Term
		c.rest = nil
		switch {
		case d.rest != nil:
			c.rest = e.val(head, d.rest)
			_, a, _ := e.span(e.val(head, d.rest))
			x, b, end := e.span(e.val(back, d.rest))
			if x != c.s || end != e.lenT(c.s) {
				c.ok(false, "step", pos, "a step leaves another text than the rest of it (%s)", e.val(back, d.rest))
				return
			}
			h, w = a, ts.addT(b, a, -1)
		case d.i != nil:
			h = e.val(head, d.i)
			w = ts.addT(e.val(back, d.i), h, -1)
		default:
			c.ok(false, "step", pos, "the loop has no place in the text")
			return
		}
		n0 := len(e.finds)
		var ws []*Term
		var sb *Term
		for _, v := range c.since(back) {
			if v.kind == "w" {
				ws = append(ws, v.ts[1])
				c.ok(sb == nil || sb == v.ts[0], "written", pos, "two builders are written")
				sb = v.ts[0]
			}
		}
		c.step(back, h, w, ws, pos)
		if len(e.finds) > n0 {
			c.show(back)
		}
	}
	st := e.Start(fn, &evState{})
	for _, q := range fn.Params {
		if isStrTyp(q.Type()) {
			c.s = e.val(st, q)
		}
	}
	for _, x := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		st, pos := x.st, c.p.instrPos(x.ret)
		c.r.count("return_paths", 1)
		c.result(st, x.res[0], "", pos)
		if len(x.res) > 1 {
			c.result(st, x.res[1], "__name__=", pos)
		}
		if len(e.finds) > n0 {
			c.show(st)
		}
	}
	c.close()
}

func (c *unescaper) at(i *Term, k int64) *Term {
	e := c.e
	if c.rest != nil {
		return e.ts.mk("idx", "", types.Typ[types.Byte], c.rest, e.ts.intc(k))
	}
	return e.ts.mk("idx", "", types.Typ[types.Byte], c.s, e.ts.addT(i, e.ts.intc(k), 1))
}

var hexes = [][3]int64{{'0', '9', 0}, {'a', 'f', 10}, {'A', 'F', 10}}

// hex: whether a byte is a hexadecimal digit, and the range of it.
func (c *unescaper) hex(st *PState, b *Term) (k int, r [3]int64) {
	e := c.e
	lo, hi := int64(0), int64(255)
	bd := e.bounds(st, b)
	if bd.hasL && bd.lo > lo {
		lo = bd.lo
	}
	if bd.hasH && bd.hi < hi {
		hi = bd.hi
	}
	out := true
	for _, h := range hexes {
		if lo >= h[0] && hi <= h[1] {
			return 1, h
		}
		out = out && (hi < h[0] || lo > h[1])
	}
	if out {
		return 0, r
	}
	return -1, r
}

// step: a step of the loop at the place i takes w bytes and writes ws.
func (c *unescaper) step(st *PState, i, w *Term, ws []*Term, pos string) {
	e := c.e
	ts := e.ts
	is := func(b byte) int { return e.truth(st, ts.eq(c.at(i, 0), ts.intc(int64(b)))) }
	if e.truth(st, ts.lt(i, e.lenT(c.s))) != 1 && (c.rest == nil || e.truth(st, ts.eq(i, e.lenT(c.s))) != 0) {
		c.ok(false, "step", pos, "a step is made behind the text")
		return
	}
	if !w.isInt() {
		c.ok(false, "step", pos, "it is not known how many bytes a step takes (%s)", w)
		return
	}
	if len(ws) != 1 {
		c.ok(false, "step", pos, "a step writes more or less than one symbol")
		return
	}
	t := ws[0]
	chr := func(b byte) bool { return t == c.chr(ts.intc(int64(b))) || t.isStr() && constantString(t) == string(b) }
	self := func() bool {
		return t == c.chr(c.at(i, 0)) || c.sameTexts(st, []*Term{t}, []*Term{ts.mk("slice", "", types.Typ[types.String], c.s, i, ts.addT(i, ts.intc(1), 1))})
	}
	two := ts.addT(i, ts.intc(2), 1)
	inside := e.truth(st, ts.lt(two, e.lenT(c.s)))
	if inside < 0 && e.le(st, e.lenT(c.s), two) {
		inside = 0
	}
	h1, r1 := c.hex(st, c.at(i, 1))
	h2, r2 := c.hex(st, c.at(i, 2))
	switch {
	case is('%') == 1 && w.n == 3:
		c.ok(inside == 1 && h1 == 1 && h2 == 1, "escape", pos, "three bytes are taken as an escaped one and may not be %% and two hexadecimal digits")
		if h1 == 1 && h2 == 1 {
			a := ts.addT(c.at(i, 1), ts.intc(r1[2]-r1[0]), 1)
			b := ts.addT(c.at(i, 2), ts.intc(r2[2]-r2[0]), 1)
			c.ok(c.isByte(t, a, b), "escape", pos, "another byte than the one of the two hexadecimal digits is written (%s)", t)
		}
	case is('%') == 1:
		c.ok(w.n == 1 && (chr('%') || self()), "escape", pos, "%% without two hexadecimal digits takes %d bytes and writes %s", w.n, t)
		c.ok(inside == 0 || h1 == 0 || h2 == 0, "escape", pos, "%% is written as it is and may be followed by two hexadecimal digits")
	case is('+') == 1:
		c.ok(w.n == 1 && chr(' '), "plus", pos, "+ takes %d bytes and writes %s", w.n, t)
	case is('%') == 0 && is('+') == 0:
		c.ok(w.n == 1 && self(), "other", pos, "another symbol takes %d bytes and writes %s", w.n, t)
	default:
		c.ok(false, "step", pos, "a step does not tell %% and + from other symbols")
	}
}

// isByte: t is the byte a*16+b.
//
// The terms of byte arithmetic are compared as sums modulo 256. a and b are
// symbols with an offset and less than 16, so "or" of a*16 and b is a sum.
func (c *unescaper) isByte(t, a, b *Term) bool {
	type sum struct {
		m map[*Term]int64
		k int64
	}
	norm := func(n int64) int64 { return n & 255 }
	add := func(x, y sum, n int64) sum {
		r := sum{map[*Term]int64{}, norm(x.k + n*y.k)}
		for k, v := range x.m {
			r.m[k] = v
		}
		for k, v := range y.m {
			if r.m[k] = norm(r.m[k] + n*v); r.m[k] == 0 {
				delete(r.m, k)
			}
		}
		return r
	}
	equal := func(x, y sum) bool {
		d := add(x, y, -1)
		return len(d.m) == 0 && d.k == 0
	}
	var of func(t *Term) sum
	var high, low sum
	zero := sum{map[*Term]int64{}, 0}
	of = func(t *Term) sum {
		switch {
		case t.isInt():
			return sum{zero.m, norm(t.n)}
		case (t.op == "conv" && isIntTyp(t.typ) || t.op == "chr") && len(t.args) == 1:
			return of(t.args[0])
		case t.op == "bin" && t.aux == "+":
			return add(of(t.args[0]), of(t.args[1]), 1)
		case t.op == "bin" && t.aux == "-":
			return add(of(t.args[0]), of(t.args[1]), -1)
		case t.op == "bin" && t.aux == "<<" && t.args[1].isInt() && t.args[1].n >= 0 && t.args[1].n < 8:
			return add(zero, of(t.args[0]), 1<<t.args[1].n)
		case t.op == "bin" && t.aux == "*" && t.args[1].isInt():
			return add(zero, of(t.args[0]), norm(t.args[1].n))
		case t.op == "bin" && t.aux == "*" && t.args[0].isInt():
			return add(zero, of(t.args[1]), norm(t.args[0].n))
		case t.op == "bin" && (t.aux == "|" || t.aux == "^"):
			x, y := of(t.args[0]), of(t.args[1])
			if equal(x, high) && equal(y, low) || equal(x, low) && equal(y, high) {
				return add(x, y, 1)
			}
		}
		l := linOf(t)
		r := sum{zero.m, norm(l.k)}
		for k, v := range l.m {
			if k == t {
				return sum{map[*Term]int64{t: 1}, 0}
			}
			r = add(r, of(k), norm(v))
		}
		return r
	}
	high, low = add(zero, of(a), 16), of(b)
	return equal(of(t), add(high, low, 1))
}

// result: the text returned is prefix, and the text unescaped.
func (c *unescaper) result(st *PState, t *Term, prefix, pos string) {
	e := c.e
	ts := e.ts
	parts, ok := c.pieces(st, t, pos)
	if !ok {
		c.ok(false, "result", pos, "it is not known what is returned (%s)", t)
		return
	}
	if prefix != "" {
		good := len(parts) > 0 && parts[0].kind == "w" && parts[0].ts[1].isStr() && constantString(parts[0].ts[1]) == prefix
		c.ok(good, "result", pos, "the text does not begin with %s", prefix)
		if !good {
			return
		}
		parts = parts[1:]
	}
	var ps []ev
	for _, v := range parts {
		if v.kind == "w" && v.ts[1].isStr() && constantString(v.ts[1]) == "" {
			continue
		}
		ps = append(ps, v)
	}
	none := func(x *Term) bool { // no escaped symbol
		if e.truth(st, ts.eq(e.lenT(x), ts.intc(0))) == 1 || e.truth(st, ts.eq(x, ts.strc(""))) == 1 {
			return true
		}
		for f := range st.facts {
			found := false
			f.any(func(y *Term) bool {
				found = found || c.firstSpecial(y) && (e.truth(st, ts.eq(y, ts.intc(-1))) == 1 || e.truth(st, ts.lt(y, ts.intc(0))) == 1)
				return false
			})
			if found {
				return true
			}
		}
		return false
	}
	switch {
	case len(ps) == 0:
		c.ok(e.truth(st, ts.eq(e.lenT(c.s), ts.intc(0))) == 1, "result", pos, "nothing is returned of a text")
	case len(ps) == 1 && ps[0].kind == "w":
		c.ok(e.same(st, ps[0].ts[1], c.s), "result", pos, "another text is returned (%s)", ps[0].ts[1])
		c.ok(none(c.s), "result", pos, "a text is returned as it is and may hold an escaped symbol")
	default:
		lp := ps[len(ps)-1]
		c.ok(lp.kind == "loop", "result", pos, "the text behind the loop is no part of the text unescaped")
		if lp.kind != "loop" {
			return
		}
		lo, at := lp.ts[0], lp.ts[1]
		c.ok(e.truth(st, ts.lt(at, e.lenT(c.s))) == 0, "result", pos, "the loop ends before the text")
		switch len(ps) {
		case 1:
			c.ok(lo.isInt() && lo.n == 0, "result", pos, "the text before the first step is not written (%s)", lo)
		case 2:
			x, a, b := e.span(ps[0].ts[1])
			c.ok(x == c.s && a.isInt() && a.n == 0 && e.same(st, b, lo), "result", pos, "the text before the first step is another (%s)", ps[0].ts[1])
			c.ok(c.firstSpecial(lo), "result", pos, "the text before the first step may hold an escaped symbol (%s)", lo)
		default:
			c.ok(false, "result", pos, "more is written than the text before the first escaped symbol")
		}
	}
}

// pieces gives what was written to the text t.
func (c *unescaper) pieces(st *PState, t *Term, pos string) (l []ev, ok bool) {
	vs := c.evs(st)
	if t == c.s {
		return []ev{{"w", "", []*Term{nil, t}}}, true
	}
	x, lo := t, c.e.ts.intc(0)
	if t.op == "slice" {
		x, lo = t.args[0], t.args[1]
		if t.args[2].op != "none" || x.op == "slice" {
			return nil, false
		}
	}
	for i, v := range vs {
		if v.kind != "built" || v.ts[1] != x {
			continue
		}
		from := -1
		for j, m := range vs[:i] {
			if m.kind == "mark" && m.ts[0] == v.ts[0] && m.ts[1] == lo {
				from = j
			}
		}
		if from < 0 && lo.isInt() && lo.n == 0 && v.ts[0].op == "alloc" {
			from = 0 // a builder of the function
		}
		if from < 0 {
			return nil, false
		}
		for j, w := range vs[from:i] {
			if w.kind == "w" && w.ts[0] == v.ts[0] {
				l = append(l, w)
			}
			if w.kind == "loop" {
				l = append(l, w)
				for _, y := range vs[from+j : i] {
					if y.kind == "w" {
						c.ok(false, "result", pos, "text is written when the loop ends")
					}
				}
			}
		}
		return l, true
	}
	return nil, false
}

// bothIn: the set holds all symbols which are unescaped.
func bothIn(set string) bool {
	return strings.Contains(set, "%") && strings.Contains(set, "+")
}
