package main

import (
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = func(p *Prog, tier string) *Result { return checkLimits(p) }
}

// limiter decides C24: the least and the greatest length of an item or a pattern bound what it stands for.
type limiter struct {
	p     *Prog
	r     *Result
	e     *PEngine
	fn    *ssa.Function
	item  *types.Interface
	src   map[*ssa.Function]bool // where pieces come from
	minF  map[string]string      // type -> field which MinLen gives
	maxF  map[string]string
	parse *ssa.Function
}

// accum is a value which a loop changes: a phi, or a cell of an object made by the function.
type accum struct {
	ph       *ssa.Phi
	addr     *Term
	typ      types.Type
	entry    *Term
	min, max bool  // adds the least (greatest) length of each piece
	low, top bool  // is the least (greatest) of the lengths of the elements of a list
	lo       int64 // is not less than, -2: unknown
	step     bool  // grows by one
}

type limLoop struct {
	as    []*accum
	piece bool
	from  *ssa.Phi // the text pieces are taken from
	list  *Term    // the list whose elements are visited
	at    *Term    // the place visited, in terms of the head
	bad   bool
}

func checkLimits(p *Prog) *Result {
	c := &limiter{p: p, r: newResult(), src: map[*ssa.Function]bool{}, minF: map[string]string{}, maxF: map[string]string{}}
	t := p.lookupType("pkg/items.Item")
	next, parse, gparse := p.lookupFunc("pkg/items.NextWildcardItem"), p.lookupFunc("glob.Parse"), p.lookupFunc("gglob.Parse")
	group, list := p.lookupFunc("pkg/items.NewGroup"), p.lookupFunc("pkg/items.NewItemList")
	if t == nil || next == nil || parse == nil || gparse == nil || group == nil || list == nil {
		c.r.fail("anchor", "pkg/items", "-", "the items, or the functions which make them, were not found")
		return c.r
	}
	c.item = t.Underlying().(*types.Interface)
	c.parse = parse
	c.src[next], c.src[parse] = true, true
	for _, t := range p.implementers(c.item) {
		c.kind(t)
	}
	c.optional()
	c.values(list)
	c.values(group)
	c.append()
	c.pattern(parse)
	c.parts(gparse)
	if f := p.lookupFunc("pkg/utils.RunesRangeExpand"); f != nil {
		c.class(f)
		for _, m := range []string{"pkg/utils.RunesRanges.Add", "pkg/utils.RunesRanges.Adds"} {
			if f := p.lookupFunc(m); f != nil {
				c.class(f)
			}
		}
		c.r.need("additions", 3)
	} else {
		c.r.fail("anchor", "pkg/utils.RunesRangeExpand", "-", "the parser of a class was not found")
	}
	c.r.need("kinds", 9)
	c.r.need("limits", 30)
	return c.r
}

func (c *limiter) start(fn *ssa.Function) *PEngine {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 400
	c.e, c.fn = e, fn
	rec := e.recBut(c.src)
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return !c.src[f] && !rec[f] && f.Name() != "WriteString"
	}
	cl.KeepFact = func(f *Term) bool {
		return (f.op == "eq" || f.op == "lt") && f.any(func(t *Term) bool { return t.op == "call" && t.aux == "method MaxLen" })
	}
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(fn))
	return e
}

func (c *limiter) done() {
	c.r.Findings = append(c.r.Findings, c.e.finds...)
	c.r.count("paths", c.e.paths)
}

func (c *limiter) ok(good bool, rule, pos, format string, a ...any) {
	c.r.count("limits", 1)
	if !good {
		c.r.fail(rule, fnName(c.fn), pos, format, a...)
	}
}

// kind checks the limits which an item of a type gives.
func (c *limiter) kind(t types.Type) {
	named := t
	if pt, ok := t.(*types.Pointer); ok {
		named = pt.Elem()
	}
	n := typName(named)
	c.r.count("kinds", 1)
	for i := 0; i < c.item.NumMethods(); i++ {
		m := c.item.Method(i)
		if m.Name() != "MinLen" && m.Name() != "MaxLen" {
			continue
		}
		f := c.p.methodOf(t, m)
		if f == nil || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		for _, x := range c.start(f).Run(f, &evState{}) {
			e := c.e
			v := x.res[0]
			recv := e.val(x.st, f.Params[0])
			self := e.ts.mk("iface", typName(t), t, recv)
			if w := unconv(v); w.op == "load" && w.args[0].op == "fa" {
				// the field of a list, a group, a chain, a class: what is put there is checked where it is made
				s := w.args[0].aux
				s = s[strings.LastIndex(s, ".")+1:]
				if m.Name() == "MinLen" {
					c.minF[n] = s
				} else {
					c.maxF[n] = s
				}
				c.ok(true, "", "", "")
				continue
			}
			good := false
			if m.Name() == "MinLen" {
				for _, w := range c.least(x.st, self) {
					good = good || v == w || e.same(x.st, v, w)
				}
			} else {
				good = c.atLeast(x.st, v, e.ts.intc(0), self)
			}
			c.ok(good, "kind", c.p.pos(f.Pos()), "%s of %s gives %s, which is no limit of the length of what it stands for", m.Name(), n, v)
		}
		c.done()
	}
}

// optional: what says that it can be left out has a value of no length.
func (c *limiter) optional() {
	n := 0
	for _, f := range c.p.funcs {
		if f.Name() != "IsOptional" || f.Signature.Recv() == nil || f.Blocks == nil || f.Synthetic != "" || f.Signature.Params().Len() != 0 {
			continue
		}
		pt, ok := f.Signature.Recv().Type().(*types.Pointer)
		if !ok || c.minF[typName(pt.Elem())] == "" {
			continue
		}
		n++
		e := c.start(f)
		for _, x := range e.Run(f, &evState{}) {
			min := e.loadField(x.st, e.val(x.st, f.Params[0]), pt, c.minF[typName(pt.Elem())])
			e.assume(x.st, e.ts.lt(min, e.ts.intc(0)), false)
			zero := e.ts.eq(min, e.ts.intc(0))
			v := x.res[0]
			good := v == zero || v == e.ts.lt(min, e.ts.intc(1))
			if t := e.truth(x.st, v); t >= 0 && e.truth(x.st, zero) == t {
				good = true
			}
			c.ok(good, "optional", c.where(x), "IsOptional gives %s, not whether there is a value of no length", v)
		}
		c.done()
	}
	if n < 2 {
		c.r.fail("anchor", "IsOptional", "-", "IsOptional of a list and of a group was not found")
	}
}

// least gives the terms for the least length of an item.
func (c *limiter) least(st *PState, x *Term) (l []*Term) {
	e := c.e
	l = append(l, e.ts.mk("call", "method MinLen", types.Typ[types.Int], x))
	v, t := c.payload(st, x)
	switch t {
	case "pkg/items.Byte":
		l = append(l, e.ts.intc(1))
	case "pkg/items.Rune":
		l = append(l, e.ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], v), e.ts.intc(1))
	case "pkg/items.Any", "pkg/items.Star":
		l = append(l, v)
	case "*pkg/items.String":
		l = append(l, e.flatLen(e.lenT(e.loadField(st, v, v.typ, "S"))))
	default:
		if v != nil {
			if f := c.minF[strings.TrimPrefix(t, "*")]; f != "" && v.typ != nil {
				if w := e.loadField(st, v, v.typ, f); w != nil {
					l = append(l, w)
				}
			}
		}
	}
	return
}

// payload gives the value in an interface when its type is known.
func (c *limiter) payload(st *PState, x *Term) (*Term, string) {
	if x.op == "iface" {
		return x.args[0], x.aux
	}
	for f, v := range st.facts {
		if v && f.op == "assertok" && f.args[0] == x {
			for _, t := range c.p.implementers(c.item) {
				if typName(t) == f.aux {
					return c.e.ts.mk("assert", f.aux, t, x), f.aux
				}
			}
		}
	}
	return nil, ""
}

// atLeast: v is no limit, or not less than sum and the greatest length of x.
func (c *limiter) atLeast(st *PState, v, sum, x *Term) bool {
	e := c.e
	if e.truth(st, e.ts.lt(v, e.ts.intc(0))) == 1 {
		return true
	}
	if e.truth(st, e.ts.lt(sum, e.ts.intc(0))) != 0 {
		return false
	}
	w, t := c.payload(st, x)
	d := e.flatLen(e.ts.addT(v, sum, -1))
	num := func(n *Term) bool { return d == n || e.le(st, n, d) }
	call := e.ts.mk("call", "method MaxLen", types.Typ[types.Int], x)
	if e.truth(st, e.ts.lt(call, e.ts.intc(0))) == 0 && num(call) {
		return true
	}
	switch t {
	case "pkg/items.Byte":
		return num(e.ts.intc(1))
	case "pkg/items.Rune":
		return num(e.ts.intc(4)) || num(e.ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], w))
	case "pkg/items.Any":
		l := linOf(e.ts.intc(0))
		l.add(w, 4)
		if num(e.ts.fromLin(l, types.Typ[types.Int])) {
			return true
		}
		ld := linOf(d)
		return len(ld.m) == 1 && ld.m[w] >= 4 && ld.k >= 0
	case "*pkg/items.String":
		return num(e.flatLen(e.lenT(e.loadField(st, w, w.typ, "S"))))
	default:
		if w != nil && w.typ != nil {
			if f := c.maxF[strings.TrimPrefix(t, "*")]; f != "" {
				m := e.loadField(st, w, w.typ, f)
				return m != nil && e.truth(st, e.ts.lt(m, e.ts.intc(0))) == 0 && num(m)
			}
		}
	}
	return false
}

// ---- loops

func (a *accum) at(e *PEngine, st *PState) *Term {
	if a.ph != nil {
		return e.val(st, a.ph)
	}
	return e.load(st, a.addr, a.typ)
}

// accums lists what a loop may change.
func accums(e *PEngine, lc *loopCtx, want func(t types.Type) bool) (as []*accum) {
	for i, ph := range lc.phis {
		if want(ph.Type()) {
			as = append(as, &accum{ph: ph, typ: ph.Type(), entry: lc.vals[i], min: true, max: true, low: true, top: true, step: true})
		}
	}
	for a, v := range lc.entry.mem {
		if a.op != "fa" || addrRoot(a).op != "alloc" {
			continue
		}
		pt, ok := a.typ.Underlying().(*types.Pointer)
		if ok && want(pt.Elem()) {
			as = append(as, &accum{addr: a, typ: pt.Elem(), entry: v, min: true, max: true, low: true, top: true})
		}
	}
	return
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (c *limiter) hooks() {
	e := c.e
	cl := e.cl
	ts := e.ts
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, args []*Term) (bool, *Term) {
		if method != nil && (method.Name() == "MinLen" || method.Name() == "MaxLen") {
			for _, v := range st.cl.(*evState).evs {
				if v.kind == "changed" {
					// it is not the length of the piece any more
					return true, e.fresh(st, "sym", st.top().id+"/"+in.(ssa.Value).Name()+":len", types.Typ[types.Int])
				}
			}
			r := ts.mk("call", "method "+method.Name(), types.Typ[types.Int], args[0])
			if method.Name() == "MaxLen" {
				e.assume(st, ts.lt(r, ts.intc(-1)), false)
			} else {
				e.assume(st, ts.lt(r, ts.intc(0)), false)
			}
			return true, r
		}
		return false, nil
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op == "fa" && addr.aux == "pkg/items.String.S" && addrRoot(addr).op != "alloc" {
			st.cl.(*evState).add("changed", "", addr)
		}
	}
	cl.After = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, res *Term) {
		if callee == nil || !c.src[callee] {
			return
		}
		x := e.ext(res, 0, callee.Signature.Results().At(0).Type())
		var a *Term
		if as := in.Common().Args; len(as) > 0 {
			a = e.val(st, as[0])
		}
		st.cl.(*evState).add("piece", fnName(callee), x, a, e.ext(res, callee.Signature.Results().Len()-1, types.Universe.Lookup("error").Type()))
	}
	cl.Index = func(e *PEngine, st *PState, in *ssa.IndexAddr, x, i *Term) {
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			st.cl.(*evState).add("at", "", x, i)
		}
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*limLoop)
		if d == nil {
			d = &limLoop{as: accums(e, lc, isInt)}
			for _, a := range d.as {
				a.lo = -2
				for _, n := range []int64{0, -1} {
					if e.truth(lc.entry, ts.lt(a.entry, ts.intc(n))) == 0 {
						a.lo = n
						break
					}
				}
			}
			lc.data = d
		}
		for i, ph := range lc.phis {
			for _, a := range d.as {
				if a.ph == ph {
					a.entry = lc.vals[i]
				}
			}
		}
		for _, a := range d.as {
			if a.addr != nil && !head.esc[addrRoot(a.addr)] {
				head.mem[a.addr] = a.at(e, head)
			}
			if h := a.at(e, head); !h.isInt() && a.lo > -2 {
				e.assume(head, ts.lt(h, ts.intc(a.lo)), false)
			}
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		d := lc.data.(*limLoop)
		for _, a := range d.as {
			t := a.at(e, back)
			for a.lo > -2 && e.truth(back, ts.lt(t, ts.intc(a.lo))) != 0 {
				a.lo--
				ch = true
			}
		}
		return
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*limLoop)
		xs := c.pieces(back, head)
		for _, v := range back.cl.(*evState).since(head.cl) {
			if v.kind == "piece" {
				d.piece = true
				for _, ph := range lc.phis {
					if v.ts[1] != nil && isStrTyp(ph.Type()) && v.ts[1] == e.val(head, ph) {
						d.from = ph
					}
				}
			}
		}
		if len(xs) > 1 {
			d.bad = true
			return
		}
		var x *Term
		if len(xs) == 1 {
			x = xs[0]
		}
		// the place visited
		for _, a := range d.as {
			h := a.at(e, head)
			if a.step && a.at(e, back) != ts.addT(h, ts.intc(1), 1) {
				a.step = false
			}
		}
		for _, v := range back.cl.(*evState).since(head.cl) {
			if v.kind != "at" || d.list != nil {
				continue
			}
			for _, a := range d.as {
				if a.step && ts.addT(v.ts[1], a.at(e, head), -1).isInt() {
					d.list, d.at = v.ts[0], v.ts[1]
				}
			}
		}
		for _, a := range d.as {
			h, t := a.at(e, head), a.at(e, back)
			if os.Getenv("DBG") != "" {
				println("back", fnName(lc.l.head.Parent()), "x", x != nil, "acc", a.addr != nil, "H", h.String(), "T", t.String(), "min", a.min, "max", a.max, a.lo)
			}
			if a.min {
				a.min = false
				if x == nil {
					a.min = e.same(back, t, h)
				} else {
					for _, w := range c.lengths(back, x, true) {
						a.min = a.min || e.same(back, e.flatLen(t), e.flatLen(ts.addT(h, w, 1)))
					}
				}
			}
			if a.max {
				if x == nil {
					a.max = e.same(back, t, h)
				} else {
					a.max = c.most(back, t, h, x)
				}
			}
			if d.list == nil {
				a.low, a.top = false, false
				continue
			}
			el := e.load(back, ts.mk("ia", "", types.NewPointer(elemOf(d.list.typ)), d.list, d.at), elemOf(d.list.typ))
			if a.low {
				a.low = false
				for _, w := range c.lengths(back, el, true) {
					if (t == h || t == w || e.same(back, t, h) || e.same(back, t, w)) && e.le(back, t, h) && e.le(back, t, w) {
						a.low = true
					}
				}
			}
			if a.top {
				neg := e.truth(back, ts.lt(t, ts.intc(0))) == 1
				if os.Getenv("DBG") == "2" {
					println("top", fnName(lc.l.head.Parent()), "H", h.String(), "T", t.String(), "neg", neg, e.truth(back, ts.lt(h, ts.intc(0))), e.le(back, h, t), c.most(back, t, ts.intc(0), el))
					for f, v := range back.facts {
						println("    ", f.String(), v)
					}
				}
				a.top = neg || e.truth(back, ts.lt(h, ts.intc(0))) == 0 && e.le(back, h, t) && c.most(back, t, ts.intc(0), el)
			}
		}
	}
	cl.LoopExit = func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
		d := lc.data.(*limLoop)
		s := out.cl.(*evState)
		if d.piece && !d.bad && len(c.pieces(out, head)) == 0 {
			for _, a := range d.as {
				h := a.at(e, head)
				if a.min {
					s.add("min", "", h, a.entry)
				}
				if a.max {
					s.add("max", "", h, a.entry)
				}
			}
			c.text(lc, head, out)
		}
		if d.list != nil && e.truth(out, ts.lt(d.at, e.flatLen(e.lenT(d.list)))) == 0 {
			var first *Term
			for _, a := range d.as {
				if k := ts.addT(d.at, a.at(e, head), -1); a.step && k.isInt() {
					first = ts.addT(a.entry, k, 1)
				}
			}
			list := d.list
			for first != nil && first.isInt() && list.op == "slice" && list.args[1].isInt() && list.args[2].op == "none" {
				first, list = ts.addT(first, list.args[1], 1), list.args[0]
			}
			for _, a := range d.as {
				if h := a.at(e, head); first != nil && first.isInt() && !a.step {
					if a.low {
						s.add("low", itoa(int(first.n)), h, a.entry, list)
					}
					if a.top {
						s.add("top", itoa(int(first.n)), h, a.entry, list)
					}
				}
			}
		}
	}
}

// text notes the text which a loop over pieces has started with: what its first piece is taken from.
func (c *limiter) text(lc *loopCtx, head, out *PState) {
	e := c.e
	for i, ph := range lc.phis {
		if ph == lc.data.(*limLoop).from {
			out.cl.(*evState).add("text", "", e.val(head, ph), lc.vals[i])
		}
	}
}

// pieces gives the items (patterns) taken on a path since the head.
func (c *limiter) pieces(st, head *PState) (xs []*Term) {
	e := c.e
	for _, v := range st.cl.(*evState).since(head.cl) {
		if v.kind == "piece" && e.truth(st, e.ts.eq(e.ts.nilc(), v.ts[0])) != 1 && e.truth(st, e.ts.eq(e.ts.nilc(), v.ts[2])) != 0 {
			xs = append(xs, v.ts[0])
		}
	}
	return
}

// lengths gives the terms for the least length of a piece: an item, a parsed pattern, or a text.
func (c *limiter) lengths(st *PState, x *Term, min bool) []*Term {
	e := c.e
	if isStrTyp(x.typ) {
		return []*Term{e.flatLen(e.lenT(x))}
	}
	if types.IsInterface(x.typ) || x.op == "iface" {
		return c.least(st, x)
	}
	if f := e.loadField(st, x, x.typ, "MinLen"); f != nil {
		return []*Term{f}
	}
	return nil
}

// most: t bounds what is bounded by h and the piece x.
func (c *limiter) most(st *PState, t, h, x *Term) bool {
	e := c.e
	zero := e.ts.intc(0)
	if isStrTyp(x.typ) {
		return e.truth(st, e.ts.lt(h, zero)) == 0 && e.le(st, e.flatLen(e.ts.addT(h, e.lenT(x), 1)), t)
	}
	if types.IsInterface(x.typ) || x.op == "iface" {
		return c.atLeast(st, t, h, x)
	}
	if e.truth(st, e.ts.lt(t, zero)) == 1 {
		return true
	}
	m := e.loadField(st, x, x.typ, "MaxLen")
	return m != nil && e.truth(st, e.ts.lt(h, zero)) == 0 && e.truth(st, e.ts.lt(m, zero)) == 0 && e.le(st, e.ts.addT(h, m, 1), t)
}

func (c *limiter) where(x *PExit) string {
	if x.ret != nil && x.ret.Pos().IsValid() {
		return c.p.pos(x.ret.Pos())
	}
	return c.p.pos(c.fn.Pos())
}

// success: the path does not return an error.
func (c *limiter) success(x *PExit) bool {
	err := x.res[len(x.res)-1]
	return c.e.truth(x.st, c.e.ts.eq(c.e.ts.nilc(), err)) != 0
}

// values checks the limits of a list of values or a group.
func (c *limiter) values(fn *ssa.Function) {
	e := c.start(fn)
	c.hooks()
	old := e.cl.LoopExit
	e.cl.LoopExit = func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
		old(e, lc, head, out, from, to)
		if d := lc.data.(*limLoop); d.piece {
			c.chains(lc, head, out)
		}
	}
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) || x.res[0].op != "iface" || !strings.HasPrefix(x.res[0].aux, "*") {
			continue
		}
		v, t := x.res[0].args[0], strings.TrimPrefix(x.res[0].aux, "*")
		if v.op != "alloc" || c.minF[t] == "" || c.maxF[t] == "" {
			continue
		}
		n++
		pt := v.typ
		min, max := e.loadField(x.st, v, pt, c.minF[t]), e.loadField(x.st, v, pt, c.maxF[t])
		vals := e.loadField(x.st, v, pt, "Vals")
		okMin, okMax := false, false
		for _, w := range x.st.cl.(*evState).evs {
			if w.kind != "low" && w.kind != "top" || vals == nil || !(w.ts[2] == vals || vals.op == "slice" && vals.args[0] == w.ts[2]) {
				continue
			}
			first := e.load(x.st, e.ts.mk("ia", "", types.NewPointer(elemOf(w.ts[2].typ)), w.ts[2], e.ts.intc(0)), elemOf(w.ts[2].typ))
			if w.kind == "low" && (w.ts[0] == min || e.same(x.st, w.ts[0], min)) {
				if w.aux == "0" && w.ts[1].isInt() && w.ts[1].n >= math.MaxInt32 && e.nonEmpty(x.st, w.ts[2]) != 0 {
					okMin = true
				}
				if w.aux == "0" || w.aux == "1" {
					for _, l := range c.lengths(x.st, first, true) {
						okMin = okMin || e.same(x.st, l, w.ts[1])
					}
				}
			}
			if w.kind == "top" && (w.ts[0] == max || e.same(x.st, w.ts[0], max)) {
				okMax = okMax || w.aux == "0" && (w.ts[1].isInt() || c.isGreatest(x.st, first, w.ts[1])) || w.aux == "1" && c.isGreatest(x.st, first, w.ts[1])
			}
		}
		c.ok(okMin, "values", c.where(x), "the least length of %s is %s, which is not shown to be the least of its values", t, min)
		c.ok(okMax || e.truth(x.st, e.ts.lt(max, e.ts.intc(0))) == 1, "values", c.where(x), "the greatest length of %s is %s, which is not shown to be the greatest of its values", t, max)
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no list of values is made")
	}
	c.done()
}

// isGreatest: v is the greatest length of x, or not less.
func (c *limiter) isGreatest(st *PState, x, v *Term) bool {
	e := c.e
	if isStrTyp(x.typ) {
		return e.le(st, e.flatLen(e.lenT(x)), v)
	}
	if v == e.ts.mk("call", "method MaxLen", types.Typ[types.Int], x) {
		return true
	}
	return c.atLeast(st, v, e.ts.intc(0), x)
}

// chains: a sequence of items which a loop has put together has the sums of their lengths.
func (c *limiter) chains(lc *loopCtx, head, out *PState) {
	d := lc.data.(*limLoop)
	for a := range lc.entry.mem {
		if a.op != "fa" || a.args[0].op != "alloc" {
			continue
		}
		i := strings.LastIndex(a.aux, ".")
		t, f := a.aux[:i], a.aux[i+1:]
		if f != c.minF[t] && f != c.maxF[t] || t != "pkg/items.Chain" {
			continue
		}
		good := false
		for _, x := range d.as {
			if x.addr == a && x.entry.isInt() && x.entry.n == 0 && !d.bad {
				good = f == c.minF[t] && x.min || f == c.maxF[t] && x.max
			}
		}
		if len(c.pieces(out, head)) > 0 {
			good = false
		}
		c.ok(good, "chain", c.p.pos(c.fn.Pos()), "%s of a sequence of items is not shown to be the sum over its items", f)
	}
}

// append checks the method which appends to a sequence.
func (c *limiter) append() {
	t := c.p.lookupType("pkg/items.Chain")
	if t == nil {
		return
	}
	pt := types.NewPointer(t)
	for _, f := range c.p.funcs {
		if f.Signature.Recv() == nil || !types.Identical(f.Signature.Recv().Type(), pt) || f.Blocks == nil || f.Synthetic != "" || f.Signature.Params().Len() != 1 || !types.IsInterface(f.Params[1].Type()) || f.Signature.Results().Len() != 0 {
			continue
		}
		e := c.start(f)
		c.hooks()
		st := e.Start(f, &evState{})
		recv, x := e.val(st, f.Params[0]), e.val(st, f.Params[1])
		fmin, fmax := c.minF["pkg/items.Chain"], c.maxF["pkg/items.Chain"]
		omin, omax := e.loadField(st, recv, pt, fmin), e.loadField(st, recv, pt, fmax)
		e.assume(st, e.ts.lt(omax, e.ts.intc(-1)), false)
		for _, y := range e.RunFrom(f, st) {
			nmin, nmax := e.loadField(y.st, recv, pt, fmin), e.loadField(y.st, recv, pt, fmax)
			good := false
			for _, w := range c.least(y.st, x) {
				good = good || e.same(y.st, e.flatLen(nmin), e.flatLen(e.ts.addT(omin, w, 1)))
			}
			c.ok(good, "chain", c.where(y), "the least length becomes %s, not the sum of what it was and of the item", nmin)
			c.ok(c.atLeast(y.st, nmax, omax, x), "chain", c.where(y), "the greatest length becomes %s, which is less than what it was and the item", nmax)
		}
		c.done()
	}
}

// pattern checks the limits of a parsed pattern.
func (c *limiter) pattern(fn *ssa.Function) {
	e := c.start(fn)
	c.hooks()
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		n++
		st := x.st
		g, pt := x.res[0], fn.Signature.Results().At(0).Type()
		min, max := e.loadField(st, g, pt, "MinLen"), e.loadField(st, g, pt, "MaxLen")
		text := e.val(st, fn.Params[0])
		okMin, okMax := false, false
		loop := false
		for _, w := range st.cl.(*evState).evs {
			if w.kind != "text" {
				continue
			}
			loop = true
			rest := e.flatLen(e.ts.addT(e.lenT(text), e.flatLen(e.lenT(w.ts[1])), -1))
			for _, v := range st.cl.(*evState).evs {
				if v.kind == "min" && v.ts[0] == min && e.le(st, e.flatLen(v.ts[1]), rest) {
					okMin = true
				}
				if v.kind == "max" && v.ts[0] == max && e.le(st, rest, e.flatLen(v.ts[1])) {
					okMax = true
				}
			}
		}
		if !loop {
			sumMin, sumMax := c.explicit(st, g, pt)
			if sumMin != nil {
				okMin = e.le(st, e.flatLen(min), sumMin)
			}
			if sumMax != nil {
				okMax = e.le(st, sumMax, e.flatLen(max))
			}
		}
		okMax = okMax || e.truth(st, e.ts.lt(max, e.ts.intc(1))) == 1
		c.ok(okMin, "pattern", c.where(x), "MinLen is %s, which is not shown to be at most the sum of the pieces", min)
		c.ok(okMax, "pattern", c.where(x), "MaxLen is %s, which is not shown to be at least the sum of the pieces", max)
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no pattern is returned")
	}
	c.done()
}

// explicit sums the lengths of a pattern whose items are written down. No sum for the greatest length: there is no limit.
func (c *limiter) explicit(st *PState, g *Term, pt types.Type) (min, max *Term) {
	e := c.e
	items := e.loadField(st, g, pt, "Items")
	if items == nil {
		return nil, nil
	}
	if e.nonEmpty(st, items) == 0 || items.op == "nil" {
		n := e.flatLen(e.lenT(e.loadField(st, g, pt, "Node")))
		return n, n
	}
	n := arrayLen(items)
	if n < 0 {
		return nil, nil
	}
	sum := e.ts.addT(e.lenT(e.loadField(st, g, pt, "Prefix")), e.lenT(e.loadField(st, g, pt, "Suffix")), 1)
	min, max = sum, sum
	et := elemOf(items.typ)
	for i := int64(0); i < n; i++ {
		x := e.load(st, e.ts.mk("ia", "", types.NewPointer(et), items.args[0], e.ts.intc(i)), et)
		v, t := c.payload(st, x)
		switch t {
		case "pkg/items.Any":
			min = e.ts.addT(min, v, 1)
			l := linOf(e.ts.intc(0))
			l.add(v, 4)
			if max != nil {
				max = e.ts.addT(max, e.ts.fromLin(l, types.Typ[types.Int]), 1)
			}
		case "pkg/items.Star":
			min, max = e.ts.addT(min, v, 1), nil
		default:
			return nil, nil
		}
	}
	min = e.flatLen(min)
	if max != nil {
		max = e.flatLen(max)
	}
	return
}

// parts checks the limits of a pattern of parts.
func (c *limiter) parts(fn *ssa.Function) {
	e := c.start(fn)
	c.hooks()
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		g, pt := x.res[0], fn.Signature.Results().At(0).Type()
		min, max := e.loadField(x.st, g, pt, "MinLen"), e.loadField(x.st, g, pt, "MaxLen")
		okMin, okMax := false, e.truth(x.st, e.ts.lt(max, e.ts.intc(1))) == 1
		for _, v := range x.st.cl.(*evState).evs {
			okMin = okMin || v.kind == "min" && v.ts[0] == min && e.le(x.st, v.ts[1], e.ts.intc(0))
			okMax = okMax || v.kind == "max" && v.ts[0] == max && e.le(x.st, e.ts.intc(0), v.ts[1])
		}
		c.ok(okMin, "parts", c.where(x), "MinLen is %s, which is not shown to be the sum of the parts", min)
		c.ok(okMax, "parts", c.where(x), "MaxLen is %s, which is not shown to be at least the sum of the parts", max)
	}
	c.done()
}

// class checks the limits of a class of characters: whatever adds a character to it sets them.
func (c *limiter) class(fn *ssa.Function) {
	e := c.start(fn)
	ts := e.ts
	cl := e.cl
	const rt = "pkg/utils.RunesRanges."
	merge := c.p.lookupFunc("pkg/utils.RunesRangeMerge")
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool { return f != merge && !e.rec[f] }
	cl.KeepFact = func(f *Term) bool { return f.op == "eq" || f.op == "lt" }
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, args []*Term) (bool, *Term) {
		if callee == nil {
			return false, nil
		}
		switch fnName(callee) {
		case "(*pkg/utils.ASCIISet).Add":
			if args[0].op == "fa" && args[0].aux == rt+"ASCII" {
				st.cl.(*evState).add("add", "", args[0].args[0])
				c.r.count("additions", 1)
			}
			return true, ts.mk("call", "added", types.Typ[types.Bool], args[1])
		case "unicode/utf8.RuneLen":
			// of a character of a text
			r := ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], args[0])
			e.assume(st, ts.lt(r, ts.intc(1)), false)
			return true, r
		}
		return false, nil
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op == "fa" && addr.aux == rt+"UnicodeRanges" && val.op == "append" && arrayLen(val.args[1]) > 0 {
			for i := int64(0); i < arrayLen(val.args[1]); i++ {
				x := e.load(st, ts.mk("ia", "", types.NewPointer(elemOf(val.typ)), val.args[1].args[0], ts.intc(i)), elemOf(val.typ))
				if x.op == "struct" && len(x.args) == 2 {
					st.cl.(*evState).add("range", "", addr.args[0], x.args[0], x.args[1])
					c.r.count("additions", 1)
				}
			}
		}
	}
	var recv, rmin, rmax *Term
	bases := func(st *PState) map[*Term]bool {
		m := map[*Term]bool{}
		if recv != nil {
			m[recv] = true
		}
		for a := range st.mem {
			if a.op == "fa" && strings.HasPrefix(a.aux, rt) {
				m[a.args[0]] = true
			}
		}
		return m
	}
	sizes := func(st *PState, b *Term) (min, max *Term) {
		pt := types.NewPointer(c.p.lookupType("pkg/utils.RunesRanges"))
		return e.loadField(st, b, pt, "MinSize"), e.loadField(st, b, pt, "MaxSize")
	}
	// sized: what was added is within the limits, and what was there before
	sized := func(st *PState, evs []ev, b, omin, omax, min, max *Term, pos string) {
		one := ts.intc(1)
		added := false
		for _, v := range evs {
			if v.kind != "add" && v.kind != "range" || v.ts[0] != b {
				continue
			}
			added = true
			if v.kind == "add" {
				c.ok(e.le(st, min, one) && e.le(st, one, max), "class", pos, "a byte is added to a class, and the limits become %s and %s", min, max)
				continue
			}
			f := ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], v.ts[1])
			l := ts.mk("call", "unicode/utf8.RuneLen", types.Typ[types.Int], v.ts[2])
			// every character between two of the same length has this length, and no character has more than four bytes
			c.ok(e.le(st, min, f) && (e.le(st, l, max) || e.le(st, ts.intc(4), max)), "class", pos, "characters are added to a class, and the limits become %s and %s", min, max)
		}
		if !added {
			c.ok(e.same(st, min, omin) && e.same(st, max, omax), "class", pos, "the limits of a class become %s and %s, and nothing is added", min, max)
			return
		}
		none := e.truth(st, ts.eq(omin, ts.intc(0))) == 1
		c.ok(e.le(st, one, min) && (none || e.le(st, min, omin)) && e.le(st, omax, max), "class", pos, "the limits of a class become %s and %s, which leaves out what it holds", min, max)
	}
	nested := map[*ploop]bool{}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		for b := range bases(lc.entry) {
			if b.op == "alloc" && !head.esc[b] {
				pt := types.NewPointer(c.p.lookupType("pkg/utils.RunesRanges"))
				for i := 0; i < pt.Elem().Underlying().(*types.Struct).NumFields(); i++ {
					if f := pt.Elem().Underlying().(*types.Struct).Field(i); isInt(f.Type()) {
						a := e.fa(b, pt, i)
						head.mem[a] = e.load(head, a, f.Type())
					}
				}
			}
			min, max := sizes(head, b)
			e.assume(head, ts.lt(min, ts.intc(0)), false)
			e.assume(head, ts.lt(max, ts.intc(0)), false)
		}
		lc.data = map[*Term]ev{}
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		evs := back.cl.(*evState).since(head.cl)
		inner := lc.l.parent != nil
		for _, v := range evs {
			if v.kind == "add" || v.kind == "range" {
				lc.data.(map[*Term]ev)[v.ts[0]] = v
			}
		}
		for b := range bases(lc.entry) {
			omin, omax := sizes(head, b)
			min, max := sizes(back, b)
			if inner && e.same(back, omin, min) && e.same(back, omax, max) {
				continue // the loop around it has to set them
			}
			sized(back, evs, b, omin, omax, min, max, c.p.pos(lc.l.head.Instrs[0].Pos()))
			nested[lc.l] = true
		}
	}
	cl.LoopExit = func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
		for _, v := range lc.data.(map[*Term]ev) {
			if lc.l.parent != nil {
				out.cl.(*evState).add(v.kind, "", v.ts...)
			}
		}
		if lc.l.parent == nil {
			for b := range bases(lc.entry) {
				min, max := sizes(head, b)
				out.cl.(*evState).add("sizes", "", b, min, max)
			}
		}
	}
	st := e.Start(fn, &evState{})
	if fn.Signature.Recv() != nil {
		recv = e.val(st, fn.Params[0])
		rmin, rmax = sizes(st, recv)
		e.assume(st, ts.lt(rmin, ts.intc(0)), false)
		e.assume(st, ts.lt(rmax, ts.intc(0)), false)
	}
	for _, x := range e.RunFrom(fn, st) {
		for b := range bases(x.st) {
			if recv != nil && b != recv {
				continue
			}
			min, max := sizes(x.st, b)
			omin, omax := ts.intc(0), ts.intc(0)
			if b == recv {
				omin, omax = rmin, rmax
			}
			for _, v := range x.st.cl.(*evState).evs {
				if v.kind == "sizes" && v.ts[0] == b {
					omin, omax = v.ts[1], v.ts[2]
				}
			}
			if len(x.res) == 2 && e.truth(x.st, x.res[1]) == 0 {
				continue // refused
			}
			sized(x.st, x.st.cl.(*evState).evs, b, omin, omax, min, max, c.where(x))
		}
	}
	c.done()
}
