package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = func(p *Prog, tier string) *Result { return checkSet(p) }
}

// asciiSet decides C30: a set of ASCII symbols holds exactly the symbols put into it, and its places are found.
type asciiSet struct {
	escaper
	bits map[byte][2]int64 // word and mask of a symbol
}

const setType = "pkg/utils.ASCIISet."

func checkSet(p *Prog) *Result {
	c := &asciiSet{bits: map[byte][2]int64{}}
	c.p, c.r = p, newResult()
	get := func(n string) *ssa.Function {
		fn := p.lookupFunc(n)
		if fn == nil {
			c.r.fail("anchor", n, "-", "the operation was not found")
		}
		return fn
	}
	if fn := get(setType + "Contains"); fn != nil {
		c.contains(fn)
	}
	if fn := get(setType + "Add"); fn != nil {
		c.adds(fn)
	}
	if fn := get("pkg/utils.MakeASCIISet"); fn != nil {
		c.makes(fn)
	}
	for _, n := range []string{"Index", "IndexByte", "LastIndex", "LastIndexByte"} {
		if fn := get(setType + n); fn != nil {
			c.index(fn, strings.HasPrefix(n, "Last"))
		}
	}
	c.r.need("obligations", 100)
	return c.r
}

// eval gives t for the value b of the symbol x.
func (c *asciiSet) eval(t, x *Term, b byte) (n int64, ok bool) {
	defer func() {
		if t.typ != nil && ok {
			if w, is := t.typ.Underlying().(*types.Basic); is && w.Info()&types.IsUnsigned != 0 {
				if k := size(t.typ); k > 0 && k < 8 {
					n &= 1<<(8*k) - 1
				}
			}
		}
	}()
	switch {
	case t == x:
		return int64(b), true
	case t.isInt():
		return t.n, true
	case t.op == "conv" && isIntTyp(t.typ):
		return c.eval(t.args[0], x, b)
	case t.op == "bin" && len(t.args) == 2:
		l, ok1 := c.eval(t.args[0], x, b)
		r, ok2 := c.eval(t.args[1], x, b)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.aux {
		case "/":
			if r > 0 && l >= 0 {
				return l / r, true
			}
		case "%":
			if r > 0 && l >= 0 {
				return l % r, true
			}
		case "<<":
			if r >= 0 && r < 62 {
				return l << r, true
			}
		case ">>":
			if r >= 0 && r < 64 && l >= 0 {
				return l >> r, true
			}
		case "&":
			return l & r, true
		case "|":
			return l | r, true
		case "^":
			return l ^ r, true
		case "&^":
			return l &^ r, true
		case "*":
			return l * r, true
		case "+":
			return l + r, true
		case "-":
			return l - r, true
		}
		return 0, false
	case t.op == "sum":
		l := linOf(t)
		n := l.k
		for y, k := range l.m {
			v, ok := c.eval(y, x, b)
			if !ok {
				return 0, false
			}
			n += k * v
		}
		return n, true
	}
	return 0, false
}

// word: t is a word of the set, its number is given for the value b of x.
func (c *asciiSet) word(t, set, x *Term, b byte) (int64, bool) {
	t = unconv(t)
	if t.op != "load" || t.args[0].op != "ia" || c.root(t.args[0].args[0]) != set {
		return 0, false
	}
	return c.eval(t.args[0].args[1], x, b)
}

// mask gives the word and the mask of a bit of the set which t takes.
func (c *asciiSet) mask(t, set, x *Term, b byte) (r [2]int64, ok bool) {
	t = unconv(t)
	if t.op != "bin" || t.aux != "&" {
		return
	}
	for i := range 2 {
		l, m := unconv(t.args[i]), t.args[1-i]
		k, ok := c.eval(m, x, b)
		if !ok {
			continue
		}
		if w, ok := c.word(l, set, x, b); ok {
			return [2]int64{w, k}, true
		}
		if l.op == "bin" && l.aux == ">>" && k == 1 {
			w, ok1 := c.word(l.args[0], set, x, b)
			n, ok2 := c.eval(l.args[1], x, b)
			if ok1 && ok2 && n >= 0 && n < 32 {
				return [2]int64{w, 1 << n}, true
			}
		}
	}
	return
}

// contains: a symbol of ASCII has a bit of its own in the set, other symbols have none.
func (c *asciiSet) contains(fn *ssa.Function) {
	c.open(fn)
	e := c.e
	ts := e.ts
	st := e.Start(fn, &evState{})
	set, x := e.val(st, fn.Params[0]), e.val(st, fn.Params[1])
	for _, o := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(o.ret)
		c.r.count("return_paths", 1)
		for _, b := range c.bytes(o.st, x) {
			t, yes := o.res[0], true
			if k := e.truth(o.st, t); t.op != "not" && t.op != "lt" && t.op != "eq" && k >= 0 {
				t = ts.boolc(k == 1)
			}
			if b >= 128 {
				c.ok(t.isFalse(), "contains", pos, "the symbol %d, which no set holds, may be in a set", b)
				continue
			}
			for t.op == "not" {
				t, yes = t.args[0], !yes
			}
			var m [2]int64
			ok := false
			switch {
			case t.op == "eq" && !yes && t.args[0].isInt() && t.args[0].n == 0:
				m, ok = c.mask(t.args[1], set, x, b)
			case t.op == "eq" && yes && t.args[0].isInt() && t.args[0].n == 1:
				if m, ok = c.mask(t.args[1], set, x, b); ok && m[1] != 1 && unconv(t.args[1]).args[0].op != "bin" && unconv(t.args[1]).args[1].op != "bin" {
					ok = false
				}
			case t.op == "lt" && yes && t.args[0].isInt() && t.args[0].n == 0:
				m, ok = c.mask(t.args[1], set, x, b)
			}
			c.ok(ok, "contains", pos, "it is not known which bit is taken for the symbol %d (%s)", b, o.res[0])
			if !ok {
				continue
			}
			c.ok(m[0] >= 0 && m[0] < 8 && m[1] > 0 && m[1]&(m[1]-1) == 0 && m[1] < 1<<32, "contains", pos, "not one bit is taken for the symbol %d", b)
			old, dup := c.bits[b]
			c.ok(!dup || old == m, "contains", pos, "the bit of the symbol %d differs by path", b)
			c.bits[b] = m
		}
	}
	seen := map[[2]int64]byte{}
	for b := range 128 {
		m, ok := c.bits[byte(b)]
		o, dup := seen[m]
		c.ok(ok && !dup, "contains", c.p.pos(fn.Pos()), "the symbols %d and %d have the same bit", b, o)
		seen[m] = byte(b)
	}
	c.close()
}

// set: a write sets the bit of each of the symbols which are possible, and no other.
func (c *asciiSet) sets(v ev, set, x *Term, bytes []byte, pos string) {
	place, val := v.ts[1], unconv(v.ts[2])
	if c.s != nil {
		place, val = c.norm(place), c.norm(val)
	}
	for _, b := range bytes {
		w, ok := c.eval(place, x, b)
		m, k := c.bits[b], int64(0)
		good := ok && c.root(v.ts[0]) == set && val.op == "bin" && val.aux == "|"
		if good {
			good = false
			for i := range 2 {
				if l, ok := c.word(val.args[i], set, x, b); ok && l == w {
					k, good = c.eval(val.args[1-i], x, b)
				}
			}
		}
		c.ok(good && b < 128 && w == m[0] && k == m[1], "add", pos, "something else is written for the symbol %d than its bit is set", b)
	}
}

func (c *asciiSet) begin(fn *ssa.Function) {
	c.open(fn)
	cl := c.e.cl
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			c.add(st, "put", "", e.val(st, ia.X), e.val(st, ia.Index), val)
		} else if val.op != "load" || val.args[0] != addr {
			c.add(st, "store", "", addr, val)
		}
	}
}

func (c *asciiSet) adds(fn *ssa.Function) {
	c.begin(fn)
	e := c.e
	st := e.Start(fn, &evState{})
	set, x := e.val(st, fn.Params[0]), e.val(st, fn.Params[1])
	for _, o := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(o.ret)
		c.r.count("return_paths", 1)
		bytes, vs := c.bytes(o.st, x), c.evs(o.st)
		switch e.truth(o.st, o.res[0]) {
		case 0:
			c.ok(len(vs) == 0, "add", pos, "a symbol is refused and the set is written")
			for _, b := range bytes {
				c.ok(b >= 128, "add", pos, "the symbol %d is refused", b)
			}
		case 1:
			c.ok(len(vs) == 1 && vs[0].kind == "put", "add", pos, "not one bit is written")
			if len(vs) == 1 && vs[0].kind == "put" {
				c.sets(vs[0], set, x, bytes, pos)
			}
		default:
			c.ok(false, "add", pos, "it is not known whether the symbol was added")
		}
	}
	c.close()
}

// makes: each symbol of the text is added; a text with other symbols is refused.
func (c *asciiSet) makes(fn *ssa.Function) {
	c.begin(fn)
	e := c.e
	cl := e.cl
	c.loops, c.chain = nil, map[*Term]*Term{}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) { c.loopHead(lc, head) }
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) bool { return c.check(lc, head, back) }
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		c.back(lc, head, back, c.p.pos(fn.Pos()))
	}
	st := e.Start(fn, &evState{})
	c.s = e.val(st, fn.Params[0])
	for _, o := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(o.ret)
		c.r.count("return_paths", 1)
		vs := c.evs(o.st)
		var lv *ev
		n := 0
		for i, v := range vs {
			if v.kind == "loop" {
				lv = &vs[i]
				n++
			}
		}
		if n != 1 || len(lv.ts) == 0 {
			c.ok(n == 0 && e.truth(o.st, e.ts.eq(e.lenT(c.s), e.ts.intc(0))) == 1, "make", pos, "not all symbols are looked at in one loop")
			continue
		}
		switch e.truth(o.st, o.res[1]) {
		case 1:
			c.ok(c.within(o.st, lv.ts[0]) == 0, "make", pos, "the loop ends before the text")
			set := o.res[0]
			c.ok(set.op == "load" && set.args[0].op == "alloc" && c.root(set.args[0]) == set.args[0], "make", pos, "it is not known which set is returned (%s)", set)
			if set.op != "load" {
				continue
			}
			set = set.args[0]
			for _, v := range vs {
				c.ok(v.kind == "loop", "make", pos, "something else is written than the symbols (%s)", v.kind)
			}
			for _, s := range c.loopOf(*lv).steps {
				c.ok(len(s.put) == 1 && len(s.w) == 0, "make", pos, "not one bit is written for a symbol")
				if len(s.put) == 1 {
					c.sets(s.put[0], set, c.at(s.at), s.bytes, pos)
				}
			}
		case 0:
			c.ok(c.within(o.st, lv.ts[0]) == 1, "make", pos, "a text is refused behind the loop")
			for _, b := range c.bytes(o.st, c.at(lv.ts[0])) {
				c.ok(b >= 128, "make", pos, "a text with the symbol %d is refused", b)
			}
		default:
			c.ok(false, "make", pos, "it is not known whether the set is valid")
		}
	}
	c.close()
}

// setLoop is what is known of a search.
type setLoop struct {
	i     *ssa.Phi
	ints  []*ssa.Phi
	entry map[*ssa.Phi]*Term
}

// index: the places of the text are looked at in order, the first of a symbol in the set is returned, -1 behind the last.
func (c *asciiSet) index(fn *ssa.Function, last bool) {
	c.open(fn)
	e := c.e
	ts := e.ts
	cl := e.cl
	d1 := int64(1)
	if last {
		d1 = -1
	}
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee == nil || fnName(callee) != "(*pkg/utils.ASCIISet).Contains" {
			return false, nil
		}
		return true, ts.mk("call", "set.Contains", types.Typ[types.Bool], args...)
	}
	var set, text *Term
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*setLoop)
		if d == nil {
			d = &setLoop{entry: map[*ssa.Phi]*Term{}}
			lc.data = d
			for i, q := range lc.phis {
				if isIntTyp(q.Type()) {
					d.ints = append(d.ints, q)
					d.entry[q] = lc.vals[i]
				}
			}
		}
		d.i = nil
		if len(d.ints) > 0 {
			d.i = d.ints[0]
			h := e.val(head, d.i)
			if last {
				e.assume(head, ts.lt(d.entry[d.i], h), false)
			} else {
				e.assume(head, ts.lt(h, d.entry[d.i]), false)
				// a step looks at its place (see back), so the next one is not behind the end
				e.assume(head, ts.lt(e.lenT(text), ts.addT(h, d.entry[d.i], -1)), false)
			}
			c.add(head, "loop", "", h, d.entry[d.i])
		} else {
			c.add(head, "loop", "")
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) bool {
		d := lc.data.(*setLoop)
		if d.i != nil && e.val(back, d.i) != ts.addT(e.val(head, d.i), ts.intc(d1), 1) {
			d.ints = d.ints[1:]
			return true
		}
		return false
	}
	// tested gives the place whose symbol was tested and found to be in the set (or not).
	tested := func(st *PState, in bool) (l []*Term) {
		for f, v := range st.facts {
			if v != in || f.op != "call" || f.aux != "set.Contains" || f.args[0] != set {
				continue
			}
			y := unconv(f.args[1])
			switch {
			case y.op == "idx" && y.args[0] == text:
				l = append(l, y.args[1])
			case y.op == "load" && y.args[0].op == "ia" && unconv(y.args[0].args[0]) == text:
				l = append(l, y.args[0].args[1])
			}
		}
		return
	}
	has := func(l []*Term, t *Term) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	// first: the place p of the loop is the first one when the loop begins.
	first := func(st *PState, p *Term, lv []*Term) bool {
		q := ts.addT(ts.addT(p, lv[0], -1), lv[1], 1)
		if last {
			return ts.addT(q, ts.addT(e.lenT(text), ts.intc(1), -1), -1) == ts.intc(0)
		}
		return q == ts.intc(0)
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*setLoop)
		pos := c.p.pos(fn.Pos())
		if d.i == nil {
			c.ok(false, "index", pos, "the search has no place which goes on by one")
			return
		}
		good := false
		for _, p := range tested(back, false) {
			good = good || first(back, p, []*Term{e.val(head, d.i), d.entry[d.i]})
		}
		c.ok(good, "index", pos, "a step goes on and the symbol may be in the set")
	}
	st := e.Start(fn, &evState{})
	set, text = e.val(st, fn.Params[0]), e.val(st, fn.Params[1])
	c.s = text
	for _, o := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		pos := c.p.instrPos(o.ret)
		c.r.count("return_paths", 1)
		var lv []*Term
		n := 0
		for _, v := range c.evs(o.st) {
			if v.kind == "loop" {
				lv = v.ts
				n++
			}
		}
		r := o.res[0]
		none := e.truth(o.st, ts.eq(e.lenT(text), ts.intc(0))) == 1
		switch {
		case n == 0:
			c.ok(none && r.isInt() && r.n == -1, "index", pos, "the text is not searched")
		case n > 1 || len(lv) < 2:
			c.ok(false, "index", pos, "the text is not searched in one loop")
		case has(tested(o.st, true), r):
			c.ok(first(o.st, r, lv), "index", pos, "another place is returned than the one looked at (%s)", r)
		case r.isInt() && r.n == -1:
			// the place p which is next is behind the last one
			p := ts.addT(lv[0], lv[1], -1)
			if last {
				p = ts.addT(ts.addT(p, e.lenT(text), 1), ts.intc(1), -1)
				c.ok(e.le(o.st, p, ts.intc(-1)), "index", pos, "the search may end before the first place")
			} else {
				c.ok(e.le(o.st, e.lenT(text), p) || c.within(o.st, p) == 0, "index", pos, "the search may end before the last place")
			}
		default:
			c.ok(false, "index", pos, "it is not known what is returned (%s)", r)
		}
		if len(e.finds) > n0 {
			c.show(o.st)
		}
	}
	c.close()
}
