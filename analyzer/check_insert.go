package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// checkSorted decides what the searches of a key rely on: a list of an existing node which is searched by key is only
// ever changed by putting one new element into it, behind elements which are known to have lesser keys and before ones
// known to have greater keys, where the name is the least of all.
func checkSorted(p *Prog, r *Result, e0 *PEngine) {
	// the keys of a node are looked up in the tags from the place of the key before on, so they must be in order
	fields := map[string]bool{}
	for _, n := range p.named {
		s, ok := n.Underlying().(*types.Struct)
		if !ok || !hasPrefixAny(typName(n), "gtags.") {
			continue
		}
		for i := range s.NumFields() {
			if keyed(s.Field(i).Type()) && typName(s.Field(i).Type().Underlying().(*types.Slice).Elem()) != "gtags.Tag" {
				fields[typName(n)+"."+s.Field(i).Name()] = true
			}
		}
	}
	if len(fields) == 0 {
		return
	}
	e := newPEngine(p, &PClient{})
	writes := func(f *ssa.Function) bool {
		for k := range fields {
			if e.mods[f][k] || e.mods[f]["*"] {
				return true
			}
		}
		return false
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	var ws []*ssa.Function
	for _, f := range p.funcs {
		if f.Pkg == nil || !hasPrefixAny(fnName(f), "gtags.", "(*gtags.", "(gtags.") || !writes(f) {
			continue
		}
		ws = append(ws, f)
		for _, g := range e.callees[f] {
			callers[g] = append(callers[g], f)
		}
	}
	// a function which writes such a list itself is right by itself, or in all that call it
	var roots []*ssa.Function
	for _, f := range ws {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if st, ok := pt.Underlying().(*types.Struct); ok && fields[typName(pt)+"."+st.Field(fa.Field).Name()] && (len(roots) == 0 || roots[len(roots)-1] != f) {
							roots = append(roots, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	var judge func(f *ssa.Function, depth int) []Finding
	judge = func(f *ssa.Function, depth int) []Finding {
		s := &sorter{p: p, r: r, fields: fields}
		finds := s.run(f)
		if len(finds) == 0 || depth == 0 {
			return finds
		}
		var up []*ssa.Function
		for _, g := range callers[f] {
			if g != f && !e.rec[g] {
				up = append(up, g)
			}
		}
		if len(up) == 0 || len(up) != len(callers[f]) {
			return finds
		}
		var all []Finding
		for _, g := range up {
			all = append(all, judge(g, depth-1)...)
		}
		return all
	}
	for _, f := range roots {
		e0.finds = append(e0.finds, judge(f, 3)...)
		r.Coverage["functions"] = append(toStrings(r.Coverage["functions"]), fnName(f))
	}
	r.need("insertions", 4)
}

// keyed: a list of structs with a key.
func keyed(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s, ok := sl.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := range s.NumFields() {
		if s.Field(i).Name() == "Key" && isStrTyp(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

type sorter struct {
	p      *Prog
	r      *Result
	e      *PEngine
	fn     *ssa.Function
	fields map[string]bool
}

type sortLoop struct {
	low, high, above map[*ssa.Phi]bool
	pos, least       map[*ssa.Phi]bool
	min              map[*ssa.Phi]int64 // a bound of the value at entry
	le               map[[2]*ssa.Phi]bool
}

func (c *sorter) run(fn *ssa.Function) []Finding {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	c.e, c.fn = e, fn
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return !e.rec[f] && len(f.Blocks) < 100
	}
	cl.LoopHead = c.head
	cl.BackCheck = c.back
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op != "fa" || addrRoot(addr).op == "alloc" || !c.fields[addr.aux] || val.op == "zero" {
			return
		}
		s := st.cl.(*evState)
		for _, v := range s.evs {
			if v.kind == "list" && v.ts[0] == addr {
				return
			}
		}
		s.add("list", "", addr, e.load(st, addr, in.Val.Type()))
		s.add("at", c.p.instrPos(in))
	}
	cl.Copy = func(e *PEngine, st *PState, in ssa.Instruction, dst, src *Term) {
		if src.op == "slice" && dst.op == "slice" && src.args[0] == dst.args[0] && src.args[2].op == "none" && dst.args[2].op == "none" {
			if x := src.args[0]; e.ts.addT(src.args[1], e.ts.intc(1), 1) == dst.args[1] && x.op == "append" && len(x.args) == 2 && arrayLen(x.args[1]) == 1 {
				st.cl.(*evState).add("hole", "", x, src.args[1])
			}
		}
	}
	cl.Opaque = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) {
		if callee != nil && e.inMod(callee) && !e.rec[callee] {
			return
		}
		c.judge(st)
		s := st.cl.(*evState)
		k := s.evs[:0]
		for _, v := range s.evs {
			if v.kind != "list" && v.kind != "hole" {
				k = append(k, v)
			}
		}
		s.evs = k
	}
	st := e.Start(fn, &evState{})
	for _, x := range e.RunFrom(fn, st) {
		c.judge(x.st)
	}
	return e.finds
}

// judge checks every list changed on the path.
func (c *sorter) judge(st *PState) {
	e := c.e
	at := "-"
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "at" {
			at = v.aux
		}
	}
	for _, v := range append([]ev(nil), st.cl.(*evState).evs...) {
		if v.kind != "list" {
			continue
		}
		now := e.load(st, v.ts[0], v.ts[1].typ)
		if e.same(st, now, v.ts[1]) {
			continue
		}
		c.r.count("insertions", 1)
		if why := c.inserted(st, v.ts[1], now); why != "" {
			if dbg {
				println("== ", why)
				for f, v := range st.facts {
					println("  fact", f.String(), v)
				}
				for _, v := range st.cl.(*evState).evs {
					println("  ev", v.key())
				}
			}
			e.fail("sorted", fnName(c.fn), at, "%s", why)
		}
	}
}

// part: a piece of the old list, or a new element.
type listPart struct {
	old    bool
	lo, hi *Term // nil: from the start, to the end
	key    *Term
}

func (c *sorter) parts(st *PState, old, v *Term) ([]listPart, bool) {
	e := c.e
	if e.same(st, v, old) {
		return []listPart{{old: true}}, true
	}
	elem := func(base *Term, i int64, t types.Type) *Term {
		a := e.ts.mk("ia", "", types.NewPointer(t), base, e.ts.intc(i))
		s := t.Underlying().(*types.Struct)
		for j := range s.NumFields() {
			if s.Field(j).Name() == "Key" {
				return e.load(st, e.fa(a, types.NewPointer(t), j), s.Field(j).Type())
			}
		}
		return nil
	}
	sl, ok := v.typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	switch v.op {
	case "append":
		a, ok := c.parts(st, old, v.args[0])
		if !ok {
			return nil, false
		}
		for _, w := range v.args[1:] {
			b, ok := c.parts(st, old, w)
			if !ok {
				return nil, false
			}
			a = append(a, b...)
		}
		for _, h := range st.cl.(*evState).evs {
			if h.kind == "hole" && h.ts[0] == v {
				i := h.ts[1]
				a := e.ts.mk("ia", "", types.NewPointer(sl.Elem()), v, i)
				s := sl.Elem().Underlying().(*types.Struct)
				for j := range s.NumFields() {
					if s.Field(j).Name() == "Key" {
						return []listPart{{old: true, hi: i}, {key: e.load(st, e.fa(a, types.NewPointer(sl.Elem()), j), s.Field(j).Type())}, {old: true, lo: i}}, true
					}
				}
			}
		}
		return a, true
	case "slice":
		if e.same(st, v.args[0], old) {
			q := listPart{old: true}
			if !(v.args[1].op == "none" || v.args[1].isInt() && v.args[1].n == 0) {
				q.lo = v.args[1]
			}
			if v.args[2].op != "none" {
				q.hi = v.args[2]
			}
			return []listPart{q}, true
		}
		n := arrayLen(v)
		if n < 0 && v.args[1].isInt() && v.args[1].n == 0 && v.args[2].isInt() {
			n = v.args[2].n
		}
		if n < 0 || n > 4 {
			return nil, false
		}
		var r []listPart
		for i := range n {
			r = append(r, listPart{key: elem(v.args[0], i, sl.Elem())})
		}
		return r, true
	case "alloc":
		b := e.bounds(st, e.lenT(v))
		if !b.hasL || !b.hasH || b.lo != b.hi || b.lo > 4 {
			return nil, false
		}
		var r []listPart
		for i := range b.lo {
			r = append(r, listPart{key: elem(v, i, sl.Elem())})
		}
		return r, true
	case "nil", "zero":
		return nil, true
	}
	return nil, false
}

// inserted tells why a list is not the old one with one element put into its place.
func (c *sorter) inserted(st *PState, old, now *Term) string {
	e := c.e
	ps, ok := c.parts(st, old, now)
	if !ok {
		return "the list of keys is replaced and what it holds now is not known"
	}
	var key, at *Term
	ln := e.lenT(old)
	next := e.ts.intc(0) // the place of the old list reached
	for _, q := range ps {
		if !q.old {
			if key != nil {
				return "more than one element is put into a list of keys"
			}
			key, at = q.key, next
			continue
		}
		lo, hi := q.lo, q.hi
		if lo == nil {
			lo = e.ts.intc(0)
		}
		if hi == nil {
			hi = ln
		}
		if !e.same(st, lo, next) {
			return "a list of keys is built of parts of the old one which do not follow each other"
		}
		next = hi
	}
	if !e.same(st, next, ln) {
		return "a list of keys is replaced by one without all its elements"
	}
	if key == nil {
		return ""
	}
	ln0 := e.truth(st, e.ts.eq(ln, e.ts.intc(0))) == 1
	f := c.finder(old, key)
	x := c.sharpen(st)
	if x == nil || ln0 {
		return ""
	}
	name := e.truth(x, e.ts.eq(key, e.ts.strc(nameKey)))
	if f.isName(key) {
		name = 1
	}
	zero := e.truth(x, e.ts.eq(at, e.ts.intc(0))) == 1
	switch {
	case name == 1 && zero:
		// nothing sorts before the name
		for g, v := range x.facts {
			if g.op == "eq" && !v {
				for j := range 2 {
					if k := f.keyAt(g.args[j]); k != nil && k == e.ts.intc(0) && (f.isName(g.args[1-j]) || g.args[1-j] == key) {
						return ""
					}
				}
			}
		}
		return "the name is put into a list of keys which may have it"
	case name == 1:
		return "the name is put behind the first place of a list of keys"
	case name < 0:
		return "a key which may be the name is put into a list of keys by the order of its letters"
	}
	if !c.below(f, x, at) {
		return "a key is put behind elements which are not known to have lesser keys"
	}
	if zero {
		first := false
		for g, v := range x.facts {
			if g.op == "eq" && !v {
				for j := range 2 {
					if k := f.keyAt(g.args[j]); k != nil && k == e.ts.intc(0) && f.isName(g.args[1-j]) {
						first = true
					}
				}
			}
		}
		if !first {
			return "a key is put at the begin of a list which may have the name there"
		}
	}
	if !c.above(f, x, at) {
		return "a key is put before elements which are not known to have greater keys"
	}
	return ""
}

func (c *sorter) finder(list, key *Term) *finder {
	f := &finder{p: c.p, e: c.e, lst: list, key: key}
	f.list = func(t *Term) bool { return t == list }
	return f
}

// below: all elements before t have lesser keys.
func (c *sorter) below(f *finder, st *PState, t *Term) bool {
	e := c.e
	if e.truth(st, e.ts.eq(t, e.ts.intc(0))) == 1 {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "low" && v.ts[1] == f.key && e.le(st, t, v.ts[0]) {
			return true
		}
	}
	one := e.ts.intc(1)
	return f.sides(st, func(i *Term, s int) bool {
		switch s {
		case 1:
			return e.le(st, t, e.ts.addT(i, one, 1))
		case 3:
			return e.le(st, t, i)
		}
		return false
	})
}

// above: all elements from t on have greater keys.
func (c *sorter) above(f *finder, st *PState, t *Term) bool {
	e := c.e
	if e.le(st, e.lenT(f.lst), t) {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "above" && v.ts[1] == f.key && e.le(st, v.ts[0], t) {
			return true
		}
	}
	if f.sides(st, func(i *Term, s int) bool { return s == 2 && e.le(st, i, t) }) {
		return true
	}
	// none has a lesser one, and the first of them another one
	if c.atLeast(f, st, t) {
		return f.sides(st, func(i *Term, s int) bool { return s == 4 && (i == t || e.same(st, i, t)) })
	}
	return false
}

// atLeast: no element from t on has a lesser key.
func (c *sorter) atLeast(f *finder, st *PState, t *Term) bool {
	e := c.e
	if e.le(st, e.lenT(f.lst), t) {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if (v.kind == "above" || v.kind == "least") && v.ts[1] == f.key && e.le(st, v.ts[0], t) {
			return true
		}
	}
	return f.sides(st, func(i *Term, s int) bool { return (s == 2 || s == 5) && e.le(st, i, t) })
}

// subjects are the lists and keys compared on the path: the key of an element against another text.
func (c *sorter) subjects(st *PState, fr *PState) (fs []*finder) {
	e := c.e
	for _, q := range c.fn.Params {
		pt, ok := q.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := range s.NumFields() {
			if !c.fields[typName(pt.Elem())+"."+s.Field(i).Name()] {
				continue
			}
			l := e.loadField(st, e.val(st, q), q.Type(), s.Field(i).Name())
			for _, k := range c.fn.Params {
				if isStrTyp(k.Type()) {
					fs = append(fs, c.finder(l, e.val(st, k)))
				}
			}
		}
	}
	return
}

// sharpen adds what is known of the middle of two places: it is before the second when they differ. Nil: not possible.
func (c *sorter) sharpen(st *PState) *PState {
	e := c.e
	x := st.clone()
	apart := func(a, m *Term) bool { // a <= m
		if !e.assume(x, e.ts.lt(m, a), false) {
			return false
		}
		b, n := e.bounds(x, a), int64(0)
		if e.truth(x, e.ts.eq(a, m)) == 0 {
			if n = 1; !e.assume(x, e.ts.lt(a, m), true) {
				return false
			}
		}
		return !b.hasL || e.assume(x, e.ts.lt(m, e.ts.intc(b.lo+n)), false)
	}
	mids := map[*Term]bool{}
	for f := range st.facts {
		walkTerm(f, func(t *Term) {
			if t.op == "bin" && (t.aux == token.QUO.String() || t.aux == token.SHR.String()) {
				mids[t] = true
			}
		})
	}
	var ord []*Term
	for m := range mids {
		ord = append(ord, m)
	}
	sort.Slice(ord, func(i, j int) bool { return ord[i].id < ord[j].id })
	for _, m := range ord {
		d := m.args[1]
		if !d.isInt() || m.aux == token.QUO.String() && d.n != 2 || m.aux == token.SHR.String() && d.n != 1 {
			continue
		}
		// (a+b)/2, or (b-a)/2 which is added to a
		l := linOf(m.args[0])
		if len(l.m) != 2 || l.k != 0 {
			continue
		}
		var pos, neg []*Term
		for t, n := range l.m {
			if n == 1 {
				pos = append(pos, t)
			} else if n == -1 {
				neg = append(neg, t)
			}
		}
		if len(pos) == 1 && len(neg) == 1 {
			a, b := neg[0], pos[0]
			if e.le(x, a, b) {
				mid := e.ts.addT(a, m, 1)
				if !apart(a, mid) || !apart(mid, b) {
					return nil
				}
				if e.truth(x, e.ts.eq(a, b)) == 0 && !e.assume(x, e.ts.lt(mid, b), true) {
					return nil
				}
			}
		}
		if len(pos) == 2 {
			for i := range 2 {
				a, b := pos[i], pos[1-i]
				if e.le(x, a, b) {
					if !apart(a, m) || !apart(m, b) {
						return nil
					}
					if e.truth(x, e.ts.eq(a, b)) == 0 && !e.assume(x, e.ts.lt(m, b), true) {
						return nil
					}
				}
			}
		}
	}
	return x
}

func walkTerm(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.args {
		if a != nil {
			walkTerm(a, f)
		}
	}
}

func (c *sorter) head(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*sortLoop)
	fs := c.subjects(head, head)
	if len(fs) != 1 {
		return
	}
	f := fs[0]
	if d == nil {
		d = &sortLoop{map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]int64{}, map[[2]*ssa.Phi]bool{}}
		lc.data = d
		for i, q := range lc.phis {
			if isIntTyp(q.Type()) {
				d.low[q], d.above[q] = true, true
				d.high[q], d.least[q] = true, true
				b := e.bounds(head, lc.vals[i])
				d.min[q], d.pos[q] = b.lo, b.hasL
				for _, o := range lc.phis {
					if o != q && isIntTyp(o.Type()) {
						d.le[[2]*ssa.Phi{q, o}] = true
					}
				}
			}
		}
	}
	val := map[*ssa.Phi]*Term{}
	for i, q := range lc.phis {
		if !isIntTyp(q.Type()) {
			continue
		}
		val[q] = lc.vals[i]
		d.low[q] = d.low[q] && c.below(f, head, lc.vals[i])
		d.least[q] = d.least[q] && c.atLeast(f, head, lc.vals[i])
		d.above[q] = d.above[q] && c.above(f, head, lc.vals[i])
		d.high[q] = d.high[q] && c.above(f, head, e.ts.addT(lc.vals[i], e.ts.intc(1), 1))
	}
	var ps []*ssa.Phi
	for _, q := range lc.phis {
		if isIntTyp(q.Type()) {
			ps = append(ps, q)
		}
	}
	for _, q := range ps {
		for _, o := range ps {
			k := [2]*ssa.Phi{q, o}
			if q != o && d.le[k] {
				d.le[k] = e.le(head, val[q], val[o])
			}
		}
	}
	s := head.cl.(*evState)
	for _, q := range ps {
		h := e.val(head, q)
		if d.pos[q] {
			e.assume(head, e.ts.lt(h, e.ts.intc(d.min[q])), false)
		}
		if d.low[q] {
			s.add("low", "", h, f.key)
		}
		if d.least[q] {
			s.add("least", "", h, f.key)
		}
		if d.above[q] {
			s.add("above", "", h, f.key)
		}
		if d.high[q] {
			s.add("above", "", e.ts.addT(h, e.ts.intc(1), 1), f.key)
		}
		for _, o := range ps {
			if q != o && d.le[[2]*ssa.Phi{q, o}] {
				e.assume(head, e.ts.lt(e.val(head, o), h), false)
			}
		}
	}
}

func (c *sorter) back(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
	d, _ := lc.data.(*sortLoop)
	fs := c.subjects(head, head)
	if d == nil || len(fs) != 1 {
		return
	}
	f := fs[0]
	x := c.sharpen(back)
	if x == nil {
		return false
	}
	var ps []*ssa.Phi
	for _, q := range lc.phis {
		if isIntTyp(q.Type()) {
			ps = append(ps, q)
		}
	}
	for i, q := range lc.phis {
		if isIntTyp(q.Type()) && e.val(head, q) == lc.vals[i] && e.val(x, q) != lc.vals[i] {
			return false // its value becomes open, which is looked at again
		}
	}
	off := func(m map[*ssa.Phi]bool, q *ssa.Phi, ok bool) {
		if m[q] && !ok {
			m[q], ch = false, true
		}
	}
	for _, q := range ps {
		v := e.val(x, q)
		off(d.pos, q, e.le(x, e.ts.intc(d.min[q]), v))
		off(d.low, q, c.below(f, x, v))
		off(d.least, q, c.atLeast(f, x, v))
		off(d.above, q, c.above(f, x, v))
		off(d.high, q, c.above(f, x, e.ts.addT(v, e.ts.intc(1), 1)))
		for _, o := range ps {
			k := [2]*ssa.Phi{q, o}
			if q != o && d.le[k] && !e.le(x, v, e.val(x, o)) {
				d.le[k], ch = false, true
			}
		}
	}
	return
}
