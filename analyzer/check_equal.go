package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = func(p *Prog, tier string) *Result { return checkEqual(p) }
}

// decides lists the fields which decide what an item matches; the others are derived from them or are hints for a search.
var decides = map[string][]string{
	"pkg/items.String":      {"S"},
	"pkg/items.Chain":       {"Items"},
	"pkg/items.Group":       {"Vals"},
	"pkg/items.StringList":  {"Vals", "MinSize"},
	"pkg/items.RunesRanges": {"RunesRanges"},
	"pkg/utils.RunesRanges": {"ASCII", "UnicodeRanges"},
}

// checkEqual decides C18: items compare as equal only when everything which decides what they match is equal.
func checkEqual(p *Prog) *Result {
	r := newResult()
	it := p.lookupType("pkg/items.Item")
	iface, _ := it.Underlying().(*types.Interface)
	if iface == nil {
		r.fail("anchor", "pkg/items.Item", "-", "the interface of items was not found")
		return r
	}
	var eq *types.Func
	for i := 0; i < iface.NumMethods(); i++ {
		if iface.Method(i).Name() == "Equal" {
			eq = iface.Method(i)
		}
	}
	if eq == nil {
		r.fail("anchor", "pkg/items.Item.Equal", "-", "items have no comparison")
		return r
	}
	for _, t := range p.implementers(iface) {
		fn := p.methodOf(t, eq)
		if fn == nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue // promoted: a wrapper compares as what it wraps
		}
		c := &equaler{p: p, r: r, fn: fn}
		c.run()
		r.count("comparisons", 1)
		r.Coverage["functions"] = append(toStrings(r.Coverage["functions"]), fnName(fn))
	}
	r.need("comparisons", 9)
	r.need("accepting_paths", 9)
	r.need("fields_compared", 10)
	return r
}

type equaler struct {
	p  *Prog
	r  *Result
	fn *ssa.Function
	e  *PEngine
}

type equalLoop struct {
	cands []ev // upto: a, b and the number compared, in terms of the counter's phi
	drop  map[string]bool
}

func (c *equaler) run() {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.readOnly = true
	e.maxSt = 400
	c.e = e
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool { return len(f.Blocks) < 100 }
	cl.LoopHead = c.loopHead
	cl.BackCheck = c.backCheck
	st := e.Start(c.fn, &evState{})
	recv, other := e.val(st, c.fn.Params[0]), e.val(st, c.fn.Params[1])
	rt := c.fn.Params[0].Type()
	for _, x := range e.RunFrom(c.fn, st) {
		pos := c.p.instrPos(x.ret)
		s := x.st.clone()
		if x.res[0].isFalse() || !x.res[0].isTrue() && !e.assume(s, x.res[0], true) {
			c.r.count("refusing_paths", 1)
			continue
		}
		c.r.count("accepting_paths", 1)
		fail := func(f string, a ...any) {
			if dbg {
				for f, v := range s.facts {
					println("  fact", f.String(), v)
				}
				for _, v := range s.cl.(*evState).evs {
					println("  ev", v.kind, v.ts[0].String(), v.ts[1].String(), v.ts[2].String())
				}
			}
			e.fail("equal", fnName(c.fn), pos, f, a...)
		}
		ifc := e.ts.mk("iface", typName(rt), nil, recv)
		if e.same(s, ifc, other) {
			continue
		}
		v := e.ts.mk("assert", typName(rt), rt, other)
		if e.truth(s, e.ts.mk("assertok", typName(rt), types.Typ[types.Bool], other)) != 1 {
			fail("items may compare as equal when the other one is of another type")
			continue
		}
		if e.same(s, recv, v) {
			c.r.count("fields_compared", 1)
			continue
		}
		pt, ok := rt.Underlying().(*types.Pointer)
		if !ok {
			fail("items compare as equal and the values were not compared")
			continue
		}
		fs, ok := decides[typName(pt.Elem())]
		if !ok {
			// a new kind of item: every field counts
			u, _ := pt.Elem().Underlying().(*types.Struct)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i).Name())
			}
		}
		c.fields(s, recv, v, pt.Elem(), fs, fail)
	}
	c.r.Findings = append(c.r.Findings, e.finds...)
	c.r.count("loops_solved", e.loops)
}

// fields checks that the fields of two structs are known to be equal.
func (c *equaler) fields(st *PState, a, b *Term, t types.Type, names []string, fail func(string, ...any)) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		fail("%s is no struct", typName(t))
		return
	}
	for _, n := range names {
		i := 0
		for i < s.NumFields() && s.Field(i).Name() != n {
			i++
		}
		if i == s.NumFields() {
			c.r.fail("anchor", typName(t)+"."+n, "-", "the field was not found")
			continue
		}
		c.r.count("fields_compared", 1)
		ft := s.Field(i).Type()
		x, y := c.e.fa(a, types.NewPointer(t), i), c.e.fa(b, types.NewPointer(t), i)
		if sub, ok := decides[typName(ft)]; ok {
			c.fields(st, x, y, ft, sub, fail)
			continue
		}
		if !c.equal(st, c.e.load(st, x, ft), c.e.load(st, y, ft)) {
			fail("items compare as equal and their %s.%s was not found equal", typName(t), n)
		}
	}
}

func (c *equaler) equal(st *PState, x, y *Term) bool {
	e := c.e
	if e.same(st, x, y) {
		return true
	}
	if x.op == "struct" && y.op == "struct" && len(x.args) == len(y.args) && len(x.args) > 0 {
		for i := range x.args {
			if !c.equal(st, x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	}
	for f, v := range st.facts {
		if v && f.op == "call" && len(f.args) >= 2 && (f.args[0] == x && f.args[1] == y || f.args[0] == y && f.args[1] == x) &&
			(f.aux == "method Equal" || strings.HasPrefix(f.aux, "slices.Equal") || f.aux == "bytes.Equal") {
			return true
		}
	}
	// lists compared pair by pair up to their end
	lx, ly := e.lenT(x), e.lenT(y)
	if !e.same(st, lx, ly) {
		return false
	}
	if e.truth(st, e.ts.eq(lx, e.ts.intc(0))) == 1 {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "downto" && (v.ts[0] == x && v.ts[1] == y || v.ts[0] == y && v.ts[1] == x) && e.le(st, v.ts[2], e.ts.intc(0)) {
			return true
		}
		if v.kind == "upto" && (v.ts[0] == x && v.ts[1] == y || v.ts[0] == y && v.ts[1] == x) && (e.le(st, lx, v.ts[2]) || e.le(st, ly, v.ts[2])) {
			return true
		}
	}
	return false
}

// pairs gives the pairs of list elements at one place which are known to be equal.
func (c *equaler) pairs(st *PState) (r [][3]*Term) {
	add := func(x, y *Term) {
		a, i := elem(x)
		b, j := elem(y)
		if a == nil || b == nil {
			return
		}
		if c.e.same(st, i, j) && a != b {
			r = append(r, [3]*Term{a, b, i})
		}
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		switch {
		case f.op == "eq":
			x, y := f.args[0], f.args[1]
			add(x, y)
			if x.op == "struct" && y.op == "struct" && len(x.args) > 0 {
				// elements which are structs are loaded field by field
				a, b := x.args[0], y.args[0]
				if a.op == "load" && b.op == "load" && a.args[0].op == "fa" && b.args[0].op == "fa" {
					p, q := a.args[0].args[0], b.args[0].args[0]
					if p.op == "ia" && q.op == "ia" && c.e.same(st, p.args[1], q.args[1]) {
						r = append(r, [3]*Term{p.args[0], q.args[0], p.args[1]})
					}
				}
			}
		case f.op == "call" && f.aux == "method Equal" && len(f.args) >= 2:
			add(f.args[0], f.args[1])
		}
	}
	return
}

func (c *equaler) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*equalLoop)
	if d == nil {
		d = &equalLoop{drop: map[string]bool{}}
		lc.data = d
	}
	for _, v := range d.cands {
		if !d.drop[v.key()] {
			head.cl.(*evState).add(v.kind, v.aux, v.ts...)
		}
	}
}

func (c *equaler) backCheck(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
	d := lc.data.(*equalLoop)
	have := map[string]bool{}
	for _, v := range d.cands {
		have[v.key()] = true
	}
	ps := c.pairs(back)
	for j, x := range lc.phis {
		if !lc.dropped[x] || !isIntTyp(x.Type()) {
			continue
		}
		h := e.val(head, x)
		for _, p := range ps {
			// the elements compared are those at the counter plus a constant, and nothing is skipped from the start on
			off := e.ts.addT(p[2], h, -1)
			if !off.isInt() {
				continue
			}
			v := ev{"upto", "", []*Term{p[0], p[1], p[2]}}
			if s := e.ts.addT(lc.vals[j], off, 1); !s.isInt() || s.n != 0 {
				// or from the end on
				s = e.ts.addT(s, e.ts.intc(1), 1)
				if !e.same(head, s, e.lenT(p[0])) && !e.same(head, s, e.lenT(p[1])) {
					continue
				}
				v = ev{"downto", "", []*Term{p[0], p[1], e.ts.addT(p[2], e.ts.intc(1), 1)}}
			}
			if !have[v.key()] && !d.drop[v.key()] {
				d.cands = append(d.cands, v)
				have[v.key()] = true
				ch = true
			}
		}
	}
	if ch {
		return
	}
	for _, v := range d.cands {
		if d.drop[v.key()] {
			continue
		}
		// the next number in terms of the counter after the iteration
		want := v.ts[2]
		for _, x := range lc.phis {
			if h := e.val(head, x); lc.dropped[x] && want.contains(h) {
				want = e.ts.addT(want, e.ts.addT(e.val(back, x), h, -1), 1)
				break
			}
		}
		ok := false
		for _, p := range ps {
			if v.kind == "downto" {
				if p[0] == v.ts[0] && p[1] == v.ts[1] && e.same(back, e.ts.addT(p[2], e.ts.intc(1), 1), v.ts[2]) && e.same(back, want, p[2]) {
					ok = true
				}
				continue
			}
			if p[0] == v.ts[0] && p[1] == v.ts[1] && p[2] == v.ts[2] && e.same(back, want, e.ts.addT(p[2], e.ts.intc(1), 1)) {
				ok = true
			}
		}
		if !ok {
			d.drop[v.key()] = true
			ch = true
		}
	}
	return
}
