package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = func(p *Prog, tier string) *Result { return checkStores(p) }
}

// storer decides C23: a store keeps what is reported to it.
type storer struct {
	p  *Prog
	r  *Result
	e  *PEngine
	fn *ssa.Function
}

// kept is a field which holds reports: the least index, the indexes, or the texts.
type kept struct {
	path []int
	name string
	kind byte // 'm' minimum, 'i' indexes, 's' texts
	typ  types.Type
}

func checkStores(p *Prog) *Result {
	c := &storer{p: p, r: newResult()}
	t := p.lookupType("pkg/items.Store")
	if t == nil {
		c.r.fail("anchor", "pkg/items.Store", "-", "the interface of stores was not found")
		return c.r
	}
	iface, _ := t.Underlying().(*types.Interface)
	if iface == nil {
		c.r.fail("anchor", "pkg/items.Store", "-", "the interface of stores was not found")
		return c.r
	}
	for _, t := range p.implementers(iface) {
		named := t
		if pt, ok := t.(*types.Pointer); ok {
			named = pt.Elem()
		}
		s, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ks := c.keeps(s, nil, "")
		if len(ks) == 0 {
			c.r.fail("anchor", typName(named), "-", "no field which keeps reports was found")
			continue
		}
		seen := map[string]bool{}
		for _, f := range p.funcs {
			if f.Synthetic != "" || f.Blocks == nil || f.Parent() != nil {
				continue
			}
			sig := f.Signature
			if sig.Recv() != nil {
				if pt, ok := sig.Recv().Type().(*types.Pointer); ok && types.Identical(pt.Elem(), named) {
					seen[f.Name()] = true
					c.method(f, ks)
				}
				continue
			}
			if sig.Results().Len() == 1 {
				if pt, ok := sig.Results().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), named) && sig.Params().Len() == 0 {
					seen["New"] = true
					c.made(f, ks)
				}
			}
		}
		for _, n := range []string{"Store", "Init", "New"} {
			if !seen[n] {
				c.r.fail("anchor", typName(named), "-", "%s of the store was not found", n)
			}
		}
		c.r.count("stores", 1)
	}
	c.r.need("stores", 4)
	c.r.need("fields_kept", 12)
	return c.r
}

func (c *storer) keeps(s *types.Struct, path []int, name string) (l []kept) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := append(append([]int(nil), path...), i)
		n := strings.TrimPrefix(name+"."+f.Name(), ".")
		switch t := f.Type().Underlying().(type) {
		case *types.Struct:
			l = append(l, c.keeps(t, p, n)...)
		case *types.Basic:
			if t.Kind() == types.Int {
				l = append(l, kept{p, n, 'm', f.Type()})
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				l = append(l, kept{p, n, 'i', f.Type()})
			} else if ok && b.Kind() == types.String {
				l = append(l, kept{p, n, 's', f.Type()})
			}
		}
	}
	return
}

func (c *storer) start(fn *ssa.Function) {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	c.e, c.fn = e, fn
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool { return len(f.Blocks) < 60 && !e.rec[f] }
	cl.Copy = func(e *PEngine, st *PState, x ssa.Instruction, dst, src *Term) {
		st.cl.(*evState).add("copied", "", dst, src)
	}
}

func (c *storer) get(st *PState, base *Term, pt types.Type, k kept) *Term {
	e := c.e
	for n, i := range k.path {
		a := e.fa(base, pt, i)
		ft := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i).Type()
		if n == len(k.path)-1 {
			return e.load(st, a, ft)
		}
		base, pt = a, types.NewPointer(ft)
	}
	return nil
}

func (c *storer) method(fn *ssa.Function, ks []kept) {
	c.start(fn)
	e := c.e
	st := e.Start(fn, &evState{})
	recv, pt := e.val(st, fn.Params[0]), fn.Params[0].Type()
	var old []*Term
	for _, k := range ks {
		v := c.get(st, recv, pt, k)
		old = append(old, v)
		if k.kind == 'm' {
			// -1, or an index, which is not negative
			e.assume(st, e.ts.lt(v, e.ts.intc(-1)), false)
		}
	}
	if fn.Name() == "Store" {
		e.assume(st, e.ts.lt(e.val(st, fn.Params[2]), e.ts.intc(0)), false)
	}
	for _, x := range e.RunFrom(fn, st) {
		for i, k := range ks {
			v := c.get(x.st, recv, pt, k)
			ok, what := false, ""
			switch fn.Name() {
			case "Store":
				ok, what = c.stored(x.st, k, old[i], v), "the report is not kept"
			case "Init":
				ok, what = c.empty(x.st, k, old[i], v), "what was held before is not removed"
			default:
				ok, what = c.same(x.st, k, old[i], v), "what is held changes"
			}
			c.r.count("fields_kept", 1)
			if !ok {
				c.r.fail("kept", fnName(fn), c.where(x), "%s: %s: %s becomes %s", what, k.name, old[i], v)
			}
		}
	}
	c.done()
}

func (c *storer) made(fn *ssa.Function, ks []kept) {
	c.start(fn)
	for _, x := range c.e.Run(fn, &evState{}) {
		for _, k := range ks {
			v := c.get(x.st, x.res[0], fn.Signature.Results().At(0).Type(), k)
			c.r.count("fields_kept", 1)
			if !c.empty(x.st, k, nil, v) {
				c.r.fail("made", fnName(fn), c.where(x), "a new store is not empty: %s is %s", k.name, v)
			}
		}
	}
	c.done()
}

func (c *storer) done() {
	c.r.Findings = append(c.r.Findings, c.e.finds...)
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(c.fn))
}

// stored: the least index takes the index when there is none or it is greater; a list has it behind what it held.
func (c *storer) stored(st *PState, k kept, old, v *Term) bool {
	e := c.e
	text, index := e.val(st, c.fn.Params[1]), e.val(st, c.fn.Params[2])
	zero := e.ts.intc(0)
	none := e.truth(st, e.ts.lt(old, zero))
	if none < 0 {
		if t := e.truth(st, e.ts.eq(old, e.ts.intc(-1))); t >= 0 {
			none = t
		}
	}
	some := none
	switch k.kind {
	case 'm':
		if e.same(st, v, index) && (none == 1 || e.le(st, index, old)) {
			return true
		}
		if (v == old || e.same(st, v, old)) && some == 0 && e.le(st, old, index) {
			return true
		}
		return v.op == "call" && v.aux == "min" && some == 0 && len(v.args) == 2 &&
			(v.args[0] == old && v.args[1] == index || v.args[0] == index && v.args[1] == old)
	case 'i', 's':
		want := index
		if k.kind == 's' {
			want = text
		}
		if v.op != "append" || !c.same(st, k, old, v.args[0]) || arrayLen(v.args[1]) != 1 {
			return false
		}
		et := k.typ.Underlying().(*types.Slice).Elem()
		x := e.load(st, e.ts.mk("ia", "", types.NewPointer(et), v.args[1].args[0], zero), et)
		return x == want || e.same(st, x, want)
	}
	return false
}

func (c *storer) empty(st *PState, k kept, old, v *Term) bool {
	e := c.e
	if k.kind == 'm' {
		return e.same(st, v, e.ts.intc(-1))
	}
	return e.nonEmpty(st, v) == 0 || c.lenIs(st, v, e.ts.intc(0))
}

func (c *storer) lenIs(st *PState, v, n *Term) bool {
	e := c.e
	if v.op == "none" {
		return true
	}
	return e.same(st, e.flatLen(e.lenT(v)), n)
}

func (c *storer) same(st *PState, k kept, old, v *Term) bool {
	e := c.e
	if v == old || e.same(st, v, old) {
		return true
	}
	if k.kind == 'm' {
		return false
	}
	if v.op == "slice" && e.sameSpan(st, v, old) {
		return true
	}
	// a copy
	if v.op == "append" && v.args[1] == old && c.empty(st, k, nil, v.args[0]) {
		return true
	}
	if v.op == "call" && strings.HasPrefix(v.aux, "slices.Grow") && v.args[0] == old {
		return true
	}
	if c.lenIs(st, v, e.lenT(old)) {
		for _, w := range st.cl.(*evState).evs {
			if w.kind == "copied" && w.ts[0] == v && w.ts[1] == old {
				return true
			}
		}
	}
	return false
}

func (c *storer) where(x *PExit) string {
	if x.ret != nil && x.ret.Pos().IsValid() {
		return c.p.pos(x.ret.Pos())
	}
	return c.p.pos(c.fn.Pos())
}
