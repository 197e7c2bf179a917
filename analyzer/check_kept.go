package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// checkKept decides the registration half of C12: what a tree holds is never dropped or replaced by a registration.
// A container of an existing node only grows, the other fields of existing nodes which lead to or select a child keep
// their value, and an entry of a map of nodes is set only when the key has none.
func checkKept(p *Prog, m *nodeModel, r *Result) {
	done := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, name := range registrations {
		if fn := p.lookupFunc(name); fn != nil {
			work = append(work, fn)
		} else {
			r.fail("anchor", name, "-", "the registration operation was not found")
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if done[fn] {
			continue
		}
		done[fn] = true
		work = append(work, keptIn(p, m, r, fn)...)
	}
	r.count("tree_writers", len(done))
	r.need("tree_writers", 7)
	r.need("tree_writes", 15)
}

func keptIn(p *Prog, m *nodeModel, r *Result, fn *ssa.Function) (more []*ssa.Function) {
	cl := &PClient{}
	e := newPEngine(p, cl)
	// the classes of memory which hold the shape of a tree, and the names of structs which make it up
	shape := map[string]bool{}
	parts := map[string]bool{}
	for _, n := range p.named {
		s, ok := n.Underlying().(*types.Struct)
		if !ok || !m.node[typName(n)] && len(m.conts[typName(n)]) == 0 {
			continue
		}
		parts[typName(n)] = true
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if types.Identical(f.Type(), m.term) {
				continue
			}
			if m.isTree(n) && m.elemOf(f.Type()) == "" {
				continue // the maps of patterns and indexes (C08, C09)
			}
			shape[typName(n)+"."+f.Name()] = true
			switch u := f.Type().Underlying().(type) {
			case *types.Map:
				if m.elemOf(f.Type()) != "" {
					shape["map:"+typName(f.Type())] = true
				}
			case *types.Slice:
				if m.elemOf(f.Type()) != "" {
					shape["elem:"+typName(u.Elem())] = true
				}
			}
		}
	}
	touches := func(ms map[string]bool) bool {
		if ms["*"] {
			return true
		}
		for k := range ms {
			if shape[k] {
				return true
			}
		}
		return false
	}
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if e.rec[f] {
			return false
		}
		if touches(e.mods[f]) {
			return len(f.Blocks) < 300
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0
	}
	isNil := func(st *PState, t *Term) bool {
		if t.op == "nil" || t.op == "zero" {
			return true
		}
		return e.truth(st, e.ts.eq(t, e.ts.nilc())) == 1 || e.truth(st, e.ts.eq(e.ts.mk("len", "", types.Typ[types.Int], t), e.ts.intc(0))) == 1
	}
	fail := func(rule, pos, f string, a ...any) { e.fail(rule, fnName(fn), pos, f, a...) }
	var keeps func(st *PState, in *ssa.Store, addr, val *Term, t types.Type)
	keeps = func(st *PState, in *ssa.Store, addr, val *Term, t types.Type) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			if addr.op == "ia" && !parts[typName(t)] {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				keeps(st, in, e.fa(addr, types.NewPointer(t), i), e.fieldOf(val, t, i), s.Field(i).Type())
			}
			return
		}
		cls := addrClass(addr, t)
		if !shape[cls] {
			return
		}
		pos := p.instrPos(in)
		r.count("tree_writes", 1)
		old := e.load(st, addr, t)
		if e.same(st, old, val) {
			return
		}
		if addr.op == "ia" {
			fail("kept", pos, "an element of a list of nodes is overwritten (%s)", addr)
			return
		}
		if m.elemOf(t) == "" {
			fail("kept", pos, "the field %s of an existing node is overwritten", addr.aux)
			return
		}
		if isNil(st, old) {
			return
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			fail("kept", pos, "the container %s is replaced and it is not known to be empty", addr.aux)
			return
		}
		segs, why := segments(e, st, old, val, true)
		if why == "" && !covers(e, st, segs, old) {
			why = "it does not hold all the nodes it held before"
		}
		if why != "" {
			fail("kept", pos, "the container %s is replaced: %s", addr.aux, why)
		}
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addrRoot(addr).op == "alloc" {
			return
		}
		if addr.op == "ia" {
			for _, v := range st.cl.(*evState).evs {
				if v.kind == "hole" && v.ts[0] == addr.args[0] && e.same(st, v.ts[1], addr.args[1]) {
					return
				}
			}
		}
		keeps(st, in, addr, val, in.Val.Type())
	}
	cl.MapUpdate = func(e *PEngine, st *PState, in ssa.Instruction, mt, k, v *Term) {
		if mt.op == "alloc" || !shape["map:"+typName(mt.typ)] {
			return
		}
		r.count("tree_writes", 1)
		for f, b := range st.facts {
			if f.op == "lookupok" && !b && f.args[0] == mt && e.same(st, f.args[1], k) {
				return
			}
			if f.op == "isnil" && b {
				if l := f.args[0]; l.op == "lookup" && l.args[0] == mt && e.same(st, l.args[1], k) {
					return
				}
			}
		}
		// a map which was just created
		if isNil(st, mt) {
			return
		}
		fail("kept", p.instrPos(in), "an entry of a map of nodes is set and it is not known to be absent")
	}
	// an insertion in place: the list has grown by one element, the rest is moved by one and the hole is filled
	cl.Copy = func(e *PEngine, st *PState, in ssa.Instruction, dst, src *Term) {
		if dst.typ == nil || addrRoot(dst).op == "alloc" {
			return
		}
		sl, ok := dst.typ.Underlying().(*types.Slice)
		if !ok || !shape["elem:"+typName(sl.Elem())] && !parts[typName(sl.Elem())] {
			return
		}
		r.count("tree_writes", 1)
		if src.op == "slice" && dst.op == "slice" && src.args[0] == dst.args[0] && src.args[2].op == "none" && dst.args[2].op == "none" {
			x := src.args[0]
			if e.ts.addT(src.args[1], e.ts.intc(1), 1) == dst.args[1] && x.op == "append" && len(x.args) == 2 && arrayLen(x.args[1]) == 1 {
				s := st.cl.(*evState)
				s.add("hole", "", x, src.args[1])
				return
			}
		}
		fail("kept", p.instrPos(in), "elements of a list of nodes are overwritten by a copy")
	}
	cl.MapDelete = func(e *PEngine, st *PState, in ssa.Instruction, mt *Term) {
		if shape["map:"+typName(mt.typ)] {
			fail("kept", p.instrPos(in), "nodes are deleted")
		}
	}
	cl.Opaque = func(e *PEngine, st *PState, c ssa.CallInstruction, callee *ssa.Function, mf *types.Func, args []*Term) {
		if callee != nil && e.inMod(callee) {
			if touches(e.mods[callee]) {
				more = append(more, callee)
			}
			return
		}
		ms := map[string]bool{}
		e.modsOf(c, ms, true)
		if touches(ms) {
			fail("kept", p.instrPos(c), "a call which may write nodes of the tree was not analysed")
		}
	}
	e.Run(fn, &evState{})
	r.count("loops_solved", e.loops)
	seen := map[string]bool{}
	for _, f := range e.finds {
		k := f.Key() + f.Pos + f.Text
		if !seen[k] {
			seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
	return
}

type segment struct{ lo, hi *Term } // nil: start or end of the old list

// segments lists the parts of an old list which a new one is built of; the list appended to is either a fresh one or the
// whole old one (appending to a part of it overwrites what follows).
func segments(e *PEngine, st *PState, old, v *Term, base bool) ([]segment, string) {
	if v == old || e.same(st, v, old) {
		return []segment{{}}, ""
	}
	switch v.op {
	case "append":
		a, why := segments(e, st, old, v.args[0], true)
		if why != "" {
			return nil, why
		}
		if len(v.args) < 2 {
			return a, ""
		}
		b, why := segments(e, st, old, v.args[1], false)
		return append(a, b...), why
	case "slice":
		if v.args[0] == old || e.same(st, v.args[0], old) {
			var s segment
			if len(v.args) > 1 && v.args[1].op != "none" && !(v.args[1].isInt() && v.args[1].n == 0) {
				s.lo = v.args[1]
			}
			if len(v.args) > 2 && v.args[2].op != "none" {
				s.hi = v.args[2]
			}
			if base {
				return nil, "it is appended to a part of the old list, which overwrites the rest"
			}
			return []segment{s}, ""
		}
	}
	return nil, ""
}

func covers(e *PEngine, st *PState, segs []segment, old *Term) bool {
	ln := e.ts.mk("len", "", types.Typ[types.Int], old)
	at := e.ts.intc(0)
	used := make([]bool, len(segs))
	for range len(segs) + 1 {
		if at == nil || e.same(st, at, ln) {
			return true
		}
		ok := false
		for i, s := range segs {
			if used[i] {
				continue
			}
			if s.lo == nil && at.isInt() && at.n == 0 || s.lo != nil && e.same(st, s.lo, at) {
				at, ok, used[i] = s.hi, true, true
				if at == nil {
					return true
				}
				break
			}
		}
		if !ok {
			return false
		}
	}
	return at == nil || e.same(st, at, ln)
}
