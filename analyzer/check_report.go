package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = func(p *Prog, tier string) *Result { return checkReports(p, true) }
	checks["C11"] = func(p *Prog, tier string) *Result { return checkReports(p, false) }
}

// cntState is the ghost number of Store calls made so far by the root function.
type cntState struct{ g *Term }

func (s *cntState) Key() string                     { return s.g.String() + "#" + itoa(s.g.id) }
func (s *cntState) Clone() CState                   { c := *s; return &c }
func (s *cntState) Subst(f func(*Term) *Term)       { s.g = f(s.g) }
func (s *cntState) Join(back CState) (CState, bool) { return s, false }

func itoa(n int) string { return string(appendInt(nil, n)) }

func appendInt(b []byte, n int) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

type cntLoop struct {
	g   bool
	rel map[*ssa.Phi]bool
}

func storeParam(p *Prog, fn *ssa.Function) bool {
	st := p.lookupType("pkg/items.Store")
	for _, x := range fn.Params {
		if st != nil && types.Identical(x.Type(), st) {
			return true
		}
	}
	return false
}

func intFirst(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && types.Identical(r.At(0).Type(), types.Typ[types.Int])
}

// storeBase gives the node whose Query and Index are the arguments of a report.
func storeBase(q, i *Term) *Term {
	if q.op != "load" || i.op != "load" || q.args[0].op != "fa" || i.args[0].op != "fa" {
		return nil
	}
	if q.args[0].args[0] != i.args[0].args[0] {
		return nil
	}
	if !hasSuffix(q.args[0].aux, "Terminated.Query") || !hasSuffix(i.args[0].aux, "Terminated.Index") {
		return nil
	}
	return q.args[0].args[0]
}

func hasSuffix(s, x string) bool { return len(s) >= len(x) && s[len(s)-len(x):] == x }

// loadField reads a field of the object at base in the current state.
func (e *PEngine) loadField(st *PState, base *Term, ptr types.Type, name string) *Term {
	t := ptr
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.load(st, e.fa(base, types.NewPointer(t), i), s.Field(i).Type())
		}
	}
	return nil
}

func checkReports(p *Prog, counts bool) *Result {
	r := newResult()
	contract := map[*ssa.Function]int{}
	reports := map[ssa.Instruction]bool{}
	cl := &PClient{}
	e := newPEngine(p, cl)
	isStore := func(m *types.Func, c ssa.CallInstruction) bool {
		return m != nil && m.Name() == "Store" && typName(c.Common().Value.Type()) == "pkg/items.Store"
	}
	term := p.lookupType("pkg/items.Terminated")
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if e.rec[f] {
			return false
		}
		if storeParam(p, f) {
			return len(f.Blocks) < 300
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0
	}
	cl.Call = func(e *PEngine, st *PState, c ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		g := st.cl.(*cntState)
		if isStore(m, c) {
			reports[c] = true
			g.g = e.ts.addT(g.g, e.ts.intc(1), 1)
			if !counts {
				b := storeBase(args[1], args[2])
				pos := p.instrPos(c)
				if b == nil {
					e.fail("report-node", fnName(c.Parent()), pos, "the reported query (%s) and index (%s) are not the Query and Index of one tree node", args[1], args[2])
				} else if t := e.loadField(st, b, term, "Terminate"); e.truth(st, t) != 1 {
					e.fail("report-terminated", fnName(c.Parent()), pos, "node %s is reported on a path which has not found it terminated", b)
				}
			}
			return true, nil
		}
		if callee != nil && e.rec[callee] && storeParam(p, callee) && intFirst(callee) {
			v := c.Value()
			site := st.top().id + "/" + v.Name()
			n := e.fresh(st, "sym", site+".stores", types.Typ[types.Int])
			g = st.cl.(*cntState)
			st.facts[e.ts.lt(n, e.ts.intc(0))] = false
			g.g = e.ts.addT(g.g, n, 1)
			res := n
			if j, ok := contract[callee]; ok && j >= 0 {
				res = e.ts.addT(n, e.val(st, c.Common().Args[j]), 1)
			}
			if callee.Signature.Results().Len() == 1 {
				return true, res
			}
			all := []*Term{res}
			for i := 1; i < callee.Signature.Results().Len(); i++ {
				all = append(all, e.fresh(st, "sym", site+".r"+itoa(i), callee.Signature.Results().At(i).Type()))
			}
			return true, e.ts.mk("tuple", "", v.Type(), all...)
		}
		return false, nil
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*cntLoop)
		if d == nil {
			d = &cntLoop{rel: map[*ssa.Phi]bool{}}
			lc.data = d
		}
		g := head.cl.(*cntState)
		n := len(head.tmp)
		head.tmp = append(head.tmp, g.g)
		head.tmp = append(head.tmp, lc.vals...)
		if d.g {
			g.g = e.fresh(head, "sym", head.top().id+"/stores@L"+itoa(lc.l.head.Index), types.Typ[types.Int])
		}
		ge := head.tmp[n]
		for i, ph := range lc.phis {
			if lc.dropped[ph] && !d.rel[ph] && isIntTyp(ph.Type()) {
				head.top().env[ph] = e.ts.addT(e.ts.addT(g.g, head.tmp[n+1+i], 1), ge, -1)
			}
		}
		head.tmp = head.tmp[:n]
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) bool {
		d := lc.data.(*cntLoop)
		hg, bg := head.cl.(*cntState).g, back.cl.(*cntState).g
		ch := false
		if !d.g && bg != hg {
			d.g = true
			ch = true
		}
		for _, ph := range lc.phis {
			if !lc.dropped[ph] || d.rel[ph] || !isIntTyp(ph.Type()) {
				continue
			}
			x := e.ts.addT(e.val(head, ph), hg, -1)
			y := e.ts.addT(e.val(back, ph), bg, -1)
			df := e.ts.addT(x, y, -1)
			b := e.bounds(back, df)
			if !(b.hasL && b.hasH && b.lo == 0 && b.hi == 0) {
				if os.Getenv("VERIF_PFLOW") != "" {
					fmt.Fprintln(os.Stderr, "rel", fnName(ph.Parent()), ph.Name(), "head", e.val(head, ph), hg, "back", e.val(back, ph), bg)
				}
				d.rel[ph] = true
				ch = true
			}
		}
		return ch
	}
	called := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, c := range e.callees[fn] {
			if fn != c {
				called[c] = true
			}
		}
	}
	var roots []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Synthetic != "" || !storeParam(p, fn) || fn.Pkg == nil {
			continue
		}
		if counts && !intFirst(fn) {
			if !called[fn] {
				r.fail("report-count", fnName(fn), p.pos(fn.Pos()), "the function reports matches and does not return their number")
			}
			continue
		}
		if e.rec[fn] || !called[fn] || counts && fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, fn)
		}
	}
	run := func(fn *ssa.Function) []Finding {
		mark := len(e.finds)
		exits := e.Run(fn, &cntState{e.ts.intc(0)})
		r.count("return_paths", len(exits))
		if counts {
			for _, x := range exits {
				g := x.st.cl.(*cntState).g
				df := e.ts.addT(x.res[0], g, -1)
				if j, ok := contract[fn]; ok && j >= 0 {
					df = e.ts.addT(df, e.val(x.st, fn.Params[j]), -1)
				}
				b := e.bounds(x.st, df)
				if !(b.hasL && b.hasH && b.lo == 0 && b.hi == 0) {
					e.fail("report-count", fnName(fn), p.instrPos(x.ret), "a path returns %s after %s reports", x.res[0], g)
				}
			}
		}
		fs := append([]Finding(nil), e.finds[mark:]...)
		e.finds = e.finds[:mark]
		return fs
	}
	var failed map[*ssa.Function][]Finding
	for round := 0; round < 3; round++ {
		failed = map[*ssa.Function][]Finding{}
		again := false
		for _, fn := range roots {
			fs := run(fn)
			if len(fs) == 0 {
				continue
			}
			failed[fn] = fs
			if !counts || contract[fn] > 0 {
				continue
			}
			for j, q := range fn.Params {
				if !types.Identical(q.Type(), types.Typ[types.Int]) {
					continue
				}
				contract[fn] = j
				if len(run(fn)) == 0 {
					again = true
					delete(failed, fn)
					break
				}
				delete(contract, fn)
			}
		}
		if !again {
			break
		}
	}
	for _, fn := range roots {
		seen := map[string]bool{}
		for _, f := range failed[fn] {
			k := f.Key() + f.Pos
			if !seen[k] {
				seen[k] = true
				r.Findings = append(r.Findings, f)
			}
		}
	}
	var names []string
	for _, fn := range roots {
		names = append(names, fnName(fn))
	}
	sort.Strings(names)
	r.Coverage["functions"] = names
	r.count("functions_checked", len(roots))
	r.count("report_sites", len(reports))
	r.count("loops_solved", e.loops)
	r.need("functions_checked", 10)
	r.need("report_sites", 3)
	return r
}
