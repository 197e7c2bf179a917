package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = func(p *Prog, tier string) *Result { return checkScan(p) }
}

// A node is a struct which embeds items.Terminated; its containers are the fields which hold child nodes
// (slices and maps of nodes, or slices of structs with containers of their own).
type nodeModel struct {
	p     *Prog
	term  types.Type
	node  map[string]bool
	conts map[string][]int // struct name -> container fields
	child map[string]bool  // nodes which are held by a container
}

func newNodeModel(p *Prog) *nodeModel {
	m := &nodeModel{p: p, term: p.lookupType("pkg/items.Terminated"), node: map[string]bool{}, conts: map[string][]int{}, child: map[string]bool{}}
	for _, n := range p.named {
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Embedded() && types.Identical(s.Field(i).Type(), m.term) {
					m.node[typName(n)] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range p.named {
			s, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var fs []int
			for i := 0; i < s.NumFields(); i++ {
				if !s.Field(i).Embedded() && m.elemOf(s.Field(i).Type()) != "" {
					fs = append(fs, i)
				}
			}
			if len(fs) != len(m.conts[typName(n)]) {
				m.conts[typName(n)] = fs
				ch = true
			}
		}
	}
	for _, n := range p.named {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, i := range m.conts[typName(n)] {
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); !ok && (m.node[typName(n)] || !m.isTree(n)) {
				m.child[m.elemOf(s.Field(i).Type())] = true
			}
		}
	}
	return m
}

// isTree: a registry of patterns (has a map of indexes).
func (m *nodeModel) isTree(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if typName(s.Field(i).Type()) == "map[int]string" {
			return true
		}
	}
	return false
}

// elemOf gives the node or sub container a container type holds, or "".
func (m *nodeModel) elemOf(t types.Type) string {
	var el types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Map:
		el = u.Elem()
	case *types.Pointer:
		if n := typName(u.Elem()); m.node[n] {
			return n
		}
		return ""
	default:
		return ""
	}
	if pt, ok := el.Underlying().(*types.Pointer); ok {
		el = pt.Elem()
	}
	n := typName(el)
	if m.node[n] || len(m.conts[n]) > 0 {
		return n
	}
	return ""
}

func (m *nodeModel) nodeOf(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n := typName(pt.Elem()); m.node[n] || m.isTree(pt.Elem()) {
			return n
		}
	}
	return ""
}

// nodeParam gives the first parameter which is a node or a tree, or -1.
func (m *nodeModel) nodeParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if m.nodeOf(q.Type()) != "" {
			return i
		}
	}
	return -1
}

// inputParam gives the parameter which carries the matched text or tags, or -1.
func (m *nodeModel) inputParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if m.nodeOf(q.Type()) != "" || m.elemOf(q.Type()) != "" {
			continue
		}
		switch u := q.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return i
			}
		case *types.Slice, *types.Map:
			return i
		}
	}
	return -1
}

// nodeOwner turns the address of a Terminated into the address of its node.
func nodeOwner(b *Term) *Term {
	if b.op == "fa" && hasSuffix(b.aux, ".Terminated") {
		return b.args[0]
	}
	return b
}

type scanInfo struct {
	x    *Term
	off  *Term
	ph   *ssa.Phi
	head *Term
	m    string
	r    *Term
}

type scanSum struct {
	scans   []ev // over parameters, on every return
	selfm   bool // matches the node parameter itself
	reports bool // reports the node parameter on some return
	entry   bool // is applied to a node by the owner of the node
	star    bool
}

type scanner struct {
	p   *Prog
	r   *Result
	m   *nodeModel
	e   *PEngine
	sum map[*ssa.Function]*scanSum
	fn  *ssa.Function
	by  map[string]*ssa.Function
	sil bool
}

func (c *scanner) fail(rule string, fn, pos, f string, a ...any) {
	if !c.sil {
		c.e.fail(rule, fn, pos, f, a...)
	}
}

func checkScan(p *Prog) *Result {
	c := &scanner{p: p, r: newResult(), m: newNodeModel(p), sum: map[*ssa.Function]*scanSum{}, by: map[string]*ssa.Function{}}
	r := c.r
	cl := &PClient{}
	e := newPEngine(p, cl)
	c.e = e
	e.readOnly = true
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if e.rec[f] {
			return false
		}
		if storeParam(p, f) {
			return len(f.Blocks) < 300
		}
		if b := f.Signature.Results(); b.Len() == 1 && types.Identical(b.At(0).Type(), types.Typ[types.Bool]) {
			return false
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0
	}
	cl.Call = c.call
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Index = func(e *PEngine, st *PState, in *ssa.IndexAddr, x, i *Term) {
		if c.m.elemOf(in.X.Type()) != "" {
			st.cl.(*evState).add("acc", "", x, i)
		}
	}
	cl.Back = c.back
	cl.LoopExit = c.loopExit
	cl.LoopRet = func(e *PEngine, lc *loopCtx, head *PState, x *PExit) {
		if d, ok := lc.data.(*scanInfo); ok && d != nil && d.x != nil {
			c.fail("scan-all", fnName(x.ret.Parent()), p.instrPos(x.ret), "a return leaves the scan of %s before its end", d.x)
		}
	}
	var fns []*ssa.Function
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, g := range e.callees[f] {
			callers[g] = append(callers[g], f)
		}
	}
	for _, f := range p.funcs {
		if f.Synthetic != "" || !storeParam(p, f) || f.Pkg == nil {
			continue
		}
		c.by[fnName(f)] = f
		np := c.m.nodeParam(f)
		if e.rec[f] || f.Object() != nil && f.Object().Exported() || len(callers[f]) == 0 {
			if np >= 0 || c.hasContParam(f) {
				fns = append(fns, f)
				s := &scanSum{}
				s.entry = f.Object() != nil && f.Object().Exported() && f.Signature.Recv() != nil
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Find" {
							s.star = true
						}
					}
				}
				c.sum[f] = s
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	if len(fns) == 0 {
		r.fail("anchor", "-", "-", "no match functions found")
		return r
	}
	run := func() {
		for _, f := range fns {
			c.fn = f
			exits := e.Run(f, &evState{})
			s := c.sum[f]
			var all []ev
			np := c.m.nodeParam(f)
			for i, x := range exits {
				es := x.st.cl.(*evState)
				var mine []ev
				if np >= 0 && c.mismatch(x.st, e.val(x.st, f.Params[np])) {
					s.selfm = true
				}
				for _, v := range es.evs {
					if v.kind == "report" && np >= 0 && v.ts[0] == e.val(x.st, f.Params[np]) {
						s.reports = true
					}
					if v.kind == "scan" && onlyParams(v.ts[0]) && (v.ts[1] == nil || onlyParams(v.ts[1])) {
						mine = append(mine, v)
					}
				}
				if i == 0 {
					all = mine
				} else {
					var k []ev
					for _, a := range all {
						for _, b := range mine {
							if a.key() == b.key() {
								k = append(k, a)
							}
						}
					}
					all = k
				}
				if !c.sil {
					c.r.count("return_paths", 1)
					c.settle(x.st, es.evs, p.instrPos(x.ret))
					c.exit(x, es)
				}
			}
			s.scans = all
		}
	}
	c.sil = true
	run()
	run()
	c.sil = false
	run()
	for _, f := range fns {
		r.Coverage["functions"] = append(toStrings(r.Coverage["functions"]), fnName(f))
	}
	r.count("functions_checked", len(fns))
	r.need("functions_checked", 8)
	r.need("scans", 10)
	r.need("children_checked", 10)
	checkKept(p, c.m, r)
	seen := map[string]bool{}
	for _, f := range e.finds {
		k := f.Key() + f.Pos + f.Text
		if !seen[k] {
			seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
	return r
}

func toStrings(x any) []string {
	s, _ := x.([]string)
	return s
}

func onlyParams(t *Term) bool { return !t.syms }

func (c *scanner) hasContParam(f *ssa.Function) bool {
	for _, q := range f.Params {
		if c.m.elemOf(q.Type()) != "" {
			return true
		}
	}
	return false
}

func (c *scanner) call(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
	es := st.cl.(*evState)
	if m != nil && m.Name() == "Store" && typName(in.Common().Value.Type()) == "pkg/items.Store" {
		if b := storeBase(args[1], args[2]); b != nil {
			n := 0
			for _, v := range es.evs {
				if v.kind == "report" {
					n++
				}
			}
			es.add("report", itoa(n), nodeOwner(b))
		}
		return true, nil
	}
	if callee == nil || !storeParam(c.p, callee) {
		return false, nil
	}
	s := c.sum[callee]
	if s == nil && !e.rec[callee] || !e.rec[callee] && !e.canInlineRoot(st, callee) {
		return false, nil
	}
	np := c.m.nodeParam(callee)
	own := c.m.nodeParam(c.fn)
	if !e.rec[callee] && own >= 0 && c.m.nodeOf(c.fn.Params[own].Type()) == c.m.nodeOf(callee.Params[max(np, 0)].Type()) && np >= 0 && args[np] == e.val(st, c.fn.Params[own]) {
		return false, nil // a helper on the same node, entered
	}
	if !e.rec[callee] && np < 0 {
		return false, nil
	}
	if np >= 0 {
		var r *Term
		if ip := c.m.inputParam(callee); ip >= 0 {
			r = args[ip]
		}
		es.add("visit", fnName(callee), args[np], r)
		if !c.sil && own >= 0 && s != nil && args[np] != e.val(st, c.fn.Params[own]) {
			s.entry = true
		}
	}
	if s != nil {
		for _, v := range s.scans {
			sub := func(t *Term) *Term {
				if t == nil {
					return nil
				}
				return e.ts.subst(t, func(x *Term) *Term {
					if x.op == "param" {
						for i, q := range callee.Params {
							n := q.Name()
							if i == 0 && callee.Signature.Recv() != nil {
								n = "recv"
							}
							if x.aux == n+"#"+itoa(i) {
								return args[i]
							}
						}
					}
					return nil
				}, map[*Term]*Term{})
			}
			aux := v.aux
			if x := v.ts[0]; s.reports && np >= 0 && x.op == "load" && x.args[0].op == "fa" && x.args[0].args[0].op == "param" {
				aux = "" // the callee has decided about the report
			}
			es.add("scan", aux, sub(v.ts[0]), sub(v.ts[1]))
		}
	}
	// matchers write nothing (C01)
	v := in.Value()
	if callee.Signature.Results().Len() == 0 {
		return true, nil
	}
	return true, e.fresh(st, "sym", st.top().id+"/"+v.Name()+".n", v.Type())
}

func (e *PEngine) canInlineRoot(st *PState, f *ssa.Function) bool { return true }

// back checks one iteration of a loop.
func (c *scanner) back(e *PEngine, lc *loopCtx, head, back *PState) {
	es := back.cl.(*evState)
	evs := es.since(head.cl)
	pos := c.p.instrPos(lc.l.head.Instrs[0])
	fn := fnName(lc.l.head.Parent())
	c.settle(back, evs, pos)
	d, _ := lc.data.(*scanInfo)
	// which container does the loop scan
	var acc *ev
	var ph *ssa.Phi
	for i := range evs {
		v := &evs[i]
		if v.kind != "acc" {
			continue
		}
		for _, q := range lc.phis {
			if lc.dropped[q] && isIntTyp(q.Type()) {
				h := e.val(head, q)
				if v.ts[1].contains(h) && !v.ts[0].contains(h) {
					acc, ph = v, q
				}
			}
		}
	}
	if acc == nil {
		if d != nil && d.x != nil {
			c.fail("scan-all", fn, pos, "a path through the scan of %s does not look at the element", d.x)
		}
		return
	}
	h := e.val(head, ph)
	off := e.ts.addT(acc.ts[1], h, -1)
	if !off.isInt() {
		c.fail("scan-all", fn, pos, "the scan of %s reads element %s", acc.ts[0], acc.ts[1])
		return
	}
	if d == nil {
		d = &scanInfo{x: acc.ts[0], off: off, ph: ph, head: h}
		lc.data = d
		for i, q := range lc.phis {
			if q == ph {
				if first := e.ts.addT(lc.vals[i], off, 1); !first.isInt() || first.n != 0 {
					c.fail("scan-all", fn, pos, "the scan of %s starts at element %s", d.x, first)
				}
			}
		}
		if !c.sil {
			c.r.count("scans", 1)
		}
	} else if d.x != acc.ts[0] || d.off != off {
		c.fail("scan-all", fn, pos, "one loop scans %s and %s", d.x, acc.ts[0])
		return
	}
	if step := e.ts.addT(e.val(back, ph), h, -1); !step.isInt() || step.n != 1 {
		c.fail("scan-all", fn, pos, "the scan of %s steps by %s", d.x, step)
	}
	if !c.sil {
		c.r.count("children_checked", 1)
	}
	// the element
	et := acc.ts[0].typ.Underlying().(*types.Slice).Elem()
	addr := e.ts.mk("ia", "", types.NewPointer(et), acc.ts[0], acc.ts[1])
	if pt, ok := et.Underlying().(*types.Pointer); ok {
		ch := e.load(back, addr, et)
		c.handled(back, evs, ch, pt.Elem(), fn, pos)
		for _, v := range evs {
			if v.kind == "visit" && v.ts[0] == ch {
				d.m, d.r = v.aux, v.ts[1]
			}
		}
	} else {
		c.group(back, evs, addr, et, fn, pos)
	}
}

func (c *scanner) loopExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d, ok := lc.data.(*scanInfo)
	if !ok || d == nil || d.x == nil {
		return
	}
	in := types.Typ[types.Int]
	at := e.ts.addT(e.val(head, d.ph), d.off, 1)
	ln := e.ts.mk("len", "", in, d.x)
	es := out.cl.(*evState)
	done := e.truth(out, e.ts.lt(at, ln)) == 0
	if !done {
		for _, v := range es.since(head.cl) {
			if v.kind == "acc" && v.ts[0] == d.x && v.ts[1] == at {
				done = e.truth(out, e.ts.lt(e.ts.addT(at, e.ts.intc(1), 1), ln)) == 0
			}
		}
	}
	if !done {
		c.fail("scan-all", fnName(lc.l.head.Parent()), c.p.instrPos(from.Instrs[len(from.Instrs)-1]), "the scan of %s can stop before its end", d.x)
	}
	es.add("scan", d.m, d.x, d.r)
}

// mismatch says whether the path has found that a node does not match.
func (c *scanner) mismatch(st *PState, ch *Term) bool {
	onCall := func(t *Term) bool {
		return t.any(func(x *Term) bool { return x.op == "call" && x.contains(ch) })
	}
	ts := c.e.ts
	for f, v := range st.facts {
		switch f.op {
		case "call":
			if !v && f.contains(ch) {
				return true
			}
		case "lt":
			if isIntTyp(f.args[0].typ) && v && f.args[0].op == "len" && onCall(f.args[1]) {
				return true
			}
			if v && onCall(f.args[0]) && f.args[1].isInt() && f.args[1].n <= 0 {
				return true
			}
		case "eq":
			a, b := f.args[0], f.args[1]
			if !a.isConst() {
				a, b = b, a
			}
			if a == ts.intc(-1) && v && onCall(b) {
				return true
			}
			if a.isInt() && a.n == 0 && !v && onCall(b) && typName(b.typ) == "pkg/items.FindFlag" {
				return true
			}
		}
	}
	return false
}

// decided: the node was reported on the path, or found not terminated.
func (c *scanner) decided(st *PState, evs []ev, n *Term) bool {
	for _, v := range evs {
		if v.kind == "report" && v.ts[0] == n {
			return true
		}
	}
	return c.e.truth(st, c.e.loadField(st, c.termOf(st, n), c.m.term, "Terminate")) == 0
}

func (c *scanner) termOf(st *PState, n *Term) *Term {
	t := n.typ
	pt := t.Underlying().(*types.Pointer)
	s := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && types.Identical(s.Field(i).Type(), c.m.term) {
			return c.e.fa(n, t, i)
		}
	}
	return n
}

// used up: a fact that nothing of the input is left.
func (c *scanner) restEmpty(st *PState) bool {
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		a, b := f.args[0], f.args[1]
		if !a.isConst() {
			a, b = b, a
		}
		if a.isStr() && constantString(a) == "" && b.any(func(t *Term) bool { return t.op == "param" }) {
			return true
		}
		if a.isInt() && b.op == "len" && a.n == 1 && b.args[0].op == "param" {
			return true
		}
	}
	if ip := c.m.inputParam(c.fn); ip >= 0 {
		if in := c.e.val(st, c.fn.Params[ip]); isStrTyp(in.typ) && (&pathRules{e: c.e}).noDot(st, in) == 1 {
			return true
		}
	}
	return false
}

// handled: the child was matched against, and on a match it is reported and its own children are visited.
func (c *scanner) handled(st *PState, evs []ev, ch *Term, nt types.Type, fn, pos string) {
	if c.mismatch(st, ch) {
		return
	}
	var in *Term
	if ip := c.m.inputParam(c.fn); ip >= 0 {
		in = c.e.val(st, c.fn.Params[ip])
	}
	ok := false
	why := "is not visited"
	for _, v := range evs {
		if v.kind != "visit" || v.ts[0] != ch {
			continue
		}
		g := c.by[v.aux]
		if s := c.sum[g]; s != nil && s.reports {
			ok = true
		} else if v.ts[1] == in && in != nil {
			ok = c.decided(st, evs, ch)
			why = "is visited, but neither reported nor found not terminated"
		} else {
			ok = true
		}
	}
	if !ok && c.restEmpty(st) && c.decided(st, evs, ch) {
		ok = true
	}
	if !ok && c.scansAll(st, evs, ch, nt) {
		ok = true // settle checks the report
	}
	if !ok {
		c.dump(st, evs)
		c.fail("child-handled", fn, pos, "child %s %s on a path which has not found a mismatch", ch, why)
	}
}

// scansAll: all containers of a node were scanned.
func (c *scanner) scansAll(st *PState, evs []ev, n *Term, nt types.Type) bool {
	fs := c.m.conts[typName(nt)]
	s := nt.Underlying().(*types.Struct)
	for _, i := range fs {
		if !c.scanned(st, evs, c.e.load(st, c.e.fa(n, types.NewPointer(nt), i), s.Field(i).Type())) {
			return false
		}
	}
	return len(fs) > 0
}

func (c *scanner) scanned(st *PState, evs []ev, x *Term) bool {
	for _, v := range evs {
		if v.kind == "scan" && v.ts[0] == x {
			return true
		}
		if v.kind == "visit" && v.ts[0] == x {
			return true
		}
	}
	if _, ok := x.typ.Underlying().(*types.Map); ok {
		for f := range st.facts {
			if f.op == "lookupok" && f.args[0] == x {
				return true
			}
			if f.op == "isnil" && f.args[0].op == "lookup" && f.args[0].args[0] == x {
				return true
			}
		}
	}
	ln := c.e.ts.mk("len", "", types.Typ[types.Int], x)
	return c.e.truth(st, c.e.ts.lt(c.e.ts.intc(0), ln)) == 0
}

// group checks an element which is a struct with containers: children which need the tag may be skipped when it is absent.
func (c *scanner) group(st *PState, evs []ev, addr *Term, et types.Type, fn, pos string) {
	s := et.Underlying().(*types.Struct)
	absent := false
	for f, v := range st.facts {
		about := f.any(func(t *Term) bool { return t.op == "fa" && t.args[0] == addr })
		if !about {
			continue
		}
		if f.op == "lookupok" && !v || f.op == "eq" && v && (f.args[0] == c.e.ts.intc(-1) || f.args[1] == c.e.ts.intc(-1)) || f.op == "lt" && v && f.args[1].isInt() && f.args[1].n <= 0 {
			absent = true
		}
	}
	n := 0
	for _, i := range c.m.conts[typName(et)] {
		x := c.e.load(st, c.e.fa(addr, types.NewPointer(et), i), s.Field(i).Type())
		if c.scanned(st, evs, x) {
			n++
		} else if !absent {
			c.fail("child-handled", fn, pos, "%s.%s is not scanned on a path where the tag is not known to be absent", typName(et), s.Field(i).Name())
		}
	}
	if n == 0 {
		c.fail("child-handled", fn, pos, "no children of %s are scanned on a path", typName(et))
	}
}

// settle: a node which is reported has its children visited, and the other way round.
func (c *scanner) settle(st *PState, evs []ev, pos string) {
	fn := fnName(c.fn)
	np := c.m.nodeParam(c.fn)
	for _, v := range evs {
		switch v.kind {
		case "report":
			n := v.ts[0]
			pt, ok := n.typ.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			ok = c.scansAll(st, evs, n, pt.Elem())
			for _, w := range evs {
				if w.kind == "visit" && w.ts[0] == n {
					ok = true
				}
			}
			if !ok && !c.restEmpty(st) {
				c.dump(st, evs)
				c.fail("report-continues", fn, pos, "node %s is reported and its children are not visited", n)
			}
			if !ok && c.restEmpty(st) && c.consumes(n) == false {
				c.dump(st, evs)
				c.fail("report-continues", fn, pos, "node %s is reported and its children are not visited", n)
			}
		case "scan":
			x := v.ts[0]
			if x.op != "load" || x.args[0].op != "fa" || v.aux == "" {
				continue
			}
			n := x.args[0].args[0]
			if n.typ == nil || c.m.nodeOf(n.typ) == "" || !c.m.node[c.m.nodeOf(n.typ)] {
				continue
			}
			g := c.sum[c.by[v.aux]]
			if g == nil || !g.reports {
				continue
			}
			if np >= 0 && n == c.e.val(st, c.fn.Params[np]) && !c.sum[c.fn].reports {
				continue // the root of a tree
			}
			if n.op == "load" && n.args[0].op == "fa" && n.args[0].args[0].typ != nil {
				if pt, ok := n.args[0].args[0].typ.Underlying().(*types.Pointer); ok && c.m.isTree(pt.Elem()) {
					continue // the root of a tree
				}
			}
			if c.decided(st, evs, n) {
				continue
			}
			if !g.star && v.ts[1] != nil && c.e.truth(st, c.e.ts.eq(v.ts[1], c.e.ts.strc(""))) == 0 {
				continue
			}
			c.dump(st, evs)
			c.fail("report-decided", fn, pos, "the children of %s are visited, but the node is neither reported nor found not terminated or not at the end of the text", n)
		}
	}
}

// consumes: children of this type of node take a part of the input each, so at its end there is nothing to visit.
func (c *scanner) consumes(n *Term) bool {
	nt := c.m.nodeOf(n.typ)
	for f, s := range c.sum {
		np := c.m.nodeParam(f)
		if np >= 0 && c.m.nodeOf(f.Params[np].Type()) == nt && s.reports && s.selfm {
			return false
		}
	}
	return true
}

// exit: the containers of the node the function was applied to.
func (c *scanner) exit(x *PExit, es *evState) {
	np := c.m.nodeParam(c.fn)
	s := c.sum[c.fn]
	if np < 0 || !s.entry {
		return
	}
	t := c.fn.Params[np].Type().Underlying().(*types.Pointer).Elem()
	tree := c.m.isTree(t)
	if s.reports && !tree {
		return
	}
	n := c.e.val(x.st, c.fn.Params[np])
	fn, pos := fnName(c.fn), c.p.instrPos(x.ret)
	st := x.st
	// nothing was done because the input is empty
	idle := true
	for _, v := range es.evs {
		if v.kind == "report" || v.kind == "visit" || v.kind == "scan" {
			idle = false
		}
	}
	for f := range st.facts {
		if f.op == "lookupok" {
			idle = false
		}
	}
	if idle && c.restEmpty0(st) {
		c.r.count("empty_paths", 1)
		return
	}
	st0 := t.Underlying().(*types.Struct)
	for _, i := range c.m.conts[typName(t)] {
		cx := c.e.load(st, c.e.fa(n, types.NewPointer(t), i), st0.Field(i).Type())
		if !c.scanned(st, es.evs, cx) {
			del := false
			for _, v := range es.evs {
				if g := c.sum[c.by[v.aux]]; v.kind == "visit" && v.ts[0] == n && g != nil && g.entry && c.by[v.aux] != c.fn {
					del = true
				}
			}
			if !del {
				c.fail("scan-all", fn, pos, "a path does not look at %s.%s", typName(t), st0.Field(i).Name())
			}
		}
	}
	if tree && c.m.node[typName(t)] && !c.decided(st, es.evs, n) {
		c.fail("report-decided", fn, pos, "a path neither reports the tree itself nor finds it not terminated")
	}
	// children selected by a map
	for f, v := range st.facts {
		if f.op != "lookupok" || !v {
			continue
		}
		mt, ok := f.args[0].typ.Underlying().(*types.Map)
		if !ok || c.m.elemOf(f.args[0].typ) == "" {
			continue
		}
		ch := c.e.ts.mk("lookup", "", mt.Elem(), f.args...)
		c.r.count("children_checked", 1)
		if tree {
			if !c.scanned(st, es.evs, ch) {
				c.fail("child-handled", fn, pos, "node %s is found and not visited", ch)
			}
			continue
		}
		c.handled(st, es.evs, ch, mt.Elem().Underlying().(*types.Pointer).Elem(), fn, pos)
	}
}

func (c *scanner) restEmpty0(st *PState) bool {
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		a, b := f.args[0], f.args[1]
		if !a.isConst() {
			a, b = b, a
		}
		if a.isStr() && constantString(a) == "" && b.any(func(t *Term) bool { return t.op == "param" }) {
			return true
		}
		if a.isInt() && a.n == 0 && b.op == "len" && b.args[0].op == "param" {
			return true
		}
	}
	return false
}

func (c *scanner) dump(st *PState, evs []ev) {
	if c.sil {
		return
	}
	for _, v := range evs {
		println("  ev", v.kind, v.aux)
		for _, t := range v.ts {
			if t != nil {
				println("     ", t.String())
			}
		}
	}
	for f, v := range st.facts {
		println("  fact", f.String(), v)
	}
}
