package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The path dataflow: a forward, path-sensitive dataflow over SSA. A state holds terms for the live values, a store
// of memory cells by address term, the branch facts of the path and the state of the client analysis. Static callees
// are inlined, recursive ones are opaque (or under a contract of the client); loops are solved by iteration from the
// head with everything that changes in the loop unknown.

type CState interface {
	Key() string
	Clone() CState
	Subst(f func(*Term) *Term)
	// Join adds the state of a back edge to the state of the loop head.
	Join(back CState) (CState, bool)
}

type pframe struct {
	fn   *ssa.Function
	id   string
	env  map[ssa.Value]*Term
	site ssa.CallInstruction
}

type PState struct {
	frames []*pframe
	mem    map[*Term]*Term
	ver    map[string]*Term
	esc    map[*Term]bool
	facts  map[*Term]bool
	used   map[string]bool
	tmp    []*Term // terms of operations in progress, renamed with the state
	cl     CState
}

func (st *PState) top() *pframe { return st.frames[len(st.frames)-1] }

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *PState) clone() *PState {
	n := &PState{mem: cloneMap(st.mem), ver: cloneMap(st.ver), esc: cloneMap(st.esc), facts: cloneMap(st.facts), used: cloneMap(st.used)}
	n.tmp = append([]*Term(nil), st.tmp...)
	n.frames = append([]*pframe(nil), st.frames...)
	t := *st.top()
	t.env = cloneMap(t.env)
	n.frames[len(n.frames)-1] = &t
	if st.cl != nil {
		n.cl = st.cl.Clone()
	}
	return n
}

type PExit struct {
	st  *PState
	res []*Term
	ret *ssa.Return
}

type ploop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *ploop
	mods   map[string]bool
}

type pinfo struct {
	rpo     map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*ploop
	inner   map[*ssa.BasicBlock]*ploop // innermost loop of a block
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	reaches map[*ssa.BasicBlock]bool
}

// loopCtx is what one run of a loop assumes about its head.
type loopCtx struct {
	l       *ploop
	entry   *PState
	phis    []*ssa.Phi
	vals    []*Term // values of the phis on entry, in terms of the current head
	dropped map[*ssa.Phi]bool
	data    any
}

type PClient struct {
	// Call may take over a call: handled results replace the result of the call. When states is not nil they continue instead.
	Call func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, args []*Term) (handled bool, res *Term)
	// Inline says whether a callee with a body is entered (default: yes within the limits).
	Inline    func(e *PEngine, st *PState, callee *ssa.Function) (ok bool)
	Store     func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term)
	MapUpdate func(e *PEngine, st *PState, in ssa.Instruction, m, k, v *Term)
	MapDelete func(e *PEngine, st *PState, in ssa.Instruction, m *Term)
	Opaque    func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, args []*Term)
	After     func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, res *Term) // after an opaque call
	Bin       func(e *PEngine, st *PState, in *ssa.BinOp, x, y *Term)
	LoopHead  func(e *PEngine, lc *loopCtx, head *PState)
	BackCheck func(e *PEngine, lc *loopCtx, head, back *PState) (changed bool)
	Back      func(e *PEngine, lc *loopCtx, head, back *PState) // once per back edge state of the stable run
	LoopExit  func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock)
	Copy      func(e *PEngine, st *PState, in ssa.Instruction, dst, src *Term)
	KeepFact  func(f *Term) bool // states which differ in such a fact are not merged
	Index     func(e *PEngine, st *PState, in *ssa.IndexAddr, x, i *Term)
	LoopRet   func(e *PEngine, lc *loopCtx, head *PState, x *PExit) // a return out of the body of a loop
	Panic     func(e *PEngine, st *PState, in *ssa.Panic)
	Append    func(e *PEngine, st *PState, in ssa.CallInstruction, res *Term)
	Next      func(e *PEngine, st *PState, in *ssa.Next, x, ok, k, v *Term) // a step of an iteration over x
}

type PEngine struct {
	p        *Prog
	ts       *termTab
	cl       *PClient
	finds    []Finding
	infos    map[*ssa.Function]*pinfo
	mods     map[*ssa.Function]map[string]bool
	callees  map[*ssa.Function][]*ssa.Function
	exts     map[ssa.CallInstruction][]*ssa.Function
	rec      map[*ssa.Function]bool
	steps    int
	paths    int
	loops    int
	cur      token.Pos
	maxSt    int
	impure   map[string]bool
	flats    map[*Term]*Term
	fixed    map[string]bool
	readOnly bool // the functions write no memory which outlives them (C01), so loops and calls invalidate nothing
}

func newPEngine(p *Prog, cl *PClient) *PEngine {
	e := &PEngine{p: p, ts: newTermTab(), cl: cl, infos: map[*ssa.Function]*pinfo{}, maxSt: 48}
	e.buildCalls()
	return e
}

func (e *PEngine) fail(rule, construct, pos, format string, a ...any) {
	e.finds = append(e.finds, Finding{rule, construct, pos, fmt.Sprintf(format, a...)})
}

// ---- call graph, recursion, modified memory classes

func (e *PEngine) buildCalls() {
	p := e.p
	e.callees = map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.funcs {
		set := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range e.targets(c) {
						set[t] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if f, ok := mc.Fn.(*ssa.Function); ok {
						set[f] = true
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if f, ok := (*o).(*ssa.Function); ok && f.Blocks != nil && e.inMod(f) {
						set[f] = true
					}
				}
			}
		}
		for f := range set {
			e.callees[fn] = append(e.callees[fn], f)
		}
		sort.Slice(e.callees[fn], func(i, j int) bool { return e.callees[fn][i].String() < e.callees[fn][j].String() })
	}
	e.rec = e.recBut(nil)
	// modified classes, transitive
	e.mods = map[*ssa.Function]map[string]bool{}
	for _, fn := range p.funcs {
		m := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				e.modsOf(in, m, false)
			}
		}
		e.mods[fn] = m
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.funcs {
			m := e.mods[fn]
			for _, c := range e.callees[fn] {
				for k := range e.mods[c] {
					if !m[k] {
						m[k] = true
						ch = true
					}
				}
			}
		}
	}
}

// recBut gives the functions which reach themselves, but not by way of those in but.
func (e *PEngine) recBut(but map[*ssa.Function]bool) map[*ssa.Function]bool {
	rec := map[*ssa.Function]bool{}
	for _, fn := range e.p.funcs {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, c := range e.callees[f] {
				if but[c] {
					continue
				}
				if c == fn {
					return true
				}
				if !seen[c] {
					seen[c] = true
					if walk(c) {
						return true
					}
				}
			}
			return false
		}
		rec[fn] = walk(fn)
	}
	return rec
}

func (e *PEngine) inMod(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return isModPkg(fn.Pkg.Pkg.Path())
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return isModPkg(fn.Origin().Pkg.Pkg.Path())
	}
	return fn.Object() != nil && fn.Object().Pkg() != nil && isModPkg(fn.Object().Pkg().Path())
}

// targets are the module functions a call can enter (interface calls: every implementer of the module).
func (e *PEngine) targets(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if com.IsInvoke() {
		it, ok := com.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var r []*ssa.Function
		for _, t := range e.p.implementers(it) {
			if f := e.p.methodOf(t, com.Method); f != nil && f.Blocks != nil {
				r = append(r, f)
			}
		}
		return r
	}
	if f := com.StaticCallee(); f != nil && f.Blocks != nil && e.inMod(f) {
		return []*ssa.Function{f}
	}
	return nil
}

func typName(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
}

func fieldClass(ptr types.Type, i int) string {
	t := ptr
	if pt, ok := ptr.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return typName(t) + "." + s.Field(i).Name()
}

func structClasses(t types.Type, m map[string]bool) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		m[typName(t)+"."+s.Field(i).Name()] = true
		structClasses(s.Field(i).Type(), m)
	}
	return true
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// modsOf adds the memory classes an instruction writes directly (calls only for external effects unless deep).
func (e *PEngine) modsOf(in ssa.Instruction, m map[string]bool, deep bool) {
	addStore := func(addr ssa.Value, t types.Type) {
		if structClasses(t, m) {
			if _, ok := addr.(*ssa.IndexAddr); ok {
				m["elem:"+typName(t)] = true
			}
			return
		}
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			m[fieldClass(a.X.Type(), a.Field)] = true
		case *ssa.IndexAddr:
			m["elem:"+typName(t)] = true
		case *ssa.Alloc, *ssa.FreeVar:
			m["cell:"+typName(t)] = true
		case *ssa.Global:
			m["global:"+a.String()] = true
		default:
			m["ptr:"+typName(t)] = true
			m["cell:"+typName(t)] = true
		}
	}
	switch v := in.(type) {
	case *ssa.Store:
		addStore(v.Addr, v.Val.Type())
	case *ssa.MapUpdate:
		m["map:"+typName(v.Map.Type())] = true
	case ssa.CallInstruction:
		com := v.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				m["map:"+typName(com.Args[0].Type())] = true
				if b.Name() == "clear" {
					if et := elemOf(com.Args[0].Type()); et != nil {
						m["elem:"+typName(et)] = true
						structClasses(et, m)
					}
				}
			case "copy":
				if et := elemOf(com.Args[0].Type()); et != nil {
					m["elem:"+typName(et)] = true
					structClasses(et, m)
				}
			}
			return
		}
		if f := com.StaticCallee(); f != nil && !e.inMod(f) {
			if f.Pkg != nil && (f.Pkg.Pkg.Path() == "sort" || f.Pkg.Pkg.Path() == "slices") {
				for _, a := range com.Args {
					x := a
					if mi, ok := x.(*ssa.MakeInterface); ok {
						x = mi.X
					}
					if et := elemOf(x.Type()); et != nil {
						m["elem:"+typName(et)] = true
						structClasses(et, m)
					}
				}
			}
		}
		if deep {
			for _, t := range e.targets(v) {
				for k := range e.mods[t] {
					m[k] = true
				}
			}
			if !com.IsInvoke() && com.StaticCallee() == nil {
				if _, ok := com.Value.(*ssa.Builtin); !ok {
					m["*"] = true
				}
			}
			if mc, ok := com.Value.(*ssa.MakeClosure); ok {
				for k := range e.mods[mc.Fn.(*ssa.Function)] {
					m[k] = true
				}
			}
		}
	}
}

// ---- static facts of a function

func (e *PEngine) info(fn *ssa.Function) *pinfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	inf := &pinfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*ploop{}, inner: map[*ssa.BasicBlock]*ploop{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	e.infos[fn] = inf
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		inf.rpo[b] = len(post) - i
	}
	// natural loops
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := inf.loops[s]
				if l == nil {
					l = &ploop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					inf.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range inf.loops {
		for _, o := range inf.loops {
			if o != l && o.blocks[l.head] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
		l.mods = map[string]bool{}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				e.modsOf(in, l.mods, true)
			}
			if cur := inf.inner[b]; cur == nil || len(l.blocks) < len(cur.blocks) {
				inf.inner[b] = l
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		inf.liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range inf.liveIn[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for pi, pb := range s.Preds {
					if pb != b {
						continue
					}
					for _, in := range s.Instrs {
						if ph, ok := in.(*ssa.Phi); ok {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, ph := in.(*ssa.Phi); ph {
						live[v] = true
						continue
					}
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					switch (*o).(type) {
					case ssa.Instruction, *ssa.Parameter, *ssa.FreeVar:
						live[*o] = true
					}
				}
			}
			for v := range live {
				if _, ok := v.(*ssa.Const); ok {
					continue
				}
				if !inf.liveIn[b][v] {
					inf.liveIn[b][v] = true
					ch = true
				}
			}
		}
	}
	return inf
}

// ---- symbols

func (e *PEngine) fresh(st *PState, op, name string, typ types.Type) *Term {
	if st.used[name] {
		e.substState(st, func(t *Term) *Term {
			if (t.op == "sym" || t.op == "alloc") && t.aux == name {
				return e.ts.raw(t.op, t.aux, t.gen+1, t.typ)
			}
			if !t.syms {
				return t
			}
			return nil
		})
	}
	st.used[name] = true
	return e.ts.raw(op, name, 0, typ)
}

func (e *PEngine) substState(st *PState, f func(*Term) *Term) {
	memo := map[*Term]*Term{}
	g := func(t *Term) *Term { return e.ts.subst(t, f, memo) }
	for i, fr := range st.frames {
		n := *fr
		n.env = make(map[ssa.Value]*Term, len(fr.env))
		for k, v := range fr.env {
			n.env[k] = g(v)
		}
		st.frames[i] = &n
	}
	m := make(map[*Term]*Term, len(st.mem))
	for k, v := range st.mem {
		m[g(k)] = g(v)
	}
	st.mem = m
	for k, v := range st.ver {
		st.ver[k] = g(v)
	}
	for i, t := range st.tmp {
		st.tmp[i] = g(t)
	}
	es := map[*Term]bool{}
	for k := range st.esc {
		es[g(k)] = true
	}
	st.esc = es
	fs := make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n := g(k)
		if n.isConst() {
			continue
		}
		if n.op == "not" {
			fs[n.args[0]] = !v
		} else {
			fs[n] = v
		}
	}
	st.facts = fs
	if st.cl != nil {
		st.cl.Subst(g)
	}
}

func (e *PEngine) siteName(st *PState, in ssa.Value) string { return st.top().id + "/" + in.Name() }

// ---- facts

type bnd struct {
	lo, hi     int64
	hasL, hasH bool
}

func (b *bnd) low(n int64) {
	if !b.hasL || n > b.lo {
		b.lo, b.hasL = n, true
	}
}
func (b *bnd) high(n int64) {
	if !b.hasH || n < b.hi {
		b.hi, b.hasH = n, true
	}
}

// bounds gives constant bounds of an integer term under the facts of the path.
func (e *PEngine) bounds(st *PState, t *Term) bnd { return e.bounds1(st, t, 2) }

func (e *PEngine) bounds1(st *PState, t *Term, depth int) bnd {
	var b bnd
	if t.isInt() {
		b.low(t.n)
		b.high(t.n)
		return b
	}
	if t.op == "len" || t.op == "cap" {
		b.low(0)
	}
	l := linOf(t)
	// facts over the same linear combination
	try := func(x *Term, lo, hi int64, hl, hh bool) { // fact: lo <= x <= hi
		d := linOf(t)
		d.add(x, -1)
		if len(d.m) == 0 {
			if hl {
				b.low(lo + d.k)
			}
			if hh {
				b.high(hi + d.k)
			}
		}
		d = linOf(t)
		d.add(x, 1)
		if len(d.m) == 0 {
			if hh {
				b.low(d.k - hi)
			}
			if hl {
				b.high(d.k - lo)
			}
		}
	}
	for f, v := range st.facts {
		switch f.op {
		case "lt":
			if !isIntTyp(f.args[0].typ) {
				continue
			}
			d := e.ts.addT(f.args[1], f.args[0], -1)
			if v {
				try(d, 1, 0, true, false)
			} else {
				try(d, 0, 0, false, true)
			}
		case "eq":
			if v && isIntTyp(f.args[0].typ) && isIntTyp(f.args[1].typ) {
				try(e.ts.addT(f.args[1], f.args[0], -1), 0, 0, true, true)
			}
		}
	}
	if depth > 0 && len(l.m) > 0 && (len(l.m) > 1 || l.k != 0 || t.op == "sum") {
		lo, hi := l.k, l.k
		okL, okH := true, true
		for x, c := range l.m {
			xb := e.bounds1(st, x, depth-1)
			if c < 0 {
				xb.lo, xb.hi, xb.hasL, xb.hasH = xb.hi, xb.lo, xb.hasH, xb.hasL
			}
			if xb.hasL {
				lo += c * xb.lo
			} else {
				okL = false
			}
			if xb.hasH {
				hi += c * xb.hi
			} else {
				okH = false
			}
		}
		if okL {
			b.low(lo)
		}
		if okH {
			b.high(hi)
		}
	}
	if t.op != "sum" {
		// values which are excluded
		for range 4 {
			if b.hasL {
				if v, ok := st.facts[e.ts.eq(e.ts.intc(b.lo), t)]; ok && !v {
					b.lo++
					continue
				}
			}
			if b.hasH {
				if v, ok := st.facts[e.ts.eq(e.ts.intc(b.hi), t)]; ok && !v {
					b.hi--
					continue
				}
			}
			break
		}
	}
	return b
}

// truth decides a boolean term under the facts: 1 true, 0 false, -1 unknown.
func (e *PEngine) truth(st *PState, t *Term) int {
	bi := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch {
	case t.isTrue():
		return 1
	case t.isFalse():
		return 0
	case t.op == "not":
		r := e.truth(st, t.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if v, ok := st.facts[t]; ok {
		return bi(v)
	}
	switch t.op {
	case "eq":
		a, b := t.args[0], t.args[1]
		if isBoolTyp(a.typ) {
			if x := e.truth(st, a); x >= 0 {
				if y := e.truth(st, b); y >= 0 {
					return bi(x == y)
				}
			}
		}
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			for f, v := range st.facts {
				if v && f.op == "eq" {
					x, y := f.args[0], f.args[1]
					if y == b {
						x, y = y, x
					}
					if x == b && y.isConst() && y != a {
						return 0
					}
				}
			}
		}
		if isIntTyp(a.typ) && isIntTyp(b.typ) {
			d := e.ts.addT(a, b, -1)
			bd := e.bounds(st, d)
			if bd.hasL && bd.lo > 0 || bd.hasH && bd.hi < 0 {
				return 0
			}
			if bd.hasL && bd.hasH && bd.lo == 0 && bd.hi == 0 {
				return 1
			}
		}
	case "lt":
		if isIntTyp(t.args[0].typ) {
			bd := e.bounds(st, e.ts.addT(t.args[1], t.args[0], -1))
			if bd.hasL && bd.lo >= 1 {
				return 1
			}
			if bd.hasH && bd.hi <= 0 {
				return 0
			}
		}
	case "isnil":
		if neverNil(t.args[0]) || e.fixedErr(t.args[0]) {
			return 0
		}
	}
	if alt := e.flatFact(t); alt != nil {
		return e.truth(st, alt)
	}
	return -1
}

func isBoolTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// settle applies comparisons of truths, one of which has become known since.
func (e *PEngine) settle(st *PState) bool {
	for again := true; again; {
		again = false
		for f, v := range st.facts {
			if f.op == "eq" && isBoolTyp(f.args[0].typ) {
				for i := range 2 {
					if k := e.truth(st, f.args[i]); k >= 0 {
						delete(st.facts, f)
						if !e.assume(st, f.args[1-i], (k == 1) == v) {
							return false
						}
						again = true
						break
					}
				}
			}
			if again {
				break
			}
		}
	}
	return true
}

// flatFact gives a comparison of lengths of slices as one of their ends, or nil when it has none.
func (e *PEngine) flatFact(t *Term) *Term {
	if alt, ok := e.flats[t]; ok {
		return alt
	}
	var alt *Term
	switch t.op {
	case "eq":
		for i := range 2 {
			if t.args[i] == e.ts.strc("") && t.args[1-i].op == "slice" {
				_, lo, hi := e.span(t.args[1-i])
				alt = e.ts.eq(e.flatLen(hi), e.flatLen(lo))
			}
		}
		if alt == nil && isIntTyp(t.args[0].typ) {
			if a, b := e.flatLen(t.args[0]), e.flatLen(t.args[1]); a != t.args[0] || b != t.args[1] {
				alt = e.ts.eq(a, b)
			}
		}
	case "lt":
		if b := t.args[0]; t.args[1] == e.ts.intc(1) && b.op == "ext" && b.aux == "1" && b.args[0].op == "call" && b.args[0].aux == "unicode/utf8.DecodeRuneInString" {
			alt = e.ts.eq(b.args[0].args[0], e.ts.strc("")) // a symbol has no bytes only when there is none
		} else if isIntTyp(t.args[0].typ) {
			if a, b := e.flatLen(t.args[0]), e.flatLen(t.args[1]); a != t.args[0] || b != t.args[1] {
				alt = e.ts.lt(a, b)
			}
		}
	}
	if alt == t || alt != nil && (alt.op == "eq" || alt.op == "lt") && alt.args[0] == t.args[0] && alt.args[1] == t.args[1] {
		alt = nil
	}
	if e.flats == nil {
		e.flats = map[*Term]*Term{}
	}
	e.flats[t] = alt
	return alt
}

// fixedErr: a package variable which holds an error from its initialisation on and is never written again.
func (e *PEngine) fixedErr(t *Term) bool {
	if t.op != "load" || t.args[0].op != "global" {
		return false
	}
	if e.fixed == nil {
		e.fixed = map[string]bool{}
		look := func(f *ssa.Function, init bool) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							good := false
							if c, ok := s.Val.(*ssa.Call); ok && init {
								if cf := c.Common().StaticCallee(); cf != nil && cf.Pkg != nil {
									good = cf.Pkg.Pkg.Path() == "errors" && cf.Name() == "New" || cf.Pkg.Pkg.Path() == "fmt" && cf.Name() == "Errorf"
								}
							}
							v, seen := e.fixed[g.String()]
							e.fixed[g.String()] = good && (!seen || v)
							continue
						}
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Global); ok {
							e.fixed[g.String()] = false // its address goes elsewhere
						}
					}
				}
			}
		}
		for _, sp := range e.p.spkgs {
			if f, ok := sp.Members["init"].(*ssa.Function); ok {
				look(f, true)
			}
		}
		for _, f := range e.p.funcs {
			if f.Synthetic == "" || f.Name() != "init" {
				look(f, false)
			}
		}
	}
	return e.fixed[t.args[0].aux]
}

// assume adds a branch fact; false means the branch cannot be taken.
func (e *PEngine) assume(st *PState, t *Term, v bool) bool {
	if t.op == "not" {
		return e.assume(st, t.args[0], !v)
	}
	if r := e.truth(st, t); r >= 0 {
		return (r == 1) == v
	}
	if t.op == "eq" && isBoolTyp(t.args[0].typ) {
		for i := range 2 {
			if k := e.truth(st, t.args[i]); k >= 0 {
				return e.assume(st, t.args[1-i], (k == 1) == v)
			}
		}
	}
	st.facts[t] = v
	if alt := e.flatFact(t); alt != nil && !alt.isConst() {
		if !e.assume(st, alt, v) {
			return false
		}
	}
	if t.op == "lt" || t.op == "eq" && v {
		if isIntTyp(t.args[0].typ) {
			for _, a := range t.args {
				l := linOf(a)
				for x := range l.m {
					b := e.bounds(st, x)
					if b.hasL && b.hasH {
						if b.lo > b.hi {
							return false
						}
						if x.op == "sym" && b.lo == b.hi {
							c := e.ts.intc(b.lo)
							e.substState(st, func(y *Term) *Term {
								if y == x {
									return c
								}
								if !y.syms {
									return y
								}
								return nil
							})
							st.facts[e.ts.eq(x, c)] = true // for those who know the symbol
						}
					}
				}
			}
		}
	}
	return true
}

// ---- memory

func addrRoot(a *Term) *Term {
	for {
		switch a.op {
		case "fa", "ia":
			a = a.args[0]
		case "slice":
			a = a.args[0]
		default:
			return a
		}
	}
}

func (e *PEngine) fa(base *Term, ptr types.Type, i int) *Term {
	t := ptr
	if pt, ok := ptr.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return e.ts.mk("fa", typName(t)+"."+s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), base)
}

func addrClass(a *Term, val types.Type) string {
	switch a.op {
	case "fa":
		return a.aux
	case "ia":
		return "elem:" + typName(val)
	case "global":
		return "global:" + a.aux
	case "alloc":
		return "cell:" + typName(val)
	}
	return "ptr:" + typName(val)
}

func (e *PEngine) noAlias(st *PState, a, b *Term) bool {
	for a.op == "fa" && b.op == "fa" && a.aux == b.aux {
		a, b = a.args[0], b.args[0]
	}
	if a.op == "ia" && b.op == "ia" && a.args[0] == b.args[0] && a.args[1].isInt() && b.args[1].isInt() && a.args[1] != b.args[1] {
		return true
	}
	ra, rb := addrRoot(a), addrRoot(b)
	if ra.op == "alloc" && rb.op == "alloc" && ra != rb {
		return true
	}
	if ra.op == "alloc" && !st.esc[ra] && !rb.contains(ra) {
		return true
	}
	if rb.op == "alloc" && !st.esc[rb] && !ra.contains(rb) {
		return true
	}
	return false
}

func (e *PEngine) fieldOf(v *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	switch v.op {
	case "struct":
		return v.args[i]
	case "zero":
		return e.ts.zero(s.Field(i).Type())
	}
	return e.ts.mk("field", typName(st)+"."+s.Field(i).Name(), s.Field(i).Type(), v)
}

func (e *PEngine) load(st *PState, addr *Term, typ types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, e.load(st, e.fa(addr, types.NewPointer(typ), i), s.Field(i).Type()))
		}
		return e.ts.mk("struct", typName(typ), typ, as...)
	}
	cls := addrClass(addr, typ)
	if v := st.ver[cls]; v != nil {
		return e.ts.mk("load", "", typ, addr, v)
	}
	return e.ts.mk("load", "", typ, addr)
}

func (e *PEngine) escape(st *PState, v *Term) {
	v.any(func(t *Term) bool {
		if t.op == "alloc" && !st.esc[t] {
			st.esc[t] = true
			// what the object holds escapes too
			for a, x := range st.mem {
				if addrRoot(a) == t {
					e.escape(st, x)
				}
			}
		}
		return false
	})
}

func (e *PEngine) bump(st *PState, cls, site string) {
	st.ver[cls] = e.fresh(st, "sym", "ver:"+cls+"@"+site, types.Typ[types.Int])
}

func (e *PEngine) store(st *PState, addr, val *Term, typ types.Type, site string) {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		n := len(st.tmp)
		st.tmp = append(st.tmp, addr, val)
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.fa(st.tmp[n], types.NewPointer(typ), i), e.fieldOf(st.tmp[n+1], typ, i), s.Field(i).Type(), site)
		}
		st.tmp = st.tmp[:n]
		return
	}
	cls := addrClass(addr, typ)
	root := addrRoot(addr)
	for k, v := range st.mem {
		if k == addr {
			continue
		}
		kc := addrClass(k, v.typ)
		same := kc == cls
		if !same && (strings.HasPrefix(cls, "ptr:") || strings.HasPrefix(kc, "ptr:")) && k.typ != nil && addr.typ != nil && types.Identical(k.typ, addr.typ) {
			same = true
		}
		if same && !e.noAlias(st, k, addr) {
			delete(st.mem, k)
		}
	}
	if root.op != "alloc" || st.esc[root] {
		n := len(st.tmp)
		st.tmp = append(st.tmp, addr, val)
		e.bump(st, cls, site)
		st.ver["*"] = e.fresh(st, "sym", "ver:*@"+site, types.Typ[types.Int])
		addr, val = st.tmp[n], st.tmp[n+1]
		st.tmp = st.tmp[:n]
		e.escape(st, val)
	}
	st.mem[addr] = val
}

// clobber forgets the classes of memory an unknown operation writes.
func (e *PEngine) clobber(st *PState, mods map[string]bool, site string) {
	if len(mods) == 0 || e.readOnly {
		return
	}
	all := mods["*"]
	for k, v := range st.mem {
		r := addrRoot(k)
		if r.op == "alloc" && !st.esc[r] {
			if !(strings.HasPrefix(addrClass(k, v.typ), "cell:") && mods[addrClass(k, v.typ)]) {
				if !st.esc[r] {
					continue
				}
			}
			continue
		}
		c := addrClass(k, v.typ)
		if all || mods[c] || mods["ptr:"+typName(v.typ)] {
			delete(st.mem, k)
		}
	}
	var ks []string
	for c := range mods {
		ks = append(ks, c)
	}
	sort.Strings(ks)
	for _, c := range ks {
		e.bump(st, c, site)
	}
	st.ver["*"] = e.fresh(st, "sym", "ver:*@"+site, types.Typ[types.Int])
}

// ---- values

func (e *PEngine) val(st *PState, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return e.ts.zero(x.Type())
			}
			return e.ts.nilc()
		}
		return e.ts.constOf(x.Value, x.Type())
	case *ssa.Global:
		return e.ts.mk("global", x.String(), x.Type())
	case *ssa.Function:
		return e.ts.mk("fn", x.String(), x.Type())
	case *ssa.Builtin:
		return e.ts.mk("fn", "builtin "+x.Name(), x.Type())
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	if q, ok := v.(*ssa.Parameter); ok {
		for _, fr := range st.frames {
			if fr.fn == q.Parent() {
				return fr.env[v]
			}
		}
	}
	t := e.fresh(st, "sym", e.siteName(st, v), v.Type())
	st.top().env[v] = t
	return t
}

func (e *PEngine) set(st *PState, v ssa.Value, t *Term) { st.top().env[v] = t }

// ---- running

// Run explores fn from its entry with symbolic parameters.
func (e *PEngine) Run(fn *ssa.Function, init CState) []*PExit {
	st := e.Start(fn, init)
	return e.RunFrom(fn, st)
}

func (e *PEngine) Start(fn *ssa.Function, init CState) *PState {
	st := &PState{mem: map[*Term]*Term{}, ver: map[string]*Term{}, esc: map[*Term]bool{}, facts: map[*Term]bool{}, used: map[string]bool{}, cl: init}
	fr := &pframe{fn: fn, id: "", env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		n := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			n = "recv"
		}
		fr.env[p] = e.ts.mk("param", n+"#"+strconv.Itoa(i), p.Type())
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = e.ts.mk("param", p.Name()+"#free"+strconv.Itoa(i), p.Type())
	}
	st.frames = []*pframe{fr}
	return st
}

func (e *PEngine) RunFrom(fn *ssa.Function, st *PState) []*PExit {
	_, _, rets := e.region(fn, nil, []*PState{st})
	e.paths += len(rets)
	return rets
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *PState
}

func (e *PEngine) stateKey(st *PState, live map[ssa.Value]bool) string {
	var p []string
	env := st.top().env
	for v, t := range env {
		if live == nil || live[v] {
			p = append(p, v.Name()+"="+strconv.Itoa(t.id))
		}
	}
	for k, v := range st.mem {
		p = append(p, "m"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range st.ver {
		p = append(p, "v"+k+"="+strconv.Itoa(v.id))
	}
	for k := range st.esc {
		p = append(p, "e"+strconv.Itoa(k.id))
	}
	// frames below are equal for states of one region up to renaming; include their terms
	for i := 0; i < len(st.frames)-1; i++ {
		for v, t := range st.frames[i].env {
			p = append(p, strconv.Itoa(i)+v.Name()+"="+strconv.Itoa(t.id))
		}
	}
	if e.cl.KeepFact != nil {
		for f, v := range st.facts {
			if e.cl.KeepFact(f) {
				p = append(p, "f"+strconv.Itoa(f.id)+"="+strconv.FormatBool(v))
			}
		}
	}
	sort.Strings(p)
	s := strings.Join(p, ";")
	if st.cl != nil {
		s += "|" + st.cl.Key()
	}
	return s
}

func (e *PEngine) merge(b *ssa.BasicBlock, sts []*PState, live map[ssa.Value]bool) []*PState {
	for _, st := range sts {
		for v := range st.top().env {
			if !live[v] {
				if _, ok := v.(*ssa.Parameter); ok {
					continue
				}
				if _, ok := v.(*ssa.FreeVar); ok {
					continue
				}
				delete(st.top().env, v)
			}
		}
		e.dropDeadCells(st)
	}
	if len(sts) < 2 {
		return sts
	}
	idx := map[string]int{}
	var out []*PState
	for _, st := range sts {
		k := e.stateKey(st, nil)
		if i, ok := idx[k]; ok {
			e.meetFacts(out[i], st)
			continue
		}
		idx[k] = len(out)
		out = append(out, st)
	}
	if len(out) > e.maxSt {
		out = e.forceJoin(b, out)
	}
	return out
}

// dropDeadCells forgets memory of unescaped objects nothing refers to.
func (e *PEngine) dropDeadCells(st *PState) {
	ref := map[*Term]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "alloc" {
			ref[t] = true
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range st.frames {
		for _, t := range f.env {
			mark(t)
		}
	}
	for ch := true; ch; {
		ch = false
		for k, v := range st.mem {
			r := addrRoot(k)
			if r.op == "alloc" && !ref[r] && !st.esc[r] {
				continue
			}
			if !seen[v] || !seen[k] {
				mark(k)
				mark(v)
				ch = true
			}
		}
	}
	for k := range st.mem {
		r := addrRoot(k)
		if r.op == "alloc" && !ref[r] && !st.esc[r] {
			delete(st.mem, k)
		}
	}
}

func (e *PEngine) meetFacts(a, b *PState) {
	for f, v := range a.facts {
		if w, ok := b.facts[f]; ok && w == v {
			continue
		}
		if r := e.truth(b, f); r >= 0 && (r == 1) == v {
			continue
		}
		delete(a.facts, f)
	}
	for k := range b.used {
		a.used[k] = true
	}
}

// forceJoin joins states with the same client state; differing values become unknown.
func (e *PEngine) forceJoin(b *ssa.BasicBlock, sts []*PState) []*PState {
	idx := map[string]int{}
	var out []*PState
	for _, st := range sts {
		k := ""
		if st.cl != nil {
			k = st.cl.Key()
		}
		i, ok := idx[k]
		if !ok {
			idx[k] = len(out)
			out = append(out, st)
			continue
		}
		a := out[i]
		e.meetFacts(a, st)
		for v, t := range a.top().env {
			if st.top().env[v] != t {
				name := a.top().id + "/join" + strconv.Itoa(b.Index) + "." + v.Name()
				a.used[name] = true
				a.top().env[v] = e.ts.raw("sym", name, 99, v.Type())
			}
		}
		for k, v := range a.mem {
			if st.mem[k] != v {
				delete(a.mem, k)
				a.ver[addrClass(k, v.typ)] = e.ts.raw("sym", "verj"+strconv.Itoa(b.Index), 99, types.Typ[types.Int])
			}
		}
		for k, v := range st.mem {
			if a.mem[k] != v {
				a.ver[addrClass(k, v.typ)] = e.ts.raw("sym", "verj"+strconv.Itoa(b.Index), 99, types.Typ[types.Int])
			}
		}
		for k, v := range st.ver {
			if a.ver[k] != v {
				a.ver[k] = e.ts.raw("sym", "verj"+strconv.Itoa(b.Index), 99, types.Typ[types.Int])
			}
		}
		for k := range st.esc {
			a.esc[k] = true
		}
	}
	return out
}

func (e *PEngine) region(fn *ssa.Function, l *ploop, entry []*PState) (exits []edgeState, backs []*PState, rets []*PExit) {
	inf := e.info(fn)
	start := fn.Blocks[0]
	if l != nil {
		start = l.head
	}
	pending := map[*ssa.BasicBlock][]*PState{start: entry}
	first := true
	route := func(from, to *ssa.BasicBlock, st *PState) {
		if l != nil && to == l.head {
			backs = append(backs, st)
			return
		}
		if l != nil && !l.blocks[to] {
			exits = append(exits, edgeState{from, to, st})
			return
		}
		pending[to] = append(pending[to], st)
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || inf.rpo[x] < inf.rpo[b] {
				b = x
			}
		}
		sts := e.merge(b, pending[b], inf.liveIn[b])
		delete(pending, b)
		isHead := inf.loops[b] != nil && !(first && l != nil && b == l.head)
		first = false
		if isHead {
			for _, st := range sts {
				ex, rs := e.loop(fn, inf.loops[b], st)
				rets = append(rets, rs...)
				for _, x := range ex {
					route(x.from, x.to, x.st)
				}
			}
			continue
		}
		for _, st := range sts {
			e.block(st, b, 0, func(to *ssa.BasicBlock, s *PState) { route(b, to, s) }, func(x *PExit) { rets = append(rets, x) })
		}
	}
	return
}

func (e *PEngine) loop(fn *ssa.Function, l *ploop, st *PState) ([]edgeState, []*PExit) {
	if e.headConst(fn, l, st) {
		// the first iterations of a loop over a short constant range are run one by one
		var outs []edgeState
		var rets []*PExit
		cur := []*PState{st}
		for n := 0; len(cur) > 0; n++ {
			var next []*PState
			for _, s := range cur {
				if n < 12 && e.headConst(fn, l, s) {
					ex, backs, rs := e.region(fn, l, []*PState{s})
					outs, rets, next = append(outs, ex...), append(rets, rs...), append(next, backs...)
				} else {
					ex, rs := e.loopFix(fn, l, s)
					outs, rets = append(outs, ex...), append(rets, rs...)
				}
			}
			cur = e.merge(l.head, next, e.info(fn).liveIn[l.head])
		}
		return outs, rets
	}
	return e.loopFix(fn, l, st)
}

// headConst says whether the condition at the loop head is a constant in a state.
func (e *PEngine) headConst(fn *ssa.Function, l *ploop, st *PState) bool {
	b := l.head
	cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	s := st.clone()
	cl := e.cl
	e.cl = &PClient{}
	defer func() { e.cl = cl }()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Slice:
			e.instr(s, in)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			e.builtin(s, x, "len", []*Term{e.val(s, x.Call.Args[0])})
		default:
			return false
		}
	}
	c := e.val(s, cond.Cond)
	return c.isTrue() || c.isFalse()
}

func (e *PEngine) loopFix(fn *ssa.Function, l *ploop, st *PState) ([]edgeState, []*PExit) {
	lc := &loopCtx{l: l, entry: st, dropped: map[*ssa.Phi]bool{}}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	cl := st.cl
	lc.phis = phis
	for iter := 0; ; iter++ {
		mark := len(e.finds)
		head := st.clone()
		if cl != nil {
			head.cl = cl.Clone()
		}
		site := head.top().id + "/L" + strconv.Itoa(l.head.Index)
		ntmp := len(head.tmp)
		for _, ph := range phis {
			head.tmp = append(head.tmp, e.val(head, ph))
		}
		// cells of local variables assigned in the loop
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := head.top().env[s.Addr]; ok {
						e.forgetAddr(head, a)
					} else if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if a, ok := head.top().env[fa.X]; ok && a.op == "alloc" {
							e.forgetAddr(head, e.fa(a, fa.X.Type(), fa.Field))
						}
					} else if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						if a, ok := head.top().env[ia.X]; ok {
							e.forgetAddr(head, addrRoot(a))
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && !e.readOnly {
					for _, a := range c.Common().Args {
						if t, ok := head.top().env[a]; ok {
							if r := addrRoot(t); r.op == "alloc" {
								e.forgetAddr(head, r)
							}
						}
					}
					if t, ok := head.top().env[c.Common().Value]; ok && t.op == "closure" {
						for _, x := range t.args {
							e.forgetAddr(head, x)
						}
					}
				}
			}
		}
		e.clobber(head, l.mods, site)
		for _, ph := range phis {
			if lc.dropped[ph] {
				e.set(head, ph, e.fresh(head, "sym", e.siteName(head, ph), ph.Type()))
				// a fresh symbol renames older ones, also in the values already set
			}
		}
		lc.vals = append([]*Term(nil), head.tmp[ntmp:]...)
		head.tmp = head.tmp[:ntmp]
		if e.cl.LoopHead != nil {
			e.cl.LoopHead(e, lc, head)
		}
		heads := cloneMap(head.top().env)
		keep := head.clone()
		ex, backs, rets := e.region(fn, l, []*PState{head})
		e.loops++
		changed := false
		for _, b := range backs {
			for _, ph := range phis {
				if !lc.dropped[ph] && b.top().env[ph] != heads[ph] {
					lc.dropped[ph] = true
					changed = true
				}
			}
			if e.cl.BackCheck != nil && e.cl.BackCheck(e, lc, keep, b) {
				changed = true
			}
			if cl != nil {
				n, ch := cl.Join(b.cl)
				if ch {
					cl = n
					changed = true
				}
			}
		}
		if changed && iter < 40 {
			e.finds = e.finds[:mark]
			continue
		}
		if iter >= 40 {
			e.fail("engine", fnName(fn), e.p.pos(fn.Pos()), "no fixpoint in a loop")
		}
		if e.cl.Back != nil {
			for _, b := range backs {
				e.cl.Back(e, lc, keep, b)
			}
		}
		if e.cl.LoopExit != nil {
			for _, x := range ex {
				e.cl.LoopExit(e, lc, keep, x.st, x.from, x.to)
			}
		}
		if e.cl.LoopRet != nil {
			for _, x := range rets {
				e.cl.LoopRet(e, lc, keep, x)
			}
		}
		return ex, rets
	}
}

func (e *PEngine) forgetAddr(st *PState, a *Term) {
	for k, v := range st.mem {
		if k == a || k.op == "fa" && addrRoot(k) == addrRoot(a) && a.op == "alloc" || k.op == "ia" && addrRoot(k) == addrRoot(a) || a.op == "fa" && k.under(a) {
			delete(st.mem, k)
			c := addrClass(k, v.typ)
			e.bump(st, c, "loop")
		}
	}
}

func (e *PEngine) edge(st *PState, b, to *ssa.BasicBlock, succIdx int) {
	// which predecessor of to is this edge
	k := 0
	for i := 0; i < succIdx; i++ {
		if b.Succs[i] == to {
			k++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			if k == 0 {
				pi = i
				break
			}
			k--
		}
	}
	var vs []*Term
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			ps = append(ps, ph)
			v := e.val(st, ph.Edges[pi])
			if isBoolType(ph.Type()) && !v.isTrue() && !v.isFalse() {
				switch e.truth(st, v) { // a value which the path has decided
				case 1:
					v = e.ts.boolc(true)
				case 0:
					v = e.ts.boolc(false)
				}
			}
			vs = append(vs, v)
		}
	}
	for i, ph := range ps {
		st.top().env[ph] = vs[i]
	}
}

func (e *PEngine) block(st *PState, b *ssa.BasicBlock, i int, next func(*ssa.BasicBlock, *PState), ret func(*PExit)) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(st, x.Cond)
			t, f := st.clone(), st
			if e.assume(t, c, true) {
				e.edge(t, b, b.Succs[0], 0)
				next(b.Succs[0], t)
			}
			if e.assume(f, c, false) {
				e.edge(f, b, b.Succs[1], 1)
				next(b.Succs[1], f)
			}
			return
		case *ssa.Jump:
			e.edge(st, b, b.Succs[0], 0)
			next(b.Succs[0], st)
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(st, r))
			}
			ret(&PExit{st: st, res: rs, ret: x})
			return
		case *ssa.Panic:
			if e.cl.Panic != nil {
				e.cl.Panic(e, st, x)
			}
			return
		case *ssa.Call:
			outs := e.call(st, x)
			if outs == nil {
				continue
			}
			for _, o := range outs {
				e.block(o, b, i+1, next, ret)
			}
			return
		default:
			e.instr(st, in)
		}
	}
}

func (e *PEngine) instr(st *PState, in ssa.Instruction) {
	ts := e.ts
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		a := e.fresh(st, "alloc", e.siteName(st, x), x.Type())
		delete(st.esc, a)
		for k := range st.mem {
			if addrRoot(k) == a {
				delete(st.mem, k)
			}
		}
		e.zeroInit(st, a, t)
		e.set(st, x, a)
	case *ssa.FieldAddr:
		e.set(st, x, e.fa(e.val(st, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		b := e.val(st, x.X)
		if arrayLen(b) >= 0 {
			b = b.args[0] // element of a slice of a whole array
		}
		if e.cl.Index != nil {
			e.cl.Index(e, st, x, b, e.val(st, x.Index))
		}
		e.set(st, x, ts.mk("ia", "", x.Type(), b, e.val(st, x.Index)))
	case *ssa.Field:
		e.set(st, x, e.fieldOf(e.val(st, x.X), x.X.Type(), x.Field))
	case *ssa.Index:
		e.set(st, x, ts.mk("idx", "", x.Type(), e.val(st, x.X), e.val(st, x.Index)))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			e.set(st, x, e.load(st, v, x.Type()))
		case token.NOT:
			e.set(st, x, ts.not(v))
		case token.SUB:
			if isIntTyp(x.Type()) {
				e.set(st, x, ts.addT(ts.intc(0), v, -1))
			} else {
				e.set(st, x, ts.mk("neg", "", x.Type(), v))
			}
		default:
			e.set(st, x, ts.mk("unop", x.Op.String(), x.Type(), v))
		}
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		if e.cl.Bin != nil {
			e.cl.Bin(e, st, x, a, b)
		}
		e.set(st, x, e.binop(x.Op, a, b, x.X.Type(), x.Type()))
	case *ssa.Store:
		addr, v := e.val(st, x.Addr), e.val(st, x.Val)
		if e.cl.Store != nil {
			e.cl.Store(e, st, x, addr, v)
		}
		e.store(st, addr, v, x.Val.Type(), st.top().id+"/S"+strconv.Itoa(x.Block().Index)+"."+strconv.Itoa(instrIndex(x)))
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		if e.cl.MapUpdate != nil {
			e.cl.MapUpdate(e, st, x, m, k, v)
		}
		e.escape(st, v)
		e.escape(st, k)
		s := st.top().id + "/S" + strconv.Itoa(x.Block().Index) + "." + strconv.Itoa(instrIndex(x))
		e.bump(st, "map:"+typName(x.Map.Type()), s)
		st.ver["*"] = e.fresh(st, "sym", "ver:*@"+s, types.Typ[types.Int])
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			e.set(st, x, ts.mk("idx", "", x.Type(), m, k))
			return
		}
		as := []*Term{m, k}
		if v := st.ver["map:"+typName(x.X.Type())]; v != nil {
			as = append(as, v)
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		l := ts.mk("lookup", "", vt, as...)
		if x.CommaOk {
			e.set(st, x, ts.mk("tuple", "", x.Type(), l, ts.mk("lookupok", "", types.Typ[types.Bool], as...)))
		} else {
			e.set(st, x, l)
		}
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		e.set(st, x, e.ext(t, x.Index, x.Type()))
	case *ssa.MakeInterface:
		e.set(st, x, ts.mk("iface", typName(x.X.Type()), x.Type(), e.val(st, x.X)))
	case *ssa.ChangeInterface:
		e.set(st, x, e.val(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, e.val(st, x.X))
	case *ssa.Convert:
		v := e.val(st, x.X)
		if isIntTyp(x.Type()) && isIntTyp(x.X.Type()) && types.Identical(x.Type().Underlying(), x.X.Type().Underlying()) || v.isInt() && isIntTyp(x.Type()) {
			e.set(st, x, v)
		} else {
			e.set(st, x, ts.mk("conv", typName(x.Type()), x.Type(), v))
		}
	case *ssa.TypeAssert:
		v := e.val(st, x.X)
		n := typName(x.AssertedType)
		var r, ok *Term
		if v.op == "iface" && !types.IsInterface(x.AssertedType) {
			if v.aux == n {
				r, ok = v.args[0], ts.boolc(true)
			} else {
				r, ok = ts.zero(x.AssertedType), ts.boolc(false)
			}
		} else {
			r, ok = ts.mk("assert", n, x.AssertedType, v), ts.mk("assertok", n, types.Typ[types.Bool], v)
		}
		if x.CommaOk {
			e.set(st, x, ts.mk("tuple", "", x.Type(), r, ok))
		} else {
			e.set(st, x, r)
		}
	case *ssa.Slice:
		v := e.val(st, x.X)
		opt := func(y ssa.Value) *Term {
			if y == nil {
				return ts.mk("none", "", types.Typ[types.Int])
			}
			return e.val(st, y)
		}
		lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
		if x.Low == nil {
			lo = ts.intc(0)
		}
		if lo.isInt() && lo.n == 0 && hi.op == "none" && mx.op == "none" {
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				e.set(st, x, v)
				return
			}
		}
		e.set(st, x, ts.mk("slice", "", x.Type(), v, lo, hi, mx))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a := e.fresh(st, "alloc", e.siteName(st, v), v.Type())
		e.set(st, v, a)
		if ms, ok := in.(*ssa.MakeSlice); ok {
			st.facts[ts.mk("eq", "", types.Typ[types.Bool], ts.mk("len", "", types.Typ[types.Int], a), e.val(st, ms.Len))] = true
		}
	case *ssa.MakeClosure:
		var as []*Term
		for _, b := range x.Bindings {
			as = append(as, e.val(st, b))
		}
		e.set(st, x, ts.mk("closure", x.Fn.String(), x.Type(), as...))
	case *ssa.Range:
		e.set(st, x, ts.mk("range", "", x.Type(), e.val(st, x.X)))
	case *ssa.Next:
		n := e.siteName(st, x)
		tt := x.Type().(*types.Tuple)
		ok := e.fresh(st, "sym", n+".ok", types.Typ[types.Bool])
		k := e.fresh(st, "sym", n+".k", tt.At(1).Type())
		v := e.fresh(st, "sym", n+".v", tt.At(2).Type())
		e.set(st, x, ts.mk("tuple", "", x.Type(), ok, k, v))
		if r := e.val(st, x.Iter); e.cl.Next != nil && r.op == "range" {
			e.cl.Next(e, st, x, r.args[0], ok, k, v)
		}
	case *ssa.RunDefers, *ssa.Defer, *ssa.Go, *ssa.Send:
		if c, ok := in.(ssa.CallInstruction); ok {
			m := map[string]bool{}
			e.modsOf(c, m, true)
			e.clobber(st, m, st.top().id+"/defer")
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(st, v, e.fresh(st, "sym", e.siteName(st, v), v.Type()))
		}
	}
}

// arrayLen gives the length of a slice of a whole array, or -1.
func arrayLen(t *Term) int64 {
	if t.op != "slice" || t.args[1].op != "int" && !t.args[1].isInt() || t.args[1].n != 0 || t.args[2].op != "none" || t.args[0].typ == nil {
		return -1
	}
	if pt, ok := t.args[0].typ.Underlying().(*types.Pointer); ok {
		if a, ok := pt.Elem().Underlying().(*types.Array); ok {
			return a.Len()
		}
	}
	return -1
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (e *PEngine) ext(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" {
		return t.args[i]
	}
	return e.ts.mk("ext", strconv.Itoa(i), typ, t)
}

func (e *PEngine) zeroInit(st *PState, a *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.zeroInit(st, e.fa(a, types.NewPointer(t), i), u.Field(i).Type())
		}
	case *types.Array:
	default:
		st.mem[a] = e.ts.zero(t)
	}
}

func (e *PEngine) binop(op token.Token, a, b *Term, xt, rt types.Type) *Term {
	ts := e.ts
	signed := false
	if bt, ok := xt.Underlying().(*types.Basic); ok {
		signed = bt.Info()&types.IsInteger != 0 && bt.Info()&types.IsUnsigned == 0
	}
	switch op {
	case token.EQL:
		return ts.eq(a, b)
	case token.NEQ:
		return ts.not(ts.eq(a, b))
	case token.LSS:
		return ts.lt(a, b)
	case token.GTR:
		return ts.lt(b, a)
	case token.LEQ:
		return ts.not(ts.lt(b, a))
	case token.GEQ:
		return ts.not(ts.lt(a, b))
	case token.ADD:
		if signed {
			return ts.addT(a, b, 1)
		}
	case token.SUB:
		if signed {
			return ts.addT(a, b, -1)
		}
	case token.MUL:
		if signed && (a.isInt() || b.isInt()) {
			if b.isInt() {
				a, b = b, a
			}
			l := lin{m: map[*Term]int64{}}
			l.add(b, a.n)
			return ts.fromLin(l, rt)
		}
	}
	return ts.mk("bin", op.String(), rt, a, b)
}

// pureExt are functions of the standard library which only compute.
func pureExt(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "unicode/utf8", "strconv", "errors", "math", "bytes":
		return f.Signature.Recv() == nil
	case "fmt":
		return f.Name() == "Errorf" || strings.HasPrefix(f.Name(), "Sprint")
	case "regexp":
		return f.Name() == "MatchString" || f.Name() == "Match"
	}
	return false
}

func (e *PEngine) call(st *PState, c *ssa.Call) []*PState {
	ts := e.ts
	com := c.Common()
	var args []*Term
	var callee *ssa.Function
	var method *types.Func
	site := st.top().id + "/" + c.Name()
	if com.IsInvoke() {
		method = com.Method
		args = append(args, e.val(st, com.Value))
		// a known dynamic type
		if r := args[0]; r.op == "iface" {
			if f := e.ifaceTarget(r, method); f != nil {
				callee, method = f, nil
				args[0] = r.args[0]
			}
		}
	} else {
		callee = com.StaticCallee()
	}
	for _, a := range com.Args {
		args = append(args, e.val(st, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		e.builtin(st, c, b.Name(), args)
		return nil
	}
	if e.cl.Call != nil {
		if ok, res := e.cl.Call(e, st, c, callee, method, args); ok {
			if res != nil {
				e.set(st, c, res)
			}
			return nil
		}
	}
	if callee == nil && method == nil {
		// function value
		if v := e.val(st, com.Value); v.op == "closure" || v.op == "fn" {
			for _, f := range e.p.funcs {
				if f.String() == v.aux {
					callee = f
				}
			}
			if callee != nil && callee.Blocks != nil && e.canInline(st, callee) {
				return e.inline(st, c, callee, args, v.args)
			}
		}
	}
	if callee != nil && callee.Blocks != nil && e.inMod(callee) && e.canInline(st, callee) {
		var free []*Term
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, e.val(st, b))
			}
		}
		return e.inline(st, c, callee, args, free)
	}
	// opaque
	if e.cl.Opaque != nil {
		e.cl.Opaque(e, st, c, callee, method, args)
	}
	mods := map[string]bool{}
	e.modsOf(c, mods, true)
	name := ""
	if callee != nil {
		name = fnName(callee)
	} else if method != nil {
		name = "method " + method.Name()
	} else {
		name = "func value"
		mods["*"] = true
	}
	pure := false
	if callee != nil && !e.inMod(callee) {
		pure = pureExt(callee)
	} else {
		pure = (len(mods) == 0 || e.readOnly) && (callee != nil || method != nil)
	}
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "strings" && callee.Signature.Recv() == nil {
		if outs := e.affixModel(st, c, callee.Name(), args); outs != nil {
			return outs
		}
		if r := e.stringsModel(st, callee.Name(), args, c.Type()); r != nil {
			e.set(st, c, r)
			return nil
		}
	}
	if pure {
		as := args
		if (callee == nil || e.inMod(callee)) && !e.readOnly {
			if v := st.ver["*"]; v != nil {
				as = append(append([]*Term(nil), args...), v)
			}
		}
		e.set(st, c, ts.mk("call", name, c.Type(), as...))
		return nil
	}
	for _, a := range args {
		if callee != nil && !e.inMod(callee) && callee.Signature.Recv() != nil && a == args[0] {
			continue // methods of standard types keep no reference to their receiver
		}
		e.escape(st, a)
	}
	e.clobber(st, mods, site)
	res := e.fresh(st, "sym", site+":"+name, c.Type())
	e.set(st, c, res)
	if e.cl.After != nil {
		e.cl.After(e, st, c, callee, method, res)
	}
	return nil
}

// affixModel forks the path at a function of package strings which cuts a prefix or suffix off if there is one.
func (e *PEngine) affixModel(st *PState, c *ssa.Call, name string, a []*Term) []*PState {
	ts := e.ts
	none := ts.mk("none", "", types.Typ[types.Int])
	str, boo := types.Typ[types.String], types.Typ[types.Bool]
	pre := false
	switch name {
	case "CutPrefix", "TrimPrefix":
		pre = true
	case "CutSuffix", "TrimSuffix":
	default:
		return nil
	}
	if a[0].isConst() && a[1].isConst() {
		return nil
	}
	fn := "strings.HasSuffix"
	cut := ts.mk("slice", "", str, a[0], ts.intc(0), ts.addT(e.lenT(a[0]), e.lenT(a[1]), -1), none)
	if pre {
		fn = "strings.HasPrefix"
		cut = ts.mk("slice", "", str, a[0], e.lenT(a[1]), none, none)
	}
	has := ts.mk("call", fn, boo, a[0], a[1])
	var outs []*PState
	for _, v := range []bool{true, false} {
		s := st.clone()
		if !e.assume(s, has, v) {
			continue
		}
		r := a[0]
		if v {
			r = cut
		}
		if name[0] == 'C' {
			r = ts.mk("tuple", "", c.Type(), r, ts.boolc(v))
		}
		e.set(s, c, r)
		outs = append(outs, s)
	}
	return outs
}

// stringsModel gives derived functions of package strings by the basic ones.
func (e *PEngine) stringsModel(st *PState, name string, a []*Term, typ types.Type) *Term {
	ts := e.ts
	in := types.Typ[types.Int]
	switch name {
	case "Contains":
		return ts.not(ts.lt(ts.mk("call", "strings.Index", in, a[0], a[1]), ts.intc(0)))
	}
	return nil
}

func constantString(t *Term) string {
	s, _ := strconv.Unquote(t.aux)
	return s
}

func (e *PEngine) ifaceTarget(r *Term, m *types.Func) *ssa.Function {
	t := r.args[0].typ
	if t == nil || typName(t) != r.aux {
		for _, n := range e.p.named {
			if typName(n) == r.aux {
				t = n
			}
			if pt := types.NewPointer(n); typName(pt) == r.aux {
				t = pt
			}
		}
	}
	if t == nil || typName(t) != r.aux {
		return nil
	}
	return e.p.methodOf(t, m)
}

func (e *PEngine) canInline(st *PState, f *ssa.Function) bool {
	for _, fr := range st.frames {
		if fr.fn == f {
			return false
		}
	}
	if len(st.frames) > 8 {
		return false
	}
	if e.cl.Inline != nil {
		return e.cl.Inline(e, st, f)
	}
	return len(f.Blocks) <= 40 && !e.rec[f]
}

func (e *PEngine) inline(st *PState, c *ssa.Call, f *ssa.Function, args, free []*Term) []*PState {
	id := st.top().id + "/" + c.Name()
	fr := &pframe{fn: f, id: id, env: map[ssa.Value]*Term{}, site: c}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		}
	}
	st.frames = append(st.frames, fr)
	_, _, rets := e.region(f, nil, []*PState{st})
	idx := map[string]int{}
	var out []*PState
	for _, r := range rets {
		r.st.frames = r.st.frames[:len(r.st.frames)-1]
		t := *r.st.top()
		t.env = cloneMap(t.env)
		r.st.frames[len(r.st.frames)-1] = &t
		switch len(r.res) {
		case 0:
		case 1:
			t.env[c] = r.res[0]
		default:
			t.env[c] = e.ts.mk("tuple", "", c.Type(), r.res...)
		}
		r.st.frames[len(r.st.frames)-1] = &t
		e.dropDeadCells(r.st)
		k := e.stateKey(r.st, nil)
		if i, ok := idx[k]; ok {
			e.meetFacts(out[i], r.st)
			continue
		}
		idx[k] = len(out)
		out = append(out, r.st)
	}
	if out == nil {
		out = []*PState{}
	}
	return out
}

func (e *PEngine) builtin(st *PState, c *ssa.Call, name string, args []*Term) {
	ts := e.ts
	com := c.Common()
	switch name {
	case "len", "cap":
		if args[0].isStr() {
			e.set(st, c, ts.intc(int64(len(constantString(args[0])))))
			return
		}
		if args[0].op == "nil" {
			e.set(st, c, ts.intc(0))
			return
		}
		if n := arrayLen(args[0]); n >= 0 {
			e.set(st, c, ts.intc(n))
			return
		}
		as := []*Term{args[0]}
		if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
			if v := st.ver["map:"+typName(com.Args[0].Type())]; v != nil {
				as = append(as, v)
			}
		}
		e.set(st, c, ts.mk(name, "", types.Typ[types.Int], as...))
	case "append":
		e.set(st, c, ts.mk("append", "", c.Type(), args...))
		if e.cl.Append != nil {
			e.cl.Append(e, st, c, e.val(st, c))
		}
	case "copy":
		if e.cl.Copy != nil {
			e.cl.Copy(e, st, c, args[0], args[1])
		}
		m := map[string]bool{}
		e.modsOf(c, m, true)
		if r := addrRoot(args[0]); r.op == "alloc" && !st.esc[r] {
			for k := range st.mem {
				if addrRoot(k) == r {
					delete(st.mem, k)
				}
			}
		}
		e.clobber(st, m, st.top().id+"/"+c.Name())
		e.set(st, c, e.fresh(st, "sym", e.siteName(st, c), c.Type()))
	case "delete", "clear":
		if e.cl.MapDelete != nil {
			e.cl.MapDelete(e, st, c, args[0])
		}
		m := map[string]bool{}
		e.modsOf(c, m, true)
		e.clobber(st, m, st.top().id+"/"+c.Name())
	case "min", "max":
		e.set(st, c, ts.mk("call", name, c.Type(), args...))
	default:
		e.set(st, c, e.fresh(st, "sym", e.siteName(st, c), c.Type()))
	}
}
