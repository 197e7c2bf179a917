package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// engine is the abstract interpreter: units (functions which are analysed on their own), published allocations, obligations.
type engine struct {
	p          *Prog
	enums      map[*types.TypeName]bool
	nextSym    Sym
	nextID     int
	strIDs     map[string]int
	storeIface types.Type
	seq        int
	nested     int
	joinCache  map[string]*Disj
	debugJoin  bool
	lastWhy    string

	sites    map[string]*site
	siteList []*site
	byType   map[string][]*site
	typeVer  map[string]int
	globalID map[*ssa.Global]int

	fis    map[*ssa.Function]*fnInfo
	rec    map[*ssa.Function]bool // recursive
	units  map[*ssa.Function]*unit
	ulist  []*unit
	cur    *unit
	total  map[*ssa.Function]int // size with what is inlined
	nCalls map[*ssa.Function]int
	grow   bool // buffers are never reset

	record bool // obligations are recorded
	obls   map[oblKey]*obl
	notes  map[string]int
	depth  int
	stack  []*ssa.Function
	seen   map[*ssa.Function]bool // analysed functions

	extSeen  map[string]int
	onStore  func(e *engine, st *State, in ssa.Instruction, args []*Val)
	onReturn func(e *engine, u *unit, st *State, res []*Val)
	steps    int
	limits   []int64 // lengths of arrays: where a growing number may stop
	maxKeys  int
	trace    map[string]bool
}

type oblKey struct {
	in   ssa.Instruction
	kind string
}

type obl struct {
	key  oblKey
	n    int
	fail int
	text string
}

// unit is a function with an entry (what the callers pass) and exits.
type unit struct {
	fn      *ssa.Function
	fi      *fnInfo
	root    bool
	entry   *PSet
	entVer  int
	exits   *PSet
	exitVer int
	mods    map[*site]bool
	modVer  int
	// what the last run has used
	seenSites map[*site]int
	seenUnits map[*unit]int
	seenTypes map[string]int
	seenEntry int
	ran       bool
}

func newEngine(p *Prog) *engine {
	e := &engine{p: p, enums: map[*types.TypeName]bool{}, strIDs: map[string]int{}, joinCache: map[string]*Disj{},
		sites: map[string]*site{}, byType: map[string][]*site{}, typeVer: map[string]int{}, globalID: map[*ssa.Global]int{},
		fis: map[*ssa.Function]*fnInfo{}, units: map[*ssa.Function]*unit{}, obls: map[oblKey]*obl{}, notes: map[string]int{},
		seen: map[*ssa.Function]bool{}, maxKeys: 20, extSeen: map[string]int{}, trace: map[string]bool{}}
	if t := p.lookupType("pkg/items.Store"); t != nil {
		e.storeIface = t
	} else {
		e.storeIface = types.Typ[types.Invalid]
	}
	for _, s := range strings.Split(os.Getenv("VERIF_TRACE"), ",") {
		e.trace[s] = true
	}
	e.debugJoin = e.trace["site"] || e.trace["join"]
	e.callGraph()
	seen := map[int64]bool{}
	for _, f := range p.funcs {
		for _, l := range f.Locals {
			seen[arrayLenOf(l.Type())] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					seen[arrayLenOf(a.Type())] = true
				}
			}
		}
	}
	for k := range seen {
		if k > 8 {
			e.limits = append(e.limits, k)
		}
	}
	sort.Slice(e.limits, func(i, j int) bool { return e.limits[i] < e.limits[j] })
	return e
}

func (e *engine) note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	e.notes[s]++
}

func (e *engine) fi(fn *ssa.Function) *fnInfo {
	f := e.fis[fn]
	if f == nil {
		f = newFnInfo(fn)
		e.fis[fn] = f
	}
	return f
}

// callees in the module, by declared types for dynamic calls.
func (e *engine) staticCallees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, mc.Fn.(*ssa.Function))
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && len(f.Blocks) > 0 && e.isMod(f) {
					r = append(r, f)
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				it, ok := under(cc.Value.Type()).(*types.Interface)
				if !ok || types.Identical(cc.Value.Type(), e.storeIface) || isErrorType(cc.Value.Type()) {
					continue
				}
				for _, t := range e.p.implementers(it) {
					if f := e.p.methodOf(t, cc.Method); f != nil && len(f.Blocks) > 0 && e.isMod(f) {
						r = append(r, f)
					}
				}
			}
		}
	}
	return r
}

func (e *engine) isMod(f *ssa.Function) bool {
	if f.Pkg != nil {
		return isModPkg(f.Pkg.Pkg.Path())
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return isModPkg(o.Pkg.Pkg.Path())
	}
	if f.Parent() != nil {
		return e.isMod(f.Parent())
	}
	if f.Synthetic != "" { // wrappers
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return isModPkg(o.Pkg().Path())
		}
	}
	return false
}

func (e *engine) callGraph() {
	e.rec = map[*ssa.Function]bool{}
	e.total = map[*ssa.Function]int{}
	e.nCalls = map[*ssa.Function]int{}
	succ := map[*ssa.Function][]*ssa.Function{}
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		order = append(order, f)
		succ[f] = e.staticCallees(f)
		for _, g := range succ[f] {
			e.nCalls[g]++
			visit(g)
		}
	}
	for _, f := range e.p.funcs {
		visit(f)
	}
	// strongly connected components
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var scc func(f *ssa.Function)
	scc = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ[f] {
			if g == f {
				e.rec[f] = true
			}
			if idx[g] == 0 {
				scc(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			for _, g := range c {
				if len(c) > 1 {
					e.rec[g] = true
				}
			}
			for _, g := range c {
				t := 0
				for _, b := range g.Blocks {
					t += len(b.Instrs)
				}
				if !e.rec[g] {
					for _, h := range succ[g] {
						if !e.rec[h] {
							t += e.total[h]
						}
					}
				}
				e.total[g] = t
			}
		}
	}
	for _, f := range order {
		if idx[f] == 0 {
			scc(f)
		}
	}
	e.grow = true
	for _, f := range order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && !isModPkg(g.Pkg.Pkg.Path()) {
						if g.Name() == "Reset" || g.Name() == "Truncate" {
							if rv := g.Signature.Recv(); rv != nil {
								if pt, ok := rv.Type().(*types.Pointer); ok && isBufType(pt.Elem()) {
									e.grow = false
								}
							}
						}
					}
				}
			}
		}
	}
}

// inline tells whether a call is analysed in the context of the caller.
func (e *engine) inline(f *ssa.Function) bool {
	if e.rec[f] || len(f.Blocks) == 0 {
		return false
	}
	for _, g := range e.stack {
		if g == f {
			return false
		}
	}
	return e.total[f] <= 400 || e.nCalls[f] == 1
}

// --- sites ---

func siteKey(t types.Type, array, isMap bool) string {
	k := types.TypeString(t, nil)
	if array {
		return "[]" + k
	}
	if isMap {
		return "map " + k
	}
	return k
}

func (e *engine) site(key, name string, t types.Type, array, isMap bool) *site {
	s := e.sites[key]
	if s == nil {
		s = &site{id: len(e.siteList) + 1, name: name, t: t, array: array, isMap: isMap}
		e.sites[key] = s
		e.siteList = append(e.siteList, s)
	}
	return s
}

func (e *engine) allocSite(in ssa.Instruction, t types.Type, array, isMap bool) *siteSet {
	if (array || isMap) && simple(t) {
		return newSiteSet([]*site{e.extSite(t, array, isMap)})
	}
	n := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			n = i
		}
	}
	key := fmt.Sprintf("%p#%d#%d#%s", in.Parent(), in.Block().Index, n, siteKey(t, array, isMap))
	return newSiteSet([]*site{e.site(key, fnName(in.Parent())+" "+e.p.instrPos(in), t, array, isMap)})
}

func (e *engine) extSite(t types.Type, array, isMap bool) *site {
	s := e.site("ext:"+siteKey(t, array, isMap), "ext "+siteKey(t, array, isMap), t, array, isMap)
	s.ext = true
	return s
}

// sitesOf lists the published allocations of a type.
func (e *engine) sitesOf(t types.Type, array, isMap bool) *siteSet {
	k := siteKey(t, array, isMap)
	if e.cur != nil {
		e.cur.seenTypes[k] = e.typeVer[k]
	}
	var l []*site
	for _, s := range e.byType[k] {
		l = append(l, s)
	}
	return newSiteSet(l)
}

func (e *engine) addToSite(s *site, d *Disj) {
	if s.ext || d == nil || d.num.bot {
		return
	}
	was := s.ps.empty()
	ps, ch := e.addDisj(s.ps, d)
	if ch {
		s.ps = ps
		s.ver++
		if e.trace["site"] {
			fmt.Fprintf(os.Stderr, "   site %s ver %d ds %d in %s: %s: %s\n", s.name, s.ver, len(ps.ds), fnName(e.cur.fn), e.lastWhy, d.v)
		}
		if was {
			k := siteKey(s.t, s.array, s.isMap)
			e.byType[k] = append(e.byType[k], s)
			e.typeVer[k]++
		}
	}
}

func (e *engine) globalSite(g *ssa.Global) *site {
	t := g.Type().(*types.Pointer).Elem()
	return e.site("global:"+g.String(), g.String(), t, false, false)
}

func (e *engine) globalPtr(g *ssa.Global) *Val {
	id, ok := e.globalID[g]
	if !ok {
		id = e.newID()
		e.globalID[g] = id
	}
	s := e.globalSite(g)
	if g.Pkg == nil || !isModPkg(g.Pkg.Pkg.Path()) {
		s = e.extSite(s.t, false, false)
	}
	return &Val{k: kPtr, t: g.Type(), n: konst(1), id: id, sites: newSiteSet([]*site{s})}
}

// --- units ---

func (e *engine) unit(fn *ssa.Function) *unit {
	u := e.units[fn]
	if u == nil {
		u = &unit{fn: fn, fi: e.fi(fn), mods: map[*site]bool{}, seenSites: map[*site]int{}, seenUnits: map[*unit]int{}, seenTypes: map[string]int{}}
		e.units[fn] = u
		e.ulist = append(e.ulist, u)
	}
	return u
}

func (u *unit) stale(e *engine) bool {
	if !u.ran || u.seenEntry != u.entVer {
		return true
	}
	for s, v := range u.seenSites {
		if s.ver != v {
			return true
		}
	}
	for c, v := range u.seenUnits {
		if c.exitVer+c.modVer != v {
			return true
		}
	}
	for k, v := range u.seenTypes {
		if e.typeVer[k] != v {
			return true
		}
	}
	return false
}

func (e *engine) rootEntry(u *unit) {
	st := newState()
	t := &Val{k: kTuple}
	for i, p := range u.fn.Params {
		nonNil := i == 0 && u.fn.Signature.Recv() != nil
		if pt, ok := under(p.Type()).(*types.Pointer); ok && (isBufType(pt.Elem()) || isModNamed(pt.Elem()) || simple(pt.Elem())) {
			nonNil = true
		}
		if _, ok := under(p.Type()).(*types.Pointer); ok {
			nonNil = true
		}
		if _, ok := under(p.Type()).(*types.Interface); ok {
			nonNil = true
		}
		v, ok := e.generic(st, p.Type(), nonNil)
		if !ok {
			return
		}
		t.f = append(t.f, v)
	}
	d := e.pack(st, t)
	ps, ch := e.addDisj(u.entry, d)
	if ch {
		u.entry = ps
		u.entVer++
	}
}

// runUnit analyses a unit for every disjunct of its entry.
func (e *engine) runUnit(u *unit) {
	e.cur = u
	if os.Getenv("VERIF_DEBUG") != "" {
		stepsBefore, t := e.steps, time.Now()
		defer func() {
			if d := time.Since(t); d > time.Second {
				fmt.Fprintf(os.Stderr, "unit %s %d steps %v\n", fnName(u.fn), e.steps-stepsBefore, d)
			}
		}()
	}
	u.seenSites, u.seenUnits, u.seenTypes = map[*site]int{}, map[*unit]int{}, map[string]int{}
	if u.root {
		e.rootEntry(u)
	}
	u.seenEntry = u.entVer
	u.ran = true
	if u.entry.empty() && len(u.fn.Params) > 0 {
		return
	}
	e.seen[u.fn] = true
	var ds []*Disj
	if u.entry.empty() {
		st := newState()
		ds = []*Disj{e.pack(st, &Val{k: kTuple})}
	} else {
		ds = u.entry.ds
	}
	for _, d := range ds {
		st := newState()
		tv := e.unpack(st, d)
		fr := &frame{fi: u.fi, env: make([]*Val, len(u.fi.vals)), own: true}
		for i := range u.fn.Params {
			fr.env[i] = tv.f[i]
		}
		// the parameters are kept in a frame below
		st.frames = []*frame{{env: tv.f, own: true}, fr}
		e.stack = []*ssa.Function{u.fn}
		outs := e.runFn(u.fi, []*State{st})
		e.stack = nil
		for _, o := range outs {
			if o.num.bot {
				continue
			}
			res := o.top().env
			o.frames = o.frames[:len(o.frames)-1]
			if e.onReturn != nil && e.record {
				e.onReturn(e, u, o, res)
			}
			x := &Val{k: kTuple}
			x.f = append(x.f, o.top().env...)
			x.f = append(x.f, e.hideFailed(o, res)...)
			x.f = append(x.f, numVal(o.ghost, types.Typ[types.Int]))
			d := e.pack(o, x)
			ps, ch := e.addDisj(u.exits, d)
			if ch {
				u.exits = ps
				u.exitVer++
			}
		}
	}
}

// hideFailed replaces objects which are returned together with an error: their content is not an invariant of anything.
func (e *engine) hideFailed(st *State, res []*Val) []*Val {
	failed := false
	for _, r := range res {
		if r.k == kIface && r.t != nil && isErrorType(r.t) {
			if a := st.alts[r.id]; a != nil && !a.nil_ {
				failed = true
			}
		}
	}
	if !failed {
		return res
	}
	out := make([]*Val, len(res))
	for i, r := range res {
		out[i] = r
		switch r.k {
		case kPtr:
			if st.heap[r.id] != nil && len(r.path) == 0 {
				x := *r
				el := under(r.t).(*types.Pointer).Elem()
				x.id = e.newID()
				x.idx = nil
				x.sites = newSiteSet([]*site{e.extSite(el, false, false)})
				out[i] = &x
			}
		case kSlice:
			if st.heap[r.id] != nil {
				x := *r
				el := under(r.t).(*types.Slice).Elem()
				x.id = e.newID()
				x.sites = newSiteSet([]*site{e.extSite(el, true, false)})
				out[i] = &x
			}
		}
	}
	return out
}

// solve runs the units until nothing changes, then once more with obligations.
func (e *engine) solve(maxRounds int) bool {
	for r := 0; r < maxRounds; r++ {
		changed := false
		for i := 0; i < len(e.ulist); i++ {
			u := e.ulist[i]
			if !u.stale(e) {
				continue
			}
			changed = true
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "round %d unit %s entries %d exits %d\n", r, fnName(u.fn), cntDs(u.entry), cntDs(u.exits))
			}
			e.runUnit(u)
		}
		if !changed {
			e.record = true
			for _, u := range e.ulist {
				e.runUnit(u)
			}
			e.record = false
			for _, u := range e.ulist {
				if u.stale(e) {
					e.note("unit %s is not stable after the recording pass", fnName(u.fn))
				}
			}
			return true
		}
	}
	return false
}

func cntDs(p *PSet) int {
	if p == nil {
		return 0
	}
	return len(p.ds)
}

// apiRoots are the functions which users call.
func (e *engine) apiRoots(pkgs []string, skip map[string]bool) {
	var fns []*ssa.Function
	for _, f := range e.p.funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		pk := rel(f.Pkg.Pkg.Path())
		ok := false
		for _, x := range pkgs {
			if x == pk {
				ok = true
			}
		}
		if !ok || !token.IsExported(f.Name()) || skip[fnName(f)] {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil {
			t := rv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); !ok || !n.Obj().Exported() {
				continue
			}
		}
		if f.TypeParams().Len() > 0 {
			continue
		}
		fns = append(fns, f)
	}
	// constructors first
	sort.SliceStable(fns, func(i, j int) bool {
		a, b := fns[i].Signature.Recv() != nil, fns[j].Signature.Recv() != nil
		return !a && b
	})
	for _, f := range fns {
		e.unit(f).root = true
	}
}

// runInits analyses the initialisation of the packages: contents of the globals.
func (e *engine) runInits() {
	var paths []string
	for p := range e.p.spkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sp := e.p.spkgs[p]
		if sp == nil {
			continue
		}
		// zero values
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Name() == "init$guard" {
				continue
			}
			if !globalStored(sp, g) {
				st := newState()
				s := e.globalSite(g)
				e.addToSite(s, e.pack(st, e.zero(st, s.t)))
			}
		}
		if f := sp.Func("init"); f != nil {
			e.unit(f).root = true
		}
	}
}

func globalStored(sp *ssa.Package, g *ssa.Global) bool {
	f := sp.Func("init")
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				return true
			}
		}
	}
	return false
}

func (e *engine) factRename(f string, j *joiner, isA bool) string { return f }

func arrayLenOf(t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return a.Len()
		}
	}
	return 0
}
