package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for id, mode := range map[string]string{"C07": "atomic", "C08": "recorded", "C09": "rejected"} {
		m := mode
		checks[id] = func(p *Prog, tier string) *Result { return checkRegister(p, m) }
	}
}

// registrations are the operations which add a pattern to a tree.
var registrations = []string{"glob.GlobTree.Add", "glob.GlobTree.AddGlob", "gglob.GGlobTree.Add", "gglob.GGlobTree.AddGlob", "gtags.GTagsTree.Add", "gtags.GTagsTree.AddTerms"}

type regUpd struct{ m, k, v *Term }

// regState is what a registration has done so far on a path.
type regState struct {
	mutated bool
	upd     []regUpd
	at      string
}

func (s *regState) Key() string {
	var p []string
	for _, u := range s.upd {
		p = append(p, itoa(u.m.id)+":"+itoa(u.k.id)+":"+itoa(u.v.id))
	}
	sort.Strings(p)
	k := strings.Join(p, ";")
	if s.mutated {
		k += "|M"
	}
	return k
}
func (s *regState) Clone() CState {
	c := *s
	c.upd = append([]regUpd(nil), s.upd...)
	return &c
}
func (s *regState) Subst(f func(*Term) *Term) {
	for i, u := range s.upd {
		s.upd[i] = regUpd{f(u.m), f(u.k), f(u.v)}
	}
}
func (s *regState) Join(back CState) (CState, bool) {
	b := back.(*regState)
	if b.mutated && !s.mutated {
		n := s.Clone().(*regState)
		n.mutated = true
		n.at = b.at
		return n, true
	}
	return s, false
}

// nodeTypes are the struct types reachable from a tree type which can hold a terminated node.
func nodeTypes(p *Prog, tree types.Type) map[string]bool {
	term := p.lookupType("pkg/items.Terminated")
	memo := map[string]bool{}
	var reach func(t types.Type, seen map[string]bool) bool
	reach = func(t types.Type, seen map[string]bool) bool {
		if types.Identical(t, term) {
			return true
		}
		switch u := t.(type) {
		case *types.Pointer:
			return reach(u.Elem(), seen)
		case *types.Slice:
			return reach(u.Elem(), seen)
		case *types.Array:
			return reach(u.Elem(), seen)
		case *types.Map:
			return reach(u.Elem(), seen)
		case *types.Named:
			n := typName(u)
			if seen[n] {
				return memo[n]
			}
			seen[n] = true
			if s, ok := u.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if reach(s.Field(i).Type(), seen) {
						memo[n] = true
					}
				}
			}
			return memo[n]
		}
		return false
	}
	// two passes settle recursive types
	reach(tree, map[string]bool{})
	reach(tree, map[string]bool{})
	memo[typName(term)] = true
	memo[typName(tree)] = true
	return memo
}

// treeClasses are the memory classes which make up a tree.
func treeClasses(p *Prog, tree types.Type) map[string]bool {
	nodes := nodeTypes(p, tree)
	r := map[string]bool{}
	for _, n := range p.named {
		if !nodes[typName(n)] {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			r[typName(n)+"."+f.Name()] = true
			switch u := f.Type().Underlying().(type) {
			case *types.Map:
				r["map:"+typName(f.Type())] = true
			case *types.Slice:
				r["elem:"+typName(u.Elem())] = true
			}
		}
	}
	return r
}

// errNil says whether an error term is nil on the path: 1 yes, 0 no, -1 unknown.
func (e *PEngine) errNil(st *PState, t *Term) int {
	switch {
	case t.op == "nil":
		return 1
	case neverNil(t):
		return 0
	case t.op == "load" && t.args[0].op == "global":
		return 0 // sentinel errors are set once by initialisation (C03)
	case t.op == "call" && (t.aux == "errors.New" || t.aux == "fmt.Errorf"):
		return 0
	}
	if t.op == "ite" {
		return -1
	}
	return e.truth(st, e.ts.eq(e.ts.nilc(), t))
}

func checkRegister(p *Prog, mode string) *Result {
	r := newResult()
	for _, name := range registrations {
		fn := p.lookupFunc(name)
		if fn == nil {
			r.fail("anchor", name, "-", "the registration operation was not found")
			continue
		}
		checkRegistration(p, r, fn, name, mode)
	}
	r.need("registrations", 6)
	r.need("success_paths", 6)
	r.need("reject_paths", 15)
	return r
}

func checkRegistration(p *Prog, r *Result, fn *ssa.Function, name, mode string) {
	tree := fn.Signature.Recv().Type()
	if pt, ok := tree.(*types.Pointer); ok {
		tree = pt.Elem()
	}
	classes := treeClasses(p, tree)
	nodes := nodeTypes(p, tree)
	cl := &PClient{}
	e := newPEngine(p, cl)
	touches := func(m map[string]bool) bool {
		if m["*"] {
			return true
		}
		for k := range m {
			if classes[k] {
				return true
			}
		}
		return false
	}
	mut := func(st *PState, at string) {
		s := st.cl.(*regState)
		if !s.mutated {
			s.mutated = true
			s.at = at
		}
	}
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if e.rec[f] {
			return false
		}
		if touches(e.mods[f]) {
			return len(f.Blocks) < 300
		}
		return len(f.Blocks) <= 12 && (len(e.info(f).loops) == 0 || takesTree(f, nodes)) || returnsErr(f) && takesTree(f, nodes)
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		root := addrRoot(addr)
		if root.op == "alloc" && !st.esc[root] {
			return
		}
		m := map[string]bool{}
		e.modsOf(in, m, false)
		if touches(m) {
			mut(st, p.instrPos(in))
		}
	}
	cl.MapUpdate = func(e *PEngine, st *PState, in ssa.Instruction, m, k, v *Term) {
		if m.op == "alloc" && !st.esc[m] {
			return
		}
		mut(st, p.instrPos(in))
		s := st.cl.(*regState)
		s.upd = append(s.upd, regUpd{m, k, v})
	}
	cl.MapDelete = func(e *PEngine, st *PState, in ssa.Instruction, m *Term) { mut(st, p.instrPos(in)) }
	cl.Opaque = func(e *PEngine, st *PState, c ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) {
		ms := map[string]bool{}
		e.modsOf(c, ms, true)
		if touches(ms) {
			mut(st, p.instrPos(c))
		}
	}
	raws := map[*ssa.Function]int{}
	cl.After = func(e *PEngine, st *PState, c ssa.CallInstruction, callee *ssa.Function, m *types.Func, res *Term) {
		if mode == "atomic" || callee == nil || !e.inMod(callee) || !returnsErr(callee) {
			return
		}
		i, ok := raws[callee]
		if !ok {
			i = rawParam(p, callee)
			raws[callee] = i
		}
		if i < 0 {
			return
		}
		rt := callee.Signature.Results().At(0).Type()
		g := e.loadField(st, e.ext(res, 0, rt), rt, "Glob")
		st.facts[e.ts.eq(g, e.val(st, c.Common().Args[i]))] = true
	}
	unlinked := func(st *PState, pos string) {
		if mode != "recorded" {
			return
		}
		for v, t := range st.top().env {
			if t.op != "alloc" || st.esc[t] {
				continue
			}
			if pt, ok := t.typ.Underlying().(*types.Pointer); ok && nodes[typName(pt.Elem())] && typName(pt.Elem()) != "pkg/items.Terminated" {
				if a, ok := v.(*ssa.Alloc); ok && !a.Heap {
					continue
				}
				e.fail("node-linked", fnName(v.Parent()), pos, "a new node (%s) is used as the current node and is not linked into the tree", typName(pt.Elem()))
			}
		}
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) { unlinked(back, p.instrPos(lc.l.head.Instrs[0])) }
	exits := e.Run(fn, &regState{})
	r.count("registrations", 1)
	ts := e.ts
	recv := ts.mk("param", "recv#0", fn.Params[0].Type())
	var index, raw, list *Term
	for i, q := range fn.Params[1:] {
		t := ts.mk("param", q.Name()+"#"+itoa(i+1), q.Type())
		switch u := q.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				index = t
			} else if u.Info()&types.IsString != 0 {
				raw = t
			}
		case *types.Slice:
			list = t
		}
	}
	for _, x := range exits {
		st := x.st
		if !e.consistent(st) {
			continue
		}
		s := st.cl.(*regState)
		pos := p.instrPos(x.ret)
		errT := x.res[len(x.res)-1]
		en := e.errNil(st, errT)
		norm := x.res[0]
		rawT := raw
		if raw == nil && list == nil {
			rawT = e.loadField(st, ts.mk("param", fn.Params[1].Name()+"#1", fn.Params[1].Type()), fn.Params[1].Type(), "Glob")
		}
		switch mode {
		case "atomic":
			if en != 1 && s.mutated {
				e.fail("rejected-unchanged", name, pos, "a path returns an error (%s) after the tree was changed at %s", errT, s.at)
			}
			if en == 1 && s.mutated {
				r.count("success_paths", 1)
			} else {
				r.count("reject_paths", 1)
			}
		case "recorded":
			if en == 0 {
				r.count("reject_paths", 1)
				continue
			}
			if !s.mutated {
				empty := rawT != nil && e.truth(st, ts.eq(rawT, ts.strc(""))) == 1
				if list != nil {
					empty = e.truth(st, ts.eq(ts.mk("len", "", types.Typ[types.Int], list), ts.intc(0))) == 1
				}
				if empty {
					r.count("empty_paths", 1)
					continue
				}
				e.fail("success-recorded", name, pos, "a path returns no error and has registered nothing")
				continue
			}
			r.count("success_paths", 1)
			unlinked(st, pos)
			has := func(k, v *Term, mt string) bool {
				for _, u := range s.upd {
					if typName(u.m.typ) == mt && u.m.any(func(t *Term) bool { return t == recv }) && e.same(st, u.k, k) && e.same(st, u.v, v) {
						return true
					}
				}
				return false
			}
			// no other writes to the two maps
			for _, u := range s.upd {
				switch typName(u.m.typ) {
				case "map[string]int":
					if !e.same(st, u.v, index) || !(e.same(st, u.k, norm) || rawT != nil && e.same(st, u.k, rawT)) {
						e.fail("success-recorded", name, pos, "the pattern map gets the entry %s: %s", u.k, u.v)
					}
				case "map[int]string":
					if !e.same(st, u.k, index) || !e.same(st, u.v, norm) {
						e.fail("success-recorded", name, pos, "the index map gets the entry %s: %s", u.k, u.v)
					}
				}
			}
			if !has(norm, index, "map[string]int") {
				e.fail("success-recorded", name, pos, "a successful path does not record the normalized pattern %s with its index", norm)
			}
			if rawT != nil && !has(rawT, index, "map[string]int") && e.truth(st, ts.eq(rawT, norm)) != 1 {
				e.fail("success-recorded", name, pos, "a successful path does not record the pattern text %s with its index", rawT)
			}
			if !has(index, norm, "map[int]string") {
				e.fail("success-recorded", name, pos, "a successful path does not record the normalized pattern by its index")
			}
			if !e.same(st, x.res[1], index) {
				e.fail("success-recorded", name, pos, "a successful path returns the index %s", x.res[1])
			}
			if !normTerm(norm) {
				e.fail("success-recorded", name, pos, "the normalized text returned on success is %s, it is not the normalized form of the parsed pattern", norm)
			}
			ok := false
			var got []string
			for a, v := range st.mem {
				if a.op == "fa" && a.aux == "pkg/items.Terminated.Terminate" {
					b := a.args[0]
					q, i := st.mem[ts.mk("fa", "pkg/items.Terminated.Query", nil, b)], st.mem[ts.mk("fa", "pkg/items.Terminated.Index", nil, b)]
					root := addrRoot(b)
					if v.isTrue() && q != nil && i != nil && e.same(st, q, norm) && e.same(st, i, index) && (root.op != "alloc" || st.esc[root]) {
						ok = true
					} else if v.isTrue() {
						got = append(got, a.String())
					}
				}
			}
			if !ok {
				sort.Strings(got)
				e.fail("success-recorded", name, pos, "a successful path leaves no node terminated with the normalized query and the index (terminated: %v)", got)
			}
		case "rejected":
			if en == 0 {
				r.count("reject_paths", 1)
				continue
			}
			if e.truth(st, ts.lt(index, ts.intc(0))) == 1 {
				e.fail("duplicates-rejected", name, pos, "a path with a negative index returns no error")
			}
			dup := ""
			for f, v := range st.facts {
				if f.op == "lookupok" && v {
					switch typName(f.args[0].typ) {
					case "map[string]int", "map[int]string":
						dup = f.String()
					}
				}
			}
			if dup != "" {
				e.fail("duplicates-rejected", name, pos, "a path which found an earlier registration (%s) returns no error", dup)
				continue
			}
			if !s.mutated {
				continue
			}
			r.count("success_paths", 1)
			if e.truth(st, ts.lt(index, ts.intc(0))) != 0 {
				e.fail("duplicates-rejected", name, pos, "a path registers the pattern and has not excluded a negative index")
			}
			absent := func(k *Term, mt string) bool {
				for f, v := range st.facts {
					if f.op == "lookupok" && !v && typName(f.args[0].typ) == mt && f.args[0].any(func(t *Term) bool { return t == recv }) && e.same(st, f.args[1], k) {
						return true
					}
				}
				return false
			}
			if !absent(index, "map[int]string") {
				e.fail("duplicates-rejected", name, pos, "a path registers the pattern and has not excluded that its index is in use")
			}
			if !absent(norm, "map[string]int") {
				e.fail("duplicates-rejected", name, pos, "a path registers the pattern and has not excluded that its normalized form is registered")
			}
			if rawT != nil && !absent(rawT, "map[string]int") {
				e.fail("duplicates-rejected", name, pos, "a path registers the pattern and has not excluded that its text is registered")
			}
		}
	}
	r.count("return_paths", len(exits))
	r.count("loops_solved", e.loops)
	seen := map[string]bool{}
	for _, f := range e.finds {
		k := f.Key() + f.Pos + f.Text
		if !seen[k] {
			seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
}

// same: equal terms, or known equal on the path.
func (e *PEngine) same(st *PState, a, b *Term) bool {
	if a == b || e.truth(st, e.ts.eq(a, b)) == 1 {
		return true
	}
	// transitively
	seen := map[*Term]bool{a: true}
	for work := []*Term{a}; len(work) > 0; work = work[1:] {
		for f, v := range st.facts {
			if !v || f.op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				if x := f.args[1-i]; f.args[i] == work[0] && !seen[x] {
					if x == b {
						return true
					}
					seen[x] = true
					work = append(work, x)
				}
			}
		}
	}
	return false
}

// consistent looks for two facts which differ only by terms known to be equal and contradict each other.
func (e *PEngine) consistent(st *PState) bool {
	cls := map[*Term]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		for cls[t] != nil {
			t = cls[t]
		}
		return t
	}
	for f, v := range st.facts {
		if v && f.op == "eq" && !isIntTyp(f.args[0].typ) {
			a, b := find(f.args[0]), find(f.args[1])
			if a != b {
				if a.isConst() {
					a, b = b, a
				}
				cls[a] = b
			}
		}
	}
	if len(cls) == 0 {
		return true
	}
	seen := map[*Term]bool{}
	for f, v := range st.facts {
		n := e.ts.subst(f, func(t *Term) *Term {
			if r := find(t); r != t {
				return r
			}
			return nil
		}, map[*Term]*Term{})
		if n.op == "not" {
			n, v = n.args[0], !v
		}
		if n.isTrue() && !v || n.isFalse() && v {
			return false
		}
		if w, ok := seen[n]; ok && w != v {
			return false
		}
		seen[n] = v
	}
	return true
}

// normTerm says whether a term is the normalized text of a parsed pattern: its field Node or the text of the term list.
func normTerm(t *Term) bool {
	if t.op == "load" && t.args[0].op == "fa" && hasSuffix(t.args[0].aux, ".Node") {
		return true
	}
	if strings.Contains(t.aux, "TaggedTermList).String") || strings.Contains(t.aux, "strings.Builder).String") {
		return true
	}
	return false
}

func returnsErr(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && typName(r.At(r.Len()-1).Type()) == "error"
}

func takesTree(f *ssa.Function, nodes map[string]bool) bool {
	for _, q := range f.Params {
		if pt, ok := q.Type().Underlying().(*types.Pointer); ok && nodes[typName(pt.Elem())] {
			return true
		}
	}
	return false
}

// rawParam proves that a parser keeps its text parameter in the field Glob of its result; it gives the parameter or -1.
func rawParam(p *Prog, fn *ssa.Function) int {
	rt := fn.Signature.Results().At(0).Type()
	pt, ok := rt.(*types.Pointer)
	if !ok {
		return -1
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return -1
	}
	for i, q := range fn.Params {
		if !types.Identical(q.Type(), types.Typ[types.String]) {
			continue
		}
		e := newPEngine(p, &PClient{Inline: func(e *PEngine, st *PState, f *ssa.Function) bool {
			return !e.rec[f] && len(f.Blocks) <= 12 && len(e.info(f).loops) == 0
		}})
		all := true
		for _, x := range e.Run(fn, nil) {
			if e.errNil(x.st, x.res[len(x.res)-1]) == 0 {
				continue
			}
			g := e.loadField(x.st, x.res[0], rt, "Glob")
			if g == nil || !e.same(x.st, g, e.val(x.st, q)) {
				all = false
				break
			}
		}
		if all {
			return i
		}
	}
	return -1
}
