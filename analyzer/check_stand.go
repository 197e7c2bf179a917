package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = func(p *Prog, tier string) *Result { return checkStand(p) }
}

// stander decides C17: a registration puts a pattern at the end of a path of nodes which carry exactly the parts of the
// pattern, in their order. A node has a place (stage, idx) in the pattern: stage "s" is before the suffix, "p" before the
// prefix, "i" before part idx, "e" before part idx of a pattern which must have parts. A step to a child is checked
// against the part which stands at the place of the parent.
type stander struct {
	p     *Prog
	r     *Result
	m     *nodeModel
	e     *PEngine
	fn    *ssa.Function
	recv  *Term
	gg    *Term // the pattern, when it is a parameter
	kind  string
	ns    string // constructor of texts
	nodes map[string]bool
	recs  *[]*ssa.Function // recursive functions with a contract
	pre   map[*ssa.Function]bool
	need  map[int64]bool // operators which require the tag
}

type place struct {
	stage string
	idx   *Term
}

func checkStand(p *Prog) *Result {
	r := newResult()
	m := newNodeModel(p)
	pre := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	for _, name := range registrations {
		fn := p.lookupFunc(name)
		if fn == nil {
			r.fail("anchor", name, "-", "the registration operation was not found")
			continue
		}
		tree := fn.Signature.Recv().Type()
		if pt, ok := tree.(*types.Pointer); ok {
			tree = pt.Elem()
		}
		for round := 0; round < 3; round++ {
			var recs []*ssa.Function
			c := &stander{p: p, r: newResult(), m: m, fn: fn, recs: &recs, pre: pre}
			c.run(tree, false)
			again := false
			for i := 0; i < len(recs); i++ {
				f := recs[i]
				if done[f] {
					continue
				}
				d := &stander{p: p, r: newResult(), m: m, fn: f, recs: &recs, pre: pre}
				d.run(tree, true)
				if len(d.r.Findings) > 0 && !pre[f] {
					pre[f] = true // it may need a list which is not empty
					again = true
					break
				}
				done[f] = true
				merge(r, d.r)
			}
			if again {
				continue
			}
			merge(r, c.r)
			break
		}
		r.count("registrations", 1)
	}
	r.need("registrations", 6)
	r.need("end_places", 8)
	r.need("steps", 8)
	return r
}

func merge(r, x *Result) {
	seen := map[string]bool{}
	for _, f := range r.Findings {
		seen[f.Key()+f.Pos+f.Text] = true
	}
	for _, f := range x.Findings {
		if k := f.Key() + f.Pos + f.Text; !seen[k] {
			seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
	for k, v := range x.Coverage {
		if n, ok := v.(int); ok {
			r.count(k, n)
		}
	}
	r.Coverage["functions"] = append(toStrings(r.Coverage["functions"]), toStrings(x.Coverage["functions"])...)
}

func (p *Prog) constInt(pkg, name string) (int64, bool) {
	if q := p.pkgs[pkg]; q != nil {
		if k, ok := q.Types.Scope().Lookup(name).(*types.Const); ok {
			return constant.Int64Val(k.Val())
		}
	}
	return 0, false
}

// patKind says what kind of parsed pattern a type is.
func patKind(t types.Type) string {
	switch typName(t) {
	case "*glob.Glob":
		return "glob"
	case "*gglob.GGlob":
		return "gglob"
	case "gtags.TaggedTermList", "[]gtags.TaggedTerm":
		return "terms"
	}
	return ""
}

func (c *stander) isNode(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && c.nodes[typName(pt.Elem())]
}

// contract: a recursive function which goes on from a node along a list of terms.
func (c *stander) contract(f *ssa.Function) (node, list int) {
	node, list = -1, -1
	if f == nil || !c.e.rec[f] || f.Signature.Results().Len() != 1 || !c.isNode(f.Signature.Results().At(0).Type()) {
		return
	}
	for i, q := range f.Params {
		if c.isNode(q.Type()) {
			node = i
		} else if patKind(q.Type()) == "terms" {
			list = i
		}
	}
	if list < 0 || node < 0 {
		return -1, -1
	}
	return
}

func (c *stander) run(tree types.Type, byContract bool) {
	p, fn := c.p, c.fn
	cl := &PClient{}
	e := newPEngine(p, cl)
	c.e = e
	e.maxSt = 3000
	if f := p.lookupFunc("pkg/items.NewString"); f != nil {
		c.ns = fnName(f)
	} else {
		c.r.fail("anchor", "pkg/items.NewString", "-", "the constructor of texts was not found")
	}
	c.need = map[int64]bool{}
	for _, n := range []string{"TaggedTermEq", "TaggedTermMatch"} {
		if v, ok := p.constInt("gtags", n); ok {
			c.need[v] = true
		} else {
			c.r.fail("anchor", "gtags."+n, "-", "the operator was not found")
		}
	}
	classes := treeClasses(p, tree)
	c.nodes = nodeTypes(p, tree)
	touches := func(m map[string]bool) bool {
		if m["*"] {
			return true
		}
		for k := range m {
			if classes[k] {
				return true
			}
		}
		return false
	}
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if e.rec[f] || fnName(f) == c.ns {
			return false
		}
		if touches(e.mods[f]) {
			return len(f.Blocks) < 300
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if c.isNode(f.Signature.Results().At(i).Type()) {
				return len(f.Blocks) < 60 // searches of a child
			}
		}
		for _, q := range f.Params {
			if c.isNode(q.Type()) && len(e.mods[f]) == 0 {
				return len(f.Blocks) < 60 // searches of a place
			}
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0 || returnsErr(f) && takesTree(f, c.nodes)
	}
	cl.Call = c.call
	cl.After = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, res *Term) {
		if callee != nil && callee.Signature.Results().Len() > 0 && patKind(callee.Signature.Results().At(0).Type()) != "" && returnsErr(callee) {
			rt := callee.Signature.Results().At(0).Type()
			c.kind = patKind(rt)
			st.cl.(*evState).add("pattern", "", e.ext(res, 0, rt))
		}
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) { c.linkStore(st, addr, val) }
	cl.MapUpdate = func(e *PEngine, st *PState, in ssa.Instruction, m, k, v *Term) {
		if v.op == "alloc" && c.isNode(v.typ) {
			st.cl.(*evState).add("link", "map", v, m, k)
			c.place(st, v)
		}
	}
	cl.LoopHead = c.loopHead
	cl.BackCheck = c.backCheck
	st := e.Start(fn, &evState{})
	for i, q := range fn.Params {
		if k := patKind(q.Type()); k != "" {
			c.kind, c.gg = k, e.val(st, q)
		}
		if i == 0 {
			c.recv = e.val(st, q)
		}
	}
	if byContract {
		ni, _ := c.contract(fn)
		c.recv = nil
		st.cl.(*evState).add("pos", "i", e.val(st, fn.Params[ni]), e.ts.intc(0))
		if c.pre[fn] {
			e.assume(st, e.ts.lt(e.ts.intc(0), e.lenT(c.gg)), true)
		}
	}
	for _, x := range e.RunFrom(fn, st) {
		if !e.consistent(x.st) {
			continue
		}
		if byContract {
			c.end(x.st, x.res[0], p.instrPos(x.ret), "the node returned")
		} else {
			c.exit(x)
		}
	}
	c.r.Findings = append(c.r.Findings, e.finds...)
	c.r.count("loops_solved", e.loops)
	c.r.Coverage["functions"] = []string{fnName(fn)}
}

func (c *stander) call(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
	v := in.Value()
	if callee == nil || v == nil {
		return false, nil
	}
	if fnName(callee) == c.ns {
		t := e.ts.mk("call", c.ns, v.Type(), args...)
		if givesObject(callee) {
			st.facts[e.ts.eq(e.ts.nilc(), t)] = false
		}
		return true, t
	}
	ni, li := c.contract(callee)
	if ni < 0 {
		return false, nil
	}
	have := false
	for _, f := range *c.recs {
		have = have || f == callee
	}
	if !have {
		*c.recs = append(*c.recs, callee)
	}
	fail := func(s string) {
		e.fail("stands", fnName(c.fn), c.p.instrPos(in), "%s is called for node %s: %s", fnName(callee), args[ni], s)
	}
	g, lo := c.terms(st, args[li])
	if g == nil {
		fail("it does not get the rest of the terms")
	} else {
		ok := false
		for _, pl := range c.places(st, args[ni], 0) {
			if pl.stage == "i" && e.same(st, pl.idx, lo) {
				ok = true
			}
		}
		if !ok {
			fail("the node does not stand before the terms it gets")
		}
		ln := e.lenT(g)
		if c.pre[callee] && e.truth(st, e.ts.lt(lo, ln)) != 1 && !(lo.isInt() && lo.n == 0 && e.truth(st, e.ts.eq(ln, e.ts.intc(0))) == 0) {
			fail("the list of terms is not known to have one")
		}
		c.r.count("steps", 1)
	}
	ms := map[string]bool{}
	e.modsOf(in, ms, true)
	e.clobber(st, ms, st.top().id+"/"+v.Name())
	res := e.fresh(st, "sym", st.top().id+"/"+v.Name()+".last", v.Type())
	if g != nil {
		st.cl.(*evState).add("pos", "i", res, e.lenT(g))
	}
	return true, res
}

// givesObject: the interface returned is never nil.
func givesObject(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if _, ok := r.Results[0].(*ssa.MakeInterface); !ok {
				return false
			}
		}
	}
	return true
}

// linkStore notes which new nodes a store puts into which container.
func (c *stander) linkStore(st *PState, addr, val *Term) {
	if addr.op != "fa" {
		return
	}
	var linked []*Term
	var add func(v *Term)
	add = func(v *Term) {
		if v.op != "append" {
			return
		}
		add(v.args[0])
		if len(v.args) < 2 {
			return
		}
		if n := arrayLen(v.args[1]); n > 0 {
			arr := v.args[1].args[0]
			for a, x := range st.mem {
				if a.op == "ia" && a.args[0] == arr && x.typ != nil && c.isNode(x.typ) {
					st.cl.(*evState).add("link", "list", x, addr)
					linked = append(linked, x)
				}
			}
		} else {
			add(v.args[1])
		}
	}
	add(val)
	if hasSuffix(addr.aux, ".Items") {
		c.noteKeys(st, val, val, c.e.ts.intc(0))
	}
	for _, n := range linked {
		c.place(st, n)
	}
}

// noteKeys notes the keys of the new groups in a list; l is the part of the list from off.
func (c *stander) noteKeys(st *PState, list, l, off *Term) {
	if l.op == "append" && len(l.args) == 2 {
		c.noteKeys(st, list, l.args[0], off)
		if n := c.length(st, l.args[0], 0); n != nil {
			c.noteKeys(st, list, l.args[1], c.e.ts.addT(off, n, 1))
		}
		return
	}
	for a, v := range st.mem {
		if a.op == "fa" && hasSuffix(a.aux, ".Key") && a.args[0].op == "ia" && (a.args[0].args[0] == l || arrayLen(l) >= 0 && a.args[0].args[0] == l.args[0]) {
			st.cl.(*evState).add("key", "", list, c.e.ts.addT(off, a.args[0].args[1], 1), v)
		}
	}
}

// place notes where a node stands as long as the memory of the node is known.
func (c *stander) place(st *PState, n *Term) {
	for _, pl := range c.places(st, n, 0) {
		st.cl.(*evState).add("pos", pl.stage, n, pl.idx)
	}
}

func (c *stander) isPat(st *PState, t *Term) bool {
	if t == c.gg {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "pattern" && v.ts[0] == t {
			return true
		}
	}
	return false
}

// patField: t is a field of the pattern.
func (c *stander) patField(st *PState, t *Term, name string) bool {
	return isField(t, nil, name) && c.isPat(st, t.args[0].args[0])
}

// terms: t is the rest of the list of terms from lo.
func (c *stander) terms(st *PState, t *Term) (g, lo *Term) {
	if c.isPat(st, t) {
		return t, c.e.ts.intc(0)
	}
	if t.op == "slice" && t.args[2].op == "none" {
		if g, lo := c.terms(st, t.args[0]); g != nil {
			if t.args[1].op != "none" {
				lo = c.e.ts.addT(lo, t.args[1], 1)
			}
			return g, lo
		}
	}
	return nil, nil
}

// part: t is a part of the pattern (for terms: its address).
func (c *stander) part(st *PState, t *Term) *Term {
	a := t
	if c.kind != "terms" {
		if t.op != "load" {
			return nil
		}
		a = t.args[0]
	}
	if a.op != "ia" {
		return nil
	}
	l, off := a.args[0], c.e.ts.intc(0)
	for l.op == "slice" {
		if l.args[1].op != "none" {
			off = c.e.ts.addT(off, l.args[1], 1)
		}
		l = l.args[0]
	}
	ok := false
	switch c.kind {
	case "glob":
		ok = c.patField(st, l, "Items")
	case "gglob":
		ok = c.patField(st, l, "Parts")
	case "terms":
		ok = c.isPat(st, l)
	}
	if !ok {
		return nil
	}
	return c.e.ts.addT(off, a.args[1], 1)
}

func (c *stander) patOf(st *PState) *Term {
	if c.gg != nil {
		return c.gg
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "pattern" {
			return v.ts[0]
		}
	}
	return nil
}

// size gives the terms which stand for the number of parts.
func (c *stander) size(st *PState) (r []*Term) {
	g := c.patOf(st)
	if g == nil {
		return nil
	}
	if c.kind == "terms" {
		return []*Term{c.e.lenT(g)}
	}
	name := "Items"
	if c.kind == "gglob" {
		name = "Parts"
	}
	if t := c.e.loadField(st, g, g.typ, name); t != nil {
		r = append(r, c.e.lenT(t))
	}
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.op == "len" && c.patField(st, t.args[0], name) {
				r = append(r, t)
			}
			return false
		})
	}
	return
}

// empty: whether the pattern has no parts.
func (c *stander) empty(st *PState) int {
	for _, n := range c.size(st) {
		if v := c.e.truth(st, c.e.ts.eq(n, c.e.ts.intc(0))); v >= 0 {
			return v
		}
		if b := c.e.bounds(st, n); b.hasL && b.lo > 0 {
			return 0
		} else if b.hasH && b.hi <= 0 {
			return 1
		}
	}
	return -1
}

// textEmpty: whether a text field of the pattern is empty.
func (c *stander) textEmpty(st *PState, name string) int {
	g := c.patOf(st)
	if g == nil {
		return -1
	}
	t := c.e.loadField(st, g, g.typ, name)
	if t == nil {
		return -1
	}
	return c.e.truth(st, c.e.ts.eq(t, c.e.ts.strc("")))
}

// closure adds the places reached without a step.
func (c *stander) closure(st *PState, ps []place) []place {
	for i := 0; i < len(ps); i++ {
		switch ps[i].stage {
		case "s":
			if c.textEmpty(st, "Suffix") == 1 {
				ps = append(ps, place{"p", c.e.ts.intc(0)})
			}
		case "p":
			if c.textEmpty(st, "Prefix") == 1 {
				ps = append(ps, place{"e", c.e.ts.intc(0)})
			}
		case "e":
			if c.empty(st) == 0 {
				ps = append(ps, place{"i", ps[i].idx})
			}
		}
	}
	return ps
}

// places gives the places where a node is known to stand.
func (c *stander) places(st *PState, n *Term, depth int) (ps []place) {
	if depth > 6 {
		return
	}
	e := c.e
	zero := e.ts.intc(0)
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "pos" && v.ts[0] == n {
			ps = append(ps, place{v.aux, v.ts[1]})
		}
	}
	isRoot := func(t *Term) bool { return c.recv != nil && isField(t, c.recv, "Root") }
	found := func(t *Term) bool {
		return e.truth(st, e.ts.mk("lookupok", "", types.Typ[types.Bool], t.args...)) == 1 || e.truth(st, e.ts.eq(t, e.ts.nilc())) == 0
	}
	sized := func(k *Term) bool {
		for _, s := range c.size(st) {
			if e.same(st, s, k) {
				return true
			}
		}
		return false
	}
	switch {
	case isRoot(n):
		if c.kind == "glob" {
			ps = append(ps, place{"s", zero})
		} else {
			ps = append(ps, place{"i", zero})
		}
	case n.op == "lookup" && isRoot(n.args[0]):
		if sized(n.args[1]) && found(n) {
			ps = append(ps, place{"i", zero})
		}
	case n.op == "lookup":
		if found(n) {
			for _, o := range owners(st, n.args[0], "ChildsMap") {
				ps = append(ps, c.step(st, n, o, "map", n.args[1], nil, false, depth)...)
			}
		}
	default:
		if l, _ := elem(n); l != nil && l.op == "load" && l.args[0].op == "fa" {
			ps = append(ps, c.inList(st, n, l.args[0], false, depth)...)
		} else if l != nil && l.op == "append" {
			// a list which was just written back
			for a, v := range st.mem {
				if v == l && a.op == "fa" {
					ps = append(ps, c.inList(st, n, a, false, depth)...)
				}
			}
		}
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind != "link" || v.ts[0] != n {
			continue
		}
		switch v.aux {
		case "map":
			if isRoot(v.ts[1]) {
				if sized(v.ts[2]) {
					ps = append(ps, place{"i", zero})
				}
				continue
			}
			for _, o := range owners(st, v.ts[1], "ChildsMap") {
				ps = append(ps, c.step(st, n, o, "map", v.ts[2], nil, true, depth)...)
			}
		case "list":
			ps = append(ps, c.inList(st, n, v.ts[1], true, depth)...)
		}
	}
	return c.closure(st, ps)
}

// owners gives the objects whose field holds a container.
func owners(st *PState, v *Term, name string) (r []*Term) {
	if isField(v, nil, name) {
		r = append(r, v.args[0].args[0])
	}
	for a, x := range st.mem {
		if (x == v || arrayLen(x) >= 0 && x.args[0] == v) && a.op == "fa" && hasSuffix(a.aux, "."+name) {
			r = append(r, a.args[0])
		}
	}
	return
}

// inList: n is an element of the list kept at addr.
func (c *stander) inList(st *PState, n, addr *Term, fresh bool, depth int) (ps []place) {
	switch {
	case hasSuffix(addr.aux, ".Childs"):
		return c.step(st, n, addr.args[0], "list", nil, nil, fresh, depth)
	case hasSuffix(addr.aux, ".Matched"), hasSuffix(addr.aux, ".NotMatched"):
		how := "not"
		if hasSuffix(addr.aux, ".Matched") {
			how = "need"
		}
		g := addr.args[0]
		if g.op != "ia" {
			return
		}
		for _, o := range owners(st, g.args[0], "Items") {
			ps = append(ps, c.step(st, n, o, how, nil, g, fresh, depth)...)
		}
	}
	return
}

// step gives the places of a child of node parent: it must carry the part which stands at the place of the parent.
func (c *stander) step(st *PState, n, parent *Term, how string, key, group *Term, fresh bool, depth int) (ps []place) {
	e := c.e
	one := e.ts.intc(1)
	c.r.count("steps", 1)
	for _, pl := range c.places(st, parent, depth+1) {
		next := place{"i", e.ts.addT(pl.idx, one, 1)}
		switch c.kind {
		case "glob":
			for _, x := range c.carried(st, n, fresh) {
				rev := c.reverse(st, n, fresh)
				if dbg {
					println("  step", n.String(), "of", parent.String(), pl.stage, x.String(), rev)
				}
				if rev < 0 {
					continue
				}
				if x.op == "call" && x.aux == c.ns {
					t := x.args[0]
					switch {
					case pl.stage == "s" && rev == 1 && c.patField(st, t, "Suffix") && c.textEmpty(st, "Suffix") == 0:
						ps = append(ps, place{"p", e.ts.intc(0)})
					case pl.stage == "p" && rev == 0 && c.patField(st, t, "Prefix") && c.textEmpty(st, "Prefix") == 0:
						ps = append(ps, place{"e", e.ts.intc(0)})
					case pl.stage == "p" && rev == 0 && c.patField(st, t, "Node") && c.empty(st) == 1:
						ps = append(ps, place{"i", e.ts.intc(0)})
					}
					continue
				}
				if rev == 0 && (pl.stage == "i" || pl.stage == "e") {
					if i := c.part(st, x); i != nil && e.same(st, i, pl.idx) {
						ps = append(ps, next)
					}
				}
			}
		case "gglob":
			if pl.stage != "i" {
				continue
			}
			if how == "map" {
				i := c.nodeOf(st, key)
				if i == nil || !e.same(st, i, pl.idx) {
					continue
				}
				if fresh {
					ok := false
					for _, x := range c.carried(st, n, fresh) {
						if j := c.part(st, x); j != nil && e.same(st, i, j) {
							ok = ok || c.plain(st, x)
						}
					}
					if !ok {
						continue
					}
				}
				ps = append(ps, next)
				continue
			}
			if fresh {
				for _, x := range c.carried(st, n, fresh) {
					if i := c.part(st, x); i != nil && e.same(st, i, pl.idx) {
						ps = append(ps, next)
					}
				}
				continue
			}
			for f, v := range st.facts {
				if !v || f.op != "eq" {
					continue
				}
				for k := range 2 {
					// the text of the item is the text of the part
					a, b := f.args[k], f.args[1-k]
					if isField(a, nil, "Node") && isField(a.args[0].args[0], n, "Item") {
						if i := c.nodeOf(st, b); i != nil && e.same(st, i, pl.idx) {
							ps = append(ps, next)
						}
					}
				}
			}
		case "terms":
			if pl.stage != "i" || c.term(st, n, pl.idx, how, group, fresh) != "" {
				if dbg && pl.stage == "i" {
					println("  term", n.String(), how, group.String(), pl.idx.String(), c.term(st, n, pl.idx, how, group, fresh))
				}
				continue
			}
			ps = append(ps, next)
		}
	}
	return
}

// nodeOf: t is the text of part i.
func (c *stander) nodeOf(st *PState, t *Term) *Term {
	if isField(t, nil, "Node") {
		return c.part(st, t.args[0].args[0])
	}
	return nil
}

// plain: a part is known to have no wildcards.
func (c *stander) plain(st *PState, x *Term) bool {
	for f, v := range st.facts {
		if f.op == "eq" && v || f.op == "lt" {
			for k := range 2 {
				a := f.args[k]
				if a.op == "len" && isField(a.args[0], x, "Items") {
					if b := c.e.bounds(st, a); b.hasH && b.hi <= 0 {
						return true
					}
				}
			}
		}
		if f.op == "isnil" && v && isField(f.args[0], x, "Items") {
			return true
		}
	}
	return false
}

// carried gives the items a node is known to carry.
func (c *stander) carried(st *PState, n *Term, fresh bool) (r []*Term) {
	if fresh {
		if x := c.e.loadField(st, n, n.typ, "Item"); x != nil && !isField(x, n, "Item") {
			r = append(r, x)
		}
		return
	}
	for f, v := range st.facts {
		if v && f.op == "call" && f.aux == "method Equal" && len(f.args) >= 2 {
			for k := range 2 {
				if isField(f.args[k], n, "Item") {
					r = append(r, f.args[1-k])
				}
			}
		}
	}
	return
}

func (c *stander) reverse(st *PState, n *Term, fresh bool) int {
	if fresh {
		t := c.e.loadField(st, n, n.typ, "Reverse")
		if t == nil {
			return -1
		}
		return c.e.truth(st, t)
	}
	for f, v := range st.facts {
		if isField(f, n, "Reverse") {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// term says what is wrong when node n stands for term idx in a group.
func (c *stander) term(st *PState, n, idx *Term, how string, g *Term, fresh bool) string {
	e := c.e
	pat := c.patOf(st)
	if pat == nil {
		return "there is no pattern"
	}
	// the terms which stand for a field of the term
	is := func(t *Term, name string) bool {
		if !isField(t, nil, name) {
			return false
		}
		i := c.part(st, t.args[0].args[0])
		return i != nil && e.same(st, i, idx)
	}
	// equal to a field of the term on the path
	equal := func(t *Term, name string) bool {
		if is(t, name) {
			return true
		}
		for f, v := range st.facts {
			if v && f.op == "eq" && (is(f.args[0], name) && e.same(st, f.args[0], t) || is(f.args[1], name) && e.same(st, f.args[1], t)) {
				return true
			}
		}
		return false
	}
	// the group is the one of the key
	keyed := false
	for _, t := range c.keys(st, g) {
		keyed = keyed || equal(t, "Key")
	}
	if !keyed {
		if dbg {
			println("GROUP", g.String())
			for _, t := range c.keys(st, g) {
				println("   key", t.String())
			}
			for f, v := range st.facts {
				println("   fact", f.String(), v)
			}
		}
		return "the group is not known to be the one of the key"
	}
	if fresh {
		t := e.loadField(st, n, n.typ, "Term")
		if t == nil {
			return "it has no term"
		}
		if i := c.part(st, t); i == nil || !e.same(st, i, idx) {
			if t.op != "alloc" {
				return "it does not carry the term"
			}
			// a copy
			for _, name := range []string{"Key", "Op", "Value", "Glob", "Re"} {
				x := e.loadField(st, t, t.typ, name)
				if x != nil && !is(x, name) {
					return "it does not carry the term"
				}
			}
		}
	} else {
		for _, name := range []string{"Op", "Value"} {
			ok := false
			for f, v := range st.facts {
				if !v || f.op != "eq" {
					continue
				}
				for k := range 2 {
					if isField(f.args[k], nil, name) && isField(f.args[k].args[0].args[0], n, "Term") && is(f.args[1-k], name) {
						ok = true
					}
				}
			}
			if !ok {
				return "the term of the node found is not known to have the same " + name
			}
		}
		if how != "" {
			return "" // a node stands in the group of its operator already
		}
	}
	// the operator
	need := -1
	excl := map[int64]bool{}
	for f, v := range st.facts {
		if f.op != "eq" {
			continue
		}
		for k := range 2 {
			if a := f.args[k]; a.isInt() && is(f.args[1-k], "Op") {
				if v {
					need = 0
					if c.need[a.n] {
						need = 1
					}
				} else {
					excl[a.n] = true
				}
			}
		}
	}
	if need < 0 {
		all := true
		for k := range c.need {
			all = all && excl[k]
		}
		if all {
			need = 0
		}
		rest := true
		for _, n := range []string{"TaggedTermNe", "TaggedTermNotMatch"} {
			v, ok := c.p.constInt("gtags", n)
			rest = rest && ok && excl[v]
		}
		if rest {
			need = 1
		}
	}
	switch {
	case need < 0:
		return "it is not known whether the operator requires the tag"
	case need == 1 && how != "need":
		return "it is put with the terms which do not require the tag, its operator does"
	case need == 0 && how != "not":
		return "it is put with the terms which require the tag, its operator does not"
	}
	return ""
}

// keys gives the terms which stand for the key of a group (an element of a list of groups).
func (c *stander) keys(st *PState, g *Term) (r []*Term) {
	e := c.e
	for a, v := range st.mem {
		if a.op == "fa" && a.args[0] == g && hasSuffix(a.aux, ".Key") {
			r = append(r, v)
		}
	}
	for f := range st.facts {
		if f.op != "eq" {
			continue
		}
		for k := range 2 {
			if isField(f.args[k], g, "Key") {
				r = append(r, f.args[k])
			}
		}
	}
	if g.op != "ia" {
		return
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "key" && (v.ts[0] == g.args[0] || arrayLen(v.ts[0]) >= 0 && v.ts[0].args[0] == g.args[0]) && e.same(st, v.ts[1], g.args[1]) {
			r = append(r, v.ts[2])
		}
	}
	return
}

// length gives the length of a list.
func (c *stander) length(st *PState, l *Term, depth int) *Term {
	e := c.e
	if n := arrayLen(l); n >= 0 {
		return e.ts.intc(n)
	}
	switch l.op {
	case "nil":
		return e.ts.intc(0)
	case "append":
		if len(l.args) < 2 {
			return c.length(st, l.args[0], depth+1)
		}
		a, b := c.length(st, l.args[0], depth+1), c.length(st, l.args[1], depth+1)
		if a == nil || b == nil {
			return nil
		}
		return e.ts.addT(a, b, 1)
	case "alloc":
		ln := e.ts.mk("len", "", types.Typ[types.Int], l)
		if b := e.bounds(st, ln); b.hasL && b.hasH && b.lo == b.hi {
			return e.ts.intc(b.lo)
		}
		return nil
	case "slice":
		lo := e.ts.intc(0)
		if l.args[1].op != "none" {
			lo = l.args[1]
		}
		if l.args[2].op != "none" {
			return e.ts.addT(l.args[2], lo, -1)
		}
		n := c.length(st, l.args[0], depth+1)
		if n == nil {
			return nil
		}
		return e.ts.addT(n, lo, -1)
	}
	return e.lenT(l)
}

// ---- loops

type standLoop struct {
	drop map[string]bool
	prop map[*ssa.Phi][]place // places of a variable which is nil before the loop
}

func (c *stander) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*standLoop)
	if d == nil {
		d = &standLoop{map[string]bool{}, map[*ssa.Phi][]place{}}
		lc.data = d
	}
	for i, q := range lc.phis {
		if !lc.dropped[q] || !c.isNode(q.Type()) {
			continue
		}
		h := e.val(head, q)
		var ps []place
		if lc.vals[i].op == "nil" {
			ps = d.prop[q]
		} else if ps = c.places(head, lc.vals[i], 0); len(ps) == 0 {
			ps = c.places(lc.entry, lc.entry.top().env[q], 0)
		}
		for _, pl := range ps {
			if !d.drop[q.Name()+"/"+pl.stage] {
				head.cl.(*evState).add("pos", pl.stage, h, pl.idx)
			}
			if pl.stage == "s" || pl.stage == "p" || lc.vals[i].op == "nil" {
				continue
			}
			for j, x := range lc.phis {
				if !lc.dropped[x] || !isIntTyp(x.Type()) || d.drop[q.Name()+"/"+x.Name()+"/"+pl.stage] {
					continue
				}
				head.cl.(*evState).add("pos", pl.stage, h, e.ts.addT(e.val(head, x), e.ts.addT(pl.idx, lc.vals[j], -1), 1))
			}
		}
	}
}

func (c *stander) backCheck(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
	d := lc.data.(*standLoop)
	for i, q := range lc.phis {
		if !lc.dropped[q] || !c.isNode(q.Type()) {
			continue
		}
		h, n := e.val(head, q), e.val(back, q)
		if lc.vals[i].op == "nil" && n == h || n.op == "nil" {
			continue
		}
		ps := c.places(back, n, 0)
		if lc.vals[i].op == "nil" && d.prop[q] == nil && len(ps) > 0 {
			d.prop[q] = ps
			ch = true
			continue
		}
		for _, v := range head.cl.(*evState).evs {
			if v.kind != "pos" || v.ts[0] != h {
				continue
			}
			name, want := q.Name()+"/"+v.aux, v.ts[1]
			for _, x := range lc.phis {
				if hx := e.val(head, x); lc.dropped[x] && isIntTyp(x.Type()) && v.ts[1].contains(hx) {
					name = q.Name() + "/" + x.Name() + "/" + v.aux
					want = e.ts.addT(v.ts[1], e.ts.addT(e.val(back, x), hx, -1), 1)
				}
			}
			if d.drop[name] {
				continue
			}
			ok := false
			for _, pl := range ps {
				if (pl.stage == v.aux || v.aux == "e" && pl.stage == "i") && e.same(back, pl.idx, want) {
					ok = true
				}
			}
			if !ok {
				if dbg {
					println("dropped", name, "back", n.String(), "want", want.String())
					for _, pl := range ps {
						println("   has", pl.stage, pl.idx.String())
					}
				}
				d.drop[name] = true
				ch = true
			}
		}
	}
	return
}

// ---- ends

func (c *stander) end(st *PState, n *Term, pos, what string) {
	e := c.e
	c.r.count("end_places", 1)
	ps := c.places(st, n, 0)
	for _, pl := range ps {
		if pl.stage != "i" {
			continue
		}
		for _, s := range c.size(st) {
			if e.same(st, pl.idx, s) || e.truth(st, e.ts.lt(pl.idx, s)) == 0 || e.le(st, s, pl.idx) {
				return
			}
			if b := e.bounds(st, s); pl.idx.isInt() && b.hasH && b.hi <= pl.idx.n {
				return
			}
		}
	}
	if dbg {
		println("END", pos)
		for _, pl := range ps {
			println("   place", pl.stage, pl.idx.String())
		}
		var fs []string
		for f, v := range st.facts {
			s := "   fact " + f.String()
			if !v {
				s = "   fact not " + f.String()
			}
			fs = append(fs, s)
		}
		sort.Strings(fs)
		for _, s := range fs {
			println(s)
		}
		for _, v := range st.cl.(*evState).evs {
			s := "   ev " + v.kind + " " + v.aux
			for _, t := range v.ts {
				s += " " + t.String()
			}
			println(s)
		}
	}
	at := "is not known to stand on the path of the pattern"
	if len(ps) > 0 {
		at = "stands at " + ps[0].stage + " " + ps[0].idx.String() + ", this is not known to be the end of the pattern"
	}
	e.fail("stands", fnName(c.fn), pos, "%s (%s) %s", what, n, at)
}

func (c *stander) exit(x *PExit) {
	e, st := c.e, x.st
	pos := c.p.instrPos(x.ret)
	for a, v := range st.mem {
		if a.op != "fa" || a.aux != "pkg/items.Terminated.Terminate" || !v.isTrue() {
			continue
		}
		n := nodeOwner(a.args[0])
		if n == c.recv {
			if c.kind != "terms" || c.empty(st) != 1 {
				e.fail("stands", fnName(c.fn), pos, "the tree itself is terminated, and the pattern is not known to be without terms")
			}
			c.r.count("end_places", 1)
			continue
		}
		c.end(st, n, pos, "the node terminated")
	}
}
