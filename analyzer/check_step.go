package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = func(p *Prog, tier string) *Result { return checkStep(p, "sound") }
	checks["C14"] = func(p *Prog, tier string) *Result { return checkStep(p, "complete") }
}

// Steps of the backtracking matchers of package items. A matcher is at a position of the text and before an item: the
// item of its node (node), an item of its list (list), or behind its node (after). A step applies the item to the text
// and continues behind the part the item matched, with whatever follows the item.
type stepKind struct {
	class                string // node, list, after, root
	star                 bool   // the item may match anywhere from the position on
	s, node, items, next int
}

type stepper struct {
	p     *Prog
	r     *Result
	e     *PEngine
	m     *nodeModel
	mode  string
	kinds map[*ssa.Function]*stepKind
	fn    *ssa.Function
	k     *stepKind
	flags map[string]int64
	evals int
}

type stepLoop struct {
	alt  *Term // the item whose alternatives are scanned
	off  *Term
	ph   *ssa.Phi
	cont []ev // continuations made for every child

	notTried map[*ssa.Phi]bool // not a flag which remembers a try
	text     *Term             // the text in which the values are searched
	nums     map[*ssa.Phi]bool // places found, which begin with none
	notMin   map[*ssa.Phi]bool
	notMax   map[*ssa.Phi]bool
	lists    []*Term // the lists whose values are searched in every round, from a place of a scan
}

var itemMethods = map[string]bool{"Match": true, "Find": true, "MatchN": true, "FindN": true, "MatchLast": true}

func (c *stepper) kindOf(f *ssa.Function) *stepKind {
	k := &stepKind{s: -1, node: -1, items: -1, next: -1}
	for i, q := range f.Params {
		switch {
		case types.Identical(q.Type(), types.Typ[types.String]) && k.s < 0:
			k.s = i
		case typName(q.Type()) == "*pkg/items.TreeItem":
			k.node = i
		case typName(q.Type()) == "[]pkg/items.Item":
			k.items = i
		default:
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok && st.NumFields() > 0 {
					for j := 0; j < st.NumFields(); j++ {
						if typName(st.Field(j).Type()) == "[]pkg/items.Item" {
							k.next = i
						}
					}
				}
			}
		}
	}
	if k.s < 0 || k.node < 0 && k.items < 0 || k.node >= 0 && !storeParam(c.p, f) {
		return nil
	}
	if k.next == k.items {
		k.next = -1
	}
	own := map[string]bool{}
	c.ownCalls(f, k.node, k.items, own, 0)
	switch {
	case k.items >= 0:
		k.class = "list"
	case own["Match"] || own["Find"]:
		k.class = "node"
	case len(own) == 0 || !c.e.rec[f]:
		k.class = "after"
	default:
		return nil
	}
	k.star = own["Find"]
	if k.class == "list" && c.e.rec[f] && !own["Match"] && !own["Find"] {
		return nil
	}
	return k
}

// ownCalls collects the methods which a function invokes on the item of its node or on items of its list, and "" plus
// the name for other items.
func (c *stepper) ownCalls(f *ssa.Function, node, items int, own map[string]bool, depth int) {
	if depth > 2 {
		return
	}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			return node >= 0 && x == f.Params[node] || items >= 0 && x == f.Params[items]
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field).Name() == "Item" && from(a.X, d+1)
			case *ssa.IndexAddr:
				return typName(a.X.Type()) == "[]pkg/items.Item" && from(a.X, d+1)
			}
		case *ssa.Slice:
			return from(x.X, d+1)
		case *ssa.Phi:
			for _, y := range x.Edges {
				if from(y, d+1) {
					return true
				}
			}
		case *ssa.Extract:
			return true
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := call.Common()
			if com.IsInvoke() {
				if itemMethods[com.Method.Name()] {
					if from(com.Value, 0) {
						own[com.Method.Name()] = true
					} else {
						own["other "+com.Method.Name()] = true
					}
				}
				continue
			}
			g := com.StaticCallee()
			if g == nil || c.e.rec[g] || !c.e.inMod(g) || g.Pkg != f.Pkg {
				continue
			}
			n, i := -1, -1
			for j, a := range com.Args {
				if node >= 0 && a == f.Params[node] {
					n = j
				}
				if items >= 0 && typName(a.Type()) == "[]pkg/items.Item" && from(a, 0) {
					i = j
				}
			}
			if n >= 0 || i >= 0 {
				c.ownCalls(g, n, i, own, depth+1)
			}
		}
	}
}

func checkStep(p *Prog, mode string) *Result {
	c := &stepper{p: p, r: newResult(), m: newNodeModel(p), mode: mode, kinds: map[*ssa.Function]*stepKind{}, flags: map[string]int64{}}
	r := c.r
	cl := &PClient{}
	e := newPEngine(p, cl)
	c.e = e
	e.readOnly = true
	pkg := p.pkgByPath("pkg/items")
	if pkg == nil {
		r.fail("anchor", "-", "-", "package items not found")
		return r
	}
	for _, n := range []string{"FindDone", "FindList", "FindGroup", "FindStar", "FindForwarded"} {
		k, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			r.fail("anchor", n, "-", "the flag was not found")
			return r
		}
		v, _ := constant.Int64Val(k.Val())
		c.flags[n] = v
	}
	callers := map[*ssa.Function]int{}
	for _, f := range p.funcs {
		for _, g := range e.callees[f] {
			if f != g {
				callers[g]++
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range p.funcs {
		if f.Synthetic != "" || f.Pkg == nil || f.Pkg.Pkg != pkg {
			continue
		}
		k := c.kindOf(f)
		if k == nil {
			continue
		}
		exp := f.Object() != nil && f.Object().Exported()
		if !e.rec[f] {
			if !exp || !c.reaches(f, callers) {
				continue
			}
			if k.class == "after" {
				k.class = "root"
			}
		}
		c.kinds[f] = k
		fns = append(fns, f)
	}
	// a function behind a node continues like the functions which it hands the children to
	for range 3 {
		for _, f := range fns {
			if k := c.kinds[f]; k.class == "after" {
				for _, g := range e.callees[f] {
					if gk := c.kinds[g]; gk != nil && gk.star && gk.class == "node" {
						k.star = true
					}
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if c.kinds[f] != nil {
			return false
		}
		if e.rec[f] {
			return storeParam(p, f) || c.hasString(f)
		}
		if c.hasString(f) && c.touchesItems(f) {
			return len(f.Blocks) < 200
		}
		if f.Signature.Recv() != nil && strings.Contains(typName(f.Signature.Recv().Type()), "nextItems") {
			return false
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0 && f.Pkg != nil && f.Pkg.Pkg == pkg
	}
	cl.Call = c.call
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Index = func(e *PEngine, st *PState, in *ssa.IndexAddr, x, i *Term) {
		if typName(in.X.Type()) == "[]pkg/items.Item" && x.op == "load" && x.args[0].op == "fa" && x.args[0].args[0].op == "assert" {
			st.cl.(*evState).add("alt", "vals", strip(x), i, x)
		}
	}
	cl.LoopHead = c.loopHead
	cl.Back = c.back
	cl.BackCheck = c.backCheck
	cl.LoopExit = c.loopExit
	for _, f := range fns {
		c.fn, c.k = f, c.kinds[f]
		es := &evState{}
		exits := e.Run(f, es)
		for _, x := range exits {
			r.count("return_paths", 1)
			c.exit(x)
		}
		r.Coverage["functions"] = append(toStrings(r.Coverage["functions"]), fnName(f)+" ("+c.k.class+map[bool]string{true: ", anywhere"}[c.k.star]+")")
	}
	c.helpers(fns)
	r.count("functions_checked", len(fns))
	r.count("loops_solved", e.loops)
	r.need("functions_checked", 9)
	if mode == "sound" {
		r.need("continuations", 60)
	} else {
		r.need("alternative_scans", 6)
	}
	seen := map[string]bool{}
	for _, f := range e.finds {
		k := f.Key() + f.Pos + f.Text
		if !seen[k] {
			seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
	return r
}

func (c *stepper) reaches(f *ssa.Function, callers map[*ssa.Function]int) bool {
	for _, g := range c.e.callees[f] {
		if c.e.rec[g] && c.hasString(g) {
			return true
		}
	}
	return false
}

func (c *stepper) hasString(f *ssa.Function) bool {
	for _, q := range f.Params {
		if types.Identical(q.Type(), types.Typ[types.String]) {
			return true
		}
	}
	return false
}

func (c *stepper) touchesItems(f *ssa.Function) bool {
	for _, g := range c.e.callees[f] {
		if c.e.rec[g] && c.hasString(g) {
			return true
		}
	}
	return false
}

func (c *stepper) tree() bool { return c.k.node >= 0 }

func (c *stepper) sound(rule string, in *ssa.Function, pos, f string, a ...any) {
	if c.mode == "sound" {
		c.e.fail(rule, fnName(c.fn), pos, f, a...)
	}
}
func (c *stepper) complete(rule string, in *ssa.Function, pos, f string, a ...any) {
	if c.mode == "complete" {
		c.e.fail(rule, fnName(c.fn), pos, f, a...)
	}
}

// strip takes type assertions, fields and loads off the term of a list or group, down to the item.
func strip(t *Term) *Term {
	for {
		switch {
		case t.op == "assert":
			t = t.args[0]
		case t.op == "load" && t.args[0].op == "fa" && t.args[0].args[0].op == "assert":
			t = t.args[0].args[0]
		case t.op == "fa" && t.args[0].op == "assert":
			t = t.args[0]
		default:
			return t
		}
	}
}

// ---- where the matcher is

func (c *stepper) param(st *PState, i int) *Term { return c.e.val(st, c.fn.Params[i]) }

func (c *stepper) rootParam(i int) *Term {
	n := c.fn.Params[i].Name()
	if i == 0 && c.fn.Signature.Recv() != nil {
		n = "recv"
	}
	return c.e.ts.mk("param", n+"#"+itoa(i), c.fn.Params[i].Type())
}

// base gives the position: the text, the list of items, the index in it and what follows the list.
func (c *stepper) base(st *PState) (u, items, p, next *Term) {
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "base" {
			return v.ts[0], v.ts[1], v.ts[2], v.ts[3]
		}
	}
	u = c.rootParam(c.k.s)
	p = c.e.ts.intc(0)
	if c.k.items >= 0 {
		items = c.rootParam(c.k.items)
	}
	if c.k.next >= 0 {
		next = c.rootParam(c.k.next)
	}
	return
}

func (c *stepper) setBase(st *PState, u, items, p, next *Term) {
	es := st.cl.(*evState)
	var k []ev
	for _, v := range es.evs {
		if v.kind != "base" {
			k = append(k, v)
		}
	}
	es.evs = k
	es.add("base", "", u, items, p, next)
}

// item gives the item before which the matcher is.
func (c *stepper) item(st *PState) *Term {
	it := c.p.lookupType("pkg/items.Item")
	if c.k.class == "node" {
		n := c.rootParam(c.k.node)
		return c.e.loadField(st, n, c.fn.Params[c.k.node].Type(), "Item")
	}
	if c.k.class == "list" {
		_, items, p, _ := c.base(st)
		return c.e.load(st, c.e.ts.mk("ia", "", types.NewPointer(it), items, p), it)
	}
	return nil
}

// flat gives the string a text is the rest of, and the offset in it.
func (c *stepper) flat(t *Term) (*Term, *Term) {
	off := c.e.ts.intc(0)
	for t.op == "slice" && len(t.args) == 4 && t.args[2].op == "none" && t.args[3].op == "none" {
		off = c.e.ts.addT(off, t.args[1], 1)
		t = t.args[0]
	}
	return t, off
}

func (c *stepper) flatEq(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, oa := c.flat(a)
	rb, ob := c.flat(b)
	return ra == rb && oa == ob
}

// suffix: the text is a rest of the text at the position.
func (c *stepper) suffix(st *PState, t *Term) bool {
	r, _ := c.flat(t)
	if u, _, _, _ := c.base(st); r == u || r == c.rootParam(c.k.s) {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "suffix" && v.ts[0] == r {
			return true
		}
	}
	return false
}

func (c *stepper) not1(st *PState, t *Term) bool {
	return c.e.truth(st, c.e.ts.eq(t, c.e.ts.intc(-1))) == 0 || c.e.truth(st, c.e.ts.lt(t, c.e.ts.intc(0))) == 0
}

func (c *stepper) is1(st *PState, t *Term) bool {
	return c.e.truth(st, c.e.ts.eq(t, c.e.ts.intc(-1))) == 1 || c.e.truth(st, c.e.ts.lt(t, c.e.ts.intc(0))) == 1
}

func (c *stepper) flag(st *PState, f *Term, name string) bool {
	return c.e.truth(st, c.e.ts.eq(f, c.e.ts.intc(c.flags[name]))) == 1
}

func (c *stepper) optional(st *PState, x *Term) int {
	res := -1
	for f, v := range st.facts {
		hit := false
		switch {
		case f.op == "call" && strings.HasSuffix(f.aux, "IsOptional") && strip(f.args[0]) == x:
			hit = true
		case f.op == "eq":
			a, b := f.args[0], f.args[1]
			if !a.isConst() {
				a, b = b, a
			}
			if a.isInt() && a.n == 0 && b.op == "load" && strings.HasSuffix(b.args[0].aux, ".MinSize") && strip(b) == x {
				hit = true
			}
			if a.isInt() && a.n == 0 && b.op == "call" && strings.HasSuffix(b.aux, "MinLen") && strip(b.args[0]) == x {
				hit = true
			}
		}
		if hit {
			res = 0
			if v {
				return 1
			}
		}
	}
	return res
}

func (c *stepper) call2(name string, x, u *Term) *Term {
	var tt types.Type
	if it, ok := c.p.lookupType("pkg/items.Item").Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == name {
				tt = it.Method(i).Type().(*types.Signature).Results()
			}
		}
	}
	return c.e.ts.mk("call", "method "+name, tt, x, u)
}

// legit says whether a text is a place right behind the item: for a match at the place, or anywhere from it on.
func (c *stepper) legit(st *PState, t *Term) (here, any bool) {
	e, ts := c.e, c.e.ts
	u, _, _, _ := c.base(st)
	switch c.k.class {
	case "after":
		return c.flatEq(t, u), c.k.star && c.flatEq(t, u)
	case "root":
		return c.flatEq(t, u), false
	}
	x := c.item(st)
	in := types.Typ[types.Int]
	root, off := c.flat(t)
	// the calls which the offset is made of
	var calls []*Term
	l := linOf(off)
	for a := range l.m {
		b := a
		if b.op == "ext" {
			b = b.args[0]
		}
		if b.op == "call" {
			calls = append(calls, b)
		}
	}
	if !c.k.star {
		if root != u {
			return false, false
		}
		m := c.call2("Match", x, u)
		mo, mf := e.ext(m, 0, in), e.ext(m, 1, in)
		if !c.not1(st, mo) {
			return false, false
		}
		if off == mo {
			if c.flag(st, mf, "FindDone") {
				return true, false
			}
			if c.flag(st, mf, "FindStar") {
				return false, true
			}
			if (c.flag(st, mf, "FindList") || c.flag(st, mf, "FindGroup")) && c.optional(st, x) == 1 {
				return true, false
			}
			return false, false
		}
		for _, n := range calls {
			if n.aux != "method MatchN" || strip(n.args[0]) != x || !c.not1(st, n) {
				continue
			}
			if r, o := c.flat(n.args[1]); r == u && o == mo && ts.addT(off, mo, -1) == n {
				return true, false
			}
		}
		return false, false
	}
	if !c.suffix(st, t) {
		return false, false
	}
	if c.optional(st, x) == 1 {
		return true, true
	}
	for _, n := range calls {
		switch n.aux {
		case "method Find":
			if n.args[0] != x || !c.suffix(st, n.args[1]) {
				continue
			}
			i, ln, f := e.ext(n, 0, in), e.ext(n, 1, in), e.ext(n, 2, in)
			r, o := c.flat(n.args[1])
			if r != root || ts.addT(ts.addT(o, i, 1), ln, 1) != off || !c.not1(st, i) {
				continue
			}
			if c.flag(st, f, "FindDone") {
				return true, false
			}
			if (c.flag(st, f, "FindForwarded") || c.flag(st, f, "FindStar")) && c.not1(st, ln) {
				return true, true
			}
		case "method FindN":
			if strip(n.args[0]) != x || !c.suffix(st, n.args[1]) {
				continue
			}
			i, ln := e.ext(n, 0, in), e.ext(n, 1, in)
			r, o := c.flat(n.args[1])
			if r == root && ts.addT(ts.addT(o, i, 1), ln, 1) == off && c.not1(st, i) {
				return true, false
			}
		}
	}
	return false, false
}

func (c *stepper) exhausted(st *PState, q *Term) bool {
	_, items, p, _ := c.base(st)
	if items == nil {
		return true
	}
	ts := c.e.ts
	ln := ts.mk("len", "", types.Typ[types.Int], items)
	if items.op == "nil" {
		ln = ts.intc(0)
	}
	if c.e.truth(st, ts.eq(ln, q)) == 1 {
		return true
	}
	if c.e.truth(st, ts.lt(q, ln)) == 0 {
		return true
	}
	for f := range st.facts {
		// the length of the rest of the items
		for _, a := range f.args {
			if a.op == "len" && a.args[0].op == "slice" {
				if r, o := c.flat(a.args[0]); r == items && o == q && c.e.truth(st, ts.lt(ts.intc(0), a)) == 0 {
					return true
				}
			}
		}
	}
	return q == p && c.e.truth(st, ts.eq(c.item(st), ts.nilc())) == 1
}

// nextEmpty: 1 nothing follows the list of items, 0 something does.
func (c *stepper) nextEmpty(st *PState) int {
	_, _, _, next := c.base(st)
	if next == nil {
		return 1
	}
	if c.e.truth(st, c.e.ts.eq(next, c.e.ts.nilc())) == 1 {
		return 1
	}
	for f, v := range st.facts {
		if f.op == "call" && strings.HasSuffix(f.aux, "IsEmpty") && f.args[0] == next {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// continuation checks that the matcher may go on at the text t with the items behind q: nil for what follows all items.
// It gives the item it stands for: 1 behind the item, 0 at the place before it.
func (c *stepper) continuation(st *PState, t, items2, next2 *Term, star bool, pos string) (ok, behind bool) {
	ts := c.e.ts
	u, items, p, next := c.base(st)
	here, any := c.legit(st, t)
	at := c.flatEq(t, u)
	if c.k.star {
		at = c.suffix(st, t)
	}
	okAt := at && (!star || c.k.star)
	okBehind := here && !star || any && (star || c.k.star)
	if c.k.class == "after" || c.k.class == "root" {
		return okAt && (star == c.k.star || !star && c.k.star), true
	}
	one := ts.addT(p, ts.intc(1), 1)
	if c.k.class == "node" {
		return okBehind, true
	}
	if items2 == nil { // behind all items
		if okBehind && c.exhausted(st, one) {
			return true, true
		}
		return okAt && c.exhausted(st, p), false
	}
	r, o := c.flat(items2)
	if r == items {
		if next2 != next && next2 != nil {
			return false, false
		}
		if o == one {
			return okBehind, true
		}
		return o == p && okAt, false
	}
	if items2.op == "ext" && items2.aux == "0" && items2.args[0].op == "call" && next != nil && items2.args[0].args[0] == next && next2 == c.e.ext(items2.args[0], 1, next.typ) {
		if okBehind && c.exhausted(st, one) {
			return true, true
		}
		return okAt && c.exhausted(st, p), false
	}
	return false, false
}

// dispatch recognizes an alternative of a group: it gives the index in the group.
func (c *stepper) dispatch(st *PState, items2 *Term) *Term {
	x := c.item(st)
	if x == nil || items2 == nil {
		return nil
	}
	elem := func(v *Term) *Term {
		if v.op == "load" && v.args[0].op == "ia" && strip(v.args[0].args[0]) == x {
			return v.args[0].args[1]
		}
		return nil
	}
	// the items of a chain
	if items2.op == "load" && items2.args[0].op == "fa" && items2.args[0].args[0].op == "assert" {
		return elem(items2.args[0].args[0].args[0])
	}
	if arrayLen(items2) == 1 {
		a := items2.args[0]
		it := c.p.lookupType("pkg/items.Item")
		return elem(c.e.load(st, c.e.ts.mk("ia", "", types.NewPointer(it), a, c.e.ts.intc(0)), it))
	}
	return nil
}

// nodeChild: the node whose list of children holds a node.
func nodeChild(ch *Term) *Term {
	if ch.op == "load" && ch.args[0].op == "ia" {
		l := ch.args[0].args[0]
		if l.op == "load" && l.args[0].op == "fa" && strings.HasSuffix(l.args[0].aux, ".Childs") {
			return l.args[0].args[0]
		}
	}
	return nil
}

// dead: lists and groups can not be part of a group (a list ends at the first closing brace), so these branches of
// the functions which match the items of a group within a tree are never taken.
func (c *stepper) dead(st *PState) bool {
	if c.k.class != "list" || !c.tree() {
		return false
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "applied" {
			f := c.e.ext(v.ts[0], v.ts[0].typ.(*types.Tuple).Len()-1, types.Typ[types.Int])
			if c.flag(st, f, "FindList") || c.flag(st, f, "FindGroup") {
				return true
			}
		}
	}
	return false
}

func (c *stepper) call(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
	es := st.cl.(*evState)
	pos := c.p.instrPos(in)
	if m != nil {
		switch m.Name() {
		case "Store":
			if typName(in.Common().Value.Type()) == "pkg/items.Store" {
				c.report(st, args, in.Parent(), pos)
				return true, nil
			}
		case "Match", "Find":
			if x := c.item(st); x != nil && args[0] == x {
				t := c.call2(m.Name(), x, args[1])
				es.add("applied", m.Name(), t, args[1])
			}
		case "MatchN", "FindN":
			es.add("alt", m.Name(), strip(args[0]), args[2], args[1])
		}
		return false, nil
	}
	k := c.kinds[callee]
	if callee == nil || k == nil {
		return false, nil
	}
	var rs types.Type = callee.Signature.Results()
	if callee.Signature.Results().Len() == 1 {
		rs = callee.Signature.Results().At(0).Type()
	}
	res := e.ts.mk("call", fnName(callee), rs, args...)
	if c.dead(st) {
		return true, res
	}
	c.r.count("continuations", 1)
	t := args[k.s]
	if c.tree() && k.node >= 0 {
		n := args[k.node]
		own := c.rootParam(c.k.node)
		switch k.class {
		case "node":
			if c.k.class == "root" {
				c.rootVisit(st, n, t, k, in.Parent(), pos)
				return true, res
			}
			if nodeChild(n) != own {
				c.sound("step", in.Parent(), pos, "node %s is not a child of the node", n)
			} else if ok, _ := c.continuation(st, t, nil, nil, k.star, pos); !ok {
				c.sound("step", in.Parent(), pos, "the children get the text %s, which is not right behind the matched part", t)
			} else {
				es.add("cv", starAux(k.star), t)
			}
		case "after", "root":
			if n != own && c.k.class == "root" && nodeChild(n) == own {
				c.rootReverse(st, n, t, k, in.Parent(), pos)
				return true, res
			}
			if n != own {
				c.sound("step", in.Parent(), pos, "the match goes on behind another node (%s)", n)
			} else if ok, b := c.continuation(st, t, nil, nil, k.star, pos); !ok {
				c.sound("step", in.Parent(), pos, "the match goes on with the text %s, which is not right behind the matched part, or before all items are used up", t)
			} else {
				es.add("cont", starAux(k.star)+bAux(b), t)
			}
		case "list":
			c.list(st, in, k, t, n == own, args[k.items], nil, pos)
		}
		return true, res
	}
	if k.class == "list" {
		var nx *Term
		if k.next >= 0 {
			nx = args[k.next]
		}
		c.list(st, in, k, t, true, args[k.items], nx, pos)
		if _, ok := rs.(*types.Tuple); ok {
			es.add("res", "", e.ext(res, 0, types.Typ[types.Bool]))
		} else {
			es.add("res", "", res)
		}
	}
	return true, res
}

func starAux(b bool) string {
	if b {
		return "any"
	}
	return "here"
}
func bAux(b bool) string {
	if b {
		return ""
	}
	return "0"
}

func (c *stepper) list(st *PState, in ssa.CallInstruction, k *stepKind, t *Term, own bool, items2, next2 *Term, pos string) {
	es := st.cl.(*evState)
	e, ts := c.e, c.e.ts
	if !own {
		c.sound("step", in.Parent(), pos, "the match goes on with another node")
		return
	}
	u, items, p, next := c.base(st)
	if i := c.dispatch(st, items2); i != nil {
		at := false
		if c.k.star {
			at = c.suffix(st, t) && k.star
		} else {
			r, o := c.flat(t)
			mo := e.ext(c.call2("Match", c.item(st), u), 0, types.Typ[types.Int])
			at = r == u && o == mo && c.not1(st, mo) && !k.star
		}
		if !at {
			c.sound("step", in.Parent(), pos, "an alternative of a group gets the text %s", t)
			return
		}
		if items != nil {
			// what follows the group follows the alternative
			one := ts.addT(p, ts.intc(1), 1)
			okNext := false
			if next2 != nil && next2.op == "alloc" {
				a, b := c.structFields(st, next2)
				if a != nil {
					r, o := c.flat(a)
					okNext = r == items && o == one && (b == next || next == nil && b.op == "nil")
				}
			}
			if !okNext && !(c.exhausted(st, one) && next2 == next) {
				c.sound("step", in.Parent(), pos, "what follows a group is lost when one of its alternatives is matched")
				return
			}
		}
		es.add("disp", "", i)
		return
	}
	if next == nil && next2 != nil && next2.op == "nil" {
		next2 = nil
	}
	if ok, b := c.continuation(st, t, items2, next2, k.star, pos); !ok {
		c.sound("step", in.Parent(), pos, "the match goes on with the text %s and the items %s, which is not what follows the matched part", t, items2)
	} else {
		es.add("cont", starAux(k.star)+bAux(b), t)
	}
}

// structFields gives the list and the pointer kept in a new struct of items and what follows them.
func (c *stepper) structFields(st *PState, a *Term) (items, next *Term) {
	pt, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		v := c.e.load(st, c.e.fa(a, a.typ, i), s.Field(i).Type())
		if typName(s.Field(i).Type()) == "[]pkg/items.Item" {
			items = v
		} else {
			next = v
			if v.op == "zero" {
				next = c.e.ts.nilc()
			}
		}
	}
	return
}

func (c *stepper) empty(st *PState, f func(t *Term) bool) bool {
	for x, v := range st.facts {
		if !v || x.op != "eq" {
			continue
		}
		a, b := x.args[0], x.args[1]
		if !a.isConst() {
			a, b = b, a
		}
		if a.isStr() && constantString(a) == "" && f(b) {
			return true
		}
	}
	// an empty text is its own rest
	return false
}

// report checks that a node is reported only when the text is used up.
func (c *stepper) report(st *PState, args []*Term, in *ssa.Function, pos string) {
	if !c.tree() {
		return
	}
	b := storeBase(args[1], args[2])
	if b == nil {
		return
	}
	n := nodeOwner(b)
	own := c.rootParam(c.k.node)
	if c.dead(st) {
		return
	}
	c.r.count("continuations", 1)
	if c.k.class == "root" {
		if nodeChild(n) == own && c.empty(st, func(t *Term) bool { return c.reversed(st, n, t) }) {
			return
		}
		c.sound("step", in, pos, "node %s is reported before the text is used up", n)
		return
	}
	if n != own {
		c.sound("step", in, pos, "another node (%s) is reported", n)
		return
	}
	if c.empty(st, func(t *Term) bool { ok, _ := c.continuation(st, t, nil, nil, false, pos); return ok }) {
		return
	}
	// anything may follow
	if c.k.class == "after" && c.k.star {
		return
	}
	if c.anyBehind(st) {
		return
	}
	c.sound("step", in, pos, "the node is reported before the text is used up")
}

// anyBehind: the item (the last one) lets any text follow.
func (c *stepper) anyBehind(st *PState) bool {
	_, _, p, _ := c.base(st)
	x := c.item(st)
	if x == nil || !c.exhausted(st, c.e.ts.addT(p, c.e.ts.intc(1), 1)) {
		return false
	}
	in := types.Typ[types.Int]
	if c.k.star && c.optional(st, x) == 1 {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind != "applied" {
			continue
		}
		a := v.ts[0]
		n := a.typ.(*types.Tuple).Len()
		f := c.e.ext(a, n-1, in)
		if c.k.star {
			if c.suffix(st, v.ts[1]) && (c.flag(st, f, "FindStar") || c.flag(st, f, "FindForwarded")) && c.not1(st, c.e.ext(a, 0, in)) && c.not1(st, c.e.ext(a, 1, in)) {
				return true
			}
		} else if u, _, _, _ := c.base(st); v.ts[1] == u && c.flag(st, f, "FindStar") && c.not1(st, c.e.ext(a, 0, in)) {
			return true
		}
	}
	return false
}

// reversed: the text before the suffix which a child matched at the end.
func (c *stepper) reversed(st *PState, ch, t *Term) bool {
	u, _, _, _ := c.base(st)
	if t.op != "slice" || t.args[0] != u || !(t.args[1].isInt() && t.args[1].n == 0) {
		return false
	}
	x := c.e.loadField(st, ch, ch.typ, "Item")
	m := c.call2("MatchLast", x, u)
	in := types.Typ[types.Int]
	o := c.e.ext(m, 0, in)
	return t.args[2] == o && c.not1(st, o) && c.flag(st, c.e.ext(m, 1, in), "FindDone") && c.isReverse(st, ch) == 1
}

func (c *stepper) isReverse(st *PState, ch *Term) int {
	return c.e.truth(st, c.e.loadField(st, ch, ch.typ, "Reverse"))
}

func (c *stepper) rootVisit(st *PState, n, t *Term, k *stepKind, in *ssa.Function, pos string) {
	own := c.rootParam(c.k.node)
	u, _, _, _ := c.base(st)
	if k.star {
		c.sound("step", in, pos, "the match starts anywhere in the text")
		return
	}
	switch pa := nodeChild(n); {
	case pa == own:
		if t != u || c.isReverse(st, n) != 0 {
			c.sound("step", in, pos, "a child of the root gets the text %s", t)
		}
	case pa != nil && nodeChild(pa) == own:
		if !c.reversed(st, pa, t) {
			c.sound("step", in, pos, "a child of a suffix gets the text %s", t)
		}
	default:
		c.sound("step", in, pos, "node %s is visited", n)
	}
}

func (c *stepper) rootReverse(st *PState, n, t *Term, k *stepKind, in *ssa.Function, pos string) {
	if k.star || !c.reversed(st, n, t) {
		c.sound("step", in, pos, "the children of a suffix get the text %s", t)
	}
}

// ---- loops

func (c *stepper) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	if c.k == nil || len(head.frames) > 1 && false {
		return
	}
	u, items, p, next := c.base(head)
	nu, np, ni, nn := u, p, items, next
	str := false
	for i, q := range lc.phis {
		if types.Identical(q.Type(), types.Typ[types.String]) {
			v := lc.vals[i]
			h := e.val(head, q)
			if c.k.star {
				if c.suffix(head, v) {
					head.cl.(*evState).add("suffix", "", h)
				}
			} else if v == u {
				nu = h
				str = true
			}
		}
	}
	if c.k.star {
		// a flag which remembers that the rest was already tried without the item
		d := c.loopData(lc)
		for i, q := range lc.phis {
			if types.Identical(q.Type(), types.Typ[types.String]) && lc.dropped[q] && c.start(head, lc.vals[i]) {
				head.cl.(*evState).add("start", "", e.val(head, q))
			}
			if lc.dropped[q] && (lc.vals[i].isTrue() || lc.vals[i].isFalse()) && !d.notTried[q] {
				head.cl.(*evState).add("tried", lc.vals[i].aux, e.val(head, q))
			}
		}
	}
	if c.k.star || !str {
		return
	}
	for i, q := range lc.phis {
		v, h := lc.vals[i], e.val(head, q)
		switch {
		case isIntTyp(q.Type()) && v == p && c.k.class == "list":
			np = h
		case items != nil && v == items:
			ni = h
		case next != nil && v == next:
			nn = h
		}
	}
	c.setBase(head, nu, ni, np, nn)
}

func (c *stepper) loopData(lc *loopCtx) *stepLoop {
	d, _ := lc.data.(*stepLoop)
	if d == nil {
		d = &stepLoop{notTried: map[*ssa.Phi]bool{}, nums: map[*ssa.Phi]bool{}, notMin: map[*ssa.Phi]bool{}, notMax: map[*ssa.Phi]bool{}}
		lc.data = d
	}
	return d
}

func (c *stepper) backCheck(e *PEngine, lc *loopCtx, head, back *PState) (changed bool) {
	if !c.k.star {
		return
	}
	d := c.loopData(lc)
	for i, q := range lc.phis {
		if !lc.dropped[q] || !lc.vals[i].isTrue() && !lc.vals[i].isFalse() || d.notTried[q] {
			continue
		}
		h, b := e.val(head, q), e.val(back, q)
		if b == lc.vals[i] || e.truth(back, h) == map[string]int{"false": 1, "true": 0}[lc.vals[i].aux] {
			continue
		}
		if e.truth(back, b) == map[string]int{"false": 0, "true": 1}[lc.vals[i].aux] {
			continue
		}
		ok := b == h
		for _, v := range back.cl.(*evState).evs {
			if v.kind == "cont" && v.aux == "any0" || v.kind == "cont" && v.aux == "any" {
				ok = ok || c.suffix(back, v.ts[0])
			}
		}
		if x := c.item(back); x != nil && c.optional(back, x) == 0 {
			ok = true
		}
		if !ok {
			d.notTried[q] = true
			changed = true
		}
	}
	return
}

func (c *stepper) back(e *PEngine, lc *loopCtx, head, back *PState) {
	es := back.cl.(*evState)
	evs := es.since(head.cl)
	pos := c.p.instrPos(lc.l.head.Instrs[0])
	fn := lc.l.head.Parent()
	d := c.loopData(lc)
	for _, v := range evs {
		if v.kind == "cv" {
			d.cont = append(d.cont, ev{"cont", v.aux, v.ts})
		}
	}
	if c.dead(back) {
		return
	}
	// the text
	for i, q := range lc.phis {
		if !types.Identical(q.Type(), types.Typ[types.String]) || !lc.dropped[q] {
			continue
		}
		h, b := e.val(head, q), e.val(back, q)
		if h == b {
			continue
		}
		if c.k.star {
			if c.suffix(head, lc.vals[i]) && !c.suffix(back, b) {
				c.sound("step", fn, pos, "the text is replaced by %s, which is not a rest of it", b)
			}
			continue
		}
		u, _, _, _ := c.base(head)
		if h != u {
			continue
		}
		if here, _ := c.legit(back, b); !here {
			c.sound("step", fn, pos, "the loop goes on with the text %s, which is not right behind the matched part", b)
		}
		if c.moves(lc, head, back) != c.e.ts.intc(1) {
			c.sound("step", fn, pos, "the loop goes on behind the matched part and does not go on to the next item")
		}
	}
	if !c.k.star {
		u, items, p, next := c.base(head)
		for _, w := range lc.phis {
			h, b := e.val(head, w), e.val(back, w)
			if h == b {
				continue
			}
			if h == p && c.k.class == "list" && p.op == "sym" || items != nil && h == items {
				if c.moves(lc, head, back) == nil {
					c.sound("step", fn, pos, "the items are replaced in the loop")
					continue
				}
				moved := false
				for _, q := range lc.phis {
					if e.val(head, q) == u && e.val(back, q) != u {
						moved = true
					}
				}
				if !moved {
					// an item may match nothing
					if ok, _ := c.legit(back, u); !ok {
						c.sound("step", fn, pos, "the loop goes on to the next item and the text stays the same")
					}
				}
			}
			if next != nil && h == next {
				c.sound("step", fn, pos, "the items are replaced in the loop")
			}
		}
	}
	c.lost(back, evs, nil, fn, pos)
	c.alternatives(lc, d, head, back, evs, fn, pos)
	if c.k.star {
		c.scan(lc, d, head, back, evs, fn, pos)
	}
	// one step of a scan for a place where the item matches
	if c.k.star {
		for _, v := range evs {
			if v.kind == "applied" && v.aux == "Find" {
				if why := c.handledStar(back, evs); why != "" {
					c.complete("step-done", fn, pos, "%s", why)
				}
				c.advance(lc, head, back, v, evs, fn, pos)
			}
		}
	}
}

// moves: the number of items between the positions at two rounds of the loop, or nil when the items are other ones.
func (c *stepper) moves(lc *loopCtx, head, back *PState) *Term {
	_, items, p, _ := c.base(head)
	p2, i2 := p, items
	for _, w := range lc.phis {
		switch h := c.e.val(head, w); {
		case h == p && isIntTyp(w.Type()):
			p2 = c.e.val(back, w)
		case items != nil && h == items:
			i2 = c.e.val(back, w)
		}
	}
	d := c.e.ts.addT(p2, p, -1)
	if i2 == items {
		return d
	}
	r, o := c.flat(i2)
	if r != items {
		return nil
	}
	return c.e.ts.addT(d, o, 1)
}

// advance: the scan goes on one symbol behind the place where the item was found.
func (c *stepper) advance(lc *loopCtx, head, back *PState, v ev, evs []ev, fn *ssa.Function, pos string) {
	e, ts := c.e, c.e.ts
	in := types.Typ[types.Int]
	f := e.ext(v.ts[0], 2, in)
	r, o := c.flat(v.ts[1])
	for _, q := range lc.phis {
		if !types.Identical(q.Type(), types.Typ[types.String]) || !lc.dropped[q] || e.val(head, q) != r {
			continue
		}
		b := e.val(back, q)
		br, bo := c.flat(b)
		if c.flag(back, f, "FindList") || c.flag(back, f, "FindGroup") {
			continue // the alternatives are searched on their own
		}
		i := e.ext(v.ts[0], 0, in)
		at := ts.addT(o, i, 1)
		ok := br == r && c.runeAfter(r, bo, at)
		for n, w := range lc.phis {
			if w == q && !c.start(head, lc.vals[n]) {
				c.complete("advance", fn, pos, "the search for the item starts at %s, it may skip places where the item matches", lc.vals[n])
			}
		}
		if !ok {
			c.complete("advance", fn, pos, "after a try at %s the scan goes on at %s, it may skip places where the item matches", at, b)
		}
	}
}

// alternatives checks a loop over the values of a list or group.
func (c *stepper) alternatives(lc *loopCtx, d *stepLoop, head, back *PState, evs []ev, fn *ssa.Function, pos string) {
	e, ts := c.e, c.e.ts
	var al *ev
	var ph *ssa.Phi
	for i := range evs {
		v := &evs[i]
		if v.kind != "alt" {
			continue
		}
		for _, q := range lc.phis {
			if lc.dropped[q] && isIntTyp(q.Type()) {
				if h := e.val(head, q); v.ts[1].contains(h) && ts.addT(v.ts[1], h, -1).isInt() {
					al, ph = v, q
				}
			}
		}
	}
	if al == nil {
		if d.alt != nil {
			c.complete("alternatives", fn, pos, "a path through the scan of the alternatives does not try the value")
		}
		return
	}
	h := e.val(head, ph)
	off := ts.addT(al.ts[1], h, -1)
	if d.alt == nil {
		d.alt, d.off, d.ph = al.ts[0], off, ph
		for i, q := range lc.phis {
			if q == ph {
				if first := ts.addT(lc.vals[i], off, 1); !first.isInt() || first.n != 0 {
					c.complete("alternatives", fn, pos, "the scan of the alternatives starts at %s", first)
				}
			}
		}
		c.r.count("alternative_scans", 1)
		if x := c.item(back); x != nil && x != d.alt {
			c.complete("alternatives", fn, pos, "alternatives of another item are scanned")
		}
	} else if d.alt != al.ts[0] || d.off != off {
		c.complete("alternatives", fn, pos, "one loop scans the alternatives of two items")
		return
	}
	if step := ts.addT(e.val(back, ph), h, -1); !step.isInt() || step.n != 1 {
		c.complete("alternatives", fn, pos, "the scan of the alternatives steps by %s", step)
	}
	c.r.count("alternatives_checked", 1)
	in := types.Typ[types.Int]
	ok := false
	for _, v := range evs {
		if v.kind != "alt" || v.ts[1] != al.ts[1] {
			continue
		}
		switch v.aux {
		case "vals":
			for _, w := range evs {
				if w.kind == "disp" && w.ts[0] == v.ts[1] {
					ok = true
				}
			}
		case "MatchN", "FindN":
			var t *Term
			for f := range back.facts {
				f.any(func(x *Term) bool {
					if x.op == "call" && x.aux == "method "+v.aux && strip(x.args[0]) == v.ts[0] && x.args[2] == v.ts[1] && x.args[1] == v.ts[2] {
						t = x
					}
					return false
				})
			}
			if t == nil {
				continue
			}
			var rest, res *Term
			r, o := c.flat(t.args[1])
			if v.aux == "MatchN" {
				res = t
				rest = ts.addT(o, t, 1)
			} else {
				res = e.ext(t, 0, in)
				rest = ts.addT(ts.addT(o, res, 1), e.ext(t, 1, in), 1)
			}
			if c.is1(back, res) {
				ok = true
				continue
			}
			none := ts.mk("none", "", in)
			ok = ok || c.contDone(back, evs, ts.mk("slice", "", types.Typ[types.String], r, rest, none, none), false)
		}
	}
	if !ok {
		c.complete("alternatives", fn, pos, "an alternative which matches is not followed by the rest of the pattern")
	}
	c.minimum(lc, d, head, back, evs, fn, pos)
}

// minimum: the places found for the alternatives are collected to their minimum, from which the search goes on.
func (c *stepper) minimum(lc *loopCtx, d *stepLoop, head, back *PState, evs []ev, fn *ssa.Function, pos string) {
	e, ts := c.e, c.e.ts
	in := types.Typ[types.Int]
	var f *Term
	for _, v := range evs {
		if v.kind == "alt" && v.aux == "FindN" {
			for x := range back.facts {
				x.any(func(y *Term) bool {
					if y.op == "call" && y.aux == "method FindN" && y.args[2] == v.ts[1] && y.args[1] == v.ts[2] {
						f = y
					}
					return false
				})
			}
		}
	}
	if f == nil {
		return
	}
	d.text = f.args[1]
	i := e.ext(f, 0, in)
	for n, q := range lc.phis {
		if q == d.ph || !isIntTyp(q.Type()) || !lc.dropped[q] || !(lc.vals[n].isInt() && lc.vals[n].n == -1) {
			continue
		}
		d.nums[q] = true
		h, b := e.val(head, q), e.val(back, q)
		min, max := false, false
		switch {
		case c.is1(back, i):
			min = b == h
			max = min
		case b == i:
			min = c.is1(back, h) || e.truth(back, ts.lt(h, i)) == 0
			max = c.is1(back, h) || e.truth(back, ts.lt(i, h)) == 0
		case b == h:
			min = c.not1(back, h) && e.truth(back, ts.lt(i, h)) == 0
			max = c.not1(back, h) && e.truth(back, ts.lt(h, i)) == 0
		}
		if !min {
			d.notMin[q] = true
		}
		if !max {
			d.notMax[q] = true
		}
	}
}

// start: the text is where the search of the item begins: that of the step, or where the item was found first.
func (c *stepper) start(st *PState, t *Term) bool {
	u, _, _, _ := c.base(st)
	if c.flatEq(t, u) {
		return true
	}
	r, o := c.flat(t)
	in := types.Typ[types.Int]
	for _, v := range st.cl.(*evState).evs {
		switch v.kind {
		case "start":
			if v.ts[0] == t {
				return true
			}
		case "min":
			// a round of a search for the values of a list
			if tr, to := c.flat(v.ts[1]); tr == r && v.ts[1] != t && c.runeAfter(r, o, c.e.ts.addT(to, v.ts[2], 1)) && c.start(st, v.ts[1]) {
				return true
			}
		case "applied":
			if v.aux != "Find" {
				continue
			}
			ar, ao := c.flat(v.ts[1])
			i := c.e.ext(v.ts[0], 0, in)
			if ar == r && (o == c.e.ts.addT(ao, i, 1) || o == ao) && c.not1(st, i) && (v.ts[1] == t || c.start(st, v.ts[1])) {
				return true
			}
		}
	}
	return false
}

// runeAfter: the offset b is one symbol (or byte) behind at, in the text r.
func (c *stepper) runeAfter(r, b, at *Term) bool {
	dd := c.e.ts.addT(b, at, -1)
	if dd.op == "ext" && dd.aux == "1" && dd.args[0].op == "call" && dd.args[0].aux == "unicode/utf8.DecodeRuneInString" {
		xr, xo := c.flat(dd.args[0].args[0])
		return xr == r && xo == at
	}
	return dd.isInt() && dd.n == 1 // byte by byte
}

// usedUp: no symbol is left at the offset of the text.
func (c *stepper) usedUp(st *PState, r, at *Term) bool {
	if c.empty(st, func(t *Term) bool { return c.flatEq(t, c.slice(r, at)) || at.isInt() && at.n == 0 && t == r }) {
		return true
	}
	ts := c.e.ts
	ln := ts.mk("len", "", types.Typ[types.Int], r)
	if c.e.truth(st, ts.lt(at, ln)) == 0 {
		return true
	}
	for f := range st.facts {
		for _, a := range f.args {
			if a.op == "ext" && a.aux == "1" && a.args[0].op == "call" && a.args[0].aux == "unicode/utf8.DecodeRuneInString" {
				if xr, xo := c.flat(a.args[0].args[0]); xr == r && xo == at && c.e.truth(st, ts.lt(a, ts.intc(1))) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// scan checks one round of a scan over the text behind a star in which the values of a list are searched, or the rest
// of the pattern is tried without the item.
func (c *stepper) scan(lc *loopCtx, d *stepLoop, head, back *PState, evs []ev, fn *ssa.Function, pos string) {
	e, ts := c.e, c.e.ts
	for n, q := range lc.phis {
		if !types.Identical(q.Type(), types.Typ[types.String]) || !lc.dropped[q] {
			continue
		}
		h, b := e.val(head, q), e.val(back, q)
		if h == b {
			continue
		}
		br, bo := c.flat(b)
		find, tried := false, false
		for _, v := range evs {
			if v.kind == "applied" && v.aux == "Find" {
				find = true // see advance
			}
			if v.kind == "cont" && v.ts[0] == h {
				tried = true
			}
		}
		var mins []*Term
		max := false
		for _, v := range evs {
			if v.kind != "min" && v.kind != "max" || v.ts[1] != h {
				continue
			}
			if !c.start(head, lc.vals[n]) {
				c.complete("advance", fn, pos, "the search for the values of a list starts at %s, it may skip places where a value matches", lc.vals[n])
			}
			d.lists = append(d.lists, v.ts[0])
			if v.kind == "min" {
				mins = append(mins, v.ts[2])
			} else if br == h && c.runeAfter(h, bo, v.ts[2]) {
				max = true
			}
		}
		for _, v := range evs {
			if v.kind == "alts" && v.aux != "" && !find && len(mins) == 0 && !max {
				d.lists = append(d.lists, v.ts[0])
				mins = append(mins, ts.intc(0))
			}
		}
		switch {
		case find:
			continue
		case len(mins) > 0 || max || tried:
		default:
			continue
		}
		ok := br == h && c.runeAfter(h, bo, ts.intc(0))
		for _, m := range mins {
			ok = ok || br == h && (c.runeAfter(h, bo, m) || bo == m && !m.isInt())
		}
		switch {
		case ok:
		case max:
			c.complete("greatest-place", fn, pos, "the search for the values of a list goes on behind the last place at which one of them is found, it skips places where another value is found")
		default:
			c.complete("advance", fn, pos, "the scan goes on at %s, which is not behind the first place found, it may skip places", b)
		}
	}
}

func (c *stepper) loopExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d, _ := lc.data.(*stepLoop)
	if d == nil {
		return
	}
	es := out.cl.(*evState)
	for _, v := range d.cont {
		es.add("cont", v.aux, v.ts...)
	}
	c.scanExit(lc, d, head, out)
	if d.alt == nil {
		return
	}
	ts := e.ts
	at := ts.addT(e.val(head, d.ph), d.off, 1)
	done := false
	for f := range out.facts {
		isLen := func(t *Term) bool {
			if t.op == "call" && strings.HasSuffix(t.aux, "Len") && strip(t.args[0]) == d.alt {
				return true
			}
			return t.op == "len" && strip(t.args[0]) == d.alt
		}
		a := f
		if a.op != "lt" && a.op != "eq" {
			continue
		}
		for j := range a.args {
			l := linOf(a.args[j])
			for x := range l.m {
				if isLen(x) {
					if e.truth(out, ts.lt(at, x)) == 0 {
						done = true
					}
				}
			}
		}
	}
	if !done {
		return
	}
	if d.text == nil {
		es.add("alts", "", d.alt)
		return
	}
	es.add("alts", "search", d.alt)
	for _, q := range lc.phis {
		if !d.nums[q] {
			continue
		}
		switch {
		case !d.notMin[q]:
			es.add("min", "", d.alt, d.text, e.val(head, q))
		case !d.notMax[q]:
			es.add("max", "", d.alt, d.text, e.val(head, q))
		}
	}
}

// scanExit: the scan of the text for the values of a list is at its end.
func (c *stepper) scanExit(lc *loopCtx, d *stepLoop, head, out *PState) {
	es := out.cl.(*evState)
	for _, l := range d.lists {
		done := false
		for _, q := range lc.phis {
			if !types.Identical(q.Type(), types.Typ[types.String]) || !lc.dropped[q] {
				continue
			}
			h := c.e.val(head, q)
			done = done || c.usedUp(out, h, c.e.ts.intc(0))
			for _, v := range es.evs {
				if (v.kind == "min" || v.kind == "max") && v.ts[0] == l && v.ts[1] == h {
					done = done || c.is1(out, v.ts[2]) || c.usedUp(out, h, v.ts[2])
				}
			}
		}
		if done {
			es.add("scanned", "", l)
		}
	}
}

// ---- completeness of a step

// contDone: the match went on at the text behind the item, or it is decided that nothing follows and the text is not used up.
func (c *stepper) contDone(st *PState, evs []ev, t *Term, any bool) bool {
	for _, v := range evs {
		if v.kind == "cont" && (v.aux == starAux(any) || v.aux == "any") && c.flatEq(v.ts[0], t) {
			return true
		}
	}
	if any {
		return false
	}
	if !c.tree() {
		_, _, p, _ := c.base(st)
		if c.exhausted(st, c.e.ts.addT(p, c.e.ts.intc(1), 1)) && c.nextEmpty(st) == 1 {
			for f, v := range st.facts {
				if f.op == "eq" && !v {
					a, b := f.args[0], f.args[1]
					if !a.isConst() {
						a, b = b, a
					}
					if a.isStr() && constantString(a) == "" && c.flatEq(b, t) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *stepper) short(st *PState, u, x *Term) bool {
	for f, v := range st.facts {
		if f.op == "lt" && v && f.args[0].op == "len" && c.flatEq(f.args[0].args[0], u) && f.args[1].op == "call" && strings.HasSuffix(f.args[1].aux, "MinLen") && f.args[1].args[0] == x {
			return true
		}
		if f.op == "eq" && !v {
			continue
		}
	}
	return false
}

func (c *stepper) alts(evs []ev, x *Term) bool {
	for _, v := range evs {
		if v.kind == "alts" && v.ts[0] == x {
			return true
		}
	}
	return false
}

func (c *stepper) slice(r, o *Term) *Term {
	none := c.e.ts.mk("none", "", types.Typ[types.Int])
	return c.e.ts.mk("slice", "", types.Typ[types.String], r, o, none, none)
}

// handled: what the flag of the item asks for was done.
func (c *stepper) handled(st *PState, evs []ev) string {
	x := c.item(st)
	u, _, _, _ := c.base(st)
	in := types.Typ[types.Int]
	m := c.call2("Match", x, u)
	mo, mf := c.e.ext(m, 0, in), c.e.ext(m, 1, in)
	if c.is1(st, mo) || c.short(st, u, x) {
		return ""
	}
	t := c.slice(u, mo)
	opt := func() string {
		if o := c.optional(st, x); o == 0 || c.contDone(st, evs, t, false) {
			return ""
		}
		return "the item may match nothing and the rest of the pattern is not tried without it"
	}
	switch {
	case c.flag(st, mf, "FindDone"):
		if !c.contDone(st, evs, t, false) {
			return "the item matches and the rest of the pattern is not tried behind it"
		}
	case c.flag(st, mf, "FindStar"):
		if !c.contDone(st, evs, t, true) && !c.anyBehindDone(st, evs) {
			return "the rest of the pattern is not searched behind a star"
		}
	case c.flag(st, mf, "FindList"), c.flag(st, mf, "FindGroup"):
		if w := opt(); w != "" {
			return w
		}
		if !c.alts(evs, x) {
			return "the alternatives of a list or group are not scanned"
		}
	default:
		return "a path has not found a mismatch and does not act on the kind of the item"
	}
	return ""
}

func (c *stepper) anyBehindDone(st *PState, evs []ev) bool { return c.tree() && false }

func (c *stepper) handledStar(st *PState, evs []ev) string {
	x := c.item(st)
	in := types.Typ[types.Int]
	var a *ev
	for i := range evs {
		if evs[i].kind == "applied" && evs[i].aux == "Find" {
			a = &evs[i]
		}
	}
	if a == nil {
		for f, v := range st.facts {
			if v && f.op == "lt" && f.args[0].op == "len" && f.args[1].op == "call" && strings.HasSuffix(f.args[1].aux, "MinLen") && f.args[1].args[0] == x {
				return ""
			}
		}
		return "a path does not search the item"
	}
	i, ln, fl := c.e.ext(a.ts[0], 0, in), c.e.ext(a.ts[0], 1, in), c.e.ext(a.ts[0], 2, in)
	if c.is1(st, i) {
		return ""
	}
	r, o := c.flat(a.ts[1])
	o = c.e.ts.addT(o, i, 1)
	switch {
	case c.flag(st, fl, "FindDone"):
		if !c.contDone(st, evs, c.slice(r, c.e.ts.addT(o, ln, 1)), false) {
			return "the item is found and the rest of the pattern is not tried behind it"
		}
	case c.flag(st, fl, "FindForwarded"), c.flag(st, fl, "FindStar"):
		if !c.is1(st, ln) && !c.contDone(st, evs, c.slice(r, c.e.ts.addT(o, ln, 1)), true) {
			return "the rest of the pattern is not searched behind the item"
		}
	case c.flag(st, fl, "FindList"), c.flag(st, fl, "FindGroup"):
		done := c.optional(st, x) == 0
		for _, v := range evs {
			if v.kind == "cont" && c.start(st, v.ts[0]) {
				done = true
			}
		}
		for _, v := range st.cl.(*evState).evs {
			if v.kind == "tried" && c.e.truth(st, v.ts[0]) == map[string]int{"false": 1, "true": 0}[v.aux] {
				done = true
			}
		}
		if !c.tree() && c.flag(st, fl, "FindGroup") {
			// with nothing behind it, the alternative of the group which matches nothing accepts at the end of the text
			_, _, p, _ := c.base(st)
			if c.exhausted(st, c.e.ts.addT(p, c.e.ts.intc(1), 1)) && c.nextEmpty(st) == 1 {
				done = true
			}
		}
		if !done {
			return "the item may match nothing and the rest of the pattern is not searched without it"
		}
		if c.flag(st, fl, "FindList") {
			ok := false
			for _, v := range st.cl.(*evState).evs {
				ok = ok || v.kind == "scanned" && v.ts[0] == x
			}
			if !ok {
				return "the values of a list are not searched up to the end of the text"
			}
		} else if !c.alts(evs, x) {
			return "the alternatives of a list or group are not scanned"
		}
	default:
		return "a path has found the item and does not act on its kind"
	}
	return ""
}

// lost: a match of the rest of the pattern is the result.
func (c *stepper) lost(st *PState, evs []ev, res *Term, fn *ssa.Function, pos string) {
	for _, v := range evs {
		if v.kind == "res" && v.ts[0] != res && c.e.truth(st, v.ts[0]) != 0 {
			c.complete("lost", fn, pos, "the rest of the pattern is matched and the result is not")
			return
		}
	}
}

func (c *stepper) exit(x *PExit) {
	st := x.st
	e, ts := c.e, c.e.ts
	pos := c.p.instrPos(x.ret)
	es := st.cl.(*evState)
	if c.dead(st) {
		return
	}
	if !c.tree() {
		// the result
		res := x.res[0]
		call := func(t *Term) bool {
			return t.op == "ext" && t.aux == "0" && t.args[0].op == "call" || t.op == "call"
		}
		v := e.truth(st, res)
		if v == 1 || v < 0 {
			s2 := st.clone()
			ok := call(res) || !e.assume(s2, res, true)
			for _, w := range es.evs {
				if w.kind == "res" && e.truth(s2, w.ts[0]) == 1 {
					ok = true // the rest of the pattern was matched
				}
			}
			if !ok {
				_, _, p, _ := c.base(s2)
				one := ts.addT(p, ts.intc(1), 1)
				acc := func(t *Term) bool {
					k, b := c.continuation(s2, t, nil, nil, false, pos)
					_ = b
					return k
				}
				ok = c.nextEmpty(s2) == 1 && (c.empty(s2, acc) || c.exhausted(s2, one) && c.anyBehind(s2))
			}
			if !ok {
				c.sound("accept", x.ret.Parent(), pos, "a path accepts the text (%s) before it and the pattern are used up", res)
			}
		}
		if v == 1 {
			return
		}
		c.lost(st, es.evs, res, x.ret.Parent(), pos)
	}
	if c.mode != "complete" {
		return
	}
	if c.k.class == "root" || c.k.class == "after" {
		return // C12
	}
	_, _, p, _ := c.base(st)
	if !c.e.rec[c.fn] {
		ok := false
		for _, v := range es.evs {
			ok = ok || v.kind == "cont"
		}
		if !ok {
			c.complete("step-done", x.ret.Parent(), pos, "a path rejects the text without a match of its items")
		}
		return
	}
	if !c.k.star {
		c.abort(x)
	}
	if c.k.class == "list" && c.exhausted(st, p) {
		// all items are used up
		ok := false
		for _, v := range es.evs {
			if v.kind == "cont" && strings.HasSuffix(v.aux, "0") {
				ok = true
			}
		}
		if !c.tree() && c.nextEmpty(st) == 1 {
			ok = true
		}
		if !ok {
			c.complete("step-done", x.ret.Parent(), pos, "all items are used up and what follows them is not tried")
		}
		return
	}
	if c.k.star {
		if why := c.handledStar(st, es.evs); why != "" {
			if dbg {
				println("EXIT", why, x.res[0].String())
				for f, v := range st.facts {
					println("   fact", f.String(), v)
				}
				for _, v := range es.evs {
					print("   ev ", v.kind, " ", v.aux)
					for _, t := range v.ts {
						if t != nil {
							print(" ", t.String())
						}
					}
					println()
				}
			}
			c.complete("step-done", x.ret.Parent(), pos, "%s", why)
		}
		c.exitScan(x)
		return
	}
	if why := c.handled(st, es.evs); why != "" {
		c.complete("step-done", x.ret.Parent(), pos, "%s", why)
	}
}

// exitScan: the scan for places where the item matches ends at the end of the text, or when the rest can not match at
// any later place either.
func (c *stepper) exitScan(x *PExit) {
	st := x.st
	e := c.e
	in := types.Typ[types.Int]
	pos := c.p.instrPos(x.ret)
	for _, v := range st.cl.(*evState).evs {
		if v.kind != "applied" || v.aux != "Find" || c.is1(st, e.ext(v.ts[0], 0, in)) || !c.flag(st, e.ext(v.ts[0], 2, in), "FindDone") {
			continue
		}
		ok := false
		r, o := c.flat(v.ts[1])
		o = e.ts.addT(o, e.ext(v.ts[0], 0, in), 1)
		if c.empty(st, func(t *Term) bool { return c.flatEq(t, c.slice(r, o)) }) {
			ok = true
		}
		for f, b := range st.facts {
			if b && f.op == "lt" && f.args[0].op == "ext" && f.args[0].aux == "1" && f.args[0].args[0].aux == "unicode/utf8.DecodeRuneInString" {
				ok = true
			}
			if f.op == "eq" && b && (f.args[0].op == "ext" || f.args[1].op == "ext") && f.any(func(t *Term) bool { return t.aux == "unicode/utf8.DecodeRuneInString" }) {
				ok = true
			}
			if b && f.op == "ext" && f.aux == "1" && f.args[0].op == "call" && c.kindByName(f.args[0].aux) {
				ok = true // the search for a later item came to the end of the text
			}
		}
		if !ok {
			c.complete("advance", x.ret.Parent(), pos, "the scan stops after a try which failed, and the text is not used up")
		}
	}
	c.abort(x)
}

// abort: the second result stops the scans of earlier items, it may only be set when a search came to the end of the
// text.
func (c *stepper) abort(x *PExit) {
	st := x.st
	e := c.e
	in := types.Typ[types.Int]
	pos := c.p.instrPos(x.ret)
	if c.tree() || len(x.res) < 2 {
		return
	}
	r := x.res[1]
	if e.truth(st, r) == 0 {
		return
	}
	ok := false
	if r.op == "ext" {
		// of the last step, when there was no other way
		ok = true
		for _, v := range st.cl.(*evState).evs {
			if v.kind == "alt" || v.kind == "alts" || v.kind == "disp" {
				ok = false
			}
		}
		if !ok {
			c.complete("advance", x.ret.Parent(), pos, "the scans of earlier items are stopped because one of several ways has failed")
		}
		return
	}
	_, _, p, _ := c.base(st)
	if c.exhausted(st, p) {
		ok = true
	}
	if !c.k.star {
		ok = false
	}
	it := c.item(st)
	for f, b := range st.facts {
		if !c.k.star {
			break
		}
		if b && f.op == "lt" && f.args[0].op == "len" && f.args[1].op == "call" && strings.HasSuffix(f.args[1].aux, "MinLen") && f.args[1].args[0] == it {
			ok = true
		}
		if b && f.op == "ext" && f.aux == "1" && f.args[0].op == "call" && c.kindByName(f.args[0].aux) {
			ok = true
		}
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "applied" && v.aux == "Find" && (c.is1(st, e.ext(v.ts[0], 0, in)) || c.is1(st, e.ext(v.ts[0], 1, in))) {
			ok = true
		}
	}
	if !ok {
		c.complete("advance", x.ret.Parent(), pos, "the scans of earlier items are stopped and the item can still be found later")
	}
}

func (c *stepper) kindByName(n string) bool {
	for f := range c.kinds {
		if fnName(f) == n {
			return true
		}
	}
	return false
}

// helpers checks the methods of the list of what follows the items: the items of the list and then those of the next one.
func (c *stepper) helpers(fns []*ssa.Function) {
	var t types.Type
	for _, f := range fns {
		if k := c.kinds[f]; k.next >= 0 {
			t = f.Params[k.next].Type()
		}
	}
	if t == nil {
		return
	}
	e, ts := c.e, c.e.ts
	c.k = &stepKind{class: "helper", s: -1, node: -1, items: -1, next: -1}
	saved := *e.cl
	e.cl.Call, e.cl.Back, e.cl.BackCheck, e.cl.LoopHead, e.cl.LoopExit = nil, nil, nil, nil, nil
	e.cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool { return false }
	defer func() { *e.cl = saved }()
	for _, f := range c.p.funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" || !types.Identical(f.Signature.Recv().Type(), t) {
			continue
		}
		rs := f.Signature.Results()
		c.fn = f
		recv0 := ts.mk("param", "recv#0", t)
		cur := func(st *PState) *Term {
			for _, v := range st.cl.(*evState).evs {
				if v.kind == "cur" {
					return v.ts[0]
				}
			}
			return recv0
		}
		e.cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
			for i, q := range lc.phis {
				if types.Identical(q.Type(), t) && lc.vals[i] == cur(head) {
					head.cl = &evState{[]ev{{"cur", "", []*Term{e.val(head, q)}}}}
				}
			}
		}
		e.cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
			h := cur(head)
			items, next := c.structFieldsOf(back, h)
			for _, q := range lc.phis {
				if e.val(head, q) != h {
					continue
				}
				if b := e.val(back, q); b != h && (b != next || e.truth(back, ts.eq(ts.mk("len", "", types.Typ[types.Int], items), ts.intc(0))) != 1) {
					e.fail("following", fnName(f), c.p.instrPos(lc.l.head.Instrs[0]), "items which follow are skipped")
				}
			}
		}
		for _, x := range e.Run(f, &evState{}) {
			st := x.st
			recv := cur(st)
			items, next := c.structFieldsOf(st, recv)
			if items == nil {
				return
			}
			end := e.truth(st, ts.eq(recv, ts.nilc())) == 1
			none := e.truth(st, ts.eq(ts.mk("len", "", types.Typ[types.Int], items), ts.intc(0)))
			last := e.truth(st, ts.eq(next, ts.nilc()))
			c.r.count("helper_paths", 1)
			pos := c.p.instrPos(x.ret)
			what := ""
			switch {
			case rs.Len() == 1 && isBoolType(rs.At(0).Type()):
				for _, v := range []bool{true, false} {
					s2 := st.clone()
					if !e.assume(s2, x.res[0], v) {
						continue
					}
					none := e.truth(s2, ts.eq(ts.mk("len", "", types.Typ[types.Int], items), ts.intc(0)))
					last := e.truth(s2, ts.eq(next, ts.nilc()))
					rest := -1
					for q, b := range s2.facts {
						if q.op == "call" && q.aux == fnName(f) && q.args[0] == next {
							rest = 0
							if b {
								rest = 1
							}
						}
					}
					if v && !end && (none != 1 || last != 1 && rest != 1) {
						what = "items which follow are overlooked"
					}
					if !v && (none != 0 && rest != 0 || end) {
						what = "items are said to follow and none do"
					}
				}
			case rs.Len() == 2:
				a, b := x.res[0], x.res[1]
				n2, x2 := c.structFieldsOf(st, next)
				switch {
				case a == items && b == next:
				case end && a.op == "nil" && b.op == "nil":
				case none == 1 && last == 0 && a == n2 && b == x2:
				case none == 1 && last == 1 && a.op == "nil" && b.op == "nil":
				case none == 1 && a.op == "ext" && a.aux == "0" && b.op == "ext" && b.aux == "1" && a.args[0] == b.args[0] && a.args[0].op == "call" && a.args[0].aux == fnName(f) && a.args[0].args[0] == next:
				default:
					what = "the items which follow are not those of the list and then those of the next one"
				}
			default:
				continue
			}
			if what != "" {
				e.fail("following", fnName(f), pos, "%s", what)
			}
		}
	}
}

func (c *stepper) structFieldsOf(st *PState, p *Term) (items, next *Term) {
	return c.structFields(st, p)
}
