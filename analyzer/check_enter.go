package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = func(p *Prog, tier string) *Result { return checkEnter(p) }
}

// enterer decides C16: the trees of dotted globs and of tag queries enter or report a child only when the child was found
// to match its part of the input, and hand on exactly the rest of the input.
type enterer struct {
	pathRules
	p    *Prog
	r    *Result
	m    *nodeModel
	fn   *ssa.Function
	head map[*ssa.Function]bool
	gm   string // names of the matchers of one part
	tm   string
	fd   map[string]bool // searches of a key
}

func checkEnter(p *Prog) *Result {
	c := &enterer{p: p, r: newResult(), m: newNodeModel(p), head: map[*ssa.Function]bool{}, fd: map[string]bool{}}
	cl := &PClient{}
	e := newPEngine(p, cl)
	c.e = e
	e.readOnly = true
	for _, x := range []struct {
		n string
		s *string
	}{{"glob.Glob.Match", &c.gm}, {"gtags.TaggedTerm.Match", &c.tm}} {
		if f := p.lookupFunc(x.n); f != nil {
			*x.s = fnName(f)
		} else {
			c.r.fail("anchor", x.n, "-", "the matcher was not found")
		}
	}
	var fns []*ssa.Function
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, g := range e.callees[f] {
			callers[g] = append(callers[g], f)
		}
	}
	inScope := func(f *ssa.Function) bool {
		np := c.m.nodeParam(f)
		if np < 0 || !storeParam(p, f) || f.Synthetic != "" || f.Pkg == nil {
			return false
		}
		n := c.m.nodeOf(f.Params[np].Type())
		return hasPrefixAny(n, "gglob.", "gtags.")
	}
	for _, f := range p.funcs {
		if !inScope(f) {
			continue
		}
		out := !e.rec[f]
		for _, g := range callers[f] {
			if !e.rec[g] {
				out = true
			}
		}
		if f.Object() != nil && f.Object().Exported() || len(callers[f]) == 0 || e.rec[f] && out {
			c.head[f] = true
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	finders := c.finders(fns)
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		if n := fnName(f); c.head[f] || n == c.gm || n == c.tm || c.fd[n] {
			return false
		}
		if inScope(f) || storeParam(p, f) && !e.rec[f] {
			return len(f.Blocks) < 200
		}
		return len(f.Blocks) <= 12 && len(e.info(f).loops) == 0 && !e.rec[f]
	}
	cl.Call = c.call
	for _, f := range fns {
		c.fn = f
		c.r.count("return_paths", len(e.Run(f, &evState{})))
		c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(f))
	}
	c.r.count("functions_checked", len(fns))
	c.r.need("functions_checked", 8)
	c.r.need("entries_checked", 20)
	for _, f := range finders {
		checkFinder(p, c.r, e, f)
		c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(f))
	}
	checkSorted(p, c.r, e)
	seen := map[string]bool{}
	for _, f := range e.finds {
		k := f.Key() + f.Pos + f.Text
		if !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	return c.r
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if len(s) >= len(p) && s[:len(p)] == p {
			return true
		}
	}
	return false
}

// isFinder: a search of a key in a list of elements with keys, which gives a place.
func (c *enterer) isFinder(f *ssa.Function) bool {
	s := f.Signature
	if f.Pkg == nil || f.Blocks == nil || s.Results().Len() != 1 || !isIntTyp(s.Results().At(0).Type()) || len(c.e.info(f).loops) == 0 {
		return false
	}
	str := false
	for _, q := range f.Params {
		if isStrTyp(q.Type()) {
			str = true
		}
	}
	return str && len(c.e.mods[f]) == 0
}

func (c *enterer) finders(fns []*ssa.Function) (r []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if fnName(f) == c.gm || fnName(f) == c.tm {
			return
		}
		if c.isFinder(f) && hasPrefixAny(fnName(f), "gtags.", "(*gtags.", "(gtags.") {
			c.fd[fnName(f)] = true
			r = append(r, f)
		}
		for _, g := range c.e.callees[f] {
			if g.Pkg != nil && hasPrefixAny(fnName(g), "gtags.", "(*gtags.", "(gtags.") {
				walk(g)
			}
		}
	}
	for _, f := range fns {
		walk(f)
	}
	return
}

func (c *enterer) call(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
	pos := c.p.instrPos(in)
	if m != nil && m.Name() == "Store" && typName(in.Common().Value.Type()) == "pkg/items.Store" {
		if b := storeBase(args[1], args[2]); b != nil {
			c.enter(st, nodeOwner(b), nil, pos, "reported")
		}
		return true, nil
	}
	if callee == nil || !storeParam(c.p, callee) {
		return false, nil
	}
	if !c.head[callee] {
		return false, nil
	}
	np, ip := c.m.nodeParam(callee), c.m.inputParam(callee)
	if np >= 0 && ip >= 0 {
		c.enter(st, args[np], args[ip], pos, "entered")
	}
	v := in.Value()
	if v == nil || callee.Signature.Results().Len() == 0 {
		return true, nil
	}
	return true, e.fresh(st, "sym", st.top().id+"/"+v.Name()+".n", v.Type())
}

// field access t = x.name
func isField(t *Term, x *Term, name string) bool {
	return t.op == "load" && t.args[0].op == "fa" && hasSuffix(t.args[0].aux, "."+name) && (x == nil || t.args[0].args[0] == x)
}

// elem: t is an element of the list which is returned.
func elem(t *Term) (list, i *Term) {
	if t.op == "load" && t.args[0].op == "ia" {
		return t.args[0].args[0], t.args[0].args[1]
	}
	return nil, nil
}

// enter checks that node n may be entered with the input arg, or be reported (arg is nil).
func (c *enterer) enter(st *PState, n, arg *Term, pos, how string) {
	e := c.e
	np, ip := c.m.nodeParam(c.fn), c.m.inputParam(c.fn)
	if ip < 0 {
		return
	}
	own, in := e.val(st, c.fn.Params[np]), e.val(st, c.fn.Params[ip])
	c.r.count("entries_checked", 1)
	fail := func(f string, a ...any) {
		if dbg {
			for f, v := range st.facts {
				println("  fact", f.String(), v)
			}
		}
		e.fail("entered", fnName(c.fn), pos, f, a...)
	}
	t := c.fn.Params[np].Type().Underlying().(*types.Pointer).Elem()
	tree := c.m.isTree(t)
	text := isStrTyp(in.typ)
	if n == own {
		switch {
		case arg != nil && arg != in:
			fail("the node is matched again with another input (%s)", arg)
		case arg == nil && !tree && hasPrefixAny(typName(t), "gglob."):
			if !(text && e.truth(st, e.ts.eq(in, e.ts.strc(""))) == 1 || !text && e.truth(st, e.ts.eq(e.lenT(in), e.ts.intc(0))) == 1) {
				fail("the node is reported before the input is used up")
			}
		}
		return
	}
	if hasPrefixAny(typName(t), "gtags.") {
		if arg != nil && arg != in {
			fail("a node is entered with other tags (%s)", arg)
		}
		if tree {
			if arg == nil || !isField(n, own, "Root") {
				fail("node %s is %s", n, how)
			}
			return
		}
		if why := c.term(st, n, own, in); why != "" {
			fail("child %s is %s, but %s", n, how, why)
		}
		return
	}
	if tree {
		if n.op != "lookup" || !isField(n.args[0], own, "Root") {
			fail("node %s is %s", n, how)
			return
		}
		if text {
			if !c.count(st, n.args[1], in) {
				fail("the root is not the one for the number of parts (%s)", n.args[1])
			}
			if arg == nil || !c.trimmed(st, arg, in) {
				fail("the root is entered with another text (%s)", arg)
			}
		} else {
			if n.args[1] != e.lenT(in) {
				fail("the root is not the one for the number of parts (%s)", n.args[1])
			}
			if arg != in {
				fail("the root is entered with other parts (%s)", arg)
			}
		}
		return
	}
	// the part of the input
	isPart := func(x *Term) bool {
		if text {
			return c.first(st, x, in)
		}
		l, i := elem(x)
		return l == in && i == e.ts.intc(0)
	}
	var part *Term
	if n.op == "lookup" && isField(n.args[0], own, "ChildsMap") {
		if isPart(n.args[1]) && (c.known(st, e.ts.mk("lookupok", "", types.Typ[types.Bool], n.args...)) == 1 || e.truth(st, e.ts.eq(n, e.ts.nilc())) == 0) {
			part = n.args[1]
		}
	} else if l, _ := elem(n); l != nil && isField(l, own, "Childs") {
		for f, v := range st.facts {
			if v && f.op == "call" && f.aux == c.gm && isField(f.args[0], n, "Item") && isPart(f.args[1]) {
				part = f.args[1]
			}
		}
	} else {
		fail("node %s is %s, which is no child", n, how)
		return
	}
	if part == nil {
		fail("child %s is %s, but it was not found to match the first part", n, how)
		return
	}
	if text && e.truth(st, e.ts.eq(part, e.ts.strc(""))) != 0 {
		fail("child %s is %s for an empty part", n, how)
	}
	if arg != nil {
		if text && !c.after(st, arg, in) || !text && !c.tail(st, arg, in) {
			fail("child %s is entered with %s, which is not the input behind the first part", n, arg)
		}
		return
	}
	if text {
		ok := c.noDot(st, in) == 1
		for f, v := range st.facts {
			if v && f.op == "eq" {
				for i := range 2 {
					if f.args[i] == e.ts.strc("") && c.after(st, f.args[1-i], in) {
						ok = true
					}
				}
			}
		}
		if !ok {
			fail("child %s is reported before the input is used up", n)
		}
	} else if b := e.bounds(st, e.lenT(in)); !(b.hasH && b.hi <= 1) {
		fail("child %s is reported before the input is used up", n)
	}
}

func (c *enterer) known(st *PState, t *Term) int { return c.e.truth(st, t) }

func (c *enterer) tail(st *PState, t, in *Term) bool {
	return t.op == "slice" && t.args[0] == in && t.args[1] == c.e.ts.intc(1) && (t.args[2].op == "none" || t.args[2] == c.e.lenT(in))
}

// term: a node of the tree of tag terms.
func (c *enterer) term(st *PState, n, own, tags *Term) string {
	e := c.e
	l, _ := elem(n)
	if l == nil || l.op != "load" || l.args[0].op != "fa" {
		return "it is no child"
	}
	g := l.args[0].args[0]
	if g.op != "ia" || !isField(g.args[0], own, "Items") {
		return "it is no child"
	}
	isKey := func(t *Term) bool { return isField(t, g, "Key") }
	for f, v := range st.facts {
		// the value of the tag with the key was matched by the term
		if f.op == "call" && f.aux == c.tm && v && isField(f.args[0], n, "Term") {
			x := f.args[1]
			if x.op == "ext" && x.aux == "0" {
				x = x.args[0]
			}
			if x.op == "lookup" && x.args[0] == tags && isKey(x.args[1]) {
				if e.truth(st, e.ts.mk("lookupok", "", types.Typ[types.Bool], x.args...)) == 1 {
					return ""
				}
				return "the tag is not known to be there"
			}
			if x.op == "load" && x.args[0].op == "fa" && hasSuffix(x.args[0].aux, ".Value") && x.args[0].args[0].op == "ia" {
				a := x.args[0].args[0]
				if a.args[0] != tags {
					continue
				}
				if k := a.args[1]; k.op == "call" && c.fd[k.aux] && k.args[0] == tags && isKey(k.args[1]) {
					if b := e.bounds(st, k); b.hasL && b.lo >= 0 || e.truth(st, e.ts.eq(k, e.ts.intc(-1))) == 0 {
						return ""
					}
					return "the tag is not known to be there"
				}
				for f2, v2 := range st.facts {
					if v2 && f2.op == "eq" {
						for i := range 2 {
							if isKey(f2.args[i]) && isField(f2.args[1-i], a, "Key") {
								return ""
							}
						}
					}
				}
			}
		}
		// there is no tag with the key, and the term does not need one
		if hasSuffix(l.args[0].aux, ".NotMatched") {
			if f.op == "lookupok" && !v && f.args[0] == tags && isKey(f.args[1]) {
				return ""
			}
			if k := absentFact(f, v); k != nil && k.op == "call" && c.fd[k.aux] && k.args[0] == tags && isKey(k.args[1]) {
				return ""
			}
		}
	}
	return "its term was not found to match the tag with its key"
}

// absentFact: the fact says that k is negative.
func absentFact(f *Term, v bool) *Term {
	switch f.op {
	case "eq":
		for i := range 2 {
			if a := f.args[i]; v && a.isInt() && a.n == -1 {
				return f.args[1-i]
			}
		}
	case "lt":
		if a, b := f.args[0], f.args[1]; v && b.isInt() && b.n <= 0 {
			return a
		} else if !v && a.isInt() && a.n == -1 {
			return b
		}
	}
	return nil
}

// ---- searches

type findLoop struct {
	low, high map[*ssa.Phi]bool
}

type finder struct {
	p    *Prog
	e    *PEngine
	list func(*Term) bool
	lst  *Term
	key  *Term
}

// checkFinder decides that a search of a key in a sorted list gives the place of an element with the key, or -1 only
// after every place was excluded: by a comparison with an element at or behind it on the wrong side.
func checkFinder(p *Prog, r *Result, e0 *PEngine, fn *ssa.Function) {
	cl := &PClient{}
	e := newPEngine(p, cl)
	e.readOnly = true
	c := &finder{p: p, e: e}
	cl.KeepFact = func(f *Term) bool { return true }
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*findLoop)
		if d == nil {
			d = &findLoop{map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}}
			lc.data = d
			for _, q := range lc.phis {
				if isIntTyp(q.Type()) {
					d.low[q], d.high[q] = true, true
				}
			}
		}
		for i, q := range lc.phis {
			if !lc.dropped[q] || !isIntTyp(q.Type()) {
				continue
			}
			d.low[q] = d.low[q] && c.isLow(head, lc.vals[i])
			d.high[q] = d.high[q] && c.isHigh(head, lc.vals[i])
			h := e.val(head, q)
			if d.low[q] {
				head.cl.(*evState).add("low", "", h)
			}
			if d.high[q] {
				head.cl.(*evState).add("high", "", h)
			}
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		d := lc.data.(*findLoop)
		for _, q := range lc.phis {
			if !lc.dropped[q] || !isIntTyp(q.Type()) {
				continue
			}
			if d.low[q] && !c.isLow(back, e.val(back, q)) {
				d.low[q], ch = false, true
			}
			if d.high[q] && !c.isHigh(back, e.val(back, q)) {
				d.high[q], ch = false, true
			}
		}
		return
	}
	var listT *Term
	c.list = func(t *Term) bool { return t == listT }
	st := e.Start(fn, &evState{})
	for _, q := range fn.Params {
		v := e.val(st, q)
		switch u := q.Type().Underlying().(type) {
		case *types.Slice:
			listT = v
		case *types.Pointer:
			if s, ok := u.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
						listT = e.loadField(st, v, q.Type(), s.Field(i).Name())
					}
				}
			}
		}
		if isStrTyp(q.Type()) {
			c.key = v
		}
	}
	if listT == nil {
		return
	}
	c.lst = listT
	for _, x := range e.RunFrom(fn, st) {
		r.count("search_paths", 1)
		res, pos := x.res[0], p.instrPos(x.ret)
		switch {
		case res.isInt() && res.n < 0:
			if !c.absent(x.st) {
				if dbg {
					for f, v := range x.st.facts {
						println("  fact", f.String(), v)
					}
				}
				e.fail("search", fnName(fn), pos, "the search ends without a place, and the places left were not excluded")
			}
		case !c.hasKey(x.st, res):
			if dbg {
				for f, v := range x.st.facts {
					println("  fact", f.String(), v)
				}
			}
			e.fail("search", fnName(fn), pos, "the place %s is returned, but the key there was not found to be the one searched", res)
		}
	}
	r.need("search_paths", 8)
	e0.finds = append(e0.finds, e.finds...)
}

// keyAt: t is the key of the element at the place i.
func (c *finder) keyAt(t *Term) *Term {
	if t.op == "load" && t.args[0].op == "fa" && hasSuffix(t.args[0].aux, ".Key") && t.args[0].args[0].op == "ia" && c.list(t.args[0].args[0].args[0]) {
		return t.args[0].args[0].args[1]
	}
	return nil
}

const nameKey = "__name__"

func (c *finder) isName(t *Term) bool { return t.isStr() && constantString(t) == nameKey }

// hasKey: the element at i has the key.
func (c *finder) hasKey(st *PState, i *Term) bool {
	e := c.e
	first, name := false, e.truth(st, e.ts.eq(c.key, e.ts.strc(nameKey))) == 1
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		for j := range 2 {
			a, b := f.args[j], f.args[1-j]
			if k := c.keyAt(a); k != nil && (k == i || e.same(st, k, i)) {
				if b == c.key {
					return true
				}
				if c.isName(b) {
					first = true
				}
			}
		}
	}
	return first && name
}

// side: 1 when the element at a place is known to be before the key, 2 behind it, 3 at or before it, 5 at or behind it; 4 when it differs.
func (c *finder) sides(st *PState, f func(i *Term, side int) bool) bool {
	e := c.e
	ne := map[*Term]bool{}
	for g, v := range st.facts {
		if g.op == "eq" && !v {
			for j := range 2 {
				if k := c.keyAt(g.args[j]); k != nil && g.args[1-j] == c.key {
					ne[k] = true
					if f(k, 4) {
						return true
					}
				}
			}
		}
	}
	for g, v := range st.facts {
		if g.op == "eq" && v {
			for j := range 2 {
				// the name comes first
				if k := c.keyAt(g.args[j]); k != nil && c.isName(g.args[1-j]) && k == e.ts.intc(0) && e.truth(st, e.ts.eq(c.key, e.ts.strc(nameKey))) == 0 {
					if f(k, 1) {
						return true
					}
				}
			}
		}
		if g.op != "lt" {
			continue
		}
		a, b := g.args[0], g.args[1]
		if k := c.keyAt(a); k != nil && b == c.key {
			if v {
				if f(k, 1) {
					return true
				}
			} else if ne[k] {
				if f(k, 2) {
					return true
				}
			} else if f(k, 5) {
				return true
			}
		}
		if k := c.keyAt(b); k != nil && a == c.key {
			if v {
				if f(k, 2) {
					return true
				}
			} else if ne[k] {
				if f(k, 1) {
					return true
				}
			} else if f(k, 3) {
				return true
			}
		}
	}
	return false
}

func hasEv(st *PState, kind string, t *Term) bool {
	for _, v := range st.cl.(*evState).evs {
		if v.kind == kind && v.ts[0] == t {
			return true
		}
	}
	return false
}

// isLow: no place before t can have the key.
func (c *finder) isLow(st *PState, t *Term) bool {
	e := c.e
	if t == e.ts.intc(0) || hasEv(st, "low", t) {
		return true
	}
	return c.sides(st, func(i *Term, s int) bool {
		switch s {
		case 1:
			return t == i || t == e.ts.addT(i, e.ts.intc(1), 1) || e.same(st, t, e.ts.addT(i, e.ts.intc(1), 1))
		case 3:
			return t == i
		case 4:
			return t == e.ts.addT(i, e.ts.intc(1), 1) && c.isLow(st, i)
		}
		return false
	})
}

// isHigh: no place behind t can have the key.
func (c *finder) isHigh(st *PState, t *Term) bool {
	e := c.e
	if hasEv(st, "high", t) {
		return true
	}
	if t.op == "sum" || t.op == "len" {
		l := linOf(t)
		for x, n := range l.m {
			if x.op == "len" && c.list(x.args[0]) && n == 1 && len(l.m) == 1 && l.k >= -1 {
				return true
			}
		}
	}
	return c.sides(st, func(i *Term, s int) bool {
		return s == 2 && (t == i || t == e.ts.addT(i, e.ts.intc(1), -1) || e.same(st, t, e.ts.addT(i, e.ts.intc(1), -1)))
	})
}

// absent: every place is excluded.
func (c *finder) absent(st *PState) bool {
	e := c.e
	empty := e.ts.strc("")
	if e.truth(st, e.ts.eq(c.key, empty)) == 1 {
		return true
	}
	for f, v := range st.facts {
		// no elements
		if v && f.op == "eq" {
			for j := range 2 {
				if a, b := f.args[j], f.args[1-j]; b.op == "len" && c.list(b.args[0]) && a.isInt() && a.n == 0 {
					return true
				}
			}
		}
		// the name is not the first
		if !v && f.op == "eq" && e.truth(st, e.ts.eq(c.key, e.ts.strc(nameKey))) == 1 {
			for j := range 2 {
				if k := c.keyAt(f.args[j]); k == e.ts.intc(0) && (c.isName(f.args[1-j]) || f.args[1-j] == c.key) {
					return true
				}
			}
		}
	}
	var lows, highs, diff []*Term
	for _, v := range st.cl.(*evState).evs {
		switch v.kind {
		case "low":
			lows = append(lows, v.ts[0])
		case "high":
			highs = append(highs, v.ts[0])
		}
	}
	one := e.ts.intc(1)
	lows = append(lows, e.ts.intc(0))
	highs = append(highs, e.ts.addT(e.lenT(c.lst), one, -1))
	c.sides(st, func(i *Term, s int) bool {
		switch s {
		case 1:
			lows = append(lows, e.ts.addT(i, one, 1))
		case 2:
			highs = append(highs, e.ts.addT(i, one, -1))
		case 4:
			diff = append(diff, i)
		}
		return false
	})
	for _, l := range lows {
		for _, h := range highs {
			if e.le(st, e.ts.addT(h, one, 1), l) {
				return true
			}
			for _, d := range diff {
				if e.same(st, d, l) && e.le(st, h, l) || e.same(st, d, h) && e.le(st, h, l) {
					return true
				}
			}
		}
	}
	return false
}
