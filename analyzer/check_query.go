package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = func(p *Prog, tier string) *Result { return checkQuery(p) }
}

// querier decides C20: a tag query is parsed into exactly the terms it is written with.
type querier struct {
	p   *Prog
	r   *Result
	e   *PEngine
	fn  *ssa.Function
	ops map[string]int64
}

type queryLoop struct {
	ok, done bool
	idx      *ssa.Phi
	at       *Term
	list     *Term
}

func checkQuery(p *Prog) *Result {
	c := &querier{p: p, r: newResult(), ops: map[string]int64{}}
	for n, s := range map[string]string{"TaggedTermEq": "=", "TaggedTermMatch": "=~", "TaggedTermNe": "!=", "TaggedTermNotMatch": "!=~"} {
		v, ok := p.constInt("gtags", n)
		if !ok {
			c.r.fail("anchor", "gtags."+n, "-", "the operator was not found")
			return c.r
		}
		c.ops[s] = v
	}
	if fn := p.lookupFunc("gtags.ParseTaggedConditions"); fn == nil {
		c.r.fail("anchor", "gtags.ParseTaggedConditions", "-", "the parser of conditions was not found")
	} else {
		c.conditions(fn)
		if q := p.lookupFunc("gtags.ParseSeriesByTag"); q == nil {
			c.r.fail("anchor", "gtags.ParseSeriesByTag", "-", "the parser of queries was not found")
		} else {
			c.query(q, fn)
		}
	}
	c.r.need("terms_parsed", 8)
	c.r.need("order_paths", 6)
	c.r.need("success_paths", 2)
	return c.r
}

func (c *querier) dump(st *PState) {
	if !dbg {
		return
	}
	for _, v := range st.cl.(*evState).evs {
		print("  ev ", v.kind)
		for _, t := range v.ts {
			print(" ", t.String())
		}
		println()
	}
	for f, v := range st.facts {
		println("  fact", f.String(), v)
	}
	for a, v := range st.mem {
		_ = a
		println("  mem", a.String(), v.String())
	}
}

func (c *querier) conditions(fn *ssa.Function) {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 400
	c.e, c.fn = e, fn
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return f.Pkg == fn.Pkg && len(f.Blocks) <= 60 && !e.rec[f]
	}
	cl.After = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, res *Term) {
		if callee == nil || len(in.Common().Args) == 0 || res == nil {
			return
		}
		switch n := fnName(callee); n {
		case "regexp.Compile", "glob.Parse":
			st.cl.(*evState).add("parse", n, e.val(st, in.Common().Args[0]), res)
		}
	}
	cl.Opaque = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) {
		if callee != nil && (fnName(callee) == "sort.Slice" || fnName(callee) == "sort.SliceStable") {
			l := args[0]
			if l.op == "iface" {
				l = l.args[0]
			}
			st.cl.(*evState).add("sort", args[1].aux, l)
		}
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) { lc.data = &queryLoop{ok: true} }
	cl.Back = c.condBack
	cl.LoopExit = func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
		d := lc.data.(*queryLoop)
		if d.ok && d.done && e.le(out, e.lenT(c.conds(out)), d.at) {
			out.cl.(*evState).add("all", "", d.list)
		}
	}
	name := fnName(fn)
	sorts := map[string]bool{}
	for _, x := range e.Run(fn, &evState{}) {
		pos := c.p.instrPos(x.ret)
		for _, isNil := range []bool{true, false} {
			st := x.st.clone()
			if !e.assume(st, e.ts.eq(x.res[1], e.ts.nilc()), isNil) {
				continue
			}
			if !isNil {
				c.r.count("error_paths", 1)
				if !c.condReason(st) {
					c.dump(st)
					e.fail("refuses", name, pos, "an error is returned for a condition without a reason for it")
				}
				continue
			}
			c.r.count("success_paths", 1)
			if e.truth(st, e.ts.eq(e.lenT(c.conds(st)), e.ts.intc(0))) == 1 {
				if e.truth(st, e.ts.eq(e.lenT(x.res[0]), e.ts.intc(0))) != 1 && e.truth(st, e.ts.eq(x.res[0], e.ts.nilc())) != 1 && x.res[0].op != "nil" {
					e.fail("terms", name, pos, "terms are returned for no conditions")
				}
				continue
			}
			all, sorted := false, false
			for _, v := range st.cl.(*evState).evs {
				switch v.kind {
				case "all":
					all = all || v.ts[0] == x.res[0]
				case "sort":
					if v.ts[0] == x.res[0] {
						sorted = true
						sorts[v.aux] = true
					}
				}
			}
			if !all {
				c.dump(st)
				e.fail("terms", name, pos, "the terms are returned, but not every condition was parsed into its term")
			}
			if !sorted {
				c.dump(st)
				e.fail("order", name, pos, "the terms are returned, but they were not sorted")
			}
		}
	}
	c.done()
	for s := range sorts {
		for _, f := range c.p.funcs {
			if f.String() == s {
				c.less(f)
			}
		}
	}
}

func (c *querier) done() {
	seen := map[string]bool{}
	for _, f := range c.e.finds {
		if k := f.Key() + f.Pos + f.Text; !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	c.r.count("loops_solved", c.e.loops)
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(c.fn))
}

func (c *querier) conds(st *PState) *Term { return st.frames[0].env[c.fn.Params[0]] }

// cond: the condition at a place.
func (c *querier) cond(st *PState, i *Term) *Term {
	e := c.e
	l := c.conds(st)
	s := e.load(st, e.ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), l, i), types.Typ[types.String])
	// the conditions are not written (C02), so it does not matter when it was read
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if a, k := elem(t); a == l && k == i && isStrTyp(t.typ) {
				s = t
			}
			return false
		})
	}
	return s
}

// prefix: what is known about a text starting with p.
func (c *querier) prefix(st *PState, s *Term, p string) int {
	e := c.e
	for f, v := range st.facts {
		if f.op == "call" && f.aux == "strings.HasPrefix" && f.args[1].isStr() && e.sameSpan(st, f.args[0], s) {
			q := constantString(f.args[1])
			switch {
			case v && strings.HasPrefix(q, p):
				return 1
			case v && !strings.HasPrefix(p, q):
				return 0
			case !v && strings.HasPrefix(p, q):
				return 0
			}
		}
		// the first symbol
		if f.op == "eq" {
			for j := range 2 {
				a, b := f.args[j], f.args[1-j]
				if !a.isInt() || b.op != "idx" {
					continue
				}
				x, lo, _ := e.span(b.args[0])
				y, lo2, _ := e.span(s)
				k := e.ts.addT(e.ts.addT(lo, b.args[1], 1), lo2, -1)
				if x != y || !k.isInt() || k.n < 0 || k.n >= int64(len(p)) {
					continue
				}
				if v != (int64(p[k.n]) == a.n) {
					if v || int64(p[k.n]) == a.n {
						return 0
					}
				} else if v && len(p) == 1 {
					return 1
				}
			}
		}
	}
	return -1
}

// operator: the operator with which a text starts, or "".
func (c *querier) operator(st *PState, s *Term) (op string) {
	switch {
	case c.prefix(st, s, "!=~") == 1:
		return "!=~"
	case c.prefix(st, s, "=~") == 1:
		return "=~"
	case c.prefix(st, s, "!=") == 1 && c.prefix(st, s, "!=~") == 0:
		return "!="
	case c.prefix(st, s, "=") == 1 && c.prefix(st, s, "=~") == 0:
		return "="
	}
	return ""
}

func (c *querier) tail(s, from *Term) *Term {
	return c.e.ts.mk("slice", "", s.typ, s, from, c.e.none(), c.e.none())
}

func isTrim(t *Term) *Term {
	if t.op == "call" && t.aux == "strings.TrimSpace" {
		return t.args[0]
	}
	return nil
}

const opSymbols = "=~!"

// opAt: t is the place of the first symbol of an operator in s.
func (c *querier) opAt(t, s *Term) bool {
	return t.op == "call" && t.aux == "strings.IndexAny" && t.args[0] == s && t.args[1].isStr() && len(constantString(t.args[1])) == 3 && strings.Trim(constantString(t.args[1]), opSymbols) == ""
}

// term checks that the fields of the term at an address are the ones of the condition.
func (c *querier) term(st *PState, addr, s *Term) string {
	e := c.e
	tt := c.p.lookupType("gtags.TaggedTerm")
	pt := types.NewPointer(tt)
	get := func(n string) *Term { return e.loadField(st, addr, pt, n) }
	zero := func(t *Term) bool {
		return t.op == "nil" || t.isFalse() || t.op == "load" && addrRoot(t.args[0]).op == "alloc" || e.truth(st, e.ts.eq(t, e.ts.nilc())) == 1
	}
	key, op, val := get("Key"), get("Op"), get("Value")
	// the place of the operator
	var at *Term
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if c.opAt(t, s) {
				at = t
			}
			return at != nil
		})
	}
	if at == nil {
		return "the operator was not searched"
	}
	if b := e.bounds(st, at); !b.hasL || b.lo < 1 {
		return "a condition without a key is accepted"
	}
	isKey := func(t *Term) bool {
		x := isTrim(t)
		return x != nil && e.sameSpan(st, x, e.ts.mk("slice", "", s.typ, s, e.ts.intc(0), at, e.none()))
	}
	if key.isStr() && constantString(key) == nameKey {
		ok := false
		for f, v := range st.facts {
			if v && f.op == "eq" {
				for j := range 2 {
					if a := f.args[j]; a.isStr() && constantString(a) == "name" && isKey(f.args[1-j]) {
						ok = true
					}
				}
			}
		}
		if !ok {
			return "the key is replaced"
		}
	} else if !isKey(key) {
		return "the key is " + key.String()
	} else if e.truth(st, e.ts.eq(key, e.ts.strc("name"))) != 0 {
		return "the key name is not replaced"
	}
	rest := c.tail(s, at)
	sym := c.operator(st, rest)
	if sym == "" {
		return "the operator was not found"
	}
	if e.truth(st, e.ts.eq(op, e.ts.intc(c.ops[sym]))) != 1 {
		return "the operator of " + sym + " is " + op.String()
	}
	isRaw := func(t *Term) bool {
		x := isTrim(t)
		return x != nil && e.sameSpan(st, x, c.tail(s, e.ts.addT(at, e.ts.intc(int64(len(sym))), 1)))
	}
	wild, gl, re := get("HasWildcard"), get("Glob"), get("Re")
	parsed := func(what string, res *Term) bool {
		for _, v := range st.cl.(*evState).evs {
			if v.kind == "parse" && v.aux == what && isRaw(v.ts[0]) && res.op == "ext" && res.aux == "0" && res.args[0] == v.ts[1] && e.truth(st, e.ts.eq(e.ext(v.ts[1], 1, nil), e.ts.nilc())) == 1 {
				return true
			}
		}
		return false
	}
	if sym == "=~" || sym == "!=~" {
		if !isRaw(val) {
			return "the value is " + val.String()
		}
		if !parsed("regexp.Compile", re) {
			return "the regular expression is not compiled from the value"
		}
		return ""
	}
	if isRaw(val) && zero(wild) && zero(gl) {
		for f, v := range st.facts {
			if !v && f.op == "call" && isRaw(f.args[0]) && (f.aux == "pkg/items.HasWildcard" || f.aux == "strings.ContainsAny" && f.args[1].isStr() && len(constantString(f.args[1])) == 6 && strings.Trim(constantString(f.args[1]), "[]{}*?") == "") {
				return ""
			}
		}
		return "the value is not searched for wildcards"
	}
	if !isField(val, nil, "Node") || !parsed("glob.Parse", val.args[0].args[0]) {
		return "the value is " + val.String()
	}
	g := val.args[0].args[0]
	if e.truth(st, wild) == 1 && gl == g {
		return ""
	}
	if e.truth(st, wild) == 0 && zero(gl) {
		if e.nonEmpty(st, c.globItems(st, g)) == 0 {
			return ""
		}
	}
	return "the glob of the value is not kept"
}

func (c *querier) globItems(st *PState, g *Term) *Term {
	return c.e.loadField(st, g, types.NewPointer(c.p.lookupType("glob.Glob")), "Items")
}

func (c *querier) condBack(e *PEngine, lc *loopCtx, head, back *PState) {
	d := lc.data.(*queryLoop)
	pos, fn := c.p.instrPos(lc.l.head.Instrs[0]), fnName(lc.l.head.Parent())
	var addr, list *Term
	why := "no term is made for a condition"
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isIntTyp(q.Type()) {
			continue
		}
		h := e.val(head, q)
		if s := e.ts.addT(e.val(back, q), h, -1); !s.isInt() || s.n != 1 {
			continue
		}
		for _, off := range []int64{0, 1} {
			at := e.ts.addT(h, e.ts.intc(off), 1)
			if first := e.ts.addT(lc.vals[i], e.ts.intc(off), 1); !first.isInt() || first.n != 0 || d.at != nil && d.at != at {
				continue
			}
			// appended, or written in place
			for _, q := range lc.phis {
				v := e.val(back, q)
				if lc.dropped[q] && v.op == "append" && v.args[0] == e.val(head, q) && arrayLen(v.args[1]) == 1 {
					list = e.val(head, q)
					addr = e.ts.mk("ia", "", types.NewPointer(c.p.lookupType("gtags.TaggedTerm")), v.args[1].args[0], e.ts.intc(0))
				}
			}
			if addr == nil {
				for a := range back.mem {
					if a.op == "fa" && a.args[0].op == "ia" && a.args[0].args[1] == at && a.args[0].args[0].op == "alloc" {
						addr, list = a.args[0], a.args[0].args[0]
						if !e.same(back, e.lenT(list), e.lenT(c.conds(back))) {
							why = "the terms are not as many as the conditions"
							addr = nil
						}
					}
				}
			}
			if addr == nil {
				continue
			}
			if why = c.term(back, addr, c.cond(back, at)); why == "" {
				d.idx, d.at, d.list, d.done = q, at, list, true
				c.r.count("terms_parsed", 1)
				return
			}
		}
	}
	d.ok = false
	c.dump(back)
	e.fail("term", fn, pos, "%s", why)
}

// condReason: a condition has no key or no operator, or its value could not be parsed.
func (c *querier) condReason(st *PState) bool {
	e := c.e
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "parse" && e.truth(st, e.ts.eq(e.ext(v.ts[1], 1, nil), e.ts.nilc())) == 0 {
			return true
		}
	}
	found := false
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.op == "call" && c.opAt(t, t.args[0]) {
				b := e.bounds(st, t)
				if b.hasH && b.hi < 1 {
					found = true
				}
				rest := c.tail(t.args[0], t)
				if c.prefix(st, rest, "=") == 0 && c.prefix(st, rest, "!=") == 0 {
					found = true
				}
			}
			return found
		})
	}
	return found
}

// ---- the order of terms

// less checks that a comparison of terms orders them by key, the name first, operator and value.
func (c *querier) less(fn *ssa.Function) {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.readOnly = true
	e.maxSt = 400
	c.e, c.fn = e, fn
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return f.Pkg == fn.Pkg && len(f.Blocks) <= 40 && !e.rec[f]
	}
	if len(fn.Params) != 2 {
		return
	}
	for _, x := range e.Run(fn, &evState{}) {
		pos := c.p.instrPos(x.ret)
		for _, want := range []bool{true, false} {
			st := x.st.clone()
			if !e.assume(st, x.res[0], want) {
				continue
			}
			c.r.count("order_paths", 1)
			if why := c.order(st, want); why != "" {
				c.dump(st)
				e.fail("order", fnName(fn), pos, "a term is placed before another one: %v, but %s", want, why)
			}
		}
	}
	c.done()
}

// side: which of the two terms a field belongs to, 0 or 1, or -1
func (c *querier) side(st *PState, t *Term, name string) int {
	if !isField(t, nil, name) {
		return -1
	}
	a := t.args[0].args[0]
	if a.op != "ia" {
		return -1
	}
	for i := range 2 {
		if a.args[1] == st.frames[0].env[c.fn.Params[i]] {
			return i
		}
	}
	return -1
}

// rel gives the ways in which a field of both terms may compare: bits 1 less, 2 equal, 4 greater.
func (c *querier) rel(st *PState, name string) int {
	s := 7
	for f, v := range st.facts {
		if f.op != "lt" && f.op != "eq" {
			continue
		}
		a, b := c.side(st, f.args[0], name), c.side(st, f.args[1], name)
		if a < 0 || b < 0 || a == b {
			continue
		}
		m := 2
		if f.op == "lt" {
			m = 1
			if a == 1 {
				m = 4
			}
		}
		if !v {
			m = 7 &^ m
		}
		s &= m
	}
	return s
}

func (c *querier) order(st *PState, want bool) string {
	name := [2]int{-1, -1}
	for f, v := range st.facts {
		if f.op == "eq" {
			for j := range 2 {
				if a := f.args[j]; a.isStr() && constantString(a) == nameKey {
					if k := c.side(st, f.args[1-j], "Key"); k >= 0 {
						name[k] = factTruth(v)
					}
				}
			}
		}
	}
	rk, ro, rv := c.rel(st, "Key"), c.rel(st, "Op"), c.rel(st, "Value")
	each := func(s int, f func(k int) string) string {
		for _, k := range []int{1, 2, 4} {
			if s&k != 0 {
				if w := f(k); w != "" {
					return w
				}
			}
		}
		return ""
	}
	return each(rk, func(k int) string {
		for n0 := range 2 {
			for n1 := range 2 {
				if name[0] >= 0 && name[0] != n0 || name[1] >= 0 && name[1] != n1 || n0 == 1 && n1 == 1 && k != 2 || n0 != n1 && k == 2 {
					continue
				}
				if k != 2 {
					less := k == 1
					if n0 == 1 {
						less = true
					} else if n1 == 1 {
						less = false
					}
					if less != want {
						return "their keys are ordered the other way"
					}
					continue
				}
				if w := each(ro, func(o int) string {
					if o != 2 {
						if (o == 1) != want {
							return "their operators are ordered the other way"
						}
						return ""
					}
					return each(rv, func(v int) string {
						if (v == 1) != want {
							return "their values are ordered the other way"
						}
						return ""
					})
				}); w != "" {
					return w
				}
			}
		}
		return ""
	})
}

// ---- the text of a query

type argLoop struct {
	ok, done bool
	rest, n  *ssa.Phi
	scan     *ssa.Phi // a search for a byte
	text, b  *Term
	at, buf  *Term
}

// query checks that the arguments of a query are exactly its quoted texts.
func (c *querier) query(fn, conds *ssa.Function) {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 400
	c.e, c.fn = e, fn
	name := fnName(fn)
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return f != conds && f.Pkg == fn.Pkg && len(f.Blocks) <= 60 && !e.rec[f]
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op == "ia" && isStrTyp(val.typ) {
			st.cl.(*evState).add("arg", "", addr.args[0], addr.args[1], val)
		}
	}
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee != conds || in.Value() == nil {
			return false, nil
		}
		c.r.count("queries_parsed", 1)
		ok := false
		l, n := args[0], (*Term)(nil)
		if l.op == "slice" && l.args[1].isInt() && l.args[1].n == 0 {
			n = l.args[2]
			l = addrRoot(l)
		}
		for _, v := range st.cl.(*evState).evs {
			if v.kind == "args" && (n == v.ts[1] && l == addrRoot(v.ts[0]) || args[0] == v.ts[0]) {
				ok = true
			}
		}
		if !ok {
			c.dump(st)
			e.fail("arguments", name, c.p.instrPos(in), "the conditions which are parsed are not known to be all quoted texts of the query (%s)", args[0])
		}
		t := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name()+".conds", in.Value().Type())
		st.cl.(*evState).add("conds", "", t)
		return true, t
	}
	cl.LoopHead = c.argHead
	cl.BackCheck = c.argBackCheck
	cl.Back = c.argBack
	cl.LoopExit = c.argExit
	for _, x := range e.Run(fn, &evState{}) {
		pos := c.p.instrPos(x.ret)
		parsed := false
		for _, v := range x.st.cl.(*evState).evs {
			if v.kind == "conds" && x.res[0] == e.ext(v.ts[0], 0, nil) && x.res[1] == e.ext(v.ts[0], 1, nil) {
				parsed = true
			}
		}
		if parsed {
			c.r.count("success_paths", 1)
			continue
		}
		if e.truth(x.st, e.ts.eq(x.res[1], e.ts.nilc())) != 0 {
			c.dump(x.st)
			e.fail("arguments", name, pos, "a query is accepted, and its conditions were not parsed")
		} else if !c.argReason(x.st) {
			c.dump(x.st)
			e.fail("refuses", name, pos, "an error is returned for a query without a reason for it")
		}
		c.r.count("error_paths", 1)
	}
	c.done()
}

// body: t is the text between the brackets of the query.
func (c *querier) body(st *PState, t *Term) bool {
	e := c.e
	x, lo, hi := e.span(t)
	q := st.frames[0].env[c.fn.Params[0]]
	if x.op != "call" || x.aux != "strings.Trim" && x.aux != "strings.TrimSpace" || x.args[0] != q {
		return false
	}
	if !lo.isInt() || lo.n != 12 || hi != e.ts.addT(e.lenT(x), e.ts.intc(1), -1) {
		return false
	}
	return c.prefix(st, x, "seriesByTag(") == 1 && c.byteAt(st, x, hi) == ')'
}

// byteAt: the byte known to be at a place of a text, or -1.
func (c *querier) byteAt(st *PState, s, i *Term) int64 {
	e := c.e
	for f, v := range st.facts {
		if f.op == "eq" && v {
			for j := range 2 {
				if a, b := f.args[j], f.args[1-j]; a.isInt() && c.isByte(st, b, s, i) {
					return a.n
				}
			}
		}
		if f.op == "call" && f.aux == "strings.HasSuffix" && v && f.args[0] == s && f.args[1].isStr() && len(constantString(f.args[1])) == 1 && i == e.ts.addT(e.lenT(s), e.ts.intc(1), -1) {
			return int64(constantString(f.args[1])[0])
		}
		if f.op == "call" && f.aux == "strings.HasPrefix" && v && i.isInt() && i.n == 0 && e.sameSpan(st, f.args[0], s) && f.args[1].isStr() && len(constantString(f.args[1])) == 1 {
			return int64(constantString(f.args[1])[0])
		}
	}
	return -1
}

// isByte: t is the byte of s at i.
func (c *querier) isByte(st *PState, t, s, i *Term) bool {
	e := c.e
	if t.op != "idx" {
		return false
	}
	x, lo, _ := e.span(t.args[0])
	y, lo2, _ := e.span(s)
	return x == y && e.ts.addT(lo, t.args[1], 1) == e.ts.addT(lo2, i, 1)
}

// quoted: the text of the argument at the start of h and what follows it, as the place of its end.
func (c *querier) quoted(st *PState, h *Term) (ends []*Term) {
	e := c.e
	if b := c.byteAt(st, h, e.ts.intc(0)); b != '\'' && b != '"' {
		return
	}
	in := c.tail(h, e.ts.intc(1))
	isQuote := func(t *Term) bool {
		return c.isByte(st, t, h, e.ts.intc(0)) || t.isInt() && t.n == c.byteAt(st, h, e.ts.intc(0))
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "found" && e.sameSpan(st, v.ts[0], in) && isQuote(v.ts[1]) {
			ends = append(ends, v.ts[2])
		}
	}
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.op == "call" && t.aux == "strings.IndexByte" && e.sameSpan(st, t.args[0], in) && isQuote(t.args[1]) {
				if b := e.bounds(st, t); b.hasL && b.lo >= 0 || e.truth(st, e.ts.eq(t, e.ts.intc(-1))) == 0 {
					ends = append(ends, t)
				}
			}
			return false
		})
	}
	return
}

func (c *querier) argHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*argLoop)
	if d == nil {
		d = &argLoop{}
		lc.data = d
	}
	d.ok, d.done, d.rest, d.n = true, false, nil, nil
	for i, q := range lc.phis {
		if !lc.dropped[q] {
			continue
		}
		h := e.val(head, q)
		if isStrTyp(q.Type()) && c.body(head, lc.vals[i]) {
			d.rest = q
			head.cl.(*evState).add("rest", "", h)
		}
		if d.scan == q && d.rest == nil {
			head.cl.(*evState).add("before", "", d.text, d.b, d.at)
			e.assume(head, e.ts.lt(d.at, e.ts.intc(0)), false)
		}
	}
	if d.rest == nil {
		return
	}
	for i, q := range lc.phis {
		if lc.dropped[q] && isIntTyp(q.Type()) && lc.vals[i].isInt() && lc.vals[i].n == 0 {
			d.n = q
		}
	}
}

// argBackCheck: a search for a byte, from the start of a text on.
func (c *querier) argBackCheck(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
	d := lc.data.(*argLoop)
	if d.rest != nil {
		return
	}
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isIntTyp(q.Type()) || d.scan != nil && d.scan != q {
			continue
		}
		h := e.val(head, q)
		ok := false
		if s := e.ts.addT(e.val(back, q), h, -1); s.isInt() && s.n == 1 {
			for f, v := range back.facts {
				if v || f.op != "eq" {
					continue
				}
				for j := range 2 {
					a, b := f.args[j], f.args[1-j]
					if a.op != "idx" || !a.args[1].contains(h) || b.contains(h) {
						continue
					}
					first := e.ts.addT(a.args[1], e.ts.addT(lc.vals[i], h, -1), 1)
					if first.isInt() && first.n == 0 && (d.scan == nil || a.args[0] == d.text && b == d.b && a.args[1] == d.at) {
						if d.scan == nil && !d.done {
							d.scan, d.text, d.b, d.at = q, a.args[0], b, a.args[1]
							ch = true
						}
						ok = true
					}
				}
			}
		}
		if !ok && d.scan == q {
			d.scan, d.done = nil, true
			ch = true
		}
	}
	return
}

func (c *querier) argBack(e *PEngine, lc *loopCtx, head, back *PState) {
	d := lc.data.(*argLoop)
	if d.rest == nil {
		return
	}
	pos, fn := c.p.instrPos(lc.l.head.Instrs[0]), fnName(lc.l.head.Parent())
	fail := func(f string, a ...any) {
		d.ok = false
		c.dump(back)
		e.fail("arguments", fn, pos, f, a...)
	}
	h, rest := e.val(head, d.rest), e.val(back, d.rest)
	var args []ev
	for _, v := range back.cl.(*evState).since(head.cl) {
		if v.kind == "arg" {
			args = append(args, v)
		}
	}
	var n0, n1 *Term
	if d.n != nil {
		n0, n1 = e.val(head, d.n), e.val(back, d.n)
	}
	// the list may be appended to
	for _, q := range lc.phis {
		if v := e.val(back, q); lc.dropped[q] && v.op == "append" && v.args[0] == e.val(head, q) && arrayLen(v.args[1]) == 1 {
			a := e.ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), v.args[1].args[0], e.ts.intc(0))
			args = []ev{{"arg", "list", []*Term{v.args[0], nil, e.load(back, a, types.Typ[types.String])}}}
		}
	}
	if b := c.byteAt(back, h, e.ts.intc(0)); b == ' ' || b == ',' {
		if len(args) > 0 || n0 != n1 || !e.sameSpan(back, rest, c.tail(h, e.ts.intc(1))) {
			fail("behind a space or a comma the query goes on with %s", rest)
			return
		}
		c.r.count("pieces", 1)
		return
	}
	for _, end := range c.quoted(back, h) {
		one := e.ts.intc(1)
		if !e.sameSpan(back, rest, c.tail(h, e.ts.addT(end, e.ts.intc(2), 1))) {
			continue
		}
		txt := e.ts.mk("slice", "", h.typ, h, one, e.ts.addT(end, one, 1), e.none())
		switch {
		case len(args) == 0:
			if n0 != n1 {
				continue
			}
			empty := e.truth(back, e.ts.eq(end, e.ts.intc(0))) == 1
			for f, v := range back.facts {
				if v && f.op == "eq" {
					for j := range 2 {
						if a := f.args[j]; a.isStr() && constantString(a) == "" && e.sameSpan(back, f.args[1-j], txt) {
							empty = true
						}
					}
				}
			}
			if !empty {
				fail("a text which is not empty is left out")
				return
			}
		case len(args) == 1:
			v := args[0]
			if v.aux == "" && (v.ts[1] != n0 || n1 != e.ts.addT(n0, one, 1)) {
				fail("the argument is not put behind the others")
				return
			}
			if !e.sameSpan(back, v.ts[2], txt) {
				fail("the argument is %s", v.ts[2])
				return
			}
			if d.buf != nil && d.buf != v.ts[0] {
				fail("the arguments are put into different lists")
				return
			}
			d.buf = v.ts[0]
			c.r.count("arguments_recorded", 1)
		default:
			fail("more than one argument is recorded")
			return
		}
		c.r.count("pieces", 1)
		return
	}
	fail("the query goes on with %s, which is not behind a quoted text", rest)
}

func (c *querier) argExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d := lc.data.(*argLoop)
	if d.scan != nil && d.rest == nil {
		for f, v := range out.facts {
			if f.op == "eq" && v {
				for j := range 2 {
					if a := f.args[j]; a.op == "idx" && a.args[0] == d.text && a.args[1] == d.at && f.args[1-j] == d.b {
						out.cl.(*evState).add("found", "", d.text, d.b, d.at)
					}
				}
			}
		}
		if e.le(out, e.lenT(d.text), d.at) {
			out.cl.(*evState).add("none", "", d.text, d.b)
			e.assume(out, e.ts.eq(e.lenT(d.text), d.at), true)
		} else if e.truth(out, e.ts.eq(e.lenT(d.text), d.at)) < 0 {
			e.assume(out, e.ts.lt(d.at, e.lenT(d.text)), true)
		}
		return
	}
	if d.rest == nil || !d.ok {
		return
	}
	h := e.val(head, d.rest)
	if !(e.truth(out, e.ts.eq(h, e.ts.strc(""))) == 1 || e.le(out, e.lenT(h), e.ts.intc(0))) {
		return
	}
	if d.n != nil && d.buf != nil {
		// all texts are in the places before n
		out.cl.(*evState).add("args", "", d.buf, e.val(head, d.n))
	}
	for _, q := range lc.phis {
		if lc.dropped[q] && typName(q.Type()) == "[]string" {
			out.cl.(*evState).add("args", "", e.val(head, q), nil)
		}
	}
}

// argReason: the query has another form, more arguments than there is place for, or a text without its end.
func (c *querier) argReason(st *PState) bool {
	e := c.e
	q := st.frames[0].env[c.fn.Params[0]]
	trimmed := func(t *Term) bool {
		return t.op == "call" && (t.aux == "strings.Trim" || t.aux == "strings.TrimSpace") && t.args[0] == q
	}
	var x *Term
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if trimmed(t) {
				x = t
			}
			return x != nil
		})
	}
	if x != nil {
		last := e.ts.addT(e.lenT(x), e.ts.intc(1), -1)
		if c.prefix(st, x, "seriesByTag(") == 0 {
			return true
		}
		for f, v := range st.facts {
			if f.op == "eq" && !v {
				for j := range 2 {
					if a := f.args[j]; a.isInt() && a.n == ')' && c.isByte(st, f.args[1-j], x, last) {
						return true
					}
				}
			}
			if f.op == "call" && f.aux == "strings.HasSuffix" && !v && f.args[0] == x && f.args[1].isStr() && constantString(f.args[1]) == ")" {
				return true
			}
		}
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind != "rest" {
			continue
		}
		h := v.ts[0]
		no := map[int64]bool{}
		for f, k := range st.facts {
			if f.op == "eq" && !k {
				for j := range 2 {
					if a := f.args[j]; a.isInt() && c.isByte(st, f.args[1-j], h, e.ts.intc(0)) {
						no[a.n] = true
					}
				}
			}
			// no place for one more
			if f.op == "eq" && k {
				for j := range 2 {
					if a, b := f.args[j], f.args[1-j]; (a.op == "len" || a.isInt() && a.n >= 16) && b.op == "sym" && isIntTyp(b.typ) {
						return true
					}
				}
			}
			if f.op == "lt" && !k && f.args[0].op == "sym" && (f.args[1].op == "len" || f.args[1].isInt() && f.args[1].n >= 16) {
				return true
			}
		}
		if no['\''] && no['"'] && no[' '] && no[','] {
			return true
		}
		in := c.tail(h, e.ts.intc(1))
		for _, w := range st.cl.(*evState).evs {
			if w.kind == "none" && e.sameSpan(st, w.ts[0], in) && c.isByte(st, w.ts[1], h, e.ts.intc(0)) {
				return true
			}
		}
		for f, k := range st.facts {
			if t := absentFact(f, k); t != nil && t.op == "call" && t.aux == "strings.IndexByte" && e.sameSpan(st, t.args[0], in) {
				return true
			}
		}
	}
	return false
}
