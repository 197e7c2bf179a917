package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = func(p *Prog, tier string) *Result { return checkPieces(p) }
}

// piecer decides C27: the pieces of an expression cover its text, in order.
type piecer struct {
	parser
	pair, expr, class *ssa.Function
	piece             types.Type // a piece
	obj               *Term      // the result
	n                 int
	text              *Term // the text left at the head of the loop, or the whole text
}

type exprLoop struct {
	in   *ssa.Phi   // the text left
	list *ssa.Phi   // the pieces so far
	pair []*ssa.Phi // the offsets of the pair in the text left
	text *Term
}

func checkPieces(p *Prog) *Result {
	c := &piecer{}
	c.p, c.r = p, newResult()
	t := p.lookupType("expand.Expression")
	parse := p.lookupFunc("expand.ParseExpr")
	for _, f := range p.funcs {
		if f.Pkg == nil || rel(f.Pkg.Pkg.Path()) != "expand" || f.Blocks == nil || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		s := f.Signature
		if s.Params().Len() != 1 || !isStrTyp(s.Params().At(0).Type()) {
			continue
		}
		rs := s.Results()
		switch {
		case rs.Len() == 2 && isIntTyp(rs.At(0).Type()) && isIntTyp(rs.At(1).Type()):
			c.pair = f
		case rs.Len() == 1 && t != nil && types.Identical(rs.At(0).Type(), t):
			c.expr = f
		case rs.Len() == 2 && isBoolTyp(rs.At(1).Type()):
			c.class = f
		}
	}
	if t == nil || parse == nil || c.pair == nil || c.expr == nil || c.class == nil {
		c.r.fail("anchor", "expand", "-", "the functions which take the pieces of an expression were not found")
		return c.r
	}
	c.piece = t
	c.covers(parse)
	c.values()
	c.brackets()
	c.r.need("obligations", 30)
	return c.r
}

func (c *piecer) open(fn *ssa.Function, but ...*ssa.Function) {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 400
	c.e, c.fn = e, fn
	stop := map[*ssa.Function]bool{}
	for _, f := range but {
		stop[f] = true
	}
	rec := e.recBut(stop)
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool { return !stop[f] && !rec[f] }
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(fn))
}

func (c *piecer) close() {
	seen := map[string]bool{}
	for _, f := range c.e.finds {
		if k := f.Key() + f.Pos + f.Text; !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	c.r.count("paths", c.e.paths)
}

func (c *piecer) evs(st *PState) []ev { return st.cl.(*evState).evs }

func (c *piecer) since(st *PState) []ev {
	vs := c.evs(st)
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].kind == "loop" {
			return vs[i+1:]
		}
	}
	return vs
}

func (c *piecer) add(st *PState, kind, aux string, ts ...*Term) {
	c.n++
	st.cl.(*evState).add(kind, aux+"#"+itoa(c.n), ts...)
}

func (c *piecer) isPieces(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), c.piece)
}

// now gives the list of pieces so far.
func (c *piecer) now(st *PState) *Term {
	vs := c.evs(st)
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].kind == "list" {
			return vs[i].ts[0]
		}
	}
	return nil
}

func (c *piecer) kind(name string) *Term {
	n, _ := c.p.constInt("expand", name)
	return c.e.ts.intc(n)
}

// plain: a piece with one alternative.
func (c *piecer) plain(st *PState, typ *Term) bool {
	e := c.e
	is := func(n string) int { return e.truth(st, e.ts.eq(typ, c.kind(n))) }
	return is("expString") == 1 || is("expWildcard") == 1 || is("expList") == 0 && is("expRunes") == 0
}

// took tells of the pieces of a new list behind the others.
func (c *piecer) took(st *PState, l, arr *Term, pos string) {
	e := c.e
	k := arrayLen(arr)
	if k < 0 {
		c.ok(false, "piece", pos, "it is not known which pieces are added (%s)", arr)
		return
	}
	pt := types.NewPointer(c.piece)
	for i := int64(0); i < k; i++ {
		x := e.load(st, e.ts.mk("ia", "", pt, arr.args[0], e.ts.intc(i)), c.piece)
		s := c.piece.Underlying().(*types.Struct)
		var body, typ *Term
		for j := 0; j < s.NumFields(); j++ {
			switch s.Field(j).Name() {
			case "body":
				body = e.fieldOf(x, c.piece, j)
			case "typ":
				typ = e.fieldOf(x, c.piece, j)
			}
		}
		c.add(st, "part", "", body, typ, l)
	}
}

// covers checks the function which takes the pieces of a text.
func (c *piecer) covers(fn *ssa.Function) {
	c.open(fn, c.pair, c.expr, c.class)
	e := c.e
	ts := e.ts
	cl := e.cl
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		switch callee {
		case nil:
			return false, nil
		case c.pair:
			id := st.top().id + "/" + in.Value().Name()
			a, b := e.fresh(st, "sym", id+".start", types.Typ[types.Int]), e.fresh(st, "sym", id+".stop", types.Typ[types.Int])
			c.pairFacts(st, args[0], a, b)
			c.add(st, "pair", "", args[0], a, b)
			return true, ts.mk("tuple", "", callee.Signature.Results(), a, b)
		case c.expr:
			x := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name(), c.piece)
			c.add(st, "expr", "", x, args[0])
			_, lo, hi := e.span(args[0])
			good := false
			for _, v := range c.evs(st) {
				if v.kind != "pair" {
					continue
				}
				_, l2, _ := e.span(v.ts[0])
				good = good || c.sameTexts(st, []*Term{args[0]}, []*Term{ts.mk("slice", "", types.Typ[types.String], v.ts[0], v.ts[1], ts.addT(v.ts[2], ts.intc(1), 1))}) && l2 != nil
			}
			c.ok(good, "pair", c.p.instrPos(in), "the expression taken is not the one from the opening to the closing bracket (%s to %s)", lo, hi)
			return true, x
		}
		return false, nil
	}
	cl.Append = func(e *PEngine, st *PState, in ssa.CallInstruction, res *Term) {
		if !c.isPieces(res.typ) {
			return
		}
		pos := c.p.instrPos(in)
		base := res.args[0]
		now := c.now(st)
		c.ok(now != nil && e.same(st, base, now) || now == nil && c.isEmpty(st, base), "dropped", pos, "a piece is added to another list than that of the pieces so far (%s)", base)
		c.took(st, res, res.args[1], pos)
		c.add(st, "list", "", res)
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		pos := c.p.instrPos(in)
		switch {
		case addr.op == "fa" && hasSuffix(addr.aux, "Expressions.exps"):
			now := c.now(st)
			switch {
			case now != nil && e.same(st, val, now) || now == nil && c.isEmpty(st, val):
			case now == nil && val.op == "slice" && arrayLen(val) >= 0:
				c.took(st, val, val, pos)
				c.add(st, "list", "", val)
			default:
				c.ok(false, "dropped", pos, "the pieces are replaced by another list (%s)", val)
			}
			c.add(st, "obj", "", addr.args[0])
			if now == nil && c.isEmpty(st, val) {
				c.add(st, "list", "", val)
			}
		case addr.op == "fa" && addr.args[0].op == "ia" && c.now(st) != nil && c.isPieces(addr.args[0].args[0].typ):
			if hasSuffix(addr.aux, ".body") {
				c.body(st, addr, val, pos)
			} else {
				c.ok(false, "piece", pos, "a piece which was taken is changed (%s)", addr)
			}
		}
	}
	cl.LoopHead = c.loopHead
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		d := lc.data.(*exprLoop)
		if d.pair != nil && d.in != nil {
			v := c.lastPair(back)
			if v == nil || v.ts[0] != e.val(back, d.in) || v.ts[1] != e.val(back, d.pair[0]) || v.ts[2] != e.val(back, d.pair[1]) {
				d.pair, ch = nil, true
			}
		}
		return
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*exprLoop)
		if d.in == nil {
			return
		}
		n0 := len(e.finds)
		pos := c.p.pos(fn.Pos())
		c.covered(back, e.val(head, d.in), e.val(back, d.in), pos)
		now := c.now(back)
		if d.list != nil {
			c.ok(now == e.val(back, d.list), "dropped", pos, "the pieces so far are not those of the next step (%s)", e.val(back, d.list))
		} else if o := c.object(back); o != nil {
			c.ok(now == c.held(back, o), "dropped", pos, "the pieces so far are not those of the next step")
		}
		if len(e.finds) > n0 {
			c.show(back)
		}
	}
	st := e.Start(fn, &evState{})
	whole := e.val(st, fn.Params[0])
	c.add(st, "text", "", whole)
	for _, x := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		pos := c.p.instrPos(x.ret)
		c.r.count("return_paths", 1)
		var text *Term
		for _, v := range c.evs(x.st) {
			if v.kind == "text" {
				text = v.ts[0]
			}
		}
		c.covered(x.st, text, nil, pos)
		l := e.loadField(x.st, x.res[0], fn.Signature.Results().At(0).Type(), "exps")
		now := c.now(x.st)
		c.ok(now != nil && e.same(x.st, l, now), "dropped", pos, "the pieces returned are not those taken (%s)", l)
		if len(e.finds) > n0 {
			c.show(x.st)
		}
	}
	c.close()
}

func (c *piecer) show(st *PState) {
	if !dbg {
		return
	}
	for _, v := range c.evs(st) {
		s := "  " + v.kind
		for _, t := range v.ts {
			if t == nil {
				s += " -"
			} else {
				s += " " + t.String()
			}
		}
		println(s)
	}
	for f, v := range st.facts {
		println("    fact", f.String(), v)
	}
}

func (c *piecer) object(st *PState) *Term {
	vs := c.evs(st)
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].kind == "obj" {
			return vs[i].ts[0]
		}
	}
	return nil
}

func (c *piecer) held(st *PState, o *Term) *Term {
	return c.e.loadField(st, o, c.p.lookupFunc("expand.ParseExpr").Signature.Results().At(0).Type(), "exps")
}

func (c *piecer) lastPair(st *PState) *ev {
	vs := c.evs(st)
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].kind == "pair" {
			return &vs[i]
		}
	}
	return nil
}

func (c *piecer) pairFacts(st *PState, s, a, b *Term) {
	e := c.e
	ts := e.ts
	m := ts.intc(-1)
	for _, x := range []*Term{a, b} {
		e.assume(st, ts.lt(x, m), false)
		e.assume(st, ts.lt(x, e.lenT(s)), true)
	}
}

func (c *piecer) isEmpty(st *PState, t *Term) bool {
	e := c.e
	if t.op == "slice" {
		return isZeroOrNone(t.args[1]) && t.args[2].isInt() && t.args[2].n == 0
	}
	if t.op == "nil" || t.op == "zero" || e.truth(st, e.ts.eq(e.lenT(t), e.ts.intc(0))) == 1 {
		return true
	}
	return false
}

// body: the text of a piece is changed.
func (c *piecer) body(st *PState, addr, val *Term, pos string) {
	e := c.e
	ts := e.ts
	l, i := addr.args[0].args[0], addr.args[0].args[1]
	now := c.now(st)
	c.ok(e.same(st, l, now) && e.same(st, e.flatLen(i), e.flatLen(ts.addT(e.lenT(now), ts.intc(1), -1))), "piece", pos, "the text of another piece than the last one is changed (%s)", i)
	old := e.load(st, addr, types.Typ[types.String])
	fl := c.flat(st, val)
	of := c.flat(st, old)
	typ := e.loadField(st, addr.args[0], types.NewPointer(c.piece), "typ")
	if len(fl) >= len(of) && c.sameTexts(st, fl[:len(of)], of) {
		c.ok(c.plain(st, typ), "piece", pos, "a text is put to a piece with alternatives")
		for _, t := range fl[len(of):] {
			c.add(st, "part", "", t, nil, now)
		}
		return
	}
	x, lo, hi := e.span(val)
	y, l2, h2 := e.span(old)
	if x == y && e.same(st, lo, l2) {
		c.ok(c.plain(st, typ), "piece", pos, "the text of a piece with alternatives is cut")
		c.add(st, "cut", "", ts.mk("slice", "", val.typ, x, hi, h2))
		return
	}
	c.ok(false, "piece", pos, "the text of a piece is replaced by another one (%s)", val)
}

func (c *piecer) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*exprLoop)
	var text *Term
	for _, v := range c.evs(head) {
		if v.kind == "text" {
			text = v.ts[0]
		}
	}
	if d == nil {
		d = &exprLoop{}
		lc.data = d
		p := c.lastPair(head)
		now := c.now(head)
		pr := make([]*ssa.Phi, 2)
		for i, q := range lc.phis {
			v := lc.vals[i]
			switch {
			case isStrTyp(q.Type()) && v == text:
				d.in = q
			case c.isPieces(q.Type()) && (now == nil && c.isEmpty(head, v) || now != nil && v == now):
				d.list = q
			case p != nil && v == p.ts[1]:
				pr[0] = q
			case p != nil && v == p.ts[2]:
				pr[1] = q
			}
		}
		if pr[0] != nil && pr[1] != nil && p.ts[0] == text {
			d.pair = pr
		}
		if d.in != nil {
			for _, v := range c.evs(head) {
				c.ok(v.kind != "part" && v.kind != "expr", "order", c.p.pos(c.fn.Pos()), "pieces are taken before the loop over the text")
			}
		}
	}
	if d.in == nil {
		return
	}
	h := e.val(head, d.in)
	c.add(head, "loop", "")
	c.add(head, "text", "", h)
	if d.list != nil {
		c.add(head, "list", "", e.val(head, d.list))
	} else if o := c.object(head); o != nil {
		c.add(head, "list", "", c.held(head, o))
	}
	if d.pair != nil {
		a, b := e.val(head, d.pair[0]), e.val(head, d.pair[1])
		c.pairFacts(head, h, a, b)
		c.add(head, "pair", "", h, a, b)
	}
}

// covered: the pieces taken in a step are the text from its start to rest, or to its end.
func (c *piecer) covered(st *PState, text, rest *Term, pos string) {
	e := c.e
	ts := e.ts
	vs := c.since(st)
	at := ts.intc(0)
	bad := func(format string, a ...any) { c.ok(false, "cover", pos, format, a...) }
	next := func(t *Term) bool {
		if t.isStr() && constantString(t) == "" {
			return true
		}
		x, lo, hi := e.span(t)
		if x != text || !e.same(st, e.flatLen(lo), e.flatLen(at)) {
			return false
		}
		at = hi
		return true
	}
	var cut, open *ev // the rest of a piece, an expression which was not put to the pieces yet
	exprs := map[*Term]*ev{}
	flush := func() bool { // an expression without text may be dropped
		if open == nil {
			return true
		}
		x := open.ts[0]
		typ, body := c.of(x, "typ"), c.of(x, "body")
		good := c.plain(st, typ) && e.truth(st, ts.eq(body, ts.strc(""))) == 1 && next(open.ts[1])
		open = nil
		return good
	}
	for i := range vs {
		v := &vs[i]
		switch v.kind {
		case "expr":
			if !flush() {
				bad("an expression taken from the text is put to no piece")
				return
			}
			exprs[c.of(v.ts[0], "body")] = v
			open = v
		case "cut":
			cut = v
		case "part":
			body := v.ts[0]
			if cut != nil {
				if !c.sameTexts(st, []*Term{body}, []*Term{cut.ts[0]}) {
					bad("the rest of a piece which was cut is not the next piece (%s)", body)
					return
				}
				cut = nil
				c.ok(v.ts[1] != nil && c.plain(st, v.ts[1]), "piece", pos, "a text is put as a piece with alternatives")
				continue
			}
			if x := exprs[body]; x != nil {
				if open != x {
					bad("an expression is put to the pieces twice")
					return
				}
				open = nil
				if v.ts[1] == nil {
					c.ok(c.plain(st, c.of(x.ts[0], "typ")), "piece", pos, "an expression with alternatives is put to the text before it")
				} else {
					c.ok(v.ts[1] == c.of(x.ts[0], "typ"), "piece", pos, "an expression is put as another kind of piece (%s)", v.ts[1])
				}
				if !next(x.ts[1]) {
					bad("an expression does not follow the text before it (%s)", x.ts[1])
					return
				}
				continue
			}
			if !flush() {
				bad("an expression taken from the text is put to no piece")
				return
			}
			c.ok(v.ts[1] == nil || c.plain(st, v.ts[1]), "piece", pos, "a text is put as a piece with alternatives")
			for _, t := range c.flat(st, body) {
				if !next(t) {
					bad("a piece does not follow the text before it (%s)", t)
					return
				}
			}
			// a text with a pair of brackets is not put as it is
			_, _, hi := e.span(body)
			for _, p := range vs {
				if p.kind == "pair" && p.ts[0] == text {
					good := e.le(st, e.flatLen(hi), p.ts[1]) || e.truth(st, ts.eq(p.ts[1], ts.intc(-1))) == 1 || e.truth(st, ts.eq(p.ts[2], ts.intc(-1))) == 1
					c.ok(good, "pair", pos, "an expression with brackets is put as it is (%s)", body)
				}
			}
		}
	}
	if !flush() {
		bad("an expression taken from the text is put to no piece")
		return
	}
	c.ok(cut == nil, "cover", pos, "the rest of a piece which was cut is dropped")
	if rest != nil {
		x, lo, hi := e.span(rest)
		c.ok(x == text && e.same(st, e.flatLen(lo), e.flatLen(at)) && e.same(st, e.flatLen(hi), e.flatLen(e.lenT(text))), "cover", pos, "the text left does not follow the pieces taken (%s)", rest)
		return
	}
	if e.same(st, e.flatLen(at), e.flatLen(e.lenT(text))) || e.truth(st, ts.lt(e.flatLen(at), e.lenT(text))) == 0 {
		c.ok(true, "cover", pos, "")
		return
	}
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		for i := range 2 {
			if f.args[i].isStr() && constantString(f.args[i]) == "" {
				x, lo, hi := e.span(f.args[1-i])
				if x == text && e.same(st, e.flatLen(lo), e.flatLen(at)) && e.same(st, e.flatLen(hi), e.flatLen(e.lenT(text))) {
					return
				}
			}
		}
	}
	bad("the pieces end before the text (at %s)", at)
}

// of gives a field of a piece.
func (c *piecer) of(x *Term, name string) *Term {
	s := c.piece.Underlying().(*types.Struct)
	for j := 0; j < s.NumFields(); j++ {
		if s.Field(j).Name() == name {
			return c.e.fieldOf(x, c.piece, j)
		}
	}
	return nil
}

// values checks the function which takes the alternatives of an expression in brackets.
func (c *piecer) values() {
	fn := c.expr
	c.open(fn, c.class)
	e := c.e
	ts := e.ts
	e.cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee != c.class {
			return false, nil
		}
		id := st.top().id + "/" + in.Value().Name()
		rs := callee.Signature.Results()
		x, ok := e.fresh(st, "sym", id+".runes", rs.At(0).Type()), e.fresh(st, "sym", id+".ok", types.Typ[types.Bool])
		c.add(st, "class", "", args[0], x, ok)
		return true, ts.mk("tuple", "", rs, x, ok)
	}
	st := e.Start(fn, &evState{})
	text := e.val(st, fn.Params[0])
	e.assume(st, ts.lt(e.lenT(text), ts.intc(2)), false) // brackets
	inner := ts.mk("slice", "", text.typ, text, ts.intc(1), ts.addT(e.lenT(text), ts.intc(1), -1))
	is := func(st *PState, t, u *Term) bool { return c.sameTexts(st, []*Term{t}, []*Term{u}) }
	for _, x := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		st, pos := x.st, c.p.instrPos(x.ret)
		c.r.count("return_paths", 1)
		r := x.res[0]
		typ, body := c.of(r, "typ"), c.of(r, "body")
		k := func(n string) bool { return e.truth(st, ts.eq(typ, c.kind(n))) == 1 }
		brace, square := c.begins(st, text, '{'), c.begins(st, text, '[')
		var cls *ev
		for _, v := range c.evs(st) {
			if v.kind == "class" {
				v := v
				cls = &v
				c.ok(is(st, v.ts[0], inner), "class", pos, "the ranges of another text than that between the brackets are taken (%s)", v.ts[0])
			}
		}
		switch {
		case k("expList"):
			l := c.of(r, "list")
			c.ok(brace != 0, "kind", pos, "a list is taken from a class")
			c.ok(is(st, body, text), "text", pos, "the text of a list is not the one with its brackets (%s)", body)
			c.ok(l.op == "call" && l.aux == "strings.Split" && l.args[1] == ts.strc(",") && is(st, l.args[0], inner), "values", pos, "the values of a list are not those of the text between its brackets (%s)", l)
		case k("expRunes"):
			l := c.of(r, "runes")
			c.ok(square != 0, "kind", pos, "a class is taken from a list")
			c.ok(is(st, body, text), "text", pos, "the text of a class is not the one with its brackets (%s)", body)
			c.ok(cls != nil && e.same(st, l, cls.ts[1]) && e.truth(st, cls.ts[2]) == 1, "values", pos, "the ranges of a class are not those of the text between its brackets (%s)", l)
		case k("expWildcard"):
			c.ok(is(st, body, text), "text", pos, "the text of an expression put as written is not the one with its brackets (%s)", body)
			c.ok(brace == 0 && (square == 0 || cls != nil && e.truth(st, cls.ts[2]) == 0), "kind", pos, "an expression which can be expanded is put as written")
		case k("expString"):
			switch {
			case is(st, body, text):
				c.ok(brace == 0 && square == 0, "kind", pos, "an expression in brackets is put as text")
			case body.isStr() && constantString(body) == "":
				none := e.truth(st, ts.eq(inner, ts.strc(""))) == 1 || e.truth(st, ts.eq(e.lenT(inner), ts.intc(0))) == 1 || e.truth(st, ts.eq(e.flatLen(e.lenT(inner)), ts.intc(0))) == 1
				none = none || cls != nil && e.truth(st, ts.eq(e.lenT(cls.ts[1]), ts.intc(0))) == 1
				c.ok(none, "values", pos, "an expression with values is put as an empty text")
			default:
				c.ok(is(st, body, inner), "text", pos, "the text of an expression with one value is not the one between its brackets (%s)", body)
				n := e.flatLen(e.lenT(inner))
				one := e.le(st, n, ts.intc(0)) || brace == 0 && e.le(st, n, ts.intc(1)) || square != 1 && c.noComma(st, inner)
				c.ok(one, "values", pos, "an expression with several values is put as one text")
			}
		default:
			c.ok(false, "kind", pos, "it is not known which kind of piece an expression is (%s)", typ)
		}
		if len(e.finds) > n0 {
			c.show(st)
		}
	}
	c.close()
}

// begins: the first byte of a text is b.
func (c *piecer) begins(st *PState, text *Term, b byte) int {
	for f, v := range st.facts {
		if f.op != "eq" {
			continue
		}
		for i := range 2 {
			t := unconv(f.args[i])
			if f.args[1-i].isInt() && strings.HasPrefix(t.op, "i") && len(t.args) == 2 && t.args[0] == text && t.args[1].isInt() && t.args[1].n == 0 {
				if f.args[1-i].n == int64(b) {
					if v {
						return 1
					}
					return 0
				}
				if v {
					return 0
				}
			}
		}
	}
	return -1
}

// noComma: the text is known to hold no comma.
func (c *piecer) noComma(st *PState, text *Term) bool {
	e := c.e
	ts := e.ts
	for f := range st.facts {
		found := false
		f.any(func(t *Term) bool {
			if t.op == "call" && strings.HasPrefix(t.aux, "strings.") && len(t.args) == 2 && c.sameTexts(st, []*Term{t.args[0]}, []*Term{text}) {
				b := t.args[1]
				comma := b.isStr() && constantString(b) == "," || b.isInt() && b.n == ','
				switch t.aux {
				case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte":
					found = found || comma && e.truth(st, ts.lt(t, ts.intc(0))) == 1 || comma && e.truth(st, ts.eq(t, ts.intc(-1))) == 1
				case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
					found = found || comma && e.truth(st, t) == 0
				case "strings.Count":
					found = found || comma && (e.truth(st, ts.eq(t, ts.intc(0))) == 1 || e.truth(st, ts.lt(ts.intc(0), t)) == 0)
				case "strings.Split":
					found = found || comma && (e.truth(st, ts.eq(e.lenT(t), ts.intc(1))) == 1 || e.truth(st, ts.lt(ts.intc(1), e.lenT(t))) == 0)
				}
			}
			return false
		})
		if found {
			return true
		}
	}
	return false
}

// scanLoop is a loop over the characters of a text, which looks for a pair of brackets.
type scanLoop struct {
	first *ssa.Phi          // the place of the opening bracket, or -1
	open  map[*ssa.Phi]bool // what the opening bracket is
	at    *ssa.Phi          // the place, when the loop counts it
	none  map[*ssa.Phi]bool // -1
}

const special = "*?{[}]"

// brackets checks the function which looks for the first pair of brackets: the first special character decides, and the
// next one after an opening bracket.
func (c *piecer) brackets() {
	fn := c.pair
	c.open(fn)
	e := c.e
	ts := e.ts
	cl := e.cl
	m1 := ts.intc(-1)
	var text *Term
	loops := 0
	cl.Next = func(e *PEngine, st *PState, in *ssa.Next, x, ok, k, v *Term) {
		if x == text {
			c.add(st, "next", "", ok, k, v)
		}
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*scanLoop)
		if d == nil {
			d = &scanLoop{open: map[*ssa.Phi]bool{}, none: map[*ssa.Phi]bool{}}
			lc.data = d
			for i, q := range lc.phis {
				v := lc.vals[i]
				if !isIntTyp(q.Type()) {
					continue
				}
				switch {
				case v.isInt() && v.n == -1:
					d.none[q] = true
					d.open[q] = true
				case v.isInt() && v.n == 0 && types.Identical(q.Type(), types.Typ[types.Int]):
					d.at = q
					d.open[q] = true
				default:
					d.open[q] = true
				}
			}
		}
		c.add(head, "loop", "")
		c.add(head, "scan", "", c.phiTerms(head, d)...)
		for q := range d.none {
			h := e.val(head, q)
			if q != d.first {
				e.assume(head, ts.eq(h, m1), true)
			} else {
				e.assume(head, ts.lt(h, m1), false)
			}
		}
		if d.at != nil {
			e.assume(head, ts.lt(e.val(head, d.at), ts.intc(0)), false)
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		d := lc.data.(*scanLoop)
		k, v, _ := c.char(head, back, d, text)
		if d.at != nil && !e.same(back, e.val(back, d.at), ts.addT(e.val(head, d.at), ts.intc(1), 1)) {
			d.at, ch = nil, true
			return
		}
		for q := range d.none {
			if t := e.val(back, q); q != d.first && t != e.val(head, q) && e.truth(back, ts.eq(t, m1)) != 1 {
				if d.first == nil && k != nil && e.same(back, t, k) {
					d.first = q
				} else {
					delete(d.none, q)
				}
				ch = true
			}
		}
		for q := range d.open {
			t := unconv(e.val(back, q))
			moved := d.first != nil && k != nil && !e.same(back, e.val(back, d.first), e.val(head, d.first))
			if q == d.first || q == d.at || moved && !(v != nil && e.same(back, t, v) || t == ts.mk("idx", "", types.Typ[types.Byte], text, k)) || !moved && e.val(back, q) != e.val(head, q) {
				delete(d.open, q)
				ch = true
			}
		}
		return
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*scanLoop)
		n0 := len(e.finds)
		pos := c.p.pos(fn.Pos())
		loops++
		k, v, more := c.char(head, back, d, text)
		if d.first == nil || v == nil {
			c.ok(false, "scan", pos, "the place of the first special character is not kept by the loop over the text")
		} else {
			h, t := e.val(head, d.first), e.val(back, d.first)
			c.ok(more == 1, "scan", pos, "the loop goes on behind the text")
			if e.same(back, t, k) {
				c.ok(e.truth(back, ts.eq(h, m1)) == 1, "scan", pos, "a bracket is taken as the first one and another one is before it")
				c.ok(c.char1(back, v, "{") == 1 || c.char1(back, v, "[") == 1, "scan", pos, "another character is taken as an opening bracket")
			} else {
				c.ok(e.same(back, t, h), "scan", pos, "the place of the opening bracket is changed (%s)", t)
				for _, b := range special {
					c.ok(c.char1(back, v, string(b)) == 0, "scan", pos, "the loop goes on behind the character %c, which decides", b)
				}
			}
		}
		if len(e.finds) > n0 {
			c.show(back)
		}
	}
	st := e.Start(fn, &evState{})
	text = e.val(st, fn.Params[0])
	for _, x := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		st, pos := x.st, c.p.instrPos(x.ret)
		c.r.count("return_paths", 1)
		c.pairAt(st, text, x.res[0], x.res[1], pos)
		if len(e.finds) > n0 {
			c.show(st)
		}
	}
	c.close()
}

// phiTerms: the place of the opening bracket, that of the loop, and what the opening bracket is.
func (c *piecer) phiTerms(st *PState, d *scanLoop) []*Term {
	r := []*Term{nil, nil}
	if d.first != nil {
		r[0] = c.e.val(st, d.first)
	}
	if d.at != nil {
		r[1] = c.e.val(st, d.at)
	}
	for q := range d.open {
		r = append(r, c.e.val(st, q))
	}
	return r
}

// char: the place and the character of a step, and whether there is one.
func (c *piecer) char(head, st *PState, d *scanLoop, text *Term) (k, v *Term, more int) {
	e := c.e
	for _, x := range c.since(st) {
		if x.kind == "next" {
			return x.ts[1], x.ts[2], e.truth(st, x.ts[0])
		}
	}
	if d != nil && d.at != nil {
		k := e.val(head, d.at)
		return k, e.ts.mk("idx", "", types.Typ[types.Byte], text, k), e.truth(st, e.ts.lt(k, e.lenT(text)))
	}
	return nil, nil, -1
}

// char1: the character v is b.
func (c *piecer) char1(st *PState, v *Term, b string) int {
	e := c.e
	if k := e.truth(st, e.ts.eq(v, e.ts.intc(int64(b[0])))); k >= 0 {
		return k
	}
	for f, ok := range st.facts {
		if !ok || f.op != "eq" {
			continue
		}
		for i := range 2 {
			if unconv(f.args[i]) == unconv(v) && f.args[1-i].isInt() {
				if f.args[1-i].n == int64(b[0]) {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

// pairAt: the offsets returned are those of the first pair, or of the first special character.
func (c *piecer) pairAt(st *PState, text, a, b *Term, pos string) {
	e := c.e
	ts := e.ts
	m1 := ts.intc(-1)
	is := func(x, y *Term) bool { return e.same(st, x, y) || e.truth(st, ts.eq(x, y)) == 1 }
	var h, k, v *Term
	var opens []*Term
	more := -1
	scan := false
	for _, x := range c.evs(st) {
		if x.kind == "scan" {
			scan = true
			h = x.ts[0]
			if x.ts[1] != nil {
				k = x.ts[1]
				v = ts.mk("idx", "", types.Typ[types.Byte], text, k)
				more = e.truth(st, ts.lt(k, e.lenT(text)))
			}
			opens = x.ts[2:]
		}
	}
	for _, x := range c.since(st) {
		if x.kind == "next" {
			more, k, v = e.truth(st, x.ts[0]), x.ts[1], x.ts[2]
		}
	}
	if !scan || h == nil || k == nil {
		none := e.truth(st, ts.eq(e.lenT(text), ts.intc(0))) == 1 || e.truth(st, ts.eq(text, ts.strc(""))) == 1
		c.ok(none && is(a, m1) && is(b, m1), "scan", pos, "the offsets are not found by a loop over the text")
		return
	}
	which := func(t *Term) int { // 1 for {, 0 for [
		if r := c.char1(st, t, "{"); r >= 0 {
			return r
		}
		if r := c.char1(st, t, "["); r >= 0 {
			return 1 - r
		}
		return -1
	}
	opener := which(ts.mk("idx", "", types.Typ[types.Byte], text, h))
	for _, t := range opens {
		if opener < 0 {
			opener = which(t)
		}
	}
	found := e.truth(st, ts.eq(h, m1))
	if found == 0 {
		for _, t := range append(opens, ts.mk("idx", "", types.Typ[types.Byte], text, h)) {
			if c.char1(st, t, "{") == 0 && c.char1(st, t, "[") == 0 {
				return // no opening bracket: there is no such path
			}
		}
	}
	if found >= 0 {
		found = 1 - found
	} else if e.truth(st, ts.lt(h, ts.intc(0))) == 0 {
		found = 1
	}
	kind := byte(0)
	for i := range special {
		if c.char1(st, v, special[i:i+1]) == 1 {
			kind = special[i]
		}
	}
	switch {
	case more == 0:
		c.ok(is(a, h) && is(b, m1), "scan", pos, "at the end of the text another place than that of the first special character is given (%s, %s)", a, b)
	case more != 1 || kind == 0:
		c.ok(false, "scan", pos, "the text is not looked through to a special character or to its end")
	case found == 0:
		c.ok(kind != '{' && kind != '[' && is(a, k) && is(b, m1), "scan", pos, "a first special character %c gives (%s, %s)", kind, a, b)
	case found < 0:
		c.ok(false, "scan", pos, "it is not known whether the special character %c is the first one", kind)
	default:
		pair := kind == '}' && opener == 1 || kind == ']' && opener == 0
		unknown := (kind == '}' || kind == ']') && opener < 0
		if pair {
			c.ok(is(a, h) && is(b, k), "scan", pos, "a pair of brackets is not given from its opening to its closing bracket (%s, %s)", a, b)
		} else {
			c.ok(!unknown && is(a, h) && is(b, m1), "scan", pos, "the character %c behind an opening bracket gives (%s, %s)", kind, a, b)
		}
	}
}

func (c *piecer) ok(good bool, rule, pos, format string, a ...any) {
	c.r.count("obligations", 1)
	if !good {
		c.e.fail(rule, fnName(c.fn), pos, format, a...)
	}
}
