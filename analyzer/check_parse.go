package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = func(p *Prog, tier string) *Result { return checkParse(p) }
}

// parser decides C25: a parsed pattern holds every piece of its text, in order.
type parser struct {
	limiter
	why string // the loop over the pieces does not keep them
}

func (c *parser) ok(good bool, rule, pos, format string, a ...any) {
	if !good && c.why != "" {
		format += "; " + c.why
	}
	c.limiter.ok(good, rule, pos, format, a...)
}

// pieceLoop is what is known about a loop.
type pieceLoop struct {
	buf     *Term // where the texts of parts are written
	badBuf  bool
	pairs   []*pair
	from    *accum // the text which pieces are taken from
	texts   []*accum
	ints    []*accum
	bools   []*accum
	piece   bool
	why     string
	visits  []*visit
	trims   []*trim
	skips   bool             // an iteration takes no piece
	runes   int              // a loop over the characters of a text goes on: 1 after a star, 2 after others
	starCut map[*accum]bool  // stars are cut off a text
	starAt  map[*accum]*Term // a place goes on over the stars of a text
}

// visit: the loop visits the elements of a list one after the other, from the first.
type visit struct {
	list, at *Term
	by       *accum
	n        int
	of       *pieceLoop
	late     bool              // the first element is not visited
	write    []string          // what is written in each iteration: "item", "parts", "" for nothing
	buf      *Term             // and where
	added    map[*pair]string  // each element is added to a list, as one item
	plain    bool              // no element has wildcards
	noNode   map[*pair]bool    // the texts of the parts are not added to the list
	unless   map[*accum]bool   // or the variable is true
	first    map[*accum]*Term  // the first byte of each element is in a set, or the variable is false
	keys     *Term             // the map each element is put into
	filter   map[*accum]string // an element is kept in front of this place, or the same as the next one
	keep     map[*pair]string  // or in this list
}

// trim: the elements before (after) the place are the same as the one at it.
type trim struct {
	list *Term
	by   *accum
	left bool
	ok   bool
}

// pair: a list of items, and the text before it.
type pair struct {
	l, p   *accum
	dead   string
	used   bool
	noText bool // the texts of the parts are not written
}

func checkParse(p *Prog) *Result {
	c := &parser{limiter: limiter{p: p, r: newResult(), src: map[*ssa.Function]bool{}, minF: map[string]string{}, maxF: map[string]string{}}}
	t := p.lookupType("pkg/items.Item")
	next, parse, gparse := p.lookupFunc("pkg/items.NextWildcardItem"), p.lookupFunc("glob.Parse"), p.lookupFunc("gglob.Parse")
	group, list, expand := p.lookupFunc("pkg/items.NewGroup"), p.lookupFunc("pkg/items.NewItemList"), p.lookupFunc("pkg/items.ListExpand")
	if t == nil || next == nil || parse == nil || gparse == nil || group == nil || list == nil || expand == nil {
		c.r.fail("anchor", "pkg/items", "-", "the items, or the functions which make them, were not found")
		return c.r
	}
	c.item = t.Underlying().(*types.Interface)
	for _, f := range []*ssa.Function{next, parse, gparse, group, list, expand, p.lookupFunc("pkg/utils.RunesRangeExpand")} {
		c.src[f] = true
	}
	c.pattern(parse)
	c.group(group)
	c.list(list)
	c.split(expand)
	c.next(next)
	c.joined(gparse)
	c.maps()
	return c.r
}

func (c *parser) begin(fn *ssa.Function) *PEngine {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 400
	c.e, c.fn = e, fn
	c.why = ""
	rec := e.recBut(c.src)
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return !c.src[f] && !rec[f] && f.Name() != "WriteString"
	}
	cl.Call = c.call
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		s := st.cl.(*evState)
		switch {
		case addr.op == "ia" && isStrTyp(val.typ) && addr.args[0].op == "alloc":
			// the arguments of append
		case addr.op == "ia" && isStrTyp(val.typ):
			s.add("set", itoa(len(s.evs)), addr.args[0], addr.args[1], val)
		case addr.op == "ia" && types.Identical(val.typ, c.p.lookupType("pkg/items.Item")) || addr.op == "ia" && val.op == "iface":
			if addrRoot(addr).op != "alloc" {
				s.add("set", itoa(len(s.evs)), addr.args[0], addr.args[1], val)
			}
		case addr.op == "fa" && addr.aux == "pkg/items.String.S":
			if addrRoot(addr).op != "alloc" {
				s.add("S", itoa(len(s.evs)), addr.args[0], val)
			}
		}
	}
	cl.Index = func(e *PEngine, st *PState, in *ssa.IndexAddr, x, i *Term) {
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			st.cl.(*evState).add("at", "", x, i)
		}
	}
	cl.MapUpdate = func(e *PEngine, st *PState, in ssa.Instruction, m, k, v *Term) {
		st.cl.(*evState).add("key", "", m, k)
	}
	cl.Next = func(e *PEngine, st *PState, in *ssa.Next, x, ok, k, v *Term) {
		if x.typ != nil && isStrTyp(x.typ) {
			st.cl.(*evState).add("rune", "", x, k, v, ok)
		}
	}
	cl.Opaque = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, args []*Term) {
		n := ""
		if callee != nil {
			n = fnName(callee)
		}
		for _, a := range args {
			if s, ok := a.typ.Underlying().(*types.Slice); ok && isStrTyp(s.Elem()) && n != "sort.Strings" && !strings.HasPrefix(n, "slices.Sort") && !(callee != nil && pureExt(callee)) {
				st.cl.(*evState).add("opaque", n, a)
			}
		}
	}
	cl.LoopHead = c.loopHead
	cl.Back = c.back
	cl.LoopExit = c.loopExit
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(fn))
	return e
}

// call models the functions which take pieces from a text, which are checked on their own, and the writing of text.
func (c *parser) call(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, method *types.Func, args []*Term) (bool, *Term) {
	s := st.cl.(*evState)
	site := st.top().id + "/" + in.Value().Name()
	if callee != nil && c.src[callee] {
		// its argument is text: it reaches nothing which was made before
		n := len(st.tmp)
		st.tmp = append(st.tmp, args...)
		res := e.fresh(st, "sym", site+":"+fnName(callee), in.Value().Type())
		args = append([]*Term(nil), st.tmp[n:]...)
		st.tmp = st.tmp[:n]
		rs := callee.Signature.Results()
		x := e.ext(res, 0, rs.At(0).Type())
		v := ev{"piece", fnName(callee), []*Term{x, args[0], res, e.ext(res, rs.Len()-1, rs.At(rs.Len()-1).Type())}}
		if types.IsInterface(x.typ) {
			v.ts = append(v.ts, c.stringOf(st, x))
		}
		s.add(v.kind, v.aux, v.ts...)
		return true, res
	}
	if method != nil && (method.Name() == "MinLen" || method.Name() == "MaxLen") {
		return true, e.ts.mk("call", "method "+method.Name(), types.Typ[types.Int], args[0])
	}
	if (method != nil || callee != nil && callee.Signature.Recv() != nil) && in.Common().Signature().Results().Len() == 1 {
		if _, ok := in.Value().Type().Underlying().(*types.Map); ok && len(args) == 1 {
			r := e.fresh(st, "sym", site+":map", in.Value().Type())
			s.add("map", "", r, args[0])
			return true, r
		}
	}
	if method != nil && method.Name() == "WriteString" && len(args) == 2 {
		s.add("w", itoa(len(s.evs)), args[1], args[0])
		return true, e.fresh(st, "sym", site+":written", in.Value().Type())
	}
	if callee == nil {
		return false, nil
	}
	n := fnName(callee)
	if n == "(*pkg/utils.ASCIISet).Count" {
		r := e.fresh(st, "sym", site+":count", in.Value().Type())
		if rt := types.NewPointer(c.p.lookupType("pkg/utils.RunesRanges")); args[0].op == "fa" && args[0].aux == "pkg/utils.RunesRanges.ASCII" {
			s.add("bytes", "", e.loadField(st, args[0].args[0], rt, "UnicodeRanges"), r)
		}
		return true, r
	}
	if n == "(*pkg/utils.ASCIISet).Add" {
		r := e.fresh(st, "sym", site+":added", types.Typ[types.Bool])
		s.add("byte", "", args[0], args[1], r)
		return true, r
	}
	if strings.HasPrefix(n, "(*strings.Builder).") {
		switch callee.Name() {
		case "WriteString":
			s.add("w", itoa(len(s.evs)), args[0], args[1])
		case "WriteByte", "WriteRune":
			s.add("w", itoa(len(s.evs)), args[0], c.chr(args[1]))
		case "String":
			r := e.ts.mk("sym", site+":built", types.Typ[types.String])
			s.add("built", itoa(len(s.evs)), args[0], r)
			return true, r
		}
		if in.Value().Type() == nil || callee.Signature.Results().Len() == 0 {
			return true, nil
		}
		return true, e.ts.mk("sym", site+":"+callee.Name(), in.Value().Type())
	}
	if callee.Name() == "WriteString" && callee.Signature.Recv() != nil && len(args) == 2 && types.Implements(callee.Signature.Recv().Type(), c.item) {
		t := callee.Signature.Recv().Type()
		s.add("w", itoa(len(s.evs)), args[1], e.ts.mk("iface", typName(t), t, args[0]))
		return true, e.ts.mk("sym", site+":written", types.Typ[types.String])
	}
	return false, nil
}

// success: the path returns no error.
func (c *parser) success(x *PExit) bool {
	err := x.res[len(x.res)-1]
	return c.limiter.success(x) && !(err.op == "load" && err.args[0].op == "global" && err.args[0].aux == "io.EOF")
}

// ---- the text of an item

func (c *parser) chr(t *Term) *Term {
	for t.op == "conv" && t.typ != nil && t.args[0].typ != nil && size(t.typ) >= size(t.args[0].typ) {
		t = t.args[0]
	}
	return c.e.ts.mk("chr", "", types.Typ[types.String], t)
}

// size is the size of an integer, 0 for others.
func size(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	return types.SizesFor("gc", "amd64").Sizeof(b)
}

// whole gives the list which t is all of.
func (c *parser) whole(t *Term) *Term {
	for t.op == "slice" && t.args[1].isInt() && t.args[1].n == 0 && t.args[0].typ != nil {
		if _, ok := t.args[0].typ.Underlying().(*types.Slice); !ok {
			break
		}
		if t.args[2].op != "none" && t.args[2] != c.e.lenT(t.args[0]) && t.args[2] != c.e.flatLen(c.e.lenT(t.args[0])) {
			break
		}
		t = t.args[0]
	}
	return t
}

// stringOf gives the text of an item when it is a text.
func (c *parser) stringOf(st *PState, x *Term) *Term {
	t := types.NewPointer(c.p.lookupType("pkg/items.String"))
	return c.e.loadField(st, c.e.ts.mk("assert", typName(t), t, x), t, "S")
}

// flat gives the pieces of a text which was put together.
func (c *parser) flat(st *PState, t *Term) []*Term {
	e := c.e
	switch {
	case t.isStr() && constantString(t) == "":
		return nil
	case t.op == "bin" && t.aux == "+":
		return append(c.flat(st, t.args[0]), c.flat(st, t.args[1])...)
	case t.op == "conv" && isStrTyp(t.typ) && t.args[0].typ != nil && isIntTyp(t.args[0].typ):
		return []*Term{c.chr(t.args[0])}
	case e.truth(st, e.ts.eq(t, e.ts.strc(""))) == 1:
		return nil
	}
	return []*Term{t}
}

func (c *parser) sameTexts(st *PState, a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !c.e.same(st, a[i], b[i]) && !c.e.sameSpan(st, a[i], b[i]) {
			return false
		}
	}
	return true
}

// literal: the text of an item which is a literal; s is the text of a String.
func (c *parser) literal(st *PState, x, s *Term) ([]*Term, bool) {
	v, t := c.payload(st, x)
	switch t {
	case "*pkg/items.String":
		if x.op == "iface" || s == nil {
			s = c.e.loadField(st, v, v.typ, "S")
		}
		return c.flat(st, s), true
	case "pkg/items.Byte", "pkg/items.Rune":
		return []*Term{c.chr(v)}, true
	}
	return nil, false
}

// count: how many characters an item stands for at least, and whether for more.
func (c *parser) count(st *PState, x *Term) (n *Term, star, ok bool) {
	v, t := c.payload(st, x)
	switch t {
	case "pkg/items.Any", "pkg/items.Star":
		return unconv(v), t == "pkg/items.Star", true
	}
	return nil, false, false
}

// sameItem: y is x, or what is in x.
func (c *parser) sameItem(st *PState, y, x *Term) bool {
	if y == x || c.e.same(st, y, x) {
		return true
	}
	return y.op == "iface" && y.args[0].op == "assert" && y.args[0].aux == y.aux && y.args[0].args[0] == x
}

// ---- loops

func (c *parser) isItems(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), c.p.lookupType("pkg/items.Item"))
}

func (c *parser) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*pieceLoop)
	if d == nil {
		d = &pieceLoop{}
		lists := accums(e, lc, func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && (c.isItems(t) || isStrTyp(s.Elem()) || strings.HasSuffix(s.Elem().String(), "glob.Glob"))
		})
		d.texts = accums(e, lc, isStrTyp)
		d.ints = accums(e, lc, isInt)
		d.bools = accums(e, lc, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Bool })
		for _, l := range lists {
			d.pairs = append(d.pairs, &pair{l: l})
			for _, p := range d.texts {
				d.pairs = append(d.pairs, &pair{l: l, p: p})
			}
		}
		for _, a := range append(append([]*accum(nil), lists...), append(d.texts, d.ints...)...) {
			if a.addr != nil && !head.esc[addrRoot(a.addr)] {
				a.lo = 1 // its cell is known
			}
		}
		lc.data = d
	}
	for i, ph := range lc.phis {
		for _, l := range [][]*accum{d.texts, d.ints, d.bools} {
			for _, a := range l {
				if a.ph == ph {
					a.entry = lc.vals[i]
				}
			}
		}
		for _, q := range d.pairs {
			if q.l.ph == ph {
				q.l.entry = lc.vals[i]
			}
		}
	}
	cell := func(a *accum) {
		if a.addr != nil && !head.esc[addrRoot(a.addr)] {
			head.mem[a.addr] = a.at(e, head)
		}
	}
	for _, q := range d.pairs {
		cell(q.l)
	}
	for _, a := range append(append([]*accum(nil), d.texts...), d.ints...) {
		cell(a)
	}
}

func (c *parser) back(e *PEngine, lc *loopCtx, head, back *PState) {
	d := lc.data.(*pieceLoop)
	ts := e.ts
	evs := back.cl.(*evState).since(head.cl)
	var pc *ev
	for i, v := range evs {
		if v.kind == "piece" {
			if pc != nil {
				d.why = "more than one piece is taken in an iteration"
			}
			pc = &evs[i]
			d.piece = true
		}
	}
	if os.Getenv("DBG") == "1" {
		println("back", fnName(lc.l.head.Parent()), "piece", pc != nil)
		for _, q := range d.pairs {
			println("   L", q.l.at(e, head).String(), "->", q.l.at(e, back).String())
			if q.p != nil {
				println("   P", q.p.at(e, head).String(), "->", q.p.at(e, back).String())
			}
		}
		for _, v := range evs {
			print("   ", v.kind, " ", v.aux)
			for _, t := range v.ts {
				print(" ; ", t.String())
			}
			println()
		}
	}
	d.skips = d.skips || pc == nil
	if pc != nil {
		var from *accum
		arg, rest := pc.ts[1], e.ext(pc.ts[2], 1, types.Typ[types.String])
		part := strings.HasSuffix(pc.aux, "glob.Parse")
		for _, a := range d.texts {
			if h := a.at(e, head); h == arg && !part || part && c.dotPiece(back, h, arg, a.at(e, back)) {
				from = a
			}
		}
		x := pc.ts[0]
		switch {
		case from == nil && part:
			d.why = "a part is not the text up to the next dot, or what is left is not the text behind it"
		case from == nil:
			d.why = "a piece is taken of " + pc.ts[1].String() + ", which is not what is left of the text"
		case d.from != nil && d.from != from:
			d.why = "pieces are taken of different texts"
		case !part && !e.same(back, from.at(e, back), rest):
			d.why = "after a piece, " + from.at(e, back).String() + " is left, not what the piece leaves"
		case e.truth(back, ts.eq(ts.nilc(), pc.ts[3])) != 1:
			d.why = "parsing goes on after an error"
		}
		if part {
			// what is written for each part
			var ws []*Term
			var buf *Term
			for _, v := range evs {
				if v.kind == "w" {
					if buf != nil && buf != v.ts[0] || d.buf != nil && d.buf != v.ts[0] {
						d.badBuf = true
					}
					buf = v.ts[0]
					ws = append(ws, v.ts[1])
				}
			}
			if buf != nil {
				d.buf = buf
			} else {
				d.badBuf = true
			}
			for _, q := range d.pairs {
				if q.p != nil || q.noText {
					continue
				}
				l := q.l.at(e, head)
				q.noText = !(len(ws) == 2 && ws[0] == c.chr(ts.intc('.')) && e.nonEmpty(back, l) == 1 && c.isNode(back, ws[1], x)) &&
					!(len(ws) == 1 && e.nonEmpty(back, l) == 0 && c.isNode(back, ws[0], x))
			}
		}
		d.from = from
		for _, q := range d.pairs {
			if q.dead == "" {
				q.dead = c.step(head, back, q, x, pc, evs)
			}
		}
		return
	}
	c.stars(lc, head, back, evs)
	c.visit(lc, head, back, evs)
}

// stars notes a loop which goes on over stars only.
func (c *parser) stars(lc *loopCtx, head, back *PState, evs []ev) {
	e := c.e
	ts := e.ts
	d := lc.data.(*pieceLoop)
	star := ts.intc('*')
	for _, v := range evs {
		if v.kind == "rune" {
			if d.runes == 0 {
				d.runes = 1
			}
			if e.truth(back, ts.eq(v.ts[2], star)) != 1 {
				d.runes = 2
			}
		}
	}
	if d.starAt == nil {
		d.starAt = map[*accum]*Term{}
		for _, a := range d.ints {
			for f, v := range back.facts {
				if v && f.op == "eq" && f.args[0] == star && f.args[1].op == "idx" && f.args[1].args[1] == a.at(e, head) {
					d.starAt[a] = f.args[1].args[0]
				}
			}
		}
	}
	if d.starCut == nil {
		d.starCut = map[*accum]bool{}
		for _, a := range d.texts {
			d.starCut[a] = true
		}
	}
	for a := range d.starCut {
		h := a.at(e, head)
		x, lo, hi := e.span(a.at(e, back))
		first := ts.mk("idx", "", types.Typ[types.Uint8], h, ts.intc(0))
		if x != h || !lo.isInt() || lo.n != 1 || !e.same(back, e.flatLen(hi), e.flatLen(e.lenT(h))) || e.truth(back, ts.eq(first, star)) != 1 {
			d.starCut[a] = false
		}
	}
	for a, x := range d.starAt {
		h := a.at(e, head)
		if a.at(e, back) != ts.addT(h, ts.intc(1), 1) || e.truth(back, ts.eq(ts.mk("idx", "", types.Typ[types.Uint8], x, h), star)) != 1 || !a.entry.isInt() || a.entry.n < 0 || a.entry.n > 1 {
			delete(d.starAt, a)
		}
	}
}

// step: an iteration adds the piece x to the text and the items; or it says what is wrong.
func (c *parser) step(head, back *PState, q *pair, x *Term, pc *ev, evs []ev) string {
	e := c.e
	ts := e.ts
	l0, l1 := q.l.at(e, head), q.l.at(e, back)
	p0, p1 := ts.strc(""), ts.strc("")
	if q.p != nil {
		p0, p1 = q.p.at(e, head), q.p.at(e, back)
	}
	var sets []ev
	stored := false
	for _, v := range evs {
		if v.kind == "set" && v.ts[0] == l0 {
			sets = append(sets, v)
		}
		if v.kind == "set" && v.ts[0] != l0 {
			return "another list is changed"
		}
		stored = stored || v.kind == "set" || v.kind == "S"
	}
	sameP := p1 == p0 || c.sameTexts(back, c.flat(back, p0), c.flat(back, p1))
	if e.truth(back, ts.eq(ts.nilc(), x)) == 1 {
		if l1 != l0 || !sameP || stored {
			return "there is no piece, and " + l0.String() + " becomes " + l1.String()
		}
		return ""
	}
	sx := (*Term)(nil)
	if len(pc.ts) > 4 {
		sx = pc.ts[4]
	}
	if l1.op == "append" && l1.args[0] == l0 && arrayLen(l1.args[1]) == 1 {
		y := e.load(back, ts.mk("ia", "", types.NewPointer(elemOf(l0.typ)), l1.args[1].args[0], ts.intc(0)), elemOf(l0.typ))
		switch {
		case !c.sameItem(back, y, x):
			return "what is appended is " + y.String() + ", not the piece"
		case !sameP || stored:
			return "a piece is appended, and something else is changed"
		}
		q.used = true
		return ""
	}
	if l1 != l0 {
		return l0.String() + " becomes " + l1.String()
	}
	tx, lit := c.literal(back, x, sx)
	if !stored {
		switch {
		case sameP:
			return "a piece is left out"
		case e.nonEmpty(back, l0) != 0:
			return "the text before the items becomes " + p1.String() + " although there are items"
		case !lit:
			return "a piece which is no literal becomes text"
		case !c.sameTexts(back, c.flat(back, p1), append(c.flat(back, p0), tx...)):
			return "the text before the items becomes " + p1.String()
		}
		return ""
	}
	// the last item and the piece become one
	if !sameP {
		return "the text before the items becomes " + p1.String() + ", and an item is changed"
	}
	last := ts.addT(e.lenT(l0), ts.intc(1), -1)
	et := elemOf(l0.typ)
	y := e.load(head, ts.mk("ia", "", types.NewPointer(et), l0, last), et)
	z := y
	if len(sets) > 1 {
		return "more than one item is changed"
	}
	if len(sets) == 1 {
		if sets[0].ts[1] != last {
			return "the item which is changed is not the last one"
		}
		z = sets[0].ts[2]
	}
	yv, _ := c.payload(back, y)
	xv, _ := c.payload(back, x)
	for _, v := range evs {
		if v.kind == "S" && v.ts[0] != yv && v.ts[0] != xv {
			return "the text of another item is changed"
		}
	}
	ty, lity := c.literal(back, y, c.stringOf(head, y))
	tz, litz := c.literal(back, z, nil)
	if lit && lity && litz {
		if !c.sameTexts(back, tz, append(append([]*Term(nil), ty...), tx...)) {
			return "two texts become " + textList(tz)
		}
		return ""
	}
	ny, sy, oky := c.count(back, y)
	nx, sx2, okx := c.count(back, x)
	nz, sz, okz := c.count(back, z)
	if oky && okx && okz {
		if sz != (sx2 || sy) || unconvAll(e, nz) != unconvAll(e, ts.addT(ny, nx, 1)) {
			return "two wildcards become " + z.String()
		}
		return ""
	}
	return "items which can not be one are put together"
}

func textList(l []*Term) string {
	var s []string
	for _, t := range l {
		s = append(s, t.String())
	}
	return strings.Join(s, " + ")
}

// unconvAll leaves conversions between integers out.
func unconvAll(e *PEngine, t *Term) *Term {
	return e.flatLen(e.ts.subst(t, func(y *Term) *Term {
		if y.op == "conv" && isIntTyp(y.typ) {
			return unconvAll(e, y.args[0])
		}
		return nil
	}, map[*Term]*Term{}))
}

func (c *parser) loopExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d := lc.data.(*pieceLoop)
	s := out.cl.(*evState)
	if !d.piece {
		c.visited(lc, head, out)
		return
	}
	if d.skips && d.why == "" {
		d.why = "an iteration takes no piece"
	}
	why := d.why
	var pc *ev
	for i, v := range s.evs[len(head.cl.(*evState).evs):] {
		if v.kind == "set" || v.kind == "S" || pc != nil {
			return
		}
		if v.kind == "piece" {
			pc = &s.evs[len(head.cl.(*evState).evs)+i]
		}
	}
	if pc != nil {
		// an error, or the text is not at its end, or there is no item, and nothing is left
		if d.from == nil || len(pc.ts) < 4 || d.from.at(e, head) != pc.ts[1] || pc.ts[0].typ == nil || !types.IsInterface(pc.ts[0].typ) ||
			e.truth(out, e.ts.eq(e.ts.nilc(), pc.ts[0])) != 1 || e.truth(out, e.ts.eq(e.ts.nilc(), pc.ts[3])) != 1 ||
			e.truth(out, e.ts.eq(e.ext(pc.ts[2], 1, types.Typ[types.String]), e.ts.strc(""))) != 1 {
			return
		}
	} else if d.from != nil && e.truth(out, e.ts.eq(d.from.at(e, head), e.ts.strc(""))) != 1 {
		return
	}
	for _, q := range d.pairs {
		if why != "" || q.dead != "" || !q.used {
			continue
		}
		p0, p1 := e.ts.strc(""), e.ts.strc("")
		if q.p != nil {
			p0, p1 = q.p.entry, q.p.at(e, head)
		}
		s.add("seq", "", q.l.at(e, head), q.l.entry, p1, p0, e.ts.strc(""), d.from.entry)
		if q.p == nil && d.buf != nil {
			w := e.ts.mk("sym", "something", types.Typ[types.String])
			if !d.badBuf && !q.noText && e.nonEmpty(out, q.l.entry) == 0 {
				w = e.ts.mk("all", "parts", types.Typ[types.String], q.l.at(e, head))
			}
			s.add("w", itoa(len(s.evs)), d.buf, w)
		}
	}
	for _, q := range d.pairs {
		if why == "" && q.used && q.dead != "" {
			why = q.dead
		}
	}
	if why != "" {
		c.why = why
	}
}

// visit notes what an iteration does with the element it visits.
func (c *parser) visit(lc *loopCtx, head, back *PState, evs []ev) {
	e := c.e
	ts := e.ts
	d := lc.data.(*pieceLoop)
	// places which grow by one
	for _, v := range evs {
		if v.kind != "at" {
			continue
		}
		for _, a := range d.ints {
			h := a.at(e, head)
			k := ts.addT(v.ts[1], h, -1)
			if !k.isInt() || !a.entry.isInt() || a.entry.n+k.n != 0 && a.entry.n+k.n != 1 || h.isInt() {
				continue
			}
			late := a.entry.n+k.n == 1
			have := false
			for _, w := range d.visits {
				have = have || w.list == v.ts[0] && w.at == v.ts[1]
			}
			if !have {
				d.visits = append(d.visits, &visit{of: d, list: v.ts[0], at: v.ts[1], by: a, late: late, plain: true, unless: map[*accum]bool{}, noNode: map[*pair]bool{}, first: map[*accum]*Term{}, added: map[*pair]string{}, filter: map[*accum]string{}, keep: map[*pair]string{}})
			}
		}
	}
	var ws []*Term
	var buf *Term
	for _, v := range evs {
		if v.kind == "w" {
			if buf != nil && buf != v.ts[0] {
				ws = append(ws, ts.mk("sym", "other", types.Typ[types.String]))
			}
			buf = v.ts[0]
			ws = append(ws, v.ts[1])
		}
	}
	for _, w := range d.visits {
		if !e.same(back, w.by.at(e, back), ts.addT(w.by.at(e, head), ts.intc(1), 1)) {
			w.n = -1 << 20
			continue
		}
		w.n++
		et := elemOf(w.list.typ)
		el := e.load(head, ts.mk("ia", "", types.NewPointer(et), w.list, w.at), et)
		if w.late {
			if isStrTyp(et) {
				c.late(w, head, back, el, evs)
			}
			continue
		}
		// what is written
		kind := ""
		switch {
		case len(ws) == 1 && c.sameItem(back, ws[0], el):
			kind = "item"
		case len(ws) == 2 && ws[0] == c.chr(ts.intc('.')) && e.truth(back, ts.lt(ts.intc(0), w.at)) == 1 && c.isNode(back, ws[1], el):
			kind = "parts"
		case len(ws) == 1 && e.truth(back, ts.lt(ts.intc(0), w.at)) == 0 && c.isNode(back, ws[0], el):
			kind = "parts"
		case len(ws) > 0:
			kind = "other"
		}
		w.write = append(w.write, kind)
		w.buf = buf
		// what is added
		for _, q := range d.pairs {
			if q.p == nil && isStrTyp(elemOf(q.l.entry.typ)) && !w.noNode[q] {
				l0, l1 := q.l.at(e, head), q.l.at(e, back)
				w.noNode[q] = e.nonEmpty(lc.entry, q.l.entry) != 0 || l1.op != "append" || l1.args[0] != l0 || arrayLen(l1.args[1]) != 1 ||
					!c.isNode(back, e.load(back, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), l1.args[1].args[0], ts.intc(0)), types.Typ[types.String]), el)
			}
			if q.p == nil && w.added[q] == "" {
				w.added[q] = c.one(head, back, q, el, evs)
			}
		}
		if isStrTyp(et) {
			c.text1(lc, w, head, back, el, evs)
		}
		for _, v := range evs {
			if v.kind == "key" && v.ts[1] == el {
				if w.n == 1 {
					w.keys = v.ts[0]
				}
				break
			}
			if v.kind == "key" {
				w.keys = nil
			}
		}
		if w.keys != nil {
			have := false
			for _, v := range evs {
				have = have || v.kind == "key" && v.ts[0] == w.keys && v.ts[1] == el
			}
			if !have {
				w.keys = nil
			}
		}
	}
	c.trim(lc, head, back, evs)
}

// dotPiece: part is the text up to the next dot, rest is what is behind the dot.
func (c *parser) dotPiece(st *PState, text, part, rest *Term) bool {
	e := c.e
	ts := e.ts
	if part.op == "ext" && part.n == 0 && part.args[0].op == "call" && part.args[0].aux == "strings.Cut" {
		cut := part.args[0]
		return cut.args[0] == text && cut.args[1] == ts.strc(".") && e.same(st, rest, e.ext(cut, 1, types.Typ[types.String]))
	}
	if part == text {
		if len(c.flat(st, rest)) != 0 {
			return false
		}
		for f := range st.facts {
			none := false
			f.any(func(w *Term) bool {
				none = none || c.isIndex(w, text, ".") && (e.truth(st, ts.eq(w, ts.intc(-1))) == 1 || e.truth(st, ts.lt(w, ts.intc(0))) == 1)
				return false
			})
			if none {
				return true
			}
		}
		return false
	}
	x, lo, hi := e.span(part)
	return x == text && lo.isInt() && lo.n == 0 && c.isIndex(hi, text, ".") && c.tail(st, rest, text, ts.addT(hi, ts.intc(1), 1))
}

func (c *parser) isNode(st *PState, t, part *Term) bool {
	return t == c.e.loadField(st, part, part.typ, "Node")
}

// one: the value of a group becomes one item of the list, which stands for it.
func (c *parser) one(head, back *PState, q *pair, el *Term, evs []ev) string {
	e := c.e
	ts := e.ts
	l0, l1 := q.l.at(e, head), q.l.at(e, back)
	if l1.op != "append" || l1.args[0] != l0 || arrayLen(l1.args[1]) != 1 || !c.isItems(l1.typ) {
		return l0.String() + " becomes " + l1.String()
	}
	for _, v := range evs {
		if v.kind == "set" || v.kind == "S" {
			return "an item is changed"
		}
	}
	y := e.load(back, ts.mk("ia", "", types.NewPointer(elemOf(l0.typ)), l1.args[1].args[0], ts.intc(0)), elemOf(l0.typ))
	if c.stands(back, y, el) {
		return ""
	}
	if tx, ok := c.literal(back, y, nil); ok && c.noWild(back, el) && c.sameTexts(back, tx, c.flat(back, el)) {
		return ""
	}
	for _, v := range evs {
		if v.kind != "seq" || e.nonEmpty(back, v.ts[1]) != 0 || len(c.flat(back, v.ts[2])) > 0 || !c.sameTexts(back, c.flat(back, v.ts[5]), c.flat(back, el)) {
			continue
		}
		l := v.ts[0]
		if y.op == "iface" && y.aux == "*pkg/items.Chain" && e.loadField(back, y.args[0], y.args[0].typ, "Items") == l {
			return ""
		}
		if e.truth(back, ts.eq(e.lenT(l), ts.intc(1))) == 1 && y == e.load(back, ts.mk("ia", "", types.NewPointer(elemOf(l.typ)), l, ts.intc(0)), elemOf(l.typ)) {
			return ""
		}
	}
	return "the value becomes " + y.String()
}

// stands: the item stands for a wildcard which is the whole text.
func (c *parser) stands(st *PState, y, t *Term) bool {
	n, star, ok := c.count(st, y)
	if !ok || !n.isInt() {
		return c.isChar(st, y, t) && c.noWild(st, t)
	}
	if star && n.n == 0 {
		return c.e.truth(st, c.e.ts.eq(t, c.e.ts.strc("*"))) == 1
	}
	return !star && n.n == 1 && c.e.truth(st, c.e.ts.eq(t, c.e.ts.strc("?"))) == 1
}

// isChar: the item is the only character of the text.
func (c *parser) isChar(st *PState, y, t *Term) bool {
	e := c.e
	v, k := c.payload(st, y)
	if k != "pkg/items.Byte" && k != "pkg/items.Rune" {
		return false
	}
	v = unconv(v)
	if v.op != "ext" || v.n != 0 || v.args[0].op != "call" || v.args[0].aux != "unicode/utf8.DecodeRuneInString" {
		return false
	}
	of := v.args[0].args[0]
	size := e.ext(v.args[0], 1, types.Typ[types.Int])
	if !c.sameTexts(st, []*Term{of}, []*Term{t}) || !e.same(st, size, e.lenT(of)) && !e.same(st, size, e.flatLen(e.lenT(of))) {
		return false
	}
	if e.truth(st, e.ts.eq(v, e.ts.intc(0xFFFD))) != 0 {
		return false
	}
	return k == "pkg/items.Rune" || e.truth(st, e.ts.lt(v, e.ts.intc(128))) == 1
}

// noWild: the text has no wildcards.
func (c *parser) noWild(st *PState, t *Term) bool {
	e := c.e
	if len(c.flat(st, t)) == 0 {
		return true
	}
	for f := range st.facts {
		good := false
		f.any(func(w *Term) bool {
			if w.op != "call" || w.aux != "strings.ContainsAny" && w.aux != "strings.IndexAny" && w.aux != "strings.LastIndexAny" {
				return false
			}
			if !w.args[1].isStr() || !c.sameTexts(st, []*Term{w.args[0]}, []*Term{t}) {
				return false
			}
			for _, k := range "[]{}*?" {
				if !strings.ContainsRune(constantString(w.args[1]), k) {
					return false
				}
			}
			if w.aux == "strings.ContainsAny" {
				good = good || e.truth(st, w) == 0
			} else {
				good = good || e.truth(st, e.ts.lt(w, e.ts.intc(0))) == 1 || e.truth(st, e.ts.eq(w, e.ts.intc(-1))) == 1
			}
			return false
		})
		if good {
			return true
		}
	}
	return false
}

// text1 notes what is found out about an element which is a text.
func (c *parser) text1(lc *loopCtx, w *visit, head, back *PState, el *Term, evs []ev) {
	e := c.e
	ts := e.ts
	d := lc.data.(*pieceLoop)
	w.plain = w.plain && c.noWild(back, el)
	empty := len(c.flat(back, el)) == 0 || e.nonEmpty(back, el) == 0
	for _, a := range d.bools {
		h, t := a.at(e, head), a.at(e, back)
		if w.n == 1 {
			w.first[a] = ts.nilc()
			w.unless[a] = e.truth(lc.entry, a.entry) == 0
		}
		if w.unless[a] && e.truth(back, t) != 1 {
			no := back.clone()
			if t != h {
				e.assume(no, t, false)
			}
			w.unless[a] = c.noWild(no, el) && (t == h || e.truth(no, h) == 0)
		}
		set := w.first[a]
		switch {
		case set == nil || e.truth(back, t) == 0:
		case t != h:
			w.first[a] = nil
		case empty:
		default:
			good := false
			for _, v := range evs {
				if v.kind != "byte" || e.truth(back, v.ts[2]) != 1 || !c.isFirst(v.ts[1], el) {
					continue
				}
				if set == ts.nilc() {
					set = v.ts[0]
				}
				good = good || set == v.ts[0]
			}
			w.first[a] = nil
			if good {
				w.first[a] = set
			}
		}
	}
	// kept, or the same as its neighbour
	eqTo := func(l, i *Term) bool {
		n := e.load(head, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), l, i), types.Typ[types.String])
		return e.truth(back, ts.eq(el, n)) == 1
	}
	var sets []ev
	for _, v := range evs {
		if v.kind == "set" {
			sets = append(sets, v)
		}
	}
	nx, size := ts.addT(w.at, ts.intc(1), 1), e.flatLen(e.lenT(w.list))
	twin := eqTo(w.list, nx) && (e.truth(back, ts.lt(nx, size)) == 1 || e.truth(back, ts.lt(w.at, size)) == 1 && (e.truth(back, ts.eq(nx, size)) == 0 || e.truth(back, ts.eq(w.at, ts.addT(size, ts.intc(1), -1))) == 0))
	for _, a := range d.ints {
		h, t := a.at(e, head), a.at(e, back)
		if w.filter[a] != "" || a == w.by {
			continue
		}
		switch {
		case !a.entry.isInt() || a.entry.n != 0:
			w.filter[a] = "the first place is not 0"
		case t == h && len(sets) == 0 && (twin || eqTo(w.list, ts.addT(h, ts.intc(1), -1))):
		case t == ts.addT(h, ts.intc(1), 1) && len(sets) == 1 && sets[0].ts[0] == w.list && (sets[0].ts[1] == h || e.same(back, sets[0].ts[1], h)) && c.isElem(back, sets[0].ts[2], el, w):
		default:
			w.filter[a] = "an element is neither kept nor the same as the one beside it"
		}
	}
	for _, q := range d.pairs {
		if q.p != nil || w.keep[q] != "" {
			continue
		}
		l0, l1 := q.l.at(e, head), q.l.at(e, back)
		own := e.nonEmpty(lc.entry, q.l.entry) == 0 && addrRoot(q.l.entry) != addrRoot(w.list)
		if y, lo, hi := e.span(q.l.entry); y == w.list && lo.isInt() && lo.n == 0 && hi.isInt() && hi.n == 0 {
			own = true // it takes the place of the elements which were visited
		}
		switch {
		case !own || len(sets) > 0:
			w.keep[q] = "the list is not a list of its own"
		case l1 == l0 && (twin || eqTo(w.list, ts.addT(w.at, ts.intc(1), -1)) || eqTo(l0, ts.addT(e.lenT(l0), ts.intc(1), -1))):
		case l1.op == "append" && l1.args[0] == l0 && arrayLen(l1.args[1]) == 1 && c.isElem(back, e.load(back, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), l1.args[1].args[0], ts.intc(0)), types.Typ[types.String]), el, w):
		default:
			w.keep[q] = "an element is neither kept nor the same as the one beside it"
		}
	}
}

// isElem: t is the element which is visited.
func (c *parser) isElem(st *PState, t, el *Term, w *visit) bool {
	return t == el || t.op == "load" && t.args[0].op == "ia" && t.args[0].args[0] == w.list && c.e.same(st, t.args[0].args[1], w.at)
}

// late: the first element is kept at its place, each other one behind it, or it is the same as the last one kept.
func (c *parser) late(w *visit, head, back *PState, el *Term, evs []ev) {
	e := c.e
	ts := e.ts
	var sets []ev
	for _, v := range evs {
		if v.kind == "set" {
			sets = append(sets, v)
		}
	}
	at := func(i *Term) *Term {
		return e.load(head, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), w.list, i), types.Typ[types.String])
	}
	for _, a := range w.of.ints {
		h, t := a.at(e, head), a.at(e, back)
		if w.filter[a] != "" || a == w.by {
			continue
		}
		up := ts.addT(h, ts.intc(1), 1)
		switch {
		case !a.entry.isInt() || a.entry.n != 0:
			w.filter[a] = "the first place is not 0"
		case t == h && len(sets) == 0 && (e.truth(back, ts.eq(el, at(h))) == 1 || e.truth(back, ts.eq(el, at(ts.addT(w.at, ts.intc(1), -1)))) == 1):
		case t == up && len(sets) == 1 && sets[0].ts[0] == w.list && sets[0].ts[1] == up && sets[0].ts[2] == el:
		default:
			w.filter[a] = "an element is neither kept nor the same as the one beside it"
		}
	}
}

func (c *parser) isFirst(b, el *Term) bool {
	return b.op == "idx" && b.args[0] == el && b.args[1].isInt() && b.args[1].n == 0
}

// trim notes loops over elements which are all the same.
func (c *parser) trim(lc *loopCtx, head, back *PState, evs []ev) {
	e := c.e
	ts := e.ts
	d := lc.data.(*pieceLoop)
	for _, v := range evs {
		if v.kind != "at" || !isStrTyp(elemOf(v.ts[0].typ)) {
			continue
		}
		for _, a := range d.ints {
			if a.at(e, head) != v.ts[1] {
				continue
			}
			have := false
			for _, t := range d.trims {
				have = have || t.list == v.ts[0] && t.by == a
			}
			if !have {
				left := a.entry.isInt() && a.entry.n == 0
				right := e.same(lc.entry, a.entry, ts.addT(e.flatLen(e.lenT(v.ts[0])), ts.intc(1), -1))
				d.trims = append(d.trims, &trim{v.ts[0], a, left, left || right})
			}
		}
	}
	for _, t := range d.trims {
		h, n := t.by.at(e, head), t.by.at(e, back)
		k := int64(-1)
		if t.left {
			k = 1
		}
		el := func(i *Term) *Term {
			return e.load(head, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), t.list, i), types.Typ[types.String])
		}
		nb := ts.addT(h, ts.intc(k), 1)
		if n != nb || e.truth(back, ts.eq(el(h), el(nb))) != 1 {
			t.ok = false
		}
		for _, v := range evs {
			if v.kind == "set" {
				t.ok = false
			}
		}
		if !t.left {
			// not past what is cut off in front
			for _, v := range head.cl.(*evState).evs {
				if v.kind == "left" && v.ts[0] == t.list && e.truth(back, ts.lt(v.ts[1], h)) != 1 {
					t.ok = false
				}
			}
		}
	}
}

// visited notes what is known after a loop.
func (c *parser) visited(lc *loopCtx, head, out *PState) {
	e := c.e
	ts := e.ts
	d := lc.data.(*pieceLoop)
	s := out.cl.(*evState)
	for _, t := range d.trims {
		if t.ok {
			k := "right"
			if t.left {
				k = "left"
			}
			s.add(k, "", t.list, t.by.at(e, head))
		}
	}
	for a, x := range d.starAt {
		h := a.at(e, head)
		s.add("stars", "", x, h)
		if e.truth(out, ts.lt(h, e.flatLen(e.lenT(x)))) == 0 {
			s.add("stars", "", x, nil)
		}
	}
	for a, ok := range d.starCut {
		h := a.at(e, head)
		first := ts.mk("idx", "", types.Typ[types.Uint8], h, ts.intc(0))
		if ok && (e.truth(out, ts.eq(h, ts.strc(""))) == 1 || e.truth(out, ts.eq(first, ts.intc('*'))) == 0) {
			s.add("cut", "", a.entry, h)
		}
	}
	if d.runes == 1 {
		for _, v := range s.since(head.cl) {
			if v.kind == "rune" {
				if e.truth(out, v.ts[3]) == 1 {
					s.add("stars", "", v.ts[0], v.ts[1])
				} else if e.truth(out, v.ts[3]) == 0 {
					s.add("stars", "", v.ts[0], nil)
				}
			}
		}
	}
	wrote := false
	for _, w := range d.visits {
		for _, k := range w.write {
			wrote = wrote || k != ""
		}
	}
	done := false
	for _, w := range d.visits {
		if os.Getenv("DBG") == "4" {
			println("visited", w.list.String(), w.n, w.at.String(), e.truth(out, ts.lt(w.at, e.flatLen(e.lenT(w.list)))))
			for _, a := range d.ints {
				println("   filter", a.at(e, head).String(), w.filter[a])
			}
			for _, q := range d.pairs {
				println("   keep", q.l.at(e, head).String(), w.keep[q])
			}
		}
		if w.n < 1 || e.truth(out, ts.lt(w.at, e.flatLen(e.lenT(w.list)))) != 0 {
			continue
		}
		if w.late {
			if isStrTyp(elemOf(w.list.typ)) {
				for _, a := range d.ints {
					if a != w.by && w.filter[a] == "" {
						s.add("filtered", "", ts.mk("slice", "", w.list.typ, w.list, ts.intc(0), ts.addT(a.at(e, head), ts.intc(1), 1), e.none()), w.list)
					}
				}
			}
			continue
		}
		kind := ""
		for i, k := range w.write {
			if i == 0 {
				kind = k
			} else if kind != k {
				kind = "other"
			}
		}
		if kind == "item" || kind == "parts" {
			done = true
			s.add("w", itoa(len(s.evs)), w.buf, ts.mk("all", kind, types.Typ[types.String], w.list))
		}
		for _, q := range d.pairs {
			if q.p == nil && w.added[q] == "" {
				s.add("values", "", q.l.at(e, head), q.l.entry, w.list)
			} else if q.p == nil && c.isItems(q.l.typ) && os.Getenv("DBG") != "" {
				println("not added:", w.added[q])
			}
			if os.Getenv("DBG") != "" && q.p == nil {
				println("keep", w.keep[q], w.list.String(), q.l.at(e, head).String(), q.l.entry.String())
			}
			if q.p == nil && isStrTyp(elemOf(q.l.entry.typ)) && !w.noNode[q] {
				s.add("nodes", "", q.l.at(e, head), w.list)
			}
			if q.p == nil && w.keep[q] == "" && isStrTyp(elemOf(w.list.typ)) {
				s.add("filtered", "", q.l.at(e, head), w.list)
			}
		}
		if isStrTyp(elemOf(w.list.typ)) {
			if w.plain {
				s.add("plain", "", w.list)
			}
			for _, a := range d.bools {
				if w.unless[a] {
					s.add("plain", "unless", w.list, a.at(e, head))
				}
			}
		}
		for _, a := range d.bools {
			if f := w.first[a]; f != nil && f != ts.nilc() {
				s.add("first", "", w.list, a.at(e, head), f)
			}
		}
		if w.keys != nil {
			s.add("keys", "", w.keys, w.list)
		}
		if isStrTyp(elemOf(w.list.typ)) {
			for _, a := range d.ints {
				if a != w.by && w.filter[a] == "" {
					s.add("filtered", "", ts.mk("slice", "", w.list.typ, w.list, ts.intc(0), a.at(e, head), e.none()), w.list)
				}
			}
		}
	}
	if wrote && !done {
		for _, w := range d.visits {
			if w.buf != nil {
				s.add("w", itoa(len(s.evs)), w.buf, ts.mk("sym", "something", types.Typ[types.String]))
				break
			}
		}
	}
}

func (c *parser) dump(x *PExit, g *Term, names ...string) {
	if os.Getenv("DBG") == "" {
		return
	}
	println("EXIT", fnName(c.fn), c.where(x))
	for i, r := range x.res {
		println("   ", i, r.String())
	}
	for _, n := range names {
		println("   ", n, c.e.loadField(x.st, g, g.typ, n).String())
	}
	for _, v := range x.st.cl.(*evState).evs {
		if v.kind == "at" {
			continue
		}
		print("   ", v.kind, " ", v.aux)
		for _, t := range v.ts {
			if t != nil {
				print(" ; ", t.String())
			}
		}
		println()
	}
	if os.Getenv("DBG") == "2" {
		for f, v := range x.st.facts {
			println("      ", f.String(), v)
		}
	}
}

// cover: the texts, one after the other, are the whole text.
func (c *parser) cover(st *PState, text *Term, parts ...*Term) bool {
	e := c.e
	pos := e.ts.intc(0)
	for _, t := range parts {
		for _, t := range c.flat(st, t) {
			x, lo, hi := e.span(t)
			if x != text || !e.same(st, e.flatLen(lo), e.flatLen(pos)) {
				return false
			}
			pos = hi
		}
	}
	return e.same(st, e.flatLen(pos), e.flatLen(e.lenT(text)))
}

// written gives what was written to the builder whose text is t.
func (c *parser) written(st *PState, t *Term) (l []*Term, ok bool) {
	evs := st.cl.(*evState).evs
	for i, v := range evs {
		if v.kind == "built" && v.ts[1] == t {
			for _, w := range evs[:i] {
				if w.kind == "w" && w.ts[0] == v.ts[0] {
					l = append(l, w.ts[1])
				}
			}
			return l, true
		}
	}
	return nil, false
}

// ---- a pattern

func (c *parser) pattern(fn *ssa.Function) {
	e := c.begin(fn)
	ts := e.ts
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		n++
		st := x.st
		g, pt := x.res[0], fn.Signature.Results().At(0).Type()
		f := func(n string) *Term { return e.loadField(st, g, pt, n) }
		c.dump(x, g, "Node", "Prefix", "Suffix", "Items", "Vals")
		text := e.val(st, fn.Params[0])
		node, prefix, suffix, items, vals := f("Node"), f("Prefix"), f("Suffix"), f("Items"), f("Vals")
		pos := c.where(x)
		c.ok(f("Glob") == text, "pattern", pos, "Glob is %s, not the text of the pattern", f("Glob"))
		var before, after []*Term // the text before and after the items
		before, after = []*Term{prefix}, []*Term{suffix}
		none := e.nonEmpty(st, items) == 0
		if none {
			before, after = []*Term{node}, nil
		}
		et := elemOf(items.typ)
		good, loop := false, false
		for _, v := range st.cl.(*evState).evs {
			if v.kind != "seq" || !c.isItems(v.ts[0].typ) {
				continue
			}
			loop = true
			l, lent, p1, p0, tent := v.ts[0], v.ts[1], v.ts[2], v.ts[3], v.ts[5]
			if e.nonEmpty(st, lent) != 0 {
				continue
			}
			var flat []*Term
			for _, t := range append(append([]*Term(nil), before...), after...) {
				flat = append(flat, c.flat(st, t)...)
			}
			fp := c.flat(st, p1)
			// nothing but text
			if none && e.nonEmpty(st, l) == 0 {
				if len(flat) >= len(fp) && c.sameTexts(st, flat[:len(fp)], fp) && c.cover(st, text, append([]*Term{p0, tent}, flat[len(fp):]...)...) {
					good = true
				}
				continue
			}
			if none || !c.sameTexts(st, c.flat(st, prefix), fp) {
				continue
			}
			fs := c.flat(st, suffix)
			if items == l {
				good = good || c.cover(st, text, append([]*Term{p0, tent}, fs...)...)
				continue
			}
			last := ts.addT(e.lenT(l), ts.intc(1), -1)
			if y, lo, hi := e.span(items); y == l && lo.isInt() && lo.n == 0 && e.same(st, hi, last) {
				tl, lit := c.literal(st, e.load(st, ts.mk("ia", "", types.NewPointer(et), l, last), et), nil)
				if lit && len(fs) >= len(tl) && c.sameTexts(st, fs[:len(tl)], tl) {
					good = good || c.cover(st, text, append([]*Term{p0, tent}, fs[len(tl):]...)...)
				}
			}
		}
		if !loop {
			if none {
				good = c.sameTexts(st, c.flat(st, node), []*Term{text}) && c.noWild(st, text)
			} else if arrayLen(items) == 1 {
				y := e.load(st, ts.mk("ia", "", types.NewPointer(et), items.args[0], ts.intc(0)), et)
				for f, v := range st.facts {
					if v && f.op == "eq" {
						for _, m := range f.args {
							if isStrTyp(m.typ) && !m.isStr() && c.stands(st, y, m) {
								good = good || c.cover(st, text, prefix, c.raw(m), suffix)
							}
						}
					}
				}
			}
		}
		c.ok(good, "pattern", pos, "the text before the items %s, the items %s and the text after them %s are not shown to be the pieces of the pattern", prefix, items, suffix)
		if !none {
			w, ok := c.written(st, node)
			var flat, want []*Term
			for _, t := range w {
				flat = append(flat, c.flat(st, t)...)
			}
			want = append(want, c.flat(st, prefix)...)
			if n := arrayLen(items); n >= 0 {
				for i := int64(0); i < n; i++ {
					want = append(want, e.load(st, ts.mk("ia", "", types.NewPointer(et), items.args[0], ts.intc(i)), et))
				}
			} else {
				want = append(want, ts.mk("all", "item", types.Typ[types.String], items))
			}
			want = append(want, c.flat(st, suffix)...)
			c.ok(ok && c.sameTexts(st, flat, want), "node", pos, "the text of the parsed pattern is %s, not that of its pieces", textList(flat))
		}
		if vals.op != "nil" && e.truth(st, ts.eq(vals, ts.nilc())) != 1 {
			good := false
			for _, v := range st.cl.(*evState).evs {
				if v.kind != "map" || v.ts[0] != vals {
					continue
				}
				of := v.ts[1]
				for of.op == "assert" {
					of = of.args[0]
				}
				first := e.load(st, ts.mk("ia", "", types.NewPointer(et), items, ts.intc(0)), et)
				if n := arrayLen(items); n == 1 {
					first = e.load(st, ts.mk("ia", "", types.NewPointer(et), items.args[0], ts.intc(0)), et)
				}
				good = good || of == first && (arrayLen(items) == 1 || e.truth(st, ts.eq(e.lenT(items), ts.intc(1))) == 1)
			}
			c.ok(good, "vals", pos, "the values %s are not those of the only item", vals)
		}
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no pattern is returned")
	}
	c.done()
}

// raw hides what is known about a text.
func (c *parser) raw(t *Term) *Term { return t }

// ---- the values of a group

func (c *parser) group(fn *ssa.Function) {
	e := c.begin(fn)
	ts := e.ts
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		st := x.st
		vals := e.val(st, fn.Params[0])
		y := x.res[0]
		pos := c.where(x)
		c.dump(x, y)
		if y.op == "nil" || e.truth(st, ts.eq(y, ts.nilc())) == 1 {
			c.ok(e.nonEmpty(st, vals) == 0 || c.values0(st, vals, ts.nilc()), "group", pos, "no item is made of a list of values")
			continue
		}
		if num, star, ok := c.count(st, y); ok && star && num.isInt() && num.n == 0 {
			// one of the values is *
			good := false
			for f, v := range st.facts {
				if v && f.op == "eq" {
					for i, m := range f.args {
						if m == ts.strc("*") && f.args[1-i].op == "load" && f.args[1-i].args[0].op == "ia" && f.args[1-i].args[0].args[0] == vals {
							good = true
						}
					}
				}
			}
			c.ok(good, "group", pos, "a group is replaced by *, and none of its values is shown to be *")
			continue
		}
		good := false
		if y.op == "load" && y.args[0].op == "ia" && y.args[0].args[1].isInt() && y.args[0].args[1].n == 0 {
			// the item of the only value
			l := y.args[0].args[0]
			good = e.truth(st, ts.eq(e.lenT(l), ts.intc(1))) == 1 && c.values0(st, vals, l)
		}
		if y.op == "iface" && y.aux == "*pkg/items.Group" {
			n++
			good = c.values0(st, vals, e.loadField(st, y.args[0], y.args[0].typ, "Vals"))
		}
		c.ok(good, "group", pos, "%s is not shown to hold an item for each value", y)
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no group is made")
	}
	c.done()
}

// values0: the list has an item for each value (nil: it would be empty).
func (c *parser) values0(st *PState, vals, list *Term) bool {
	e := c.e
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "values" && v.ts[2] == vals && e.nonEmpty(st, v.ts[1]) == 0 {
			if c.whole(v.ts[0]) == c.whole(list) || list.op == "nil" && e.nonEmpty(st, v.ts[0]) == 0 {
				return true
			}
		}
	}
	return false
}

// ---- a list of values

func (c *parser) list(fn *ssa.Function) {
	e := c.begin(fn)
	ts := e.ts
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		st := x.st
		vals := e.val(st, fn.Params[0])
		y := x.res[0]
		pos := c.where(x)
		c.dump(x, y)
		one := e.truth(st, ts.eq(e.lenT(vals), ts.intc(1))) == 1
		first := e.load(st, ts.mk("ia", "", types.NewPointer(elemOf(vals.typ)), vals, ts.intc(0)), elemOf(vals.typ))
		if y.op == "nil" || e.truth(st, ts.eq(y, ts.nilc())) == 1 {
			made := false
			for _, v := range st.cl.(*evState).evs {
				made = made || v.kind == "piece" && v.ts[0] == y
			}
			c.ok(made || e.nonEmpty(st, vals) == 0 || one && len(c.flat(st, first)) == 0, "list", pos, "no item is made of a list of values")
			continue
		}
		good := false
		switch {
		case y.op != "iface":
			for _, v := range st.cl.(*evState).evs {
				good = good || v.kind == "piece" && v.ts[0] == y && v.ts[1] == vals && (x.res[1] == v.ts[3] || e.truth(st, ts.eq(v.ts[3], ts.nilc())) == 1)
			}
		case y.aux == "*pkg/items.StringList":
			n++
			v := y.args[0]
			got := e.loadField(st, v, v.typ, "Vals")
			size := e.loadField(st, v, v.typ, "MinSize")
			zero := e.truth(st, ts.eq(size, ts.intc(0)))
			base, lo, hi := e.span(got)
			whole := base == vals && e.same(st, e.flatLen(hi), e.lenT(vals))
			good = whole && lo.isInt() && (lo.n == 0 && zero == 0 || lo.n == 1 && zero == 1 && len(c.flat(st, first)) == 0)
			plain := false
			started := e.loadField(st, v, v.typ, "ASCIIStarted")
			okStart := e.truth(st, started) == 0
			for _, w := range st.cl.(*evState).evs {
				plain = plain || w.kind == "plain" && w.ts[0] == vals && (w.aux == "" || e.truth(st, w.ts[1]) == 0)
				if w.kind == "first" && w.ts[0] == vals && (w.ts[1] == started || e.truth(st, w.ts[1]) == 1) {
					okStart = okStart || c.copied(st, v, w.ts[2])
				}
			}
			good = good && plain
			c.ok(okStart, "first", pos, "FirstASCII is not shown to hold the first byte of every value")
		default:
			tx, lit := c.literal(st, y, nil)
			good = one && c.noWild(st, first) && (c.isChar(st, y, first) || lit && c.sameTexts(st, tx, c.flat(st, first)))
		}
		c.ok(good, "list", pos, "%s is not shown to stand for the values of the list", y)
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no list is made")
	}
	c.done()
}

// copied: the set of first bytes is the one at the address.
func (c *parser) copied(st *PState, list, from *Term) bool {
	e := c.e
	f := e.loadField(st, list, list.typ, "FirstASCII")
	if os.Getenv("DBG") != "" {
		println("copied", f.String(), from.String())
	}
	return f != nil && (f == e.load(st, from, f.typ) || f.op == "load" && f.args[0] == from)
}

// ---- splitting a list

func (c *parser) split(fn *ssa.Function) {
	e := c.begin(fn)
	ts := e.ts
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		st := x.st
		c.dump(x, x.res[0])
		if e.truth(st, x.res[1]) == 0 {
			continue
		}
		text := e.val(st, fn.Params[0])
		pos := c.where(x)
		last := ts.addT(e.lenT(text), ts.intc(1), -1)
		inner := ts.mk("slice", "", text.typ, text, ts.intc(1), last, e.none())
		if x.res[0].op == "nil" {
			c.ok(len(c.flat(st, inner)) == 0, "split", pos, "a list which is not empty has no values")
			continue
		}
		n++
		// back to what the text was split into
		t := x.res[0]
		for i := 0; i < 8; i++ {
			old := t
			for _, v := range st.cl.(*evState).evs {
				if v.kind == "filtered" && v.ts[0] == t {
					t = v.ts[1]
				}
			}
			if t.op == "slice" {
				left := t.args[1].isInt() && t.args[1].n == 0
				right := t.args[2].op == "none" || e.flatLen(t.args[2]) == e.flatLen(e.lenT(t.args[0]))
				for _, v := range st.cl.(*evState).evs {
					left = left || v.kind == "left" && v.ts[0] == t.args[0] && v.ts[1] == t.args[1]
					right = right || v.kind == "right" && v.ts[0] == t.args[0] && ts.addT(v.ts[1], ts.intc(1), 1) == t.args[2]
				}
				if left && right {
					t = t.args[0]
				}
			}
			if t == old {
				break
			}
		}
		good := t.op == "call" && t.aux == "strings.Split" && t.args[1] == ts.strc(",") && c.sameTexts(st, []*Term{t.args[0]}, []*Term{inner})
		for _, v := range st.cl.(*evState).evs {
			good = good && v.kind != "opaque"
		}
		c.ok(good, "split", pos, "%s is not shown to hold all values of the list", x.res[0])
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no values are returned")
	}
	c.done()
}

// ---- the next piece

func (c *parser) next(fn *ssa.Function) {
	e := c.begin(fn)
	ts := e.ts
	seen := map[string]bool{}
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		st := x.st
		c.dump(x, x.res[0])
		text, y, rest := e.val(st, fn.Params[0]), x.res[0], x.res[1]
		pos := c.where(x)
		first := ts.mk("idx", "", types.Typ[types.Uint8], text, ts.intc(0))
		starts := func(b rune) bool { return e.truth(st, ts.eq(first, ts.intc(int64(b)))) == 1 }
		c.ok(e.truth(st, ts.eq(text, ts.strc(""))) == 0, "next", pos, "there is a piece of no text")
		var pc ev
		n := 0
		for _, v := range st.cl.(*evState).evs {
			if v.kind == "piece" && v.ts[0] != y {
				pc = v
				n++
			}
		}
		if n > 1 {
			c.ok(false, "next", pos, "more than one piece is taken")
			continue
		}
		// upTo: the piece ends with the first such byte, or there is none
		upTo := func(b string) bool {
			z, lo, hi := e.span(pc.ts[1])
			if z != text || !lo.isInt() || lo.n != 0 {
				return false
			}
			at := ts.addT(hi, ts.intc(1), -1)
			if c.isIndex(at, text, b) {
				return true
			}
			for f := range st.facts {
				none := false
				f.any(func(w *Term) bool {
					none = none || c.isIndex(w, text, b) && (e.truth(st, ts.eq(w, ts.intc(-1))) == 1 || e.truth(st, ts.lt(w, ts.intc(0))) == 1)
					return false
				})
				if none {
					return pc.ts[1] == text
				}
			}
			return false
		}
		switch {
		case n == 1 && strings.HasSuffix(pc.aux, ".RunesRangeExpand"):
			seen["class"] = true
			c.ok(starts('[') && upTo("]"), "next", pos, "a class is not the text up to the first ]")
			c.ok(e.truth(st, pc.ts[3]) == 1, "next", pos, "a class which is refused is used")
			c.ok(c.cover(st, text, pc.ts[1], rest), "next", pos, "after a class, %s is left", rest)
			c.ok(c.isClass(st, y, pc.ts[0]), "next", pos, "%s is not shown to be the class", y)
		case n == 1 && strings.HasSuffix(pc.aux, ".ListExpand"):
			seen["list"] = true
			c.ok(starts('{') && upTo("}"), "next", pos, "a list is not the text up to the first }")
			c.ok(e.truth(st, pc.ts[3]) == 1, "next", pos, "a list which is refused is used")
			c.ok(c.cover(st, text, pc.ts[1], rest), "next", pos, "after a list, %s is left", rest)
			good := false
			for _, v := range st.cl.(*evState).evs {
				good = good || v.kind == "piece" && v.ts[0] == y && strings.HasSuffix(v.aux, ".NewItemList") && v.ts[1] == pc.ts[0] && (x.res[2] == v.ts[3] || e.truth(st, ts.eq(ts.nilc(), v.ts[3])) == 1)
			}
			c.ok(good, "next", pos, "%s is not the item for the values of the list", y)
		default:
			if num, star, ok := c.count(st, y); ok {
				good := false
				switch {
				case star:
					seen["star"] = true
					good = starts('*') && num.isInt() && num.n == 0 && c.afterStars(st, text, rest)
				default:
					seen["any"] = true
					good = starts('?') && num.isInt() && num.n == 1 && c.tail(st, rest, text, ts.intc(1))
				}
				c.ok(good, "next", pos, "%s is taken, and %s is left", y, rest)
				continue
			}
			seen["text"] = true
			good := false
			for f := range st.facts {
				f.any(func(w *Term) bool {
					if w.op == "call" && w.aux == "strings.IndexAny" && w.args[0] == text {
						v := ts.mk("slice", "", text.typ, text, ts.intc(0), w, e.none())
						left := c.tail(st, rest, text, w)
						if c.noWild(st, text) {
							v, left = text, len(c.flat(st, rest)) == 0
						}
						tx, lit := c.literal(st, y, nil)
						same := lit && c.sameTexts(st, tx, []*Term{v}) || c.isChar(st, y, v)
						good = good || same && left && w.args[1].isStr() && sameSet(constantString(w.args[1]), "[]{}*?")
					}
					return false
				})
			}
			c.ok(good, "next", pos, "%s is not shown to be the text before the next wildcard, with %s left", y, rest)
		}
	}
	for _, k := range []string{"class", "list", "star", "any", "text"} {
		if !seen[k] {
			c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no piece of kind %s is taken", k)
		}
	}
	c.done()
}

func sameSet(a, b string) bool {
	for _, k := range a {
		if !strings.ContainsRune(b, k) {
			return false
		}
	}
	for _, k := range b {
		if !strings.ContainsRune(a, k) {
			return false
		}
	}
	return true
}

// isIndex: t is the place of the first such byte in the text.
func (c *parser) isIndex(t, text *Term, b string) bool {
	if t.op != "call" || len(t.args) < 2 || t.args[0] != text {
		return false
	}
	switch t.aux {
	case "strings.Index", "strings.IndexAny":
		return t.args[1] == c.e.ts.strc(b)
	case "strings.IndexByte", "strings.IndexRune":
		return t.args[1].isInt() && t.args[1].n == int64(b[0])
	}
	return false
}

// tail: t is the text from place i on.
func (c *parser) tail(st *PState, t, text, i *Term) bool {
	e := c.e
	if len(c.flat(st, t)) == 0 {
		return e.same(st, i, e.lenT(text))
	}
	x, lo, hi := e.span(t)
	return x == text && e.same(st, e.flatLen(lo), i) && e.same(st, e.flatLen(hi), e.lenT(text))
}

// afterStars: what is left of a text which starts with a star, after some of its stars.
func (c *parser) afterStars(st *PState, text, rest *Term) bool {
	e := c.e
	if c.tail(st, rest, text, e.ts.intc(1)) {
		return true
	}
	if rest.op == "call" && (rest.aux == "strings.TrimLeft" || rest.aux == "strings.TrimPrefix") && rest.args[0] == text && rest.args[1] == e.ts.strc("*") {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "cut" && v.ts[0] == text && (v.ts[1] == rest || c.sameTexts(st, c.flat(st, rest), c.flat(st, v.ts[1]))) {
			return true
		}
		if v.kind != "stars" || v.ts[0] != text {
			continue
		}
		if v.ts[1] == nil {
			if len(c.flat(st, rest)) == 0 {
				return true
			}
		} else if c.tail(st, rest, text, v.ts[1]) {
			return true
		}
	}
	return false
}

// isClass: the item is the class r, or its only character.
func (c *parser) isClass(st *PState, y, r *Term) bool {
	e := c.e
	ts := e.ts
	rt := c.p.lookupType("pkg/utils.RunesRanges")
	fields := rt.Underlying().(*types.Struct)
	field := func(v *Term, name string) *Term {
		for i := 0; i < fields.NumFields(); i++ {
			if fields.Field(i).Name() == name {
				return e.fieldOf(v, rt, i)
			}
		}
		return nil
	}
	ranges := field(r, "UnicodeRanges")
	// how many bytes there are in the class
	n, one := (*Term)(nil), (*Term)(nil)
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "bytes" && v.ts[0] == ranges {
			n, one = e.ext(v.ts[1], 0, types.Typ[types.Int]), e.ext(v.ts[1], 1, types.Typ[types.Uint8])
		}
	}
	is := func(t *Term, k int64) bool { return t != nil && e.truth(st, ts.eq(t, ts.intc(k))) == 1 }
	v, t := c.payload(st, y)
	switch {
	case y.op == "nil":
		return is(n, 0) && e.nonEmpty(st, ranges) == 0
	case t == "pkg/items.Byte":
		return is(n, 1) && e.nonEmpty(st, ranges) == 0 && unconv(v) == one
	case t == "pkg/items.Rune":
		el := e.load(st, ts.mk("ia", "", types.NewPointer(elemOf(ranges.typ)), ranges, ts.intc(0)), elemOf(ranges.typ))
		a, b := e.fieldOf(el, elemOf(ranges.typ), 0), e.fieldOf(el, elemOf(ranges.typ), 1)
		return is(n, 0) && is(e.lenT(ranges), 1) && (unconv(v) == a || unconv(v) == b) && e.truth(st, ts.eq(a, b)) == 1
	case y.op == "iface" && t == "*pkg/items.RunesRanges":
		w := e.loadField(st, v, v.typ, "RunesRanges")
		for i := 0; i < fields.NumFields(); i++ {
			a, b := e.fieldOf(w, rt, i), e.fieldOf(r, rt, i)
			if a != b && !(a.op == "load" && b.op == "load" && a.args[0] == b.args[0]) && !c.loadedFrom(st, a, b) {
				return false
			}
		}
		return true
	}
	return false
}

// loadedFrom: a is what is at a place which holds b.
func (c *parser) loadedFrom(st *PState, a, b *Term) bool {
	return a.op == "load" && c.e.load(st, a.args[0], b.typ) == b
}

// ---- patterns of parts

func (c *parser) joined(fn *ssa.Function) {
	e := c.begin(fn)
	ts := e.ts
	n := 0
	for _, x := range e.Run(fn, &evState{}) {
		if !c.success(x) {
			continue
		}
		n++
		st := x.st
		g := x.res[0]
		pos := c.where(x)
		c.dump(x, g, "Node", "Parts")
		text := e.val(st, fn.Params[0])
		parts, node := e.loadField(st, g, g.typ, "Parts"), e.loadField(st, g, g.typ, "Node")
		good := false
		for _, v := range st.cl.(*evState).evs {
			if v.kind != "seq" || v.ts[0] != parts || e.nonEmpty(st, v.ts[1]) != 0 || len(c.flat(st, v.ts[2])) > 0 {
				continue
			}
			if len(c.flat(st, v.ts[5])) == 0 && len(c.flat(st, text)) == 0 {
				good = true
			}
			z, lo, hi := e.span(v.ts[5])
			if z != text || !lo.isInt() || lo.n != 0 {
				continue
			}
			last := ts.addT(e.lenT(text), ts.intc(1), -1)
			dot := e.truth(st, ts.eq(ts.mk("idx", "", types.Typ[types.Uint8], text, last), ts.intc('.'))) == 1
			good = good || e.same(st, hi, e.lenT(text)) || e.same(st, hi, last) && dot
		}
		c.ok(good, "parts", pos, "%s are not shown to be all parts of the pattern", parts)
		w, ok := c.written(st, node)
		ok = ok && len(w) == 1 && w[0] == ts.mk("all", "parts", types.Typ[types.String], parts)
		for _, v := range st.cl.(*evState).evs {
			ok = ok || v.kind == "nodes" && v.ts[1] == parts && node == ts.mk("call", "strings.Join", types.Typ[types.String], v.ts[0], ts.strc("."))
		}
		c.ok(ok, "node", pos, "the text of the parsed pattern is %s, not that of its parts", textList(w))
	}
	if n == 0 {
		c.r.fail("anchor", fnName(fn), c.p.pos(fn.Pos()), "no pattern is returned")
	}
	c.done()
}

// ---- the values of a list as a map

func (c *parser) maps() {
	n := 0
	for _, f := range c.p.funcs {
		if f.Signature.Recv() == nil || f.Blocks == nil || f.Synthetic != "" || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !types.Implements(f.Signature.Recv().Type(), c.item) {
			continue
		}
		if m, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Map); !ok || !isStrTyp(m.Key()) {
			continue
		}
		n++
		e := c.begin(f)
		ts := e.ts
		for _, x := range e.Run(f, &evState{}) {
			st := x.st
			c.dump(x, x.res[0])
			recv := e.val(st, f.Params[0])
			vals, size := e.loadField(st, recv, recv.typ, "Vals"), e.loadField(st, recv, recv.typ, "MinSize")
			all, empty := false, false
			for _, v := range st.cl.(*evState).evs {
				if v.kind == "keys" && v.ts[0] == x.res[0] && v.ts[1] == vals {
					all = true
				}
				if v.kind == "key" && v.ts[0] == x.res[0] {
					empty = v.ts[1] == ts.strc("")
				}
			}
			zero := e.truth(st, ts.eq(size, ts.intc(0)))
			c.ok(all && (empty && zero == 1 || !empty && zero == 0), "map", c.where(x), "the map is not shown to hold the values of the list, and the empty one just when there is one")
		}
		c.done()
	}
	if n == 0 {
		c.r.fail("anchor", "items.ItemList", "-", "no map of the values of a list is made")
	}
}
