package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = func(p *Prog, tier string) *Result { return checkEscape(p) }
}

// escaper decides C29: a text is escaped byte by byte.
//
// What a path decides on a byte of the text is taken as the set of bytes which its facts leave possible. A loop of the
// escaping has a place i (the byte looked at) and a place up to which the text was written, escaped; what is between
// is kept as it is.
type escaper struct {
	piecer
	s     *Term
	query bool
	loops []*escTo
	chain map[*Term]*Term // the list which an append began with
}

// escTo is what is known of a loop over the text.
type escTo struct {
	i     *ssa.Phi
	off   int64 // the place is the value of i and off
	ints  []*ssa.Phi
	nums  []*ssa.Phi // other numbers
	zero  map[*ssa.Phi]bool
	over  map[*ssa.Phi]bool // numbers which may be behind the place
	neg   map[*ssa.Phi]bool // or less than 0
	steps []*escStep
	list  *ssa.Phi // a list which bytes are added to, empty at the begin
}

// escStep is a step of a loop: what it does with the bytes which are possible.
type escStep struct {
	st     *PState
	bytes  []byte
	at     *Term // the place
	from   map[*ssa.Phi]*Term
	to     map[*ssa.Phi]*Term
	w, put []ev
}

const keptQuery = "-_.~abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const keptPath = keptQuery + "$&+,/:;=@"

// plainByte: b is kept as it is.
func (c *escaper) plainByte(b byte) bool {
	if c.query {
		return strings.IndexByte(keptQuery, b) >= 0
	}
	return strings.IndexByte(keptPath, b) >= 0
}

func (c *escaper) space(b byte) bool { return c.query && b == ' ' }

func checkEscape(p *Prog) *Result {
	c := &escaper{}
	c.p, c.r = p, newResult()
	for _, n := range []string{"PathTo", "QueryTo", "Path", "Query"} {
		fn := p.lookupFunc("pkg/escape." + n)
		if fn == nil {
			c.r.fail("anchor", "pkg/escape."+n, "-", "the operation was not found")
			continue
		}
		c.query = strings.HasPrefix(n, "Query")
		c.escape(fn, strings.HasSuffix(n, "To"))
	}
	c.r.need("obligations", 30)
	return c.r
}

// bytes gives the values of x which the facts of the path leave possible.
func (c *escaper) bytes(st *PState, x *Term) (l []byte) {
	ts := c.e.ts
	var fs []*Term
	is := map[*Term]bool{}
	for f, v := range st.facts {
		if f = c.norm(f); f.any(func(y *Term) bool { return y == x }) {
			fs = append(fs, f)
			is[f] = v
		}
	}
next:
	for b := range 256 {
		k := ts.intc(int64(b))
		for _, f := range fs {
			r := ts.subst(f, func(y *Term) *Term {
				if y == x {
					return k
				}
				return nil
			}, map[*Term]*Term{})
			if r.isTrue() && !is[f] || r.isFalse() && is[f] {
				continue next
			}
		}
		l = append(l, byte(b))
	}
	return l
}

// norm replaces the bytes of a copy of the text by those of the text.
func (c *escaper) norm(t *Term) *Term {
	ts := c.e.ts
	text := func(y *Term) bool {
		return y.op == "conv" && y.args[0] == c.s && y.typ != nil && !isStrTyp(y.typ)
	}
	return ts.subst(t, func(y *Term) *Term {
		switch {
		case y.op == "load" && y.args[0].op == "ia" && text(y.args[0].args[0]):
			return c.at(c.norm(y.args[0].args[1]))
		case y.op == "len" && text(y.args[0]):
			return c.e.lenT(c.s)
		}
		return nil
	}, map[*Term]*Term{})
}

// within: the place i is inside of the text (1), not (0) or it is not known.
func (c *escaper) within(st *PState, i *Term) int {
	f := c.e.ts.lt(i, c.e.lenT(c.s))
	if r := c.e.truth(st, f); r >= 0 {
		return r
	}
	for g, v := range st.facts {
		if c.norm(g) == f {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (c *escaper) at(i *Term) *Term {
	return c.e.ts.mk("idx", "", types.Typ[types.Byte], c.s, i)
}

// digit: t is the hexadecimal digit of upper case of the high or low half of x.
func (c *escaper) digit(st *PState, t, x *Term, high bool) bool {
	t = unconv(t)
	if t.op == "chr" {
		t = unconv(t.args[0])
	}
	if t.op != "idx" || !t.args[0].isStr() {
		return false
	}
	tab := constantString(t.args[0])
	if len(tab) < 16 || tab[:16] != "0123456789ABCDEF" {
		return false
	}
	h := unconv(t.args[1])
	if h.op != "bin" || !h.args[1].isInt() || unconv(h.args[0]) != x {
		return false
	}
	if high {
		return h.aux == ">>" && h.args[1].n == 4 || h.aux == "/" && h.args[1].n == 16
	}
	return h.aux == "&" && h.args[1].n == 15 || h.aux == "%" && h.args[1].n == 16
}

func (c *escaper) escape(fn *ssa.Function, to bool) {
	c.open(fn)
	e := c.e
	cl := e.cl
	c.loops, c.chain = nil, map[*Term]*Term{}
	var buf *Term
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee == nil {
			return false, nil
		}
		n := fnName(callee)
		if !strings.HasPrefix(n, "(*strings.Builder).") && !strings.HasPrefix(n, "(*bytes.Buffer).") {
			return false, nil
		}
		switch callee.Name() {
		case "WriteString":
			c.add(st, "w", "", args[0], args[1])
		case "WriteByte":
			c.add(st, "w", "", args[0], c.chr(args[1]))
		case "String":
			r := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name()+".built", types.Typ[types.String])
			c.add(st, "built", "", args[0], r)
			return true, r
		case "Grow", "Len":
		default:
			c.ok(false, "written", c.p.instrPos(in), "the buffer is used in another way than to add text to it")
		}
		if callee.Signature.Results().Len() == 0 {
			return true, nil
		}
		return true, e.fresh(st, "sym", st.top().id+"/"+in.Value().Name(), in.Value().Type())
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			c.add(st, "put", "", e.val(st, ia.X), e.val(st, ia.Index), val)
		}
	}
	cl.Copy = func(e *PEngine, st *PState, in ssa.Instruction, dst, src *Term) {
		c.add(st, "copy", "", dst, src)
	}
	cl.Append = func(e *PEngine, st *PState, in ssa.CallInstruction, res *Term) { c.appended(st, res, c.p.instrPos(in)) }
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) { c.loopHead(lc, head) }
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) bool { return c.check(lc, head, back) }
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		n0 := len(e.finds)
		c.back(lc, head, back, c.p.pos(fn.Pos()))
		if len(e.finds) > n0 {
			c.show(back)
		}
	}
	st := e.Start(fn, &evState{})
	for _, q := range fn.Params {
		if isStrTyp(q.Type()) {
			c.s = e.val(st, q)
		} else {
			buf = e.val(st, q)
		}
	}
	for _, x := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		pos := c.p.instrPos(x.ret)
		c.r.count("return_paths", 1)
		if to {
			c.written(x.st, buf, c.evs(x.st), pos)
		} else {
			c.returned(x.st, x.res[0], pos)
		}
		if len(e.finds) > n0 {
			c.show(x.st)
		}
	}
	c.close()
}

func (c *escaper) loopHead(lc *loopCtx, head *PState) {
	e := c.e
	ts := e.ts
	d, _ := lc.data.(*escTo)
	if d == nil {
		d = &escTo{over: map[*ssa.Phi]bool{}, neg: map[*ssa.Phi]bool{}}
		lc.data = d
		c.loops = append(c.loops, d)
		for i, q := range lc.phis {
			if v := lc.vals[i]; isIntTyp(q.Type()) && v.isInt() && (v.n == 0 || v.n == -1) {
				d.ints = append(d.ints, q)
			}
		}
	}
	if d.i == nil && len(d.ints) > 0 {
		d.i = d.ints[0]
		for i, q := range lc.phis {
			if q == d.i {
				d.off = -lc.vals[i].n
			}
		}
	}
	d.list = nil
	for i, q := range lc.phis {
		if _, ok := q.Type().Underlying().(*types.Slice); ok && e.truth(head, ts.eq(e.lenT(lc.vals[i]), ts.intc(0))) == 1 {
			d.list = q
		}
	}
	d.nums, d.zero, d.steps = nil, map[*ssa.Phi]bool{}, nil
	n := len(c.loops) - 1
	for i, x := range c.loops {
		if x == d {
			n = i
		}
	}
	var args []*Term
	if d.i != nil {
		h := ts.addT(e.val(head, d.i), ts.intc(d.off), 1)
		e.assume(head, ts.lt(h, ts.intc(0)), false)
		args = append(args, h)
		for i, q := range lc.phis {
			if q != d.i && isIntTyp(q.Type()) {
				d.nums = append(d.nums, q)
				d.zero[q] = lc.vals[i].isInt() && lc.vals[i].n == 0
				args = append(args, e.val(head, q))
				if d.zero[q] && !d.neg[q] {
					e.assume(head, ts.lt(e.val(head, q), ts.intc(0)), false)
				}
				if d.zero[q] && !d.over[q] {
					e.assume(head, ts.lt(h, e.val(head, q)), false)
				}
			}
		}
	}
	c.add(head, "loop", itoa(n)+":", args...)
	if d.list != nil {
		c.add(head, "list", itoa(n)+":", e.val(head, d.list))
	}
}

// check drops what is not kept by a step.
func (c *escaper) check(lc *loopCtx, head, back *PState) bool {
	e := c.e
	ts := e.ts
	d := lc.data.(*escTo)
	if d.i != nil && e.val(back, d.i) != ts.addT(e.val(head, d.i), ts.intc(1), 1) {
		for j, q := range d.ints {
			if q == d.i {
				d.ints = append(append([]*ssa.Phi{}, d.ints[:j]...), d.ints[j+1:]...)
				break
			}
		}
		d.i = nil
		return true
	}
	if d.i == nil {
		return false
	}
	ch := false
	for _, q := range d.nums {
		if d.zero[q] && !d.over[q] && !e.le(back, e.val(back, q), ts.addT(e.val(back, d.i), ts.intc(d.off), 1)) {
			d.over[q], ch = true, true
		}
		if d.zero[q] && !d.neg[q] && !e.le(back, ts.intc(0), e.val(back, q)) {
			d.neg[q], ch = true, true
		}
	}
	return ch
}

// appended: bytes are added to a list.
func (c *escaper) appended(st *PState, res *Term, pos string) {
	base, arg := res.args[0], res.args[1]
	root := c.chain[base]
	if root == nil {
		root = base
	}
	c.chain[res] = root
	s := st.cl.(*evState)
	var vs []ev
	var parts []*Term
	if arg.typ != nil && isStrTyp(arg.typ) {
		parts, vs = []*Term{arg}, append(vs, s.evs...)
	} else {
		for _, v := range s.evs {
			if v.kind == "put" && c.root(v.ts[0]) == c.root(arg) && v.ts[1].isInt() && v.ts[1].n == int64(len(parts)) {
				parts = append(parts, c.chr(v.ts[2]))
				continue
			}
			vs = append(vs, v)
		}
		n := arrayLen(arg)
		if n < 0 {
			n = arrayLen(c.root(arg))
		}
		c.ok(n == int64(len(parts)), "written", pos, "it is not known what is added (%s)", arg)
	}
	c.ok(c.tip(vs, root) == base, "written", pos, "bytes are added to another list than the last one")
	s.evs = vs
	for _, t := range parts {
		c.add(st, "w", "", root, t)
	}
	c.add(st, "tip", "", root, res)
}

// tip is the last list of a chain of lists.
func (c *escaper) tip(vs []ev, root *Term) *Term {
	r := root
	for _, v := range vs {
		if v.kind == "tip" && v.ts[0] == root {
			r = v.ts[1]
		}
	}
	return r
}

func (c *escaper) loopOf(v ev) *escTo {
	s, _, _ := strings.Cut(v.aux, ":")
	n, _ := strconv.Atoi(s)
	return c.loops[n]
}

func (c *escaper) back(lc *loopCtx, head, back *PState, pos string) {
	e := c.e
	ts := e.ts
	d := lc.data.(*escTo)
	if d.i == nil {
		c.ok(false, "step", pos, "a loop has no place in the text")
		return
	}
	h := ts.addT(e.val(head, d.i), ts.intc(d.off), 1)
	c.ok(c.within(back, h) == 1, "step", pos, "a step is made behind the text")
	s := &escStep{st: back, at: h, bytes: c.bytes(back, c.at(h)), from: map[*ssa.Phi]*Term{}, to: map[*ssa.Phi]*Term{}}
	for _, q := range d.nums {
		s.from[q], s.to[q] = e.val(head, q), e.val(back, q)
	}
	for _, v := range c.since(back) {
		switch v.kind {
		case "w":
			s.w = append(s.w, v)
		case "put":
			s.put = append(s.put, v)
		case "tip", "list":
		default:
			c.ok(false, "step", pos, "a step does something else (%s)", v.kind)
		}
	}
	if d.list != nil {
		c.ok(c.tip(c.since(back), e.val(head, d.list)) == e.val(back, d.list), "step", pos, "another list goes on than the one bytes were added to")
	}
	d.steps = append(d.steps, s)
}

func (s *escStep) all(f func(b byte) bool) bool {
	for _, b := range s.bytes {
		if !f(b) {
			return false
		}
	}
	return true
}

// but is the step without the bytes which are not in the text.
func (s *escStep) but(absent func(b byte) bool) *escStep {
	r := *s
	r.bytes = nil
	for _, b := range s.bytes {
		if !absent(b) {
			r.bytes = append(r.bytes, b)
		}
	}
	return &r
}

func (c *escaper) hex(b byte) bool { return !c.plainByte(b) && !c.space(b) }

// esc: the symbols parts are those of the bytes of a step.
func (c *escaper) esc(s *escStep, parts []*Term) string {
	x := c.at(s.at)
	for i, t := range parts {
		parts[i] = c.norm(t)
	}
	chr := func(t *Term, b byte) bool {
		return t == c.chr(c.e.ts.intc(int64(b))) || t.isStr() && constantString(t) == string(b)
	}
	self := func(t *Term) bool {
		if t == c.chr(x) {
			return true
		}
		y, lo, hi := c.e.span(t)
		return y == c.s && c.e.same(s.st, lo, s.at) && c.e.same(s.st, hi, c.e.ts.addT(s.at, c.e.ts.intc(1), 1))
	}
	switch {
	case len(parts) == 1 && self(parts[0]):
		if !s.all(c.plainByte) {
			return "a byte is kept which is to be escaped"
		}
	case len(parts) == 1 && chr(parts[0], '+'):
		if !s.all(c.space) {
			return "another byte than the space of a query is written as +"
		}
	case len(parts) == 3 && chr(parts[0], '%') && c.digit(s.st, parts[1], x, true) && c.digit(s.st, parts[2], x, false):
		if !s.all(c.hex) {
			return "a byte is escaped which is to be kept, or is the space of a query"
		}
	default:
		l := ""
		for _, t := range parts {
			l += " " + t.String()
		}
		return "something else is written for a byte:" + l
	}
	return ""
}

func (c *escaper) texts(st *PState, vs []ev, buf *Term) (l []*Term, ok bool) {
	ok = true
	for _, v := range vs {
		if v.kind == "w" {
			ok = ok && v.ts[0] == buf
			l = append(l, c.flatText(st, v.ts[1])...)
		}
	}
	return
}

func (c *escaper) flatText(st *PState, t *Term) []*Term {
	e := c.e
	switch {
	case t.op == "bin" && t.aux == "+":
		return append(c.flatText(st, t.args[0]), c.flatText(st, t.args[1])...)
	case t.isStr() && constantString(t) == "", e.truth(st, e.ts.eq(t, e.ts.strc(""))) == 1:
		return nil
	}
	return []*Term{t}
}

// stepTo: a step writes what is left and the escape of the byte, or leaves it. p is the place up to which was written
// (nil: each byte is written).
func (c *escaper) stepTo(s *escStep, buf *Term, p *ssa.Phi) string {
	e := c.e
	next := e.ts.addT(s.at, e.ts.intc(1), 1)
	p0, p1 := s.at, next
	if p != nil {
		p0, p1 = s.from[p], s.to[p]
	}
	parts, ok := c.texts(s.st, s.w, buf)
	switch {
	case !ok || len(s.put) > 0:
		return "something else is written"
	case p != nil && p1 == p0:
		if len(parts) > 0 {
			return "a byte is written and its place is not gone behind"
		}
		if !s.all(c.plainByte) {
			return "a byte is kept which is to be escaped"
		}
		return ""
	case !c.equal(s.st, p1, next):
		return "a step goes on from another place than the next byte"
	}
	if !c.equal(s.st, p0, s.at) || len(parts) == 2 || len(parts) == 4 {
		if len(parts) == 0 {
			return "the text before a byte is not written"
		}
		x, lo, hi := e.span(parts[0])
		switch {
		case x != c.s || !e.same(s.st, lo, p0):
			return "the text before a byte is not written"
		case e.same(s.st, hi, s.at):
			parts = parts[1:]
		case e.same(s.st, hi, next) && len(parts) == 1 && s.all(c.plainByte):
			return ""
		default:
			return "the text before a byte is not written"
		}
	}
	return c.esc(s, parts)
}

// absent gives the bytes which are known not to be in the text.
func (c *escaper) absent(st *PState, vs []ev) func(b byte) bool {
	e := c.e
	ts := e.ts
	none := map[byte]bool{}
	for _, v := range vs {
		if v.kind != "loop" || len(v.ts) == 0 || c.within(st, v.ts[0]) != 0 {
			continue
		}
		d := c.loopOf(v)
		for i, q := range d.nums {
			if yes := c.counted(d, q); yes != nil && (e.truth(st, ts.eq(v.ts[i+1], ts.intc(0))) == 1 || e.le(st, v.ts[i+1], ts.intc(0))) {
				for b := range yes {
					none[b] = true
				}
			}
		}
		got := map[byte]bool{}
		for _, s := range d.steps {
			for _, b := range s.bytes {
				got[b] = true
			}
		}
		for b := range 256 {
			if !got[byte(b)] { // a step leaves the loop for this byte
				none[byte(b)] = true
			}
		}
	}
	whole := e.truth(st, ts.eq(e.lenT(c.s), ts.intc(0))) == 1 || e.truth(st, ts.eq(c.s, ts.strc(""))) == 1
	return func(b byte) bool { return whole || none[b] }
}

// counted gives the bytes which the number q counts, nil if it does not count bytes.
func (c *escaper) counted(d *escTo, q *ssa.Phi) map[byte]bool {
	if !d.zero[q] {
		return nil
	}
	yes, no := map[byte]bool{}, map[byte]bool{}
	for _, s := range d.steps {
		m := no
		if k := c.e.ts.addT(s.to[q], s.from[q], -1); !k.isInt() || k.n != 0 && k.n != 1 {
			return nil
		} else if k.n == 1 {
			m = yes
		}
		for _, b := range s.bytes {
			m[b] = true
		}
	}
	for b := range yes {
		if no[b] {
			return nil
		}
	}
	return yes
}

func (c *escaper) clean(st *PState, vs []ev, pos string) {
	absent := c.absent(st, vs)
	for b := range 256 {
		if !c.plainByte(byte(b)) && !absent(byte(b)) {
			c.ok(false, "result", pos, "the text is taken as it is and may hold the byte %q, which is to be escaped", string(rune(b)))
			return
		}
	}
	c.ok(true, "result", pos, "")
}

func (c *escaper) equal(st *PState, a, b *Term) bool {
	return c.e.same(st, a, b) || c.e.le(st, a, b) && c.e.le(st, b, a)
}

// written: the text escaped was written to the buffer.
func (c *escaper) written(st *PState, buf *Term, vs []ev, pos string) {
	e := c.e
	ts := e.ts
	at := -1
	for i, v := range vs {
		if v.kind != "loop" {
			continue
		}
		for _, s := range c.loopOf(v).steps {
			if len(s.w)+len(s.put) > 0 {
				c.ok(at < 0 || at == i, "written", pos, "text is written in several loops")
				at = i
			}
		}
	}
	if at < 0 {
		l, ok := c.texts(st, vs, buf)
		if len(l) == 1 && ok && e.same(st, l[0], c.s) {
			c.clean(st, vs, pos)
			return
		}
		c.ok(ok && len(l) == 0 && (e.truth(st, ts.eq(e.lenT(c.s), ts.intc(0))) == 1 || e.truth(st, ts.eq(c.s, ts.strc(""))) == 1), "written", pos, "the text is not written")
		return
	}
	d, lv := c.loopOf(vs[at]), vs[at]
	before, ok1 := c.texts(st, vs[:at], buf)
	after, ok2 := c.texts(st, vs[at:], buf)
	c.ok(ok1 && ok2 && len(before) == 0, "written", pos, "something else is written")
	c.ok(c.within(st, lv.ts[0]) == 0, "written", pos, "the loop ends before the text")
	why := ""
	for k := -1; k < len(d.nums); k++ {
		var p *ssa.Phi
		if k >= 0 {
			if p = d.nums[k]; !d.zero[p] {
				continue
			}
		}
		bad := ""
		for _, s := range d.steps {
			if w := c.stepTo(s, buf, p); w != "" && bad == "" {
				bad = w
			}
		}
		if bad == "" {
			rest := ""
			switch {
			case p == nil:
				if len(after) > 0 {
					rest = "text is written behind the loop"
				}
			case len(after) == 0:
				if pv := lv.ts[k+1]; e.truth(st, ts.lt(pv, e.lenT(c.s))) != 0 && e.truth(st, ts.eq(pv, e.lenT(c.s))) != 1 {
					rest = "the text behind the last byte escaped is not written"
				}
			default:
				x, lo, hi := e.span(after[0])
				if len(after) != 1 || x != c.s || !e.same(st, lo, lv.ts[k+1]) || hi != e.lenT(c.s) {
					rest = "the text behind the last byte escaped is another"
				}
			}
			c.ok(rest == "", "written", pos, "%s", rest)
			return
		}
		why = bad
	}
	c.ok(false, "written", pos, "%s", why)
}

// returned: the text t is the text escaped.
func (c *escaper) returned(st *PState, t *Term, pos string) {
	e := c.e
	vs := c.evs(st)
	if e.same(st, t, c.s) {
		c.clean(st, vs, pos)
		return
	}
	for i, v := range vs {
		if v.kind == "built" && v.ts[1] == t {
			c.written(st, v.ts[0], vs[:i], pos)
			return
		}
	}
	if t.op == "conv" && t.args[0].typ != nil && !isIntTyp(t.args[0].typ) {
		root := c.chain[t.args[0]]
		if root == nil {
			root = t.args[0]
		}
		for _, v := range vs {
			if v.kind == "list" && v.ts[0] == root {
				c.ok(c.tip(vs, root) == t.args[0], "result", pos, "another list is returned than the one bytes were added to")
				c.written(st, root, vs, pos)
				return
			}
		}
		c.array(st, t.args[0], vs, pos)
		return
	}
	c.ok(false, "result", pos, "it is not known what is returned (%s)", t)
}

// array: the bytes t are the text escaped.
func (c *escaper) array(st *PState, t *Term, vs []ev, pos string) {
	e := c.e
	ts := e.ts
	at, copied := -1, -1
	for i, v := range vs {
		switch v.kind {
		case "loop":
			for _, s := range c.loopOf(v).steps {
				if len(s.w)+len(s.put) > 0 {
					c.ok(at < 0 || at == i, "written", pos, "bytes are written in several loops")
					at = i
				}
			}
		case "copy":
			c.ok(at < 0 && copied < 0 && c.root(v.ts[0]) == c.root(t) && e.same(st, v.ts[1], c.s), "written", pos, "something else is copied")
			copied = i
		default:
			c.ok(false, "written", pos, "something else is written")
		}
	}
	if at < 0 {
		c.ok(copied >= 0, "written", pos, "nothing is written")
		c.ok(e.truth(st, ts.eq(e.lenT(t), e.lenT(c.s))) == 1, "length", pos, "the bytes are more or less than those of the text")
		c.clean(st, vs, pos)
		return
	}
	d, lv := c.loopOf(vs[at]), vs[at]
	absent := c.absent(st, vs)
	c.ok(c.within(st, lv.ts[0]) == 0, "written", pos, "the loop ends before the text")
	if copied >= 0 {
		c.ok(e.truth(st, ts.eq(e.lenT(t), e.lenT(c.s))) == 1, "length", pos, "the bytes are more or less than those of the text")
		for _, s := range d.steps {
			bad := ""
			s = s.but(absent)
			switch {
			case len(s.w) > 0 || len(s.put) > 1:
				bad = "something else is written"
			case len(s.put) == 0 && !s.all(func(b byte) bool { return c.plainByte(b) || absent(b) }):
				bad = "a byte is kept which is to be escaped"
			case len(s.put) == 0:
			case c.root(s.put[0].ts[0]) != c.root(t) || !e.same(s.st, s.put[0].ts[1], s.at):
				bad = "a byte is written to another place"
			default:
				bad = c.esc(s, []*Term{c.chr(s.put[0].ts[2])})
			}
			c.ok(bad == "", "written", pos, "%s", bad)
		}
		return
	}
	why := "there is no place where bytes are written"
	for k, j := range d.nums {
		if !d.zero[j] {
			continue
		}
		bad := ""
		for _, s := range d.steps {
			if w := c.stepPut(s.but(absent), t, j); w != "" && bad == "" {
				bad = w
			}
		}
		if bad == "" {
			c.ok(c.equal(st, e.lenT(t), lv.ts[k+1]) || c.fits(st, t, vs), "length", pos, "the bytes are not known to be as many as are written (%s)", e.lenT(t))
			return
		}
		why = bad
	}
	c.ok(false, "written", pos, "%s", why)
}

// root gives the bytes which t begins at the begin of.
func (c *escaper) root(t *Term) *Term {
	for t.op == "slice" && t.args[1].isInt() && t.args[1].n == 0 {
		t = t.args[0]
	}
	return t
}

// stepPut: a step puts the escape of the byte from the place j on.
func (c *escaper) stepPut(s *escStep, t *Term, j *ssa.Phi) string {
	e := c.e
	if len(s.w) > 0 {
		return "something else is written"
	}
	var parts []*Term
	for i, v := range s.put {
		if c.root(v.ts[0]) != c.root(t) || !e.same(s.st, v.ts[1], e.ts.addT(s.from[j], e.ts.intc(int64(i)), 1)) {
			return "a byte is written to another place"
		}
		parts = append(parts, c.chr(v.ts[2]))
	}
	if s.to[j] != e.ts.addT(s.from[j], e.ts.intc(int64(len(s.put))), 1) {
		return "the place goes on by more or less than the bytes written"
	}
	return c.esc(s, parts)
}

// fits: t is as long as the text and two bytes more for each escaped one.
func (c *escaper) fits(st *PState, t *Term, vs []ev) bool {
	e := c.e
	ts := e.ts
	for _, v := range vs {
		if v.kind != "loop" || len(v.ts) == 0 || c.within(st, v.ts[0]) != 0 {
			continue
		}
		d := c.loopOf(v)
	num:
		for i, q := range d.nums {
			yes := c.counted(d, q)
			if yes == nil {
				continue
			}
			for b := range 256 {
				if yes[byte(b)] != c.hex(byte(b)) {
					continue num
				}
			}
			if e.truth(st, ts.eq(e.lenT(t), ts.addT(e.lenT(c.s), v.ts[i+1], 2))) == 1 {
				return true
			}
		}
	}
	return false
}
