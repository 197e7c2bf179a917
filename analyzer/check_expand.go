package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = func(p *Prog, tier string) *Result { return checkExpand(p) }
}

// expander decides C26: an expansion writes every alternative of every piece once and in order, and leaves the pieces at
// their start.
type expander struct {
	p    *Prog
	r    *Result
	e    *PEngine
	fn   *ssa.Function
	next *ssa.Function // writes the next alternative of a piece
	rst  *ssa.Function // puts a piece to its start
	cnt  *ssa.Function // the number of alternatives
	rec  *ssa.Function // expands a list of pieces
	rn   *ssa.Function // gives the next symbol of a range
	rr   *ssa.Function // puts a range to its start
	rc   *ssa.Function // the number of symbols of a range

	exps, result, buf, max, count, depth, try *Term
}

func checkExpand(p *Prog) *Result {
	c := &expander{p: p, r: newResult()}
	for _, f := range p.funcs {
		if f.Pkg == nil || rel(f.Pkg.Pkg.Path()) != "expand" || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		s := f.Signature
		recv := ""
		if s.Recv() != nil {
			recv = typName(s.Recv().Type())
		}
		one := func(t types.Type) bool { return s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), t) }
		switch recv {
		case "*expand.Expression":
			switch {
			case s.Results().Len() == 2 && s.Params().Len() == 1 && isBytes(s.Params().At(0).Type()) && isBytes(s.Results().At(0).Type()):
				c.next = f
			case s.Params().Len() == 0 && s.Results().Len() == 0:
				c.rst = f
			case s.Params().Len() == 0 && one(types.Typ[types.Int]) && len(f.Name()) > 0 && strings.Contains(strings.ToLower(f.Name()), "count"):
				c.cnt = f
			}
		case "*expand.runes":
			switch {
			case s.Params().Len() == 0 && s.Results().Len() == 0:
				c.rr = f
			case s.Params().Len() == 0 && one(types.Typ[types.Int]):
				c.rc = f
			case s.Params().Len() == 0 && s.Results().Len() > 0:
				c.rn = f
			}
		case "":
			if s.Results().Len() == 3 && isStrings(s.Results().At(0).Type()) && isBytes(s.Results().At(1).Type()) {
				c.rec = f
			}
		}
	}
	if c.next == nil || c.rst == nil || c.rec == nil || c.rn == nil || c.rr == nil {
		c.r.fail("anchor", "expand", "-", "the functions which expand a list of pieces were not found")
		return c.r
	}
	c.product()
	c.alternatives()
	c.symbols()
	c.restart()
	c.number()
	c.entry()
	c.r.need("obligations", 40)
	return c.r
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStrTyp(s.Elem())
}

func (c *expander) start(fn *ssa.Function, but ...*ssa.Function) *PEngine {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 400
	c.e, c.fn = e, fn
	stop := map[*ssa.Function]bool{}
	for _, f := range but {
		stop[f] = true
	}
	rec := e.recBut(stop)
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool { return !stop[f] && !rec[f] }
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(fn))
	return e
}

func (c *expander) ok(good bool, rule, pos, format string, a ...any) {
	c.r.count("obligations", 1)
	if !good {
		c.e.fail(rule, fnName(c.fn), pos, format, a...)
	}
}

func (c *expander) done() {
	seen := map[string]bool{}
	for _, f := range c.e.finds {
		if k := f.Key() + f.Pos + f.Text; !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	c.r.count("paths", c.e.paths)
}

func (c *expander) dump(st *PState) {
	if !dbg {
		return
	}
	for f, v := range st.facts {
		println("   fact", f.String(), v)
	}
	for _, v := range st.cl.(*evState).evs {
		s := ""
		for _, t := range v.ts {
			if t != nil {
				s += " | " + t.String()
			}
		}
		println("   ev", v.kind, v.aux, s)
	}
}

// ---- the product

type expLoop struct {
	exact, prefix, acc map[*ssa.Phi]bool
	pend               []*ssa.Phi
}

func (c *expander) evs(st *PState) []ev { return st.cl.(*evState).evs }

func isZeroOrNone(t *Term) bool { return t.op == "none" || t.isInt() && t.n == 0 }

// exact: t holds what the buffer held at entry.
func (c *expander) exact(st *PState, t *Term) bool {
	e := c.e
	if t == c.buf || e.same(st, t, c.buf) {
		return true
	}
	if t.op == "slice" && isZeroOrNone(t.args[1]) && t.args[2].op != "none" {
		return e.same(st, t.args[2], e.lenT(c.buf)) && c.prefix(st, t.args[0])
	}
	for _, v := range c.evs(st) {
		if v.kind == "exact" && v.ts[0] == t {
			return true
		}
	}
	return false
}

// prefix: t begins with what the buffer held at entry.
func (c *expander) prefix(st *PState, t *Term) bool {
	if c.exact(st, t) {
		return true
	}
	if t.op == "append" {
		return c.prefix(st, t.args[0])
	}
	for _, v := range c.evs(st) {
		if v.kind == "prefix" && v.ts[0] == t || v.kind == "grown" && v.ts[0] == t && c.prefix(st, v.ts[1]) {
			return true
		}
	}
	return false
}

// first: t is the address of the first piece.
func (c *expander) first(t *Term) bool {
	return t.op == "ia" && t.args[0] == c.exps && t.args[1].isInt() && t.args[1].n == 0
}

func (c *expander) rest(st *PState, t *Term) bool {
	return t.op == "slice" && t.args[0] == c.exps && t.args[1].isInt() && t.args[1].n == 1 && (t.args[2].op == "none" || c.e.same(st, t.args[2], c.e.lenT(c.exps)))
}

func (c *expander) isNil(st *PState, t *Term) int { return c.e.truth(st, c.e.ts.eq(t, c.e.ts.nilc())) }

func isEOF(t *Term) bool {
	return t.op == "load" && t.args[0].op == "global" && hasSuffix(t.args[0].aux, "io.EOF")
}

// product checks the function which expands a list of pieces behind a text.
func (c *expander) product() {
	fn := c.rec
	e := c.start(fn, c.next, c.rst, c.cnt, c.rec)
	ts := e.ts
	cl := e.cl
	intAt := map[string]int{}
	for i, q := range fn.Params {
		if isIntTyp(q.Type()) {
			intAt[q.Name()] = i
		}
	}
	ei, ri, bi := -1, -1, -1
	for i, q := range fn.Params {
		switch {
		case isStrings(q.Type()):
			ri = i
		case isBytes(q.Type()):
			bi = i
		case strings.HasSuffix(typName(q.Type()), "expand.Expression"):
			ei = i
		}
	}
	if ei < 0 || ri < 0 || bi < 0 {
		c.r.fail("anchor", fnName(fn), "-", "the list of pieces, the results or the buffer was not found among the parameters")
		return
	}
	n := 0
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		s := st.cl.(*evState)
		pos := c.p.instrPos(in)
		switch callee {
		case nil:
			return false, nil
		case c.next:
			id := st.top().id + "/" + in.Value().Name()
			out := e.fresh(st, "sym", id+".out", callee.Signature.Results().At(0).Type())
			err := e.fresh(st, "sym", id+".err", callee.Signature.Results().At(1).Type())
			n++
			c.ok(c.first(args[0]), "alternative", pos, "the next alternative is not taken from the first of the pieces left (%s)", args[0])
			c.ok(c.exact(st, args[1]), "behind", pos, "an alternative is written behind another text than that before the piece (%s)", args[1])
			s.add("grown", "", out, args[1])
			s.add("next", itoa(n), out, err)
			return true, ts.mk("tuple", "", callee.Signature.Results(), out, err)
		case c.rec:
			id := st.top().id + "/" + in.Value().Name()
			rs := e.fresh(st, "sym", id+".res", callee.Signature.Results().At(0).Type())
			out := e.fresh(st, "sym", id+".buf", callee.Signature.Results().At(1).Type())
			err := e.fresh(st, "sym", id+".err", callee.Signature.Results().At(2).Type())
			n++
			c.ok(c.rest(st, args[ei]), "rest", pos, "another list than the pieces behind the first is expanded (%s)", args[ei])
			s.add("grown", "", out, args[bi])
			s.add("rec", itoa(n), rs, err, args[ri], args[bi])
			for i, q := range fn.Params {
				if isBoolTyp(q.Type()) {
					t := e.truth(st, c.try)
					c.ok(args[i] == c.try || t == 1 && args[i].isTrue() || t == 0 && args[i].isFalse(), "try", pos, "the pieces behind are expanded with another mode (%s)", args[i])
				}
			}
			c.limits(st, pos, args, intAt)
			return true, ts.mk("tuple", "", callee.Signature.Results(), rs, out, err)
		case c.rst:
			n++
			s.add("reset", itoa(n), args[0])
			return true, ts.nilc()
		case c.cnt:
			if c.first(args[0]) {
				return true, ts.mk("call", "count", types.Typ[types.Int], args[0])
			}
		}
		return false, nil
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		d, _ := lc.data.(*expLoop)
		if d == nil {
			d = &expLoop{exact: map[*ssa.Phi]bool{}, prefix: map[*ssa.Phi]bool{}, acc: map[*ssa.Phi]bool{}}
			lc.data = d
			at := map[*Term]*ssa.Phi{}
			for i, q := range lc.phis {
				at[lc.vals[i]] = q
			}
			if v := c.lastOf(head, "next"); v != nil && at[v.ts[0]] != nil && at[v.ts[1]] != nil {
				d.pend = []*ssa.Phi{at[v.ts[0]], at[v.ts[1]]}
			}
			for i, q := range lc.phis {
				v := lc.vals[i]
				if isBytes(q.Type()) {
					d.exact[q], d.prefix[q] = c.exact(head, v), c.prefix(head, v)
				}
				if isStrings(q.Type()) {
					d.acc[q] = e.same(head, v, c.result)
				}
			}
		}
		s := head.cl.(*evState)
		for _, v := range s.evs {
			if v.kind == "rec" || v.kind == "next" && d.pend == nil {
				c.ok(false, "order", c.p.pos(fn.Pos()), "pieces are expanded before the loop over the alternatives")
			}
		}
		s.add("loop", "")
		for _, q := range lc.phis {
			h := e.val(head, q)
			if d.exact[q] {
				s.add("exact", "", h)
			} else if d.prefix[q] {
				s.add("prefix", "", h)
			}
			if d.acc[q] {
				s.add("acc", "", h)
			}
		}
		if d.pend != nil { // the alternative was asked for at the end of the step before
			n++
			s.add("next", itoa(n), e.val(head, d.pend[0]), e.val(head, d.pend[1]))
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		d, _ := lc.data.(*expLoop)
		if d == nil {
			return
		}
		if d.pend != nil {
			v := c.lastOf(back, "next")
			if v == nil || c.lastKind(back, "next", "rec") != "next" || v.ts[0] != e.val(back, d.pend[0]) || v.ts[1] != e.val(back, d.pend[1]) {
				d.pend, ch = nil, true
			}
		}
		for _, q := range lc.phis {
			v := e.val(back, q)
			if d.exact[q] && !c.exact(back, v) {
				d.exact[q], ch = false, true
			}
			if d.prefix[q] && !c.prefix(back, v) {
				d.prefix[q], ch = false, true
			}
			if d.acc[q] && !c.accGood(back, e.val(head, q), v) {
				d.acc[q], ch = false, true
			}
		}
		return
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		pos := c.p.pos(fn.Pos())
		n0 := len(c.e.finds)
		var next, rec *ev
		pend := lc.data.(*expLoop).pend != nil
		vs := c.since(back)
		for i, v := range vs {
			v := v
			switch v.kind {
			case "next":
				if pend && next != nil && rec != nil && c.count1(vs[i:], "next") == 1 && c.count1(vs[i:], "rec") == 0 {
					break // the one of the next step
				}
				c.ok(next == nil, "once", pos, "two alternatives are written in one step")
				next = &v
			case "rec":
				c.ok(rec == nil, "once", pos, "the pieces behind are expanded twice for one alternative")
				c.ok(next != nil, "order", pos, "the pieces behind are expanded before an alternative is written")
				rec = &v
			case "reset":
				c.ok(false, "reset", pos, "a piece is put to its start before all of its alternatives were written")
			}
		}
		c.ok(next != nil && rec != nil, "dropped", pos, "an alternative is written without the pieces behind it")
		if next != nil && rec != nil {
			c.ok(c.isNil(back, next.ts[1]) == 1 && c.isNil(back, rec.ts[1]) == 1, "error", pos, "the expansion goes on behind an error")
			c.ok(rec.ts[3] == next.ts[0], "behind", pos, "the pieces behind are not written behind the alternative")
		}
		held := false
		for _, q := range lc.phis {
			if isStrings(q.Type()) {
				held = held || c.accGood(back, e.val(head, q), e.val(back, q)) && lc.data.(*expLoop).acc[q]
			}
		}
		c.ok(held, "dropped", pos, "the results so far are not kept for the next alternative")
		c.ok(c.try == nil || e.truth(back, c.try) == 0, "try", pos, "a second alternative is asked for, and only one may be wanted")
		if len(c.e.finds) > n0 {
			c.dump(back)
		}
	}
	st := e.Start(fn, &evState{})
	c.exps, c.result, c.buf = e.val(st, fn.Params[ei]), e.val(st, fn.Params[ri]), e.val(st, fn.Params[bi])
	for k, i := range intAt {
		switch k {
		case "max":
			c.max = e.val(st, fn.Params[i])
		case "count":
			c.count = e.val(st, fn.Params[i])
		case "depth":
			c.depth = e.val(st, fn.Params[i])
		}
	}
	for _, q := range fn.Params {
		if isBoolTyp(q.Type()) {
			c.try = e.val(st, q)
		}
	}
	for _, x := range e.RunFrom(fn, st) {
		n0 := len(e.finds)
		c.exit(x)
		if len(e.finds) > n0 && dbg {
			println("EXIT", c.p.instrPos(x.ret), x.res[0].String(), x.res[1].String(), x.res[2].String())
			c.dump(x.st)
		}
	}
	c.done()
}

func (c *expander) lastOf(st *PState, kind string) *ev {
	vs := c.since(st)
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].kind == kind {
			return &vs[i]
		}
	}
	return nil
}

func (c *expander) lastKind(st *PState, kinds ...string) string {
	vs := c.since(st)
	for i := len(vs) - 1; i >= 0; i-- {
		for _, k := range kinds {
			if vs[i].kind == k {
				return k
			}
		}
	}
	return ""
}

// since gives the events of the iteration.
func (c *expander) since(st *PState) []ev {
	vs := c.evs(st)
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].kind == "loop" {
			return vs[i+1:]
		}
	}
	return vs
}

// accGood: the results v are those of the step which began with the results h.
func (c *expander) accGood(st *PState, h, v *Term) bool {
	for _, r := range c.since(st) {
		if r.kind == "rec" && r.ts[0] == v && r.ts[2] == h {
			return true
		}
	}
	return false
}

func (c *expander) exit(x *PExit) {
	e, st := c.e, x.st
	ts := e.ts
	pos := c.p.instrPos(x.ret)
	res, buf, err := x.res[0], x.res[1], x.res[2]
	c.r.count("return_paths", 1)
	c.ok(c.prefix(st, buf), "behind", pos, "the buffer returned does not begin with the text at entry (%s)", buf)
	loop := false
	var next, rec, reset *ev
	vs := c.since(st)
	for i := range vs {
		switch vs[i].kind {
		case "next":
			next = &vs[i]
		case "rec":
			rec = &vs[i]
		case "reset":
			if c.first(vs[i].ts[0]) {
				reset = &vs[i]
			}
		}
	}
	for _, v := range c.evs(st) {
		loop = loop || v.kind == "loop"
	}
	tail := rec != nil && rec.ts[1] == err // the error of the pieces behind is handed on, whatever it is
	if c.isNil(st, err) != 1 && !(tail && c.isNil(st, err) == -1) {
		good := c.isNil(st, err) == 0
		if good {
			good = next != nil && next.ts[1] == err && !c.eof(st, err) || rec != nil && rec.ts[1] == err
		}
		c.ok(good, "error", pos, "an error is returned which is none of a piece (%s)", err)
		return
	}
	empty := e.truth(st, ts.eq(e.lenT(c.exps), ts.intc(0)))
	switch {
	case next == nil && rec == nil && !loop:
		c.ok(empty == 1, "dropped", pos, "the expansion ends with pieces left")
		good := false
		if res.op == "append" && len(res.args) == 2 && e.same(st, res.args[0], c.result) && arrayLen(res.args[1]) == 1 {
			v := e.load(st, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), res.args[1].args[0], ts.intc(0)), types.Typ[types.String])
			good = unconv(v) == c.buf || v.op == "conv" && v.args[0] == c.buf
			if !good && dbg {
				println("  text", v.String())
			}
		}
		c.ok(good, "result", pos, "the result added is not the text built, behind the results before (%s)", res)
	case !loop:
		c.ok(next == nil && rec != nil && c.count1(vs, "rec") == 1, "once", pos, "a piece put as written is followed by more or less than one expansion of the pieces behind")
		if rec == nil {
			return
		}
		b := rec.ts[3]
		good := b.op == "append" && len(b.args) == 2 && c.exact(st, b.args[0]) && isField(b.args[1], nil, "body") && c.first(b.args[1].args[0].args[0])
		c.ok(good, "behind", pos, "the piece put as written is not its text behind the text before (%s)", b)
		c.ok(e.same(st, rec.ts[2], c.result) && e.same(st, res, rec.ts[0]), "dropped", pos, "the results of the pieces behind are not returned, or the ones before are not kept")
		c.ok(tail || c.isNil(st, rec.ts[1]) == 1, "error", pos, "an error is dropped")
	default:
		// the end of the alternatives, or after the first one of them
		acc := false
		for _, v := range c.evs(st) {
			if v.kind == "acc" {
				if rec == nil {
					acc = acc || v.ts[0] == res
				} else {
					acc = acc || c.accGood(st, v.ts[0], res)
				}
			}
		}
		c.ok(acc, "dropped", pos, "the results of all alternatives are not returned (%s)", res)
		if next == nil {
			c.ok(false, "once", pos, "the loop over the alternatives ends without asking for the next one")
			return
		}
		if rec == nil {
			c.ok(c.eof(st, next.ts[1]), "dropped", pos, "the alternatives end before the end of the piece")
		} else {
			c.ok(c.try != nil && e.truth(st, c.try) == 1, "dropped", pos, "the alternatives end behind one of them, without try")
			c.ok(c.isNil(st, next.ts[1]) == 1 && (tail || c.isNil(st, rec.ts[1]) == 1) && rec.ts[3] == next.ts[0], "behind", pos, "the pieces behind are not written behind the alternative")
		}
		c.ok(reset != nil, "reset", pos, "the piece is not put to its start when its alternatives end")
	}
}

func (c *expander) count1(vs []ev, kind string) (n int) {
	for _, v := range vs {
		if v.kind == kind {
			n++
		}
	}
	return
}

func (c *expander) eof(st *PState, err *Term) bool {
	for f, v := range st.facts {
		if v && f.op == "eq" && (f.args[0] == err && isEOF(f.args[1]) || f.args[1] == err && isEOF(f.args[0])) {
			return true
		}
	}
	return false
}

// limits: a piece is put as written only when a limit is reached, and not expanded when it is.
func (c *expander) limits(st *PState, pos string, args []*Term, intAt map[string]int) {
	e := c.e
	ts := e.ts
	if c.max == nil || c.count == nil || c.depth == nil {
		return
	}
	zero, one := ts.intc(0), ts.intc(1)
	loop := false
	for _, v := range c.evs(st) {
		loop = loop || v.kind == "loop"
	}
	// the number of results when this piece is expanded
	product := func(t *Term) bool {
		if t.op == "call" && t.aux == "count" {
			return e.truth(st, ts.lt(zero, c.count)) == 0 || e.truth(st, ts.eq(c.count, one)) == 1
		}
		if t.op != "bin" || t.aux != "*" {
			return false
		}
		for i := range 2 {
			if t.args[i] == c.count && t.args[1-i].op == "call" && t.args[1-i].aux == "count" {
				return true
			}
		}
		return false
	}
	over := -1
	var total *Term
	for f, v := range st.facts {
		if f.op == "lt" && (f.args[0] == c.max && product(f.args[1])) {
			over, total = 0, f.args[1]
			if v {
				over = 1
			}
		}
	}
	deep := -1
	var left *Term
	for f, v := range st.facts {
		if f.op != "lt" {
			continue
		}
		for i := range 2 {
			l := linOf(ts.addT(f.args[1], f.args[0], -1))
			if i == 0 || l.m[c.depth] == 0 {
				continue
			}
			dots := false
			for t, n := range l.m {
				dots = dots || t.op == "call" && strings.HasSuffix(t.aux, "strings.Count") && n == -l.m[c.depth]
			}
			if !dots {
				continue
			}
			// depth - dots > 1
			d := ts.addT(ts.intc(0), c.depth, 1)
			for t := range l.m {
				if t != c.depth {
					d = ts.addT(d, t, -1)
				}
			}
			left = d
			if k := e.truth(st, ts.lt(one, d)); k >= 0 {
				deep = 1 - k
			}
			_ = v
		}
	}
	lim := e.truth(st, ts.lt(zero, c.max))
	if !loop {
		c.ok(e.truth(st, ts.eq(c.max, zero)) == 1 || lim == 1 && over == 1 || e.truth(st, ts.lt(zero, c.depth)) == 1 && deep == 1, "limit", pos, "a piece is put as written and no limit is known to be reached")
	} else {
		c.ok(e.truth(st, ts.eq(c.max, zero)) == 0, "limit", pos, "a piece is expanded and no expansion may be wanted")
		c.ok(lim == 0 || lim == 1 && over == 0, "limit", pos, "a piece is expanded and the number of results may be above the limit")
		c.ok(deep != 1, "limit", pos, "a piece is expanded behind the depth wanted")
		if e.truth(st, ts.lt(zero, c.depth)) != 0 {
			first := ts.mk("ia", "", c.next.Params[0].Type(), c.exps, zero)
			switch {
			case c.isText(st, first):
				c.ok(deep == 0, "limit", pos, "the points of a piece put as written are not counted, or the depth left behind them may be the one wanted")
			case c.isNone(st, first, "expString", "expWildcard"):
				c.ok(left == nil, "limit", pos, "the points of a piece with alternatives are counted")
			default:
				c.ok(false, "limit", pos, "the points of a piece are counted and it may have alternatives, or are not counted and it may have none")
			}
		}
		if lim == 1 {
			c.ok(total != nil && e.same(st, args[intAt["count"]], total), "limit", pos, "the number of results so far is not handed on (%s)", args[intAt["count"]])
		}
		c.ok(e.same(st, args[intAt["max"]], c.max), "limit", pos, "the limit is not handed on")
	}
	if loop || e.truth(st, ts.eq(args[intAt["max"]], zero)) != 1 {
		d := args[intAt["depth"]]
		c.ok(e.same(st, d, c.depth) && deep == -1 || left != nil && e.same(st, d, left), "limit", pos, "the depth left is not handed on (%s)", d)
	}
	if !loop {
		c.ok(e.truth(st, ts.eq(args[intAt["max"]], zero)) == 1, "limit", pos, "the pieces behind one put as written may be expanded")
	}
}

// ---- the alternatives of a piece

// pieceStart starts a method of a piece, and gives its object.
func (c *expander) pieceStart(fn *ssa.Function) (*PState, *Term) {
	st := c.e.Start(fn, &evState{})
	return st, c.e.val(st, fn.Params[0])
}

func (c *expander) field(st *PState, x *Term, name string) *Term {
	return c.e.loadField(st, x, c.fn.Params[0].Type(), name)
}

// is tells whether a piece is known to be of one of the kinds.
func (c *expander) is(st *PState, x *Term, kinds ...string) bool {
	t := c.e.loadField(st, x, c.next.Params[0].Type(), "typ")
	for _, k := range kinds {
		if n, ok := c.p.constInt("expand", k); ok && c.e.truth(st, c.e.ts.eq(t, c.e.ts.intc(n))) == 1 {
			return true
		}
	}
	return false
}

// isNone tells whether a piece is known to be of none of the kinds.
func (c *expander) isNone(st *PState, x *Term, kinds ...string) bool {
	t := c.e.loadField(st, x, c.next.Params[0].Type(), "typ")
	for _, k := range kinds {
		if n, ok := c.p.constInt("expand", k); !ok || c.e.truth(st, c.e.ts.eq(t, c.e.ts.intc(n))) != 0 {
			return false
		}
	}
	return true
}

// isText tells whether a piece is known to have one alternative, its text.
func (c *expander) isText(st *PState, x *Term) bool {
	return c.is(st, x, "expString", "expWildcard") || c.isNone(st, x, "expList", "expRunes")
}

// symLoop is a loop over the ranges of a piece: the symbol and the sign of its end are those of the place at its head.
type symLoop struct {
	pend []*ssa.Phi
	held bool
}

func (c *expander) alternatives() {
	fn := c.next
	e := c.start(fn, c.rn)
	ts := e.ts
	cl := e.cl
	pos := c.p.pos(fn.Pos())
	n := 0
	var recv, out0, runes, pos0 *Term
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee != c.rn {
			return false, nil
		}
		id := st.top().id + "/" + in.Value().Name()
		rs := callee.Signature.Results()
		v := e.fresh(st, "sym", id+".c", rs.At(0).Type())
		n++
		if rs.Len() != 2 {
			c.ok(false, "symbol", c.p.instrPos(in), "the end of a range is told by a symbol, which may be one of the range")
			st.cl.(*evState).add("sym", itoa(n), args[0], v, ts.boolc(true))
			return true, v
		}
		good := e.fresh(st, "sym", id+".ok", rs.At(1).Type())
		st.cl.(*evState).add("sym", itoa(n), args[0], v, good)
		return true, ts.mk("tuple", "", rs, v, good)
	}
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op == "fa" && hasSuffix(addr.aux, ".pos") {
			n++
			st.cl.(*evState).add("moved", itoa(n))
		}
	}
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		s := head.cl.(*evState)
		d, _ := lc.data.(*symLoop)
		if d == nil {
			d = &symLoop{held: true}
			for _, v := range c.evs(head) {
				d.held = d.held && v.kind != "moved"
			}
			lc.data = d
			at := map[*Term]*ssa.Phi{}
			for i, q := range lc.phis {
				at[lc.vals[i]] = q
			}
			if v := c.lastOf(head, "sym"); v != nil && at[v.ts[1]] != nil && at[v.ts[2]] != nil && v.ts[0].op == "ia" && e.same(head, v.ts[0].args[0], runes) && e.same(head, v.ts[0].args[1], pos0) {
				d.pend = []*ssa.Phi{at[v.ts[1]], at[v.ts[2]]}
			}
		}
		s.add("loop", "")
		// at entry the place is one of a range; Back checks that it is again one behind each step
		if c.is(head, recv, "expRunes") && d.held {
			e.assume(head, ts.lt(c.field(head, recv, "pos"), e.lenT(runes)), true)
		}
		if d.pend != nil { // the symbol was asked for at the end of the step before
			n++
			s.add("sym", itoa(n), ts.mk("ia", "", c.rn.Params[0].Type(), runes, c.field(head, recv, "pos")), e.val(head, d.pend[0]), e.val(head, d.pend[1]))
		}
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		if d := lc.data.(*symLoop); d.pend != nil {
			v := c.lastOf(back, "sym")
			if v == nil || v.ts[1] != e.val(back, d.pend[0]) || v.ts[2] != e.val(back, d.pend[1]) || v.ts[0].op != "ia" || !e.same(back, v.ts[0].args[0], runes) || !e.same(back, v.ts[0].args[1], c.field(back, recv, "pos")) {
				d.pend, ch = nil, true
			}
		}
		return
	}
	at := func(st *PState, t *Term) *Term {
		if t.op == "ia" && e.same(st, t.args[0], runes) {
			return t.args[1]
		}
		return nil
	}
	last := func(st *PState) (v *ev, k int) {
		vs := c.since(st)
		for i := range vs {
			if vs[i].kind == "sym" {
				v = &vs[i]
				k++
			}
		}
		return
	}
	ended := func(st *PState, p *Term) bool { // p is the last place
		return e.truth(st, ts.eq(ts.addT(p, ts.intc(1), 1), e.lenT(runes))) == 1 || e.truth(st, ts.lt(p, ts.addT(e.lenT(runes), ts.intc(1), -1))) == 0 || e.truth(st, ts.lt(ts.addT(p, ts.intc(1), 1), e.lenT(runes))) == 0
	}
	more := func(st *PState, p *Term, l *Term) bool {
		p1 := ts.addT(p, ts.intc(1), 1)
		return e.truth(st, ts.lt(p, ts.addT(e.lenT(l), ts.intc(1), -1))) == 1 || e.truth(st, ts.lt(p1, e.lenT(l))) == 1 || e.le(st, p1, e.lenT(l)) && e.truth(st, ts.eq(p1, e.lenT(l))) == 0
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		v, k := last(back)
		if lc.data.(*symLoop).pend != nil && k == 2 {
			k = 1
			for _, w := range c.since(back) {
				if w.kind == "sym" {
					w := w
					v = &w
					break
				}
			}
		}
		p0 := c.field(head, recv, "pos")
		p1 := c.field(back, recv, "pos")
		c.ok(k == 1 && v != nil && at(back, v.ts[0]) != nil && e.same(back, at(back, v.ts[0]), p0), "symbol", pos, "a step does not ask the range of the place for its next symbol")
		if v == nil {
			return
		}
		c.ok(e.truth(back, v.ts[2]) == 0, "symbol", pos, "the next range is entered before the end of the one before")
		c.ok(e.same(back, p1, ts.addT(p0, ts.intc(1), 1)) && more(back, p0, runes), "symbol", pos, "the place does not move to the next range (%s)", p1)
	}
	var list, body *Term
	kinds := map[string]bool{}
	var exits []*PExit
	for _, kind := range []string{"expString", "expWildcard", "expList", "expRunes"} {
		st, x := c.pieceStart(fn)
		recv = x
		out0 = e.val(st, fn.Params[1])
		runes, pos0 = c.field(st, recv, "runes"), c.field(st, recv, "pos")
		list, body = c.field(st, recv, "list"), c.field(st, recv, "body")
		k, _ := c.p.constInt("expand", kind)
		e.assume(st, ts.eq(c.field(st, recv, "typ"), ts.intc(k)), true)
		e.assume(st, ts.lt(pos0, ts.intc(-1)), false)
		// the place is one of the alternatives, or -1 (reset puts 0, and the steps below keep it)
		switch kind {
		case "expList":
			e.assume(st, ts.lt(pos0, e.lenT(list)), true)
			e.assume(st, ts.lt(ts.intc(0), e.lenT(list)), true)
		case "expRunes":
			e.assume(st, ts.lt(pos0, e.lenT(runes)), true)
			e.assume(st, ts.lt(ts.intc(0), e.lenT(runes)), true)
		}
		exits = append(exits, e.RunFrom(fn, st)...)
	}
	for _, x := range exits {
		st, pos := x.st, c.p.instrPos(x.ret)
		n0 := len(e.finds)
		p1 := c.field(st, recv, "pos")
		out, err := x.res[0], x.res[1]
		v, k := last(st)
		switch {
		case isEOF(err):
			c.ok(e.same(st, out, out0), "alternative", pos, "something is written at the end of the alternatives")
			good := e.truth(st, ts.eq(pos0, ts.intc(-1))) == 1
			if v != nil {
				p := at(st, v.ts[0])
				good = k == 1 && e.truth(st, v.ts[2]) == 0 && p != nil && e.same(st, p, p1) && ended(st, p)
			}
			c.ok(good, "alternative", pos, "the end of the alternatives is told before their end")
			kinds["end"] = true
		case c.isNil(st, err) != 1:
			c.ok(false, "error", pos, "an error other than the end is returned (%s)", err)
		case v != nil:
			kinds["runes"] = true
			p := at(st, v.ts[0])
			c.ok(k == 1 && e.truth(st, v.ts[2]) == 1 && p != nil && e.same(st, p, p1), "symbol", pos, "a symbol is written which the range of the place did not give")
			c.ok(c.is(st, recv, "expRunes"), "kind", pos, "symbols are written for a piece which is no class")
			c.ok(out.op == "call" && hasSuffix(out.aux, "utf8.AppendRune") && e.same(st, out.args[0], out0) && e.same(st, unconv(out.args[1]), v.ts[1]), "symbol", pos, "what is written is not the symbol behind the text before (%s)", out)
		default:
			good := out.op == "append" && len(out.args) == 2 && e.same(st, out.args[0], out0)
			c.ok(good, "alternative", pos, "what is written does not follow the text before (%s)", out)
			if !good {
				break
			}
			w := out.args[1]
			l, i := elem(w)
			switch {
			case e.same(st, w, body):
				kinds["body"] = true
				c.ok(c.is(st, recv, "expString", "expWildcard"), "kind", pos, "a piece with alternatives is written as it is")
				c.ok(p1.isInt() && p1.n == -1, "alternative", pos, "a text is not at its end behind the first time (%s)", p1)
			case l != nil && e.same(st, l, list):
				kinds["list"] = true
				c.ok(c.is(st, recv, "expList"), "kind", pos, "the values of a list are written for another piece")
				c.ok(e.same(st, i, pos0), "alternative", pos, "the value of another place is written (%s)", i)
				c.ok(e.same(st, p1, ts.addT(pos0, ts.intc(1), 1)) && more(st, pos0, list) || p1.isInt() && p1.n == -1 && (e.truth(st, ts.eq(ts.addT(pos0, ts.intc(1), 1), e.lenT(list))) == 1 || e.truth(st, ts.lt(pos0, ts.addT(e.lenT(list), ts.intc(1), -1))) == 0 || e.truth(st, ts.lt(ts.addT(pos0, ts.intc(1), 1), e.lenT(list))) == 0), "alternative", pos, "the place of the next value is another (%s)", p1)
			default:
				c.ok(false, "alternative", pos, "what is written is none of the alternatives (%s)", w)
			}
			if !(e.same(st, w, body)) && l == nil {
				break
			}
		}
		c.ok(e.truth(st, ts.eq(pos0, ts.intc(-1))) == 0 || isEOF(err), "alternative", pos, "an alternative is written behind the end")
		if len(e.finds) > n0 && dbg {
			println("EXIT", pos, out.String(), err.String(), "pos", p1.String())
			c.dump(st)
		}
	}
	for _, k := range []string{"body", "list", "runes", "end"} {
		c.ok(kinds[k], "kind", pos, "there is no way to the alternatives of a kind of piece (%s)", k)
	}
	c.done()
}

// symbols checks a range: each of its symbols once, in order.
func (c *expander) symbols() {
	fn := c.rn
	e := c.start(fn)
	ts := e.ts
	st, recv := c.pieceStart(fn)
	pos0, stop := c.field(st, recv, "pos"), c.field(st, recv, "stop")
	e.assume(st, ts.lt(pos0, ts.intc(-1)), false) // a symbol, or the sign of the end
	e.assume(st, ts.lt(stop, ts.intc(-1)), false)
	for _, x := range e.RunFrom(fn, st) {
		st, pos := x.st, c.p.instrPos(x.ret)
		if len(x.res) != 2 {
			c.ok(false, "symbol", pos, "the end of a range is told by a symbol, which may be one of the range")
			continue
		}
		p1 := c.field(st, recv, "pos")
		past := e.truth(st, ts.lt(stop, pos0))
		end := e.truth(st, ts.eq(pos0, ts.intc(-1)))
		switch e.truth(st, x.res[1]) {
		case 1:
			c.ok(e.same(st, unconv(x.res[0]), pos0), "symbol", pos, "the symbol given is not the one of the place (%s)", x.res[0])
			c.ok(past == 0 && end == 0, "symbol", pos, "a symbol behind the last one is given")
			c.ok(e.same(st, p1, ts.addT(pos0, ts.intc(1), 1)), "symbol", pos, "the next place is another (%s)", p1)
		case 0:
			c.ok(past == 1 || end == 1, "symbol", pos, "the end of a range is told before its end")
			c.ok(e.same(st, p1, pos0) || p1.isInt() && p1.n == -1, "symbol", pos, "the end of a range is left")
		default:
			// told by the comparison itself
			good := false
			for _, t := range []*Term{ts.not(ts.lt(stop, pos0))} {
				good = good || x.res[1] == t && end == 0
			}
			c.ok(good, "symbol", pos, "it is not known whether a symbol is given or the end told")
		}
	}
	c.done()
	fn = c.rr
	e = c.start(fn)
	st, recv = c.pieceStart(fn)
	first := c.field(st, recv, "start")
	for _, x := range e.RunFrom(fn, st) {
		c.ok(e.same(x.st, c.field(x.st, recv, "pos"), first), "reset", c.p.instrPos(x.ret), "a range is not put to its first symbol")
	}
	c.done()
}

// visits is a loop over the ranges of a piece.
type visits struct {
	ph    *ssa.Phi
	k     *Term
	bad   bool
	entry *Term
	sum   map[*ssa.Phi]bool
}

// restart checks that a piece is put to its start, with all of its ranges.
func (c *expander) restart() {
	fn := c.rst
	e := c.start(fn)
	cl := e.cl
	var recv, runes *Term
	n := 0
	cl.Store = func(e *PEngine, st *PState, in *ssa.Store, addr, val *Term) {
		if addr.op == "fa" && hasSuffix(addr.aux, ".pos") && addr.args[0].op == "ia" && addr.args[0].args[0] == runes {
			if isField(val, addr.args[0], "start") {
				n++
				st.cl.(*evState).add("visit", itoa(n), addr.args[0].args[1])
			}
		}
	}
	c.visiting(func() *Term { return runes })
	st, x := c.pieceStart(fn)
	recv = x
	runes = c.field(st, recv, "runes")
	for _, x := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(x.ret)
		p := c.field(x.st, recv, "pos")
		c.ok(p.isInt() && p.n == 0, "reset", pos, "a piece is not put to its first alternative (%s)", p)
		c.ok(c.visited(x.st, runes), "reset", pos, "not all ranges of a piece are put to their start")
	}
	c.done()
}

func (c *expander) visited(st *PState, runes *Term) bool {
	for _, v := range c.evs(st) {
		if v.kind == "all" {
			return true
		}
	}
	return c.e.truth(st, c.e.ts.eq(c.e.lenT(runes), c.e.ts.intc(0))) == 1
}

// visiting follows loops which visit all the ranges in order: events "visit" hold the place visited.
func (c *expander) visiting(list func() *Term) {
	e := c.e
	ts := e.ts
	cl := e.cl
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		if lc.data == nil {
			lc.data = &visits{}
		}
		head.cl.(*evState).add("loop", "")
	}
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) bool {
		d := lc.data.(*visits)
		d.ph, d.k, d.bad = nil, nil, false
		return false
	}
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*visits)
		var idx *Term
		k := 0
		for _, v := range c.since(back) {
			if v.kind == "visit" {
				idx = v.ts[0]
				k++
			}
		}
		if k != 1 {
			d.bad = true
			return
		}
		for i, q := range lc.phis {
			if !isIntTyp(q.Type()) {
				continue
			}
			h := e.val(head, q)
			off := ts.addT(idx, h, -1)
			if off.isInt() && e.same(back, e.val(back, q), ts.addT(h, ts.intc(1), 1)) {
				if s := ts.addT(lc.vals[i], off, 1); s.isInt() && s.n == 0 {
					d.ph, d.k = q, off
					return
				}
			}
		}
		d.bad = true
	}
	cl.LoopExit = func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
		d := lc.data.(*visits)
		if d.bad || d.ph == nil {
			return
		}
		for _, v := range c.since(out) {
			if v.kind == "visit" {
				return
			}
		}
		i := ts.addT(e.val(head, d.ph), d.k, 1)
		if e.truth(out, ts.lt(i, e.lenT(list()))) == 0 {
			out.cl.(*evState).add("all", "")
		}
	}
}

// number checks the number of alternatives of a piece, and of symbols of a range.
func (c *expander) number() {
	if c.cnt == nil || c.rc == nil {
		return
	}
	fn := c.cnt
	e := c.start(fn, c.rc)
	ts := e.ts
	cl := e.cl
	var recv, runes *Term
	n := 0
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee != c.rc {
			return false, nil
		}
		v := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name()+".n", types.Typ[types.Int])
		a := args[0]
		if a.op != "ia" { // a copy of it
			f, g := e.loadField(st, a, callee.Params[0].Type(), "start"), e.loadField(st, a, callee.Params[0].Type(), "stop")
			if isField(f, nil, "start") && isField(g, nil, "stop") && f.args[0].args[0] == g.args[0].args[0] {
				a = f.args[0].args[0]
			}
		}
		if a.op == "ia" && e.same(st, a.args[0], runes) {
			n++
			st.cl.(*evState).add("visit", itoa(n), a.args[1], v)
		}
		return true, v
	}
	c.visiting(func() *Term { return runes })
	head0 := cl.LoopHead
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) {
		head0(e, lc, head)
		d := lc.data.(*visits)
		if d.sum == nil {
			d.sum = map[*ssa.Phi]bool{}
			for i, q := range lc.phis {
				if isIntTyp(q.Type()) {
					d.sum[q] = lc.vals[i].isInt() && lc.vals[i].n == 0
				}
			}
		}
		for _, q := range lc.phis {
			if d.sum[q] {
				head.cl.(*evState).add("sum", "", e.val(head, q))
			}
		}
	}
	bc0 := cl.BackCheck
	cl.BackCheck = func(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
		bc0(e, lc, head, back)
		d := lc.data.(*visits)
		for _, q := range lc.phis {
			if !d.sum[q] {
				continue
			}
			good := false
			for _, v := range c.since(back) {
				if v.kind == "visit" {
					good = e.same(back, e.val(back, q), ts.addT(e.val(head, q), v.ts[1], 1))
				}
			}
			if !good {
				d.sum[q], ch = false, true
			}
		}
		return
	}
	st, x := c.pieceStart(fn)
	recv = x
	runes = c.field(st, recv, "runes")
	list := c.field(st, recv, "list")
	for _, x := range e.RunFrom(fn, st) {
		pos := c.p.instrPos(x.ret)
		v := x.res[0]
		switch {
		case v.isInt() && v.n == 1:
			c.ok(c.is(x.st, recv, "expString", "expWildcard"), "number", pos, "a piece with alternatives counts as one")
		case e.same(x.st, v, e.lenT(list)):
			c.ok(c.is(x.st, recv, "expList"), "number", pos, "a piece which is no list counts as its values")
		default:
			sum := false
			for _, w := range c.evs(x.st) {
				sum = sum || w.kind == "sum" && w.ts[0] == v
			}
			c.ok(sum && c.visited(x.st, runes) && c.is(x.st, recv, "expRunes"), "number", pos, "the number of alternatives is not the sum of all ranges (%s)", v)
		}
	}
	c.done()
	fn = c.rc
	e = c.start(fn)
	st, recv = c.pieceStart(fn)
	a, b := c.field(st, recv, "start"), c.field(st, recv, "stop")
	for _, x := range e.RunFrom(fn, st) {
		v := unconv(x.res[0])
		l := linOf(v)
		for t, n := range l.m {
			if u := unconv(t); u != t { // int(stop) - int(start) + 1
				delete(l.m, t)
				l.m[u] += n
			}
		}
		c.ok(len(l.m) == 2 && l.m[b] == 1 && l.m[a] == -1 && l.k == 1, "number", c.p.instrPos(x.ret), "the number of symbols is not that from the first to the last one (%s)", x.res[0])
	}
	c.done()
}

// entry checks the public operations: all pieces, no results before, an empty text before.
func (c *expander) entry() {
	for _, name := range []string{"expand.Expressions.Expand", "expand.Expand", "expand.ExpandTry"} {
		fn := c.p.lookupFunc(name)
		if fn == nil {
			c.r.fail("anchor", name, "-", "the operation was not found")
			continue
		}
		parse := c.p.lookupFunc("expand.ParseExpr")
		e := c.start(fn, c.rec, c.cnt, parse)
		ts := e.ts
		cl := e.cl
		var pieces *Term
		var ei, ri, bi int
		at := map[string]int{}
		ti := -1
		for i, q := range c.rec.Params {
			switch {
			case isStrings(q.Type()):
				ri = i
			case isBytes(q.Type()):
				bi = i
			case isIntTyp(q.Type()):
				at[q.Name()] = i
			case isBoolTyp(q.Type()):
				ti = i
			case strings.HasSuffix(typName(q.Type()), "expand.Expression"):
				ei = i
			}
		}
		var st0 *PState
		n := 0
		param := func(name string) *Term {
			for _, q := range fn.Params {
				if q.Name() == name {
					return e.val(st0, q)
				}
			}
			return nil
		}
		cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
			pos := c.p.instrPos(in)
			switch {
			case callee == nil:
			case callee == parse:
				c.ok(len(args) == 1 && args[0] == param("in"), "entry", pos, "another text than the one given is expanded")
				x := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name(), in.Value().Type())
				pieces = e.loadField(st, x, in.Value().Type(), "exps")
				return true, x
			case callee == c.cnt:
				return true, e.fresh(st, "sym", st.top().id+"/"+in.Value().Name(), types.Typ[types.Int])
			case callee == c.rec:
				n++
				rs := callee.Signature.Results()
				id := st.top().id + "/" + in.Value().Name()
				a, b, err := e.fresh(st, "sym", id+".res", rs.At(0).Type()), e.fresh(st, "sym", id+".buf", rs.At(1).Type()), e.fresh(st, "sym", id+".err", rs.At(2).Type())
				c.ok(pieces != nil && e.same(st, args[ei], pieces), "entry", pos, "not all pieces of the text are expanded (%s)", args[ei])
				none := func(t *Term) bool {
					if t.op == "slice" {
						return isZeroOrNone(t.args[1]) && t.args[2].isInt() && t.args[2].n == 0
					}
					return t.op == "nil" || e.truth(st, ts.eq(e.lenT(t), ts.intc(0))) == 1
				}
				c.ok(none(args[ri]), "entry", pos, "there are results before the expansion (%s)", args[ri])
				c.ok(none(args[bi]), "entry", pos, "there is a text before the expansion (%s)", args[bi])
				if k, ok := at["max"]; ok && param("max") != nil {
					c.ok(args[k] == param("max"), "entry", pos, "another limit than the one given is handed on (%s)", args[k])
				}
				if k, ok := at["count"]; ok {
					c.ok(args[k].isInt() && (args[k].n == 0 || args[k].n == 1), "entry", pos, "results are counted before the expansion (%s)", args[k])
				}
				if k, ok := at["depth"]; ok && param("depth") != nil {
					d := param("depth")
					p := e.truth(st, ts.lt(ts.intc(0), d))
					c.ok(p == 0 && args[k] == d || p == 1 && args[k] == ts.addT(d, ts.intc(1), 1), "entry", pos, "another depth than the one given is handed on (%s)", args[k])
				}
				if ti >= 0 {
					t := args[ti]
					switch name {
					case "expand.Expand":
						c.ok(t.isFalse(), "entry", pos, "only one alternative is wanted of every piece")
					case "expand.ExpandTry":
						c.ok(t.isTrue(), "entry", pos, "more than one alternative is wanted of every piece")
					default:
						c.ok(t == param("try"), "entry", pos, "another mode than the one given is handed on")
					}
				}
				st.cl.(*evState).add("rec", itoa(n), a, err)
				return true, ts.mk("tuple", "", rs, a, b, err)
			}
			return false, nil
		}
		st0 = e.Start(fn, &evState{})
		if fn.Signature.Recv() != nil {
			pieces = e.loadField(st0, e.val(st0, fn.Params[0]), fn.Params[0].Type(), "exps")
		}
		for _, x := range e.RunFrom(fn, st0) {
			pos := c.p.instrPos(x.ret)
			st := x.st
			var rec *ev
			vs := c.evs(st)
			for i := range vs {
				if vs[i].kind == "rec" {
					rec = &vs[i]
				}
			}
			if c.isNil(st, x.res[1]) == 0 {
				c.ok(rec != nil && rec.ts[1] == x.res[1], "entry", pos, "an error is returned which is none of the expansion")
				continue
			}
			if rec != nil {
				c.ok(c.count1(vs, "rec") == 1 && e.same(st, x.res[0], rec.ts[0]) && (c.isNil(st, rec.ts[1]) == 1 && c.isNil(st, x.res[1]) == 1 || x.res[1] == rec.ts[1]), "entry", pos, "the results of the expansion are not returned (%s)", x.res[0])
				continue
			}
			// a text without alternatives
			good := false
			if pieces != nil && arrayLen(x.res[0]) == 1 && e.truth(st, ts.eq(e.lenT(pieces), ts.intc(1))) == 1 {
				v := e.load(st, ts.mk("ia", "", types.NewPointer(types.Typ[types.String]), x.res[0].args[0], ts.intc(0)), types.Typ[types.String])
				if isField(v, nil, "body") && v.args[0].args[0].op == "ia" {
					a := v.args[0].args[0]
					good = e.same(st, a.args[0], pieces) && a.args[1].isInt() && a.args[1].n == 0
					good = good && c.isText(st, a)
				}
			}
			c.ok(good, "entry", pos, "something else than the expansion is returned (%s)", x.res[0])
			if !good {
				c.dump(st)
			}
		}
		c.done()
	}
}
