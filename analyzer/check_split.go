package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = func(p *Prog, tier string) *Result { return checkSplit(p) }
}

// splitter decides C21: a path with tags is split into exactly its name and its tags.
type splitter struct {
	p    *Prog
	r    *Result
	e    *PEngine
	fn   *ssa.Function
	list bool // gives a list of tags, not a map
	out  *Term
}

type splitLoop struct {
	args, tags *ssa.Phi
	bad        string
	ok         bool
	clears     bool
}

// separators of the forms of a path: behind the name, and between the tags
var pathForms = map[byte]byte{'?': '&', ';': ';'}

func checkSplit(p *Prog) *Result {
	c := &splitter{p: p, r: newResult()}
	n := 0
	for _, f := range p.funcs {
		if f.Synthetic != "" || f.Blocks == nil || f.Pkg == nil || f.Object() == nil || !f.Object().Exported() || !hasSuffix(f.Pkg.Pkg.Path(), "/gtags") || f.Signature.Recv() != nil {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		switch {
		case ps.Len() == 1 && rs.Len() == 2 && isStrTyp(ps.At(0).Type()) && c.isTags(rs.At(0).Type()) && typName(rs.At(1).Type()) == "error":
			c.list = true
		case ps.Len() == 1 && rs.Len() == 2 && isStrTyp(ps.At(0).Type()) && isTagMap(rs.At(0).Type()) && typName(rs.At(1).Type()) == "error",
			ps.Len() == 2 && rs.Len() == 1 && isStrTyp(ps.At(0).Type()) && isTagMap(ps.At(1).Type()) && typName(rs.At(0).Type()) == "error":
			c.list = false
		case ps.Len() == 1 && rs.Len() == 1 && c.isTags(ps.At(0).Type()) && isTagMap(rs.At(0).Type()):
			c.toMap(f)
			n++
			continue
		default:
			continue
		}
		n++
		c.split(f)
	}
	if n < 7 {
		c.r.fail("anchor", "gtags", "-", "only %d functions which split paths were found", n)
	}
	c.r.need("success_paths", 6)
	c.r.need("tags_recorded", 6)
	seen := map[string]bool{}
	fs := c.r.Findings
	c.r.Findings = nil
	for _, f := range fs {
		if k := f.Key() + f.Pos + f.Text; !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	return c.r
}

func (c *splitter) isTags(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typName(s.Elem()) == "gtags.Tag"
}

func isTagMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStrTyp(m.Key()) && isStrTyp(m.Elem())
}

func (c *splitter) engine(fn *ssa.Function) *PClient {
	cl := &PClient{}
	e := newPEngine(c.p, cl)
	e.maxSt = 200
	c.e, c.fn = e, fn
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return f.Pkg == fn.Pkg && len(f.Blocks) <= 40 && !e.rec[f]
	}
	cl.MapUpdate = func(e *PEngine, st *PState, in ssa.Instruction, m, k, v *Term) {
		st.cl.(*evState).add("put", "", m, k, v)
	}
	cl.MapDelete = func(e *PEngine, st *PState, in ssa.Instruction, m *Term) {
		if x, ok := in.(*ssa.Call); ok {
			if a := x.Call.Args; len(a) == 2 {
				st.cl.(*evState).add("delete", "", m, e.val(st, a[1]))
			} else {
				st.cl.(*evState).add("cleared", "", m)
			}
		}
	}
	return cl
}

func (c *splitter) done(fn *ssa.Function) {
	c.r.Findings = append(c.r.Findings, c.e.finds...)
	c.r.count("loops_solved", c.e.loops)
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(fn))
}

func (c *splitter) dump(st *PState) {
	if !dbg {
		return
	}
	for _, v := range st.cl.(*evState).evs {
		print("  ev ", v.kind)
		for _, t := range v.ts {
			print(" ", t.String())
		}
		println()
	}
	for f, v := range st.facts {
		println("  fact", f.String(), v)
	}
}

func (c *splitter) split(fn *ssa.Function) {
	cl := c.engine(fn)
	e := c.e
	cl.LoopHead = c.loopHead
	cl.Back = c.back
	cl.LoopExit = c.loopExit
	name := fnName(fn)
	for _, x := range e.Run(fn, &evState{}) {
		pos := c.p.instrPos(x.ret)
		st := x.st.clone()
		err := x.res[len(x.res)-1]
		for _, isNil := range []bool{true, false} {
			s := st.clone()
			if !e.assume(s, e.ts.eq(err, e.ts.nilc()), isNil) {
				continue
			}
			if !isNil {
				c.r.count("error_paths", 1)
				if !c.reason(s) {
					c.dump(s)
					e.fail("refuses", name, pos, "an error is returned for a path without a reason for it")
				}
				continue
			}
			c.r.count("success_paths", 1)
			if why := c.complete(s, x.res[0]); why != "" {
				c.dump(s)
				e.fail("splits", name, pos, "the path is split without an error, but %s", why)
			}
		}
	}
	c.done(fn)
}

func (c *splitter) path(st *PState) *Term { return st.frames[0].env[c.fn.Params[0]] }

func (c *splitter) rules(sep byte) *pathRules { return &pathRules{e: c.e, sep: sep} }

// form finds the separators of the path which are used.
func (c *splitter) form(st *PState) byte {
	p := c.path(st)
	for b := range pathForms {
		if (b == ';') != strings.Contains(c.fn.Name(), "Graphite") {
			continue
		}
		if k := c.rules(b).noDot(st, p); k >= 0 {
			return b
		}
	}
	return 0
}

// reason: there is no name, the name is a tag, or a piece has no separator between key and value.
func (c *splitter) reason(st *PState) bool {
	e := c.e
	p := c.path(st)
	f := c.form(st)
	if f == 0 {
		return false
	}
	if c.rules(f).noDot(st, p) == 1 || c.badName(st, f) == 1 {
		return true
	}
	for g := range st.facts {
		var q *Term
		g.any(func(t *Term) bool {
			if t.op == "call" && (t.aux == "strings.Cut" || strings.HasPrefix(t.aux, "strings.Index")) && len(t.args) > 1 && t.args[0] != p {
				q = t.args[0]
			}
			return false
		})
		if q != nil && c.rules('=').noDot(st, q) == 1 && hasEv(st, "args", q) {
			return true
		}
	}
	_ = e
	return false
}

// badName: the name holds a =.
func (c *splitter) badName(st *PState, f byte) int {
	p := c.path(st)
	r := c.rules(f)
	for g := range st.facts {
		k := -1
		g.any(func(t *Term) bool {
			if t.op == "call" && (t.aux == "strings.Cut" || strings.HasPrefix(t.aux, "strings.Index")) && len(t.args) > 1 && r.first(st, t.args[0], p) {
				k = c.rules('=').noDot(st, t.args[0])
				return k >= 0
			}
			return false
		})
		if k >= 0 {
			return 1 - k
		}
	}
	return -1
}

func (c *splitter) complete(st *PState, res *Term) string {
	f := c.form(st)
	if f == 0 || c.rules(f).noDot(st, c.path(st)) != 0 {
		return "the end of the name was not found"
	}
	if c.badName(st, f) != 0 {
		return "the name was not checked"
	}
	out := res
	if !c.list && len(c.fn.Params) > 1 {
		out = st.frames[0].env[c.fn.Params[1]]
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "split" && v.ts[0] == out {
			return ""
		}
	}
	return "not every tag was recorded in the result"
}

// unescaped: t is the unescaped form of a text for which ok holds.
func unescaped(t *Term, ok func(*Term) bool) bool {
	return t.op == "call" && t.aux == "pkg/escape.Unescape" && ok(t.args[0])
}

// elems gives the tags which were appended to a list.
func (c *splitter) appended(st *PState, t, to *Term) (kv [][2]*Term, ok bool) {
	e := c.e
	for t != to {
		if t.op == "alloc" && to == nil {
			// a new list
			for n := range int64(3) {
				if e.truth(st, e.ts.eq(e.lenT(t), e.ts.intc(n))) == 1 {
					kv0, _ := c.array(st, e.ts.mk("slice", "", t.typ, t, e.ts.intc(0), e.none(), e.none()), n)
					return append(kv0, kv...), true
				}
			}
			return nil, false
		}
		if t.op == "nil" && to == nil {
			return kv, true
		}
		if t.op == "slice" && to == nil && arrayLen(t) >= 0 {
			n := arrayLen(t)
			if kv0, ok := c.array(st, t, n); ok {
				return append(kv0, kv...), true
			}
			return nil, false
		}
		if t.op != "append" || len(t.args) != 2 {
			return nil, false
		}
		n := arrayLen(t.args[1])
		if n < 0 {
			return nil, false
		}
		kv0, ok := c.array(st, t.args[1], n)
		if !ok {
			return nil, false
		}
		kv = append(kv0, kv...)
		t = t.args[0]
	}
	return kv, true
}

func (c *splitter) array(st *PState, t *Term, n int64) (kv [][2]*Term, ok bool) {
	e := c.e
	tag := c.p.lookupType("gtags.Tag")
	pt := types.NewPointer(tag)
	for i := range n {
		a := e.ts.mk("ia", "", pt, t.args[0], e.ts.intc(i))
		kv = append(kv, [2]*Term{e.loadField(st, a, pt, "Key"), e.loadField(st, a, pt, "Value")})
	}
	return kv, true
}

// isPair: key and value are the first tag of the text h, rest is what follows it.
func (c *splitter) isPair(st *PState, kv [2]*Term, h, rest *Term, sep byte) string {
	eq, sp := c.rules('='), c.rules(sep)
	if eq.noDot(st, h) != 0 {
		return "a piece without = is recorded"
	}
	if !unescaped(kv[0], func(t *Term) bool { return eq.first(st, t, h) }) {
		return "the key recorded is " + kv[0].String()
	}
	var tail *Term // behind the =
	behind := func(t *Term) *Term {
		for x := t; x != nil; {
			if eq.after(st, x, h) {
				return x
			}
			switch {
			case x.op == "slice" && x.args[0] != h:
				x = x.args[0]
			case x.op == "ext" && x.args[0].op == "call" && x.args[0].aux == "strings.Cut":
				x = x.args[0].args[0]
			default:
				x = nil
			}
		}
		return nil
	}
	if !unescaped(kv[1], func(t *Term) bool { tail = behind(t); return tail != nil && sp.first(st, t, tail) }) {
		return "the value recorded is " + kv[1].String()
	}
	if !sp.after(st, rest, tail) {
		return "the tags left are " + rest.String()
	}
	return ""
}

func (c *splitter) isName(st *PState, kv [2]*Term, f byte) bool {
	return kv[0].isStr() && constantString(kv[0]) == nameKey && unescaped(kv[1], func(t *Term) bool { return c.rules(f).first(st, t, c.path(st)) })
}

func (c *splitter) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d := &splitLoop{ok: true}
	lc.data = d
	for _, q := range lc.phis {
		if !lc.dropped[q] {
			continue
		}
		if isStrTyp(q.Type()) {
			// the one which holds what is left
			head.cl.(*evState).add("args", "", e.val(head, q))
		}
	}
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isStrTyp(q.Type()) {
			continue
		}
		if f := c.form(head); f != 0 && c.rules(f).after(head, lc.vals[i], c.path(head)) {
			d.args = q
		}
	}
	for _, q := range lc.phis {
		if lc.dropped[q] && c.isTags(q.Type()) {
			d.tags = q
		}
	}
}

// outMap: the map which is filled.
func (c *splitter) outMap(st *PState, evs []ev) *Term {
	if len(c.fn.Params) > 1 {
		return st.frames[0].env[c.fn.Params[1]]
	}
	for _, v := range evs {
		if v.kind == "put" {
			return v.ts[0]
		}
	}
	return nil
}

func (c *splitter) back(e *PEngine, lc *loopCtx, head, back *PState) {
	d := lc.data.(*splitLoop)
	pos, fn := c.p.instrPos(lc.l.head.Instrs[0]), fnName(lc.l.head.Parent())
	evs := back.cl.(*evState).since(head.cl)
	if d.args == nil {
		// every key of the map is deleted
		m := c.outMap(back, nil)
		del := false
		for _, v := range evs {
			if v.kind == "delete" && v.ts[0] == m && v.ts[1].op == "sym" && hasSuffix(v.ts[1].aux, ".k") {
				d.clears, del = true, true
			} else {
				d.ok = false
			}
		}
		for f, v := range back.facts {
			// the name is written anyway
			if v && f.op == "eq" {
				for j := range 2 {
					if a, b := f.args[j], f.args[1-j]; a.isStr() && constantString(a) == nameKey && b.op == "sym" && hasSuffix(b.aux, ".k") {
						del = true
					}
				}
			}
		}
		if !del {
			d.ok = false
		}
		return
	}
	f := c.form(back)
	var kvs [][2]*Term
	if c.list {
		if d.tags == nil {
			d.ok = false
			e.fail("recorded", fn, pos, "a tag is not recorded")
			return
		}
		kv, ok := c.appended(back, e.val(back, d.tags), e.val(head, d.tags))
		if !ok {
			d.ok = false
			e.fail("recorded", fn, pos, "the tags are not only appended to")
			return
		}
		kvs = kv
	} else {
		m := c.outMap(back, back.cl.(*evState).evs)
		for _, v := range evs {
			switch v.kind {
			case "put":
				if v.ts[0] != m {
					continue
				}
				kvs = append(kvs, [2]*Term{v.ts[1], v.ts[2]})
			case "delete", "cleared":
				d.ok = false
				e.fail("recorded", fn, pos, "tags are deleted again")
				return
			}
		}
	}
	if len(kvs) != 1 {
		c.dump(back)
		d.ok = false
		e.fail("recorded", fn, pos, "%d tags are recorded for one piece", len(kvs))
		return
	}
	if why := c.isPair(back, kvs[0], e.val(head, d.args), e.val(back, d.args), pathForms[f]); why != "" {
		c.dump(back)
		d.ok = false
		e.fail("recorded", fn, pos, "%s", why)
		return
	}
	c.r.count("tags_recorded", 1)
}

func (c *splitter) loopExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d := lc.data.(*splitLoop)
	if !d.ok {
		return
	}
	if d.args == nil {
		if d.clears && from == lc.l.head {
			out.cl.(*evState).add("cleared", "", c.outMap(out, nil))
		}
		return
	}
	h := e.val(head, d.args)
	if e.truth(out, e.ts.eq(h, e.ts.strc(""))) != 1 && e.truth(out, e.ts.eq(e.lenT(h), e.ts.intc(0))) != 1 {
		return
	}
	f := c.form(out)
	if c.list {
		for i, q := range lc.phis {
			if q != d.tags {
				continue
			}
			for _, s := range []*PState{head, lc.entry} {
				kv, ok := c.appended(s, lc.vals[i], nil)
				if ok && len(kv) == 1 && c.isName(s, kv[0], f) {
					out.cl.(*evState).add("split", "", e.val(head, d.tags))
				}
			}
		}
		return
	}
	m := c.outMap(out, out.cl.(*evState).evs)
	named, clean := false, m != nil && m.op == "alloc"
	for _, v := range head.cl.(*evState).evs {
		switch v.kind {
		case "cleared":
			if v.ts[0] == m && !named {
				clean = true
			} else {
				return
			}
		case "put":
			if v.ts[0] != m || named || !c.isName(head, [2]*Term{v.ts[1], v.ts[2]}, f) {
				return
			}
			named = true
		}
	}
	if named && clean {
		out.cl.(*evState).add("split", "", m)
	}
}

// ---- a list of tags as a map

func (c *splitter) toMap(fn *ssa.Function) {
	cl := c.engine(fn)
	e := c.e
	type mapLoop struct {
		idx *ssa.Phi
		at  *Term
		m   *Term
		ok  bool
	}
	list := func(st *PState) *Term { return st.frames[0].env[fn.Params[0]] }
	cl.LoopHead = func(e *PEngine, lc *loopCtx, head *PState) { lc.data = &mapLoop{ok: true} }
	cl.Back = func(e *PEngine, lc *loopCtx, head, back *PState) {
		d := lc.data.(*mapLoop)
		ok := false
		for i, q := range lc.phis {
			if !lc.dropped[q] || !isIntTyp(q.Type()) {
				continue
			}
			h := e.val(head, q)
			if s := e.ts.addT(e.val(back, q), h, -1); !s.isInt() || s.n != 1 {
				continue
			}
			for _, v := range back.cl.(*evState).since(head.cl) {
				if v.kind != "put" || v.ts[1].op != "load" || v.ts[2].op != "load" {
					continue
				}
				a := v.ts[1].args[0].args[0]
				if a.op != "ia" || a.args[0] != list(back) || !isField(v.ts[1], a, "Key") || !isField(v.ts[2], a, "Value") {
					continue
				}
				off := e.ts.addT(a.args[1], h, -1)
				if first := e.ts.addT(lc.vals[i], off, 1); off.isInt() && first.isInt() && first.n == 0 {
					d.idx, d.at, d.m, ok = q, a.args[1], v.ts[0], true
				}
			}
		}
		if !ok {
			d.ok = false
			return
		}
		c.r.count("tags_recorded", 1)
	}
	cl.LoopExit = func(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
		if d := lc.data.(*mapLoop); d.ok && d.at != nil && e.le(out, e.lenT(list(out)), d.at) {
			out.cl.(*evState).add("all", "", d.m)
		}
	}
	for _, x := range e.Run(fn, &evState{}) {
		c.r.count("success_paths", 1)
		ok := false
		for _, v := range x.st.cl.(*evState).evs {
			if v.kind == "all" && v.ts[0] == x.res[0] {
				ok = true
			}
		}
		if !ok && e.truth(x.st, e.ts.eq(e.lenT(list(x.st)), e.ts.intc(0))) != 1 {
			c.dump(x.st)
			e.fail("splits", fnName(fn), c.p.instrPos(x.ret), "not every tag is recorded in the map")
		}
	}
	c.done(fn)
}
