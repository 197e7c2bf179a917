package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = func(p *Prog, tier string) *Result { return checkTerms(p) }
}

// termer decides C19: a tag term decides by its operator, and a list of terms by all of its terms.
type termer struct {
	p   *Prog
	r   *Result
	e   *PEngine
	fn  *ssa.Function
	tm  string // the matcher of one term
	ops map[string]int64
}

type termLoop struct {
	idx      *ssa.Phi
	h, off   *Term
	ok, done bool
	open     bool
	place    map[*ssa.Phi]bool
	scan     map[string]bool // dropped candidates of a scan
	cands    []ev
}

func checkTerms(p *Prog) *Result {
	c := &termer{p: p, r: newResult(), ops: map[string]int64{}}
	for _, n := range []string{"TaggedTermEq", "TaggedTermMatch", "TaggedTermNe", "TaggedTermNotMatch"} {
		v, ok := p.constInt("gtags", n)
		if !ok {
			c.r.fail("anchor", "gtags."+n, "-", "the operator was not found")
			return c.r
		}
		c.ops[n] = v
	}
	tm := p.lookupFunc("gtags.TaggedTerm.Match")
	if tm == nil {
		c.r.fail("anchor", "gtags.TaggedTerm.Match", "-", "the matcher of a term was not found")
		return c.r
	}
	c.tm = fnName(tm)
	c.single(tm)
	lt := p.lookupType("gtags.TaggedTermList")
	n := 0
	for _, f := range p.funcs {
		s := f.Signature
		if lt == nil || f.Synthetic != "" || f.Blocks == nil || f.Pkg == nil || len(f.Params) < 2 || s.Results().Len() != 1 || !types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || !types.Identical(f.Params[0].Type(), lt) {
			continue
		}
		n++
		c.list(f)
		c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(f))
	}
	if n < 2 {
		c.r.fail("anchor", "gtags.TaggedTermList", "-", "the matchers of a list of terms were not found")
	}
	c.r.need("operator_cases", 12)
	c.r.need("accepting_paths", 2)
	c.r.need("refusing_paths", 4)
	return c.r
}

// ---- one term

func (c *termer) single(fn *ssa.Function) {
	p := c.p
	cl := &PClient{}
	e := newPEngine(p, cl)
	e.readOnly = true
	c.e = e
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return fnName(f) != globMatch && len(f.Blocks) <= 30 && !e.rec[f] && f.Pkg == fn.Pkg
	}
	recv := func(st *PState) *Term { return st.frames[0].env[fn.Params[0]] }
	field := func(st *PState, n string) *Term {
		return e.loadField(st, recv(st), fn.Params[0].Type(), n)
	}
	cl.Panic = func(e *PEngine, st *PState, in *ssa.Panic) {
		op := field(st, "Op")
		for n, v := range c.ops {
			if e.truth(st, e.ts.eq(op, e.ts.intc(v))) != 0 {
				e.fail("operator", fnName(fn), p.instrPos(in), "the match may panic for %s", n)
				return
			}
		}
	}
	for _, x := range e.Run(fn, &evState{}) {
		pos := p.instrPos(x.ret)
		for _, want := range []bool{true, false} {
			st := x.st.clone()
			if !e.assume(st, x.res[0], want) {
				continue
			}
			op := field(st, "Op")
			for n, v := range c.ops {
				s := st.clone()
				if !e.assume(s, e.ts.eq(op, e.ts.intc(v)), true) {
					continue
				}
				if !e.settle(s) {
					continue
				}
				c.r.count("operator_cases", 1)
				neg := n == "TaggedTermNe" || n == "TaggedTermNotMatch"
				var why string
				if n == "TaggedTermMatch" || n == "TaggedTermNotMatch" {
					why = c.decided(s, "the regular expression", c.regexpAtom(s, field(s, "Re"), s.frames[0].env[fn.Params[1]]), want != neg)
				} else {
					wild, glob := field(s, "HasWildcard"), field(s, "Glob")
					for _, w := range []bool{true, false} {
						s2 := s.clone()
						if k := e.truth(s2, e.ts.eq(glob, e.ts.nilc())); k == 1 && w || k == 0 && !w {
							continue
						}
						if !e.assume(s2, wild, w) {
							continue
						}
						if !e.settle(s2) {
							continue
						}
						t := c.valueAtom(s2, field(s2, "Value"), s2.frames[0].env[fn.Params[1]])
						what := "the comparison with the value"
						if w {
							t = c.globAtom(s2, glob, s2.frames[0].env[fn.Params[1]])
							what = "the glob"
						}
						if y := c.decided(s2, what, t, want != neg); y != "" {
							why = y
						}
					}
				}
				if why != "" {
					e.fail("operator", fnName(fn), pos, "a term with %s gives %v, %s", n, want, why)
				}
			}
		}
	}
	c.r.Findings = append(c.r.Findings, e.finds...)
	c.r.Coverage["functions"] = append(toStrings(c.r.Coverage["functions"]), fnName(fn))
}

func (c *termer) decided(st *PState, what string, is int, want bool) string {
	switch {
	case is < 0:
		return "and " + what + " was not asked"
	case (is == 1) != want:
		return "against " + what
	}
	return ""
}

func (c *termer) valueAtom(st *PState, value, v *Term) int {
	return c.e.truth(st, c.e.ts.eq(value, v))
}

func factTruth(v bool) int {
	if v {
		return 1
	}
	return 0
}

func (c *termer) globAtom(st *PState, glob, v *Term) int {
	for f, k := range st.facts {
		if f.op == "call" && f.aux == globMatch && f.args[0] == glob && f.args[1] == v {
			return factTruth(k)
		}
	}
	return -1
}

func (c *termer) regexpAtom(st *PState, re, v *Term) int {
	for f, k := range st.facts {
		if f.op == "call" && strings.HasSuffix(f.aux, "regexp.Regexp).MatchString") && f.args[0] == re && f.args[1] == v {
			return factTruth(k)
		}
		if f.op == "call" && strings.HasSuffix(f.aux, "regexp.Regexp).Match") && f.args[0] == re && f.args[1].any(func(t *Term) bool { return t == v }) {
			return factTruth(k)
		}
	}
	return -1
}

// ---- a list of terms

func (c *termer) list(fn *ssa.Function) {
	p := c.p
	cl := &PClient{}
	e := newPEngine(p, cl)
	e.readOnly = true
	e.maxSt = 200
	c.e, c.fn = e, fn
	cl.KeepFact = func(f *Term) bool { return true }
	cl.Inline = func(e *PEngine, st *PState, f *ssa.Function) bool {
		return fnName(f) != c.tm && len(f.Blocks) <= 40 && !e.rec[f] && f.Pkg == fn.Pkg
	}
	cl.Call = func(e *PEngine, st *PState, in ssa.CallInstruction, callee *ssa.Function, m *types.Func, args []*Term) (bool, *Term) {
		if callee == nil || fnName(callee) != c.tm || in.Value() == nil {
			return false, nil
		}
		res := e.fresh(st, "sym", st.top().id+"/"+in.Value().Name()+".m", in.Value().Type())
		if i := c.termAt(st, args[0]); i != nil {
			st.cl.(*evState).add("match", "", i, args[1], res)
		}
		return true, res
	}
	cl.LoopHead = c.loopHead
	cl.BackCheck = c.backCheck
	cl.Back = c.back
	cl.LoopExit = c.loopExit
	name := fnName(fn)
	for _, x := range e.Run(fn, &evState{}) {
		pos := p.instrPos(x.ret)
		for _, want := range []bool{true, false} {
			st := x.st.clone()
			if !e.assume(st, x.res[0], want) {
				continue
			}
			if want {
				c.r.count("accepting_paths", 1)
				if !c.all(st) {
					c.dump(st)
					e.fail("accepts", name, pos, "the tags are accepted, but not every term was found to accept its tag")
				}
			} else {
				c.r.count("refusing_paths", 1)
				if !c.anyRefused(st) {
					c.dump(st)
					e.fail("refuses", name, pos, "the tags are refused, but no term was found to refuse its tag")
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, f := range e.finds {
		if k := f.Key() + f.Pos + f.Text; !seen[k] {
			seen[k] = true
			c.r.Findings = append(c.r.Findings, f)
		}
	}
	c.r.count("loops_solved", e.loops)
}

func (c *termer) dump(st *PState) {
	if !dbg {
		return
	}
	for _, v := range st.cl.(*evState).evs {
		print("  ev ", v.kind)
		for _, t := range v.ts {
			print(" ", t.String())
		}
		println()
	}
	for f, v := range st.facts {
		println("  fact", f.String(), v)
	}
}

func (c *termer) terms(st *PState) *Term { return st.frames[0].env[c.fn.Params[0]] }
func (c *termer) tags(st *PState) *Term  { return st.frames[0].env[c.fn.Params[1]] }

// termAt: the place of the term in the list.
func (c *termer) termAt(st *PState, t *Term) *Term {
	e := c.e
	if t.op == "ia" {
		if t.args[0] == c.terms(st) {
			return t.args[1]
		}
		return nil
	}
	tt := c.p.lookupType("gtags.TaggedTerm")
	u, _ := tt.Underlying().(*types.Struct)
	if u == nil {
		return nil
	}
	// a copy: every field is the one of the same element
	var at *Term
	for i := 0; i < u.NumFields(); i++ {
		v := e.load(st, e.fa(t, types.NewPointer(tt), i), u.Field(i).Type())
		if v.op != "load" || v.args[0].op != "fa" || v.args[0].aux != e.fa(t, types.NewPointer(tt), i).aux || v.args[0].args[0].op != "ia" || v.args[0].args[0].args[0] != c.terms(st) {
			return nil
		}
		if k := v.args[0].args[0].args[1]; at == nil {
			at = k
		} else if at != k {
			return nil
		}
	}
	return at
}

func (c *termer) field(st *PState, i *Term, n string) *Term {
	tt := c.p.lookupType("gtags.TaggedTerm")
	a := c.e.ts.mk("ia", "", types.NewPointer(tt), c.terms(st), i)
	return c.e.loadField(st, a, types.NewPointer(tt), n)
}

// is the operator known to be none of these?
func (c *termer) not(st *PState, i *Term, names ...string) bool {
	e := c.e
	op := c.field(st, i, "Op")
	for _, n := range names {
		if e.truth(st, e.ts.eq(op, e.ts.intc(c.ops[n]))) != 0 {
			return false
		}
	}
	return true
}

func (c *termer) one(st *PState, i *Term, names ...string) bool {
	e := c.e
	op := c.field(st, i, "Op")
	for _, n := range names {
		if e.truth(st, e.ts.eq(op, e.ts.intc(c.ops[n]))) == 1 {
			return true
		}
	}
	return false
}

func (c *termer) negative(st *PState, i *Term) bool {
	return c.not(st, i, "TaggedTermEq", "TaggedTermMatch") || c.one(st, i, "TaggedTermNe", "TaggedTermNotMatch")
}

func (c *termer) positive(st *PState, i *Term) bool {
	return c.not(st, i, "TaggedTermNe", "TaggedTermNotMatch") || c.one(st, i, "TaggedTermEq", "TaggedTermMatch")
}

// ownValue: v is the value of the tag with the key of the term.
func (c *termer) ownValue(st *PState, i, v *Term) bool {
	e := c.e
	key, tags := c.field(st, i, "Key"), c.tags(st)
	if v.op == "ext" && v.aux == "0" {
		v = v.args[0]
	}
	if v.op == "lookup" {
		return v.args[0] == tags && v.args[1] == key && e.truth(st, e.ts.mk("lookupok", "", types.Typ[types.Bool], v.args...)) == 1
	}
	if v.op == "load" && v.args[0].op == "fa" && hasSuffix(v.args[0].aux, ".Value") && v.args[0].args[0].op == "ia" {
		a := v.args[0].args[0]
		return a.args[0] == tags && c.isPlace(st, a.args[1], key)
	}
	return false
}

// keyAt: t is the key of a tag, whose place is returned.
func (c *termer) keyAt(st *PState, t *Term) *Term {
	if t.op == "load" && t.args[0].op == "fa" && hasSuffix(t.args[0].aux, ".Key") && t.args[0].args[0].op == "ia" && t.args[0].args[0].args[0] == c.tags(st) {
		return t.args[0].args[0].args[1]
	}
	return nil
}

// isPlace: the tag at place k has the key.
func (c *termer) isPlace(st *PState, k, key *Term) bool {
	e := c.e
	for f, v := range st.facts {
		if v && f.op == "eq" {
			for j := range 2 {
				if a := c.keyAt(st, f.args[j]); a != nil && (a == k || e.same(st, a, k)) && f.args[1-j] == key {
					return true
				}
			}
		}
	}
	if k.op == "call" && c.finder(k.aux) && k.args[0] == c.tags(st) && k.args[1] == key {
		b := e.bounds(st, k)
		return b.hasL && b.lo >= 0 || e.truth(st, e.ts.eq(k, e.ts.intc(-1))) == 0
	}
	return false
}

// finder: the searches of C16
func (c *termer) finder(name string) bool {
	for _, f := range c.p.funcs {
		if fnName(f) == name {
			s := f.Signature
			return f.Pkg == c.fn.Pkg && s.Results().Len() == 1 && isIntTyp(s.Results().At(0).Type()) && len(c.e.info(f).loops) > 0 && len(f.Params) >= 2 && isStrTyp(f.Params[1].Type())
		}
	}
	return false
}

// absent: no tag has the key of the term.
func (c *termer) absent(st *PState, i *Term) bool {
	e := c.e
	key, tags := c.field(st, i, "Key"), c.tags(st)
	for f, v := range st.facts {
		if f.op == "lookupok" && !v && f.args[0] == tags && f.args[1] == key {
			return true
		}
		if k := absentFact(f, v); k != nil && k.op == "call" && c.finder(k.aux) && k.args[0] == tags && k.args[1] == key {
			return true
		}
	}
	if e.truth(st, e.ts.eq(tags, e.ts.nilc())) == 1 {
		return true
	}
	n := e.lenT(tags)
	if e.truth(st, e.ts.eq(n, e.ts.intc(0))) == 1 {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		switch v.kind {
		case "place":
			if e.le(st, n, v.ts[0]) {
				return true
			}
		case "scanned":
			if v.ts[0] == key && e.le(st, n, v.ts[1]) {
				return true
			}
		}
	}
	return false
}

func (c *termer) passed(st *PState, evs []ev, i *Term) bool {
	for _, v := range evs {
		if v.kind == "match" && (v.ts[0] == i || c.e.same(st, v.ts[0], i)) && c.e.truth(st, v.ts[2]) == 1 && c.ownValue(st, v.ts[0], v.ts[1]) {
			return true
		}
	}
	return c.negative(st, i) && c.absent(st, i)
}

func (c *termer) anyRefused(st *PState) bool {
	e := c.e
	var at []*Term
	for _, v := range st.cl.(*evState).evs {
		switch v.kind {
		case "match":
			if e.truth(st, v.ts[2]) == 0 && c.ownValue(st, v.ts[0], v.ts[1]) {
				return true
			}
			at = append(at, v.ts[0])
		case "term":
			at = append(at, v.ts[0])
		}
	}
	for _, i := range at {
		// a term which exists
		if e.le(st, e.ts.addT(i, e.ts.intc(1), 1), e.lenT(c.terms(st))) && c.positive(st, i) && c.absent(st, i) {
			return true
		}
	}
	return false
}

func (c *termer) all(st *PState) bool {
	e := c.e
	if e.truth(st, e.ts.eq(e.lenT(c.terms(st)), e.ts.intc(0))) == 1 || e.truth(st, e.ts.eq(c.terms(st), e.ts.nilc())) == 1 {
		return true
	}
	for _, v := range st.cl.(*evState).evs {
		if v.kind == "all" {
			return true
		}
	}
	return false
}

func (c *termer) isStart(st *PState, t *Term) bool {
	return t.isInt() && t.n == 0 || hasEv(st, "place", t)
}

// isScanStart: no tag from the last place found to before t has the key.
func (c *termer) isScanStart(st *PState, t, key *Term) bool {
	e := c.e
	if c.isStart(st, t) {
		return true
	}
	b := e.ts.addT(t, e.ts.intc(1), -1)
	if !c.isStart(st, b) {
		return false
	}
	for f, v := range st.facts {
		if !v && f.op == "eq" {
			for j := range 2 {
				if a := c.keyAt(st, f.args[j]); a != nil && f.args[1-j] == key && (a == b || e.same(st, a, b)) {
					return true
				}
			}
		}
	}
	return false
}

func (c *termer) loopHead(e *PEngine, lc *loopCtx, head *PState) {
	d, _ := lc.data.(*termLoop)
	if d == nil {
		d = &termLoop{ok: true, place: map[*ssa.Phi]bool{}, scan: map[string]bool{}}
		lc.data = d
	}
	d.ok, d.done, d.off, d.open = true, false, nil, false
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isIntTyp(q.Type()) {
			continue
		}
		h := e.val(head, q)
		if _, ok := d.place[q]; !ok {
			d.place[q] = true
		}
		if !c.isStart(head, lc.vals[i]) {
			d.place[q] = false
		}
		if d.place[q] {
			// the tag there was read, so there is one, or it is the start
			head.cl.(*evState).add("place", "", h)
			e.assume(head, e.ts.lt(e.lenT(c.tags(head)), h), false)
			e.assume(head, e.ts.lt(h, e.ts.intc(0)), false)
		}
		head.cl.(*evState).add("term", "", h)
		head.cl.(*evState).add("term", "", e.ts.addT(h, e.ts.intc(1), 1))
	}
	for _, v := range d.cands {
		if !d.scan[v.key()] {
			head.cl.(*evState).add(v.kind, v.aux, v.ts...)
			e.assume(head, e.ts.lt(e.lenT(c.tags(head)), v.ts[1]), false)
			e.assume(head, e.ts.lt(v.ts[1], e.ts.intc(0)), false)
		}
	}
}

// backCheck: which counters stay at the place of a tag found, and which run over tags with other keys.
func (c *termer) backCheck(e *PEngine, lc *loopCtx, head, back *PState) (ch bool) {
	d := lc.data.(*termLoop)
	for _, q := range lc.phis {
		if !d.place[q] {
			continue
		}
		v := e.val(back, q)
		ok := v == e.val(head, q) || c.isStart(back, v)
		for f, k := range back.facts {
			if ok || !k || f.op != "eq" {
				continue
			}
			for j := range 2 {
				if a := c.keyAt(back, f.args[j]); a != nil && (a == v || e.same(back, a, v)) && c.isTermKey(back, f.args[1-j]) {
					ok = true
				}
			}
		}
		if v.op == "call" && c.finder(v.aux) && c.isTermKey(back, v.args[1]) {
			if b := e.bounds(back, v); b.hasL && b.lo >= 0 || e.truth(back, e.ts.eq(v, e.ts.intc(-1))) == 0 {
				ok = true
			}
		}
		if !ok {
			d.place[q] = false
			ch = true
		}
	}
	if ch {
		return
	}
	// scans: "scanned" key, h: every tag from a start to before h has another key
	have := map[string]bool{}
	for _, v := range d.cands {
		have[v.key()] = true
	}
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isIntTyp(q.Type()) {
			continue
		}
		h := e.val(head, q)
		for f, k := range back.facts {
			if k || f.op != "eq" {
				continue
			}
			for j := range 2 {
				a := c.keyAt(back, f.args[j])
				if a == nil || !c.isTermKey(back, f.args[1-j]) {
					continue
				}
				off := e.ts.addT(a, h, -1)
				if !off.isInt() || !c.isScanStart(head, e.ts.addT(lc.vals[i], off, 1), f.args[1-j]) {
					continue
				}
				v := ev{"scanned", "", []*Term{f.args[1-j], a}}
				if !have[v.key()] {
					have[v.key()] = true
					d.cands = append(d.cands, v)
					ch = true
				}
			}
		}
	}
	if ch {
		return
	}
	for _, v := range d.cands {
		if d.scan[v.key()] {
			continue
		}
		want := v.ts[1]
		for _, q := range lc.phis {
			if h := e.val(head, q); lc.dropped[q] && want.contains(h) {
				want = e.ts.addT(want, e.ts.addT(e.val(back, q), h, -1), 1)
				break
			}
		}
		ok := false
		for f, k := range back.facts {
			if k || f.op != "eq" {
				continue
			}
			for j := range 2 {
				if a := c.keyAt(back, f.args[j]); a != nil && f.args[1-j] == v.ts[0] && e.same(back, a, v.ts[1]) && e.same(back, want, e.ts.addT(a, e.ts.intc(1), 1)) {
					ok = true
				}
			}
		}
		if !ok {
			d.scan[v.key()] = true
			ch = true
		}
	}
	return
}

func (c *termer) isTermKey(st *PState, t *Term) bool {
	return t.op == "load" && t.args[0].op == "fa" && hasSuffix(t.args[0].aux, ".Key") && t.args[0].args[0].op == "ia" && t.args[0].args[0].args[0] == c.terms(st)
}

// back: the term of this iteration has passed.
func (c *termer) back(e *PEngine, lc *loopCtx, head, back *PState) {
	d := lc.data.(*termLoop)
	evs := back.cl.(*evState).since(head.cl)
	ok := false
	for i, q := range lc.phis {
		if !lc.dropped[q] || !isIntTyp(q.Type()) || d.idx != nil && d.idx != q {
			continue
		}
		h := e.val(head, q)
		if step := e.ts.addT(e.val(back, q), h, -1); !step.isInt() || step.n != 1 {
			continue
		}
		for _, off := range []int64{0, 1} {
			if d.off != nil && d.off.n != off {
				continue
			}
			at := e.ts.addT(h, e.ts.intc(off), 1)
			if first := e.ts.addT(lc.vals[i], e.ts.intc(off), 1); !first.isInt() || first.n != 0 {
				continue
			}
			if c.passed(back, evs, at) {
				d.idx, d.h, d.off, ok = q, h, e.ts.intc(off), true
				if !e.le(back, e.ts.addT(at, e.ts.intc(1), 1), e.lenT(c.terms(back))) {
					d.open = true
				}
				break
			}
		}
		if ok {
			break
		}
	}
	if !ok {
		d.ok = false
		c.r.count("other_loops", 1)
		return
	}
	d.done = true
	c.r.count("terms_passed", 1)
}

func (c *termer) loopExit(e *PEngine, lc *loopCtx, head, out *PState, from, to *ssa.BasicBlock) {
	d := lc.data.(*termLoop)
	if d == nil || !d.ok || !d.done {
		return
	}
	if e.le(out, e.lenT(c.terms(out)), e.ts.addT(d.h, d.off, 1)) {
		out.cl.(*evState).add("all", "")
	}
}
