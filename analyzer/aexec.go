package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type slot struct {
	st     *State
	visits int
	dirty  bool
}

type blockSt struct {
	level int
	m     map[string]*slot
}

// stateKey partitions the states of a block.
func (e *engine) stateKey(st *State, live func(i int) bool, level int) string {
	var sb strings.Builder
	f := st.top()
	if level >= 3 {
		for i, v := range f.env {
			if v == nil || (live != nil && !live(i)) {
				continue
			}
			walkVal(v, func(x *Val) { shapeKey(&sb, x) })
		}
		return sb.String()
	}
	var ids []int
	for i, v := range f.env {
		if v == nil || (live != nil && !live(i)) {
			continue
		}
		switch level {
		case 0, 1:
			e.discKey1(&sb, v, st.alts, true)
		case 2:
			if v.k == kNum {
				e.discKey1(&sb, v, st.alts, false)
			} else {
				walkVal(v, func(x *Val) { shapeKey(&sb, x) })
			}
		}
		if level == 0 {
			walkVal(v, func(x *Val) {
				if (x.k == kPtr || x.k == kSlice) && st.heap[x.id] != nil {
					ids = append(ids, x.id)
				}
			})
		}
	}
	if level == 0 {
		seen := map[int]bool{}
		for k := 0; k < len(ids); k++ {
			id := ids[k]
			if seen[id] {
				continue
			}
			seen[id] = true
			o := st.heap[id]
			if o == nil || o.v == nil {
				continue
			}
			if o.kind == oCell || o.has {
				sb.WriteString("|")
				e.discKey1(&sb, o.v, st.alts, true)
				walkVal(o.v, func(x *Val) {
					if (x.k == kPtr || x.k == kSlice) && st.heap[x.id] != nil {
						ids = append(ids, x.id)
					}
				})
			}
		}
	}
	return sb.String()
}

func (e *engine) join(a, b *State, widen bool) (*State, bool) {
	j := &joiner{e: e, A: a, B: b, widen: widen}
	out := j.runState()
	if e.trace["join"] && j.changed {
		e.debugJoin = true
		fmt.Fprintf(os.Stderr, "   join changed: %s\n", j.why)
	}
	return out, j.changed
}

// prune forgets the registers which are not used any more and what only they refer to.
func (e *engine) prune(st *State, live func(i int) bool) {
	f := st.top()
	if !f.own {
		f.env = append([]*Val(nil), f.env...)
		f.own = true
	}
	for i := range f.env {
		if f.env[i] != nil && !live(i) {
			f.env[i] = nil
		}
	}
	st.gc()
}

// mergeStates joins the states with equal keys.
func (e *engine) mergeStates(l []*State, live func(i int) bool) []*State {
	if len(l) < 2 {
		return l
	}
	for level := 0; ; level++ {
		m := map[string][]*State{}
		for _, s := range l {
			k := e.stateKey(s, live, level)
			m[k] = append(m[k], s)
		}
		if len(m) > e.maxKeys && level < 3 {
			continue
		}
		var out []*State
		for _, k := range sortedKeys(m) {
			g := m[k]
			s := g[0]
			for _, x := range g[1:] {
				s, _ = e.join(s, x, false)
			}
			out = append(out, s)
		}
		return out
	}
}

// runFn analyses a function from the entry states (top frame: its registers); the top frame of the results holds the results.
func (e *engine) runFn(fi *fnInfo, entries []*State) []*State {
	e.depth++
	defer func() { e.depth-- }()
	e.seen[fi.fn] = true
	bs := make([]*blockSt, len(fi.fn.Blocks))
	for i := range bs {
		bs[i] = &blockSt{m: map[string]*slot{}}
	}
	rec := e.record
	if !fi.acyclic {
		e.record = false
	}
	liveAt := func(b *ssa.BasicBlock) func(i int) bool {
		l := fi.liveIn[b.Index]
		return func(i int) bool { return l[i] }
	}
	put := func(b *ssa.BasicBlock, st *State) {
		if st.num.bot {
			return
		}
		if fi.head[b.Index] {
			for id, o := range st.heap {
				if o.kind == oArray && o.has {
					e.fold(st, id)
				}
			}
		}
		e.prune(st, liveAt(b))
		x := bs[b.Index]
		for {
			k := e.stateKey(st, nil, x.level)
			s := x.m[k]
			if s == nil {
				if len(x.m) >= e.maxKeys && x.level < 3 {
					// coarser partition
					x.level++
					old := x.m
					x.m = map[string]*slot{}
					for _, ok := range sortedKeys(old) {
						o := old[ok]
						nk := e.stateKey(o.st, nil, x.level)
						if y := x.m[nk]; y != nil {
							y.st, _ = e.join(y.st, o.st, false)
							y.dirty = true
						} else {
							x.m[nk] = &slot{st: o.st, dirty: true}
						}
					}
					continue
				}
				x.m[k] = &slot{st: st, dirty: true}
				return
			}
			s.visits++
			widen := fi.head[b.Index] && s.visits > 4
			if s.visits > 600 {
				e.note("no convergence in %s block %d", fnName(fi.fn), b.Index)
				if e.trace["conv"] {
					e.trace["join"] = true
					e.debugJoin = true
					_, ch := e.join(s.st, st, widen)
					fmt.Fprintln(os.Stderr, "CONV", ch, widen, len(x.m), k)
					e.trace["join"] = false
					e.debugJoin = false
				}
				return
			}
			j, ch := e.join(s.st, st, widen)
			if ch {
				s.st = j
				s.dirty = true
			}
			return
		}
	}
	var exits []*State
	final := fi.acyclic
	addExit := func(st *State) {
		if !st.num.bot {
			exits = append(exits, st)
			if len(exits) > 3*e.maxKeys {
				exits = e.mergeStates(exits, nil)
			}
		}
	}
	for _, st := range entries {
		put(fi.fn.Blocks[0], st)
	}
	process := func(b *ssa.BasicBlock, st *State, prop bool) {
		e.execBlock(fi, b, st, func(s *ssa.BasicBlock, pi int, st *State) {
			if !prop {
				return
			}
			e.phis(st, s, pi)
			put(s, st)
		}, func(st *State) {
			if final {
				addExit(st)
			}
		})
	}
	for {
		done := true
		for _, b := range fi.order {
			x := bs[b.Index]
			ks := sortedKeys(x.m)
			for _, k := range ks {
				s := x.m[k]
				if s == nil || !s.dirty {
					continue
				}
				s.dirty = false
				done = false
				process(b, s.st.clone(), true)
			}
			if done {
				continue
			}
			if h := fi.lastBack[b.Index]; h != nil {
				again := false
				for _, s := range bs[h.Index].m {
					again = again || s.dirty
				}
				if again {
					break // the loop first, with what all of its iterations left
				}
			}
		}
		if done {
			break
		}
	}
	e.record = rec
	if !fi.acyclic {
		final = true
		for _, b := range fi.order {
			x := bs[b.Index]
			for _, k := range sortedKeys(x.m) {
				process(b, x.m[k].st.clone(), false)
			}
		}
	}
	if e.trace[fi.fn.Name()] {
		fmt.Fprintf(os.Stderr, "== %s record=%v\n", fnName(fi.fn), e.record)
		for _, b := range fi.order {
			for _, k := range sortedKeys(bs[b.Index].m) {
				s := bs[b.Index].m[k].st
				fmt.Fprintf(os.Stderr, " block %d key %q\n", b.Index, k)
				for i, v := range s.top().env {
					if v != nil {
						fmt.Fprintf(os.Stderr, "    %s = %s\n", fi.vals[i].Name(), v)
					}
				}
				for _, mk := range sortedKeys(s.mats) {
					fmt.Fprintf(os.Stderr, "    mat %s = %s\n", mk, s.mats[mk].v)
				}
				for id, o := range s.heap {
					fmt.Fprintf(os.Stderr, "    obj %d kind %d %s bound %s alen %s has %v at %s lo %d hi %d\n", id, o.kind, o.v, o.bound, o.alen, o.has, o.at, cntDs(o.lo), cntDs(o.hi))
				}
				fmt.Fprintf(os.Stderr, "    ghost %s num %s\n", s.ghost, s.num)
			}
		}
	}
	return e.mergeStates(exits, nil)
}

func (e *engine) phis(st *State, s *ssa.BasicBlock, pi int) {
	var vals []*Val
	var idx []int
	fi := st.top().fi
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, phi.Edges[pi]))
		idx = append(idx, fi.num[phi])
	}
	for i, v := range vals {
		st.set(idx[i], v)
	}
}

// execBlock runs the instructions of a block for one state.
func (e *engine) execBlock(fi *fnInfo, b *ssa.BasicBlock, st *State, edge func(s *ssa.BasicBlock, pi int, st *State), exit func(st *State)) {
	states := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range states {
				e.branch(fi, b, x, s, edge)
			}
			return
		case *ssa.Jump:
			for _, s := range states {
				edge(b.Succs[0], predIndex(b.Succs[0], b, 0), s)
			}
			return
		case *ssa.Return:
			for _, s := range states {
				res := make([]*Val, len(x.Results))
				for i, r := range x.Results {
					res[i] = e.val(s, r)
				}
				s.frames = append(s.frames[:len(s.frames)-1:len(s.frames)-1], &frame{env: res, own: true})
				s.gc()
				exit(s)
			}
			return
		case *ssa.Panic:
			for _, s := range states {
				e.explicitPanic(s, x)
			}
			return
		}
		if bo, ok := in.(*ssa.BinOp); ok && fi.condUse[bo] {
			continue
		}
		var next []*State
		for _, s := range states {
			if s.num.bot {
				continue
			}
			next = append(next, e.exec(s, in)...)
		}
		states = next[:0]
		for _, s := range next {
			if !s.num.bot {
				states = append(states, s)
			}
		}
		if _, ok := in.(ssa.CallInstruction); ok && len(states) > 1 {
			lv := fi.callLiv[in]
			own := -1
			if v, ok := in.(ssa.Value); ok {
				own = fi.num[v]
			}
			live := func(i int) bool { return i == own || lv[i] }
			for _, s := range states {
				e.prune(s, live)
			}
			states = e.mergeStates(states, nil)
		}
		if len(states) > 4*e.maxKeys {
			states = e.mergeStates(states, nil)
		}
		if len(states) == 0 {
			return
		}
	}
}

func predIndex(s, b *ssa.BasicBlock, nth int) int {
	for i, p := range s.Preds {
		if p == b {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return 0
}

func (e *engine) branch(fi *fnInfo, b *ssa.BasicBlock, x *ssa.If, st *State, edge func(s *ssa.BasicBlock, pi int, st *State)) {
	nth := 0
	if b.Succs[0] == b.Succs[1] {
		nth = 1
	}
	emit := func(l []*State, i int) {
		n := 0
		if i == 1 {
			n = nth
		}
		for _, s := range l {
			if !s.num.bot {
				edge(b.Succs[i], predIndex(b.Succs[i], b, n), s)
			}
		}
	}
	if bo, ok := x.Cond.(*ssa.BinOp); ok && fi.condUse[bo] {
		emit(e.assumeCond(st.clone(), bo, true), 0)
		emit(e.assumeCond(st, bo, false), 1)
		return
	}
	c := e.val(st, x.Cond)
	if c.k != kNum {
		emit([]*State{st.clone()}, 0)
		emit([]*State{st}, 1)
		return
	}
	t := st.clone()
	t.assumeEQ(c.n.plus(-1))
	emit([]*State{t}, 0)
	st.assumeEQ(c.n)
	emit([]*State{st}, 1)
}

// assumeCond refines a state by a comparison.
func (e *engine) assumeCond(st *State, bo *ssa.BinOp, truth bool) []*State {
	a, b := e.val(st, bo.X), e.val(st, bo.Y)
	op := bo.Op
	if !truth {
		op = negOp(op)
	}
	return e.assumeCmp(st, a, b, op)
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func (e *engine) assumeCmp(st *State, a, b *Val, op token.Token) []*State {
	switch {
	case a.k == kNum && b.k == kNum:
		d := a.n.sub(b.n)
		switch op {
		case token.EQL:
			st.assumeEQ(d)
			e.byteFact(st, a, b)
			e.byteFact(st, b, a)
		case token.NEQ:
			st.assumeNE(d)
		case token.LSS:
			st.assume(d.scale(-1).plus(-1))
		case token.LEQ:
			st.assume(d.scale(-1))
		case token.GTR:
			st.assume(d.plus(-1))
		case token.GEQ:
			st.assume(d)
		}
	case a.k == kStr && b.k == kStr:
		if b.isC && !a.isC {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		switch op {
		case token.EQL:
			if a.isC && b.isC {
				if a.cst != b.cst {
					st.wnum().bot = true
				}
				break
			}
			st.assumeEQ(a.n.sub(b.n))
			if a.isC {
				st.pre[b.id] = a.cst
			}
		case token.NEQ:
			if a.isC && b.isC {
				if a.cst == b.cst {
					st.wnum().bot = true
				}
			} else if a.isC && a.cst == "" {
				st.assume(b.n.plus(-1))
			} else if a.id == b.id && a.id != 0 {
				st.wnum().bot = true
			}
		}
	case a.k == kPtr && b.k == kPtr, a.k == kMap && b.k == kMap, a.k == kFunc && b.k == kFunc:
		an, aok := st.constOf(a.n)
		bn, bok := st.constOf(b.n)
		switch op {
		case token.EQL:
			if bok && bn == 0 {
				st.assumeEQ(a.n)
			} else if aok && an == 0 {
				st.assumeEQ(b.n)
			} else {
				st.assumeEQ(a.n.sub(b.n))
			}
		case token.NEQ:
			if bok && bn == 0 {
				st.assumeEQ(a.n.plus(-1))
			} else if aok && an == 0 {
				st.assumeEQ(b.n.plus(-1))
			} else if a.id == b.id && a.id != 0 && a.idx == nil && len(a.path) == 0 && len(b.path) == 0 && b.idx == nil {
				if aok && an == 1 {
					st.wnum().bot = true
				}
			}
		}
	case a.k == kSlice && b.k == kSlice:
		// comparison with nil
		s := a
		if a.id == 0 {
			s = b
		}
		if op == token.EQL {
			st.assumeEQ(s.n)
		}
		// not nil: the length can still be zero
		if s.id == 0 && op == token.NEQ {
			st.wnum().bot = true
		}
	case a.k == kIface && b.k == kIface:
		x, y := a, b
		isNil := func(v *Val) bool {
			al := st.alts[v.id]
			return al != nil && al.nil_ && !al.ext && len(al.m) == 0
		}
		if isNil(x) {
			x, y = y, x
		}
		al := st.alts[x.id]
		if al == nil {
			break
		}
		yal := st.alts[y.id]
		switch {
		case isNil(y):
			if op == token.EQL {
				if !al.nil_ {
					st.wnum().bot = true
				} else {
					st.setAlts(x.id, &Alts{nil_: true})
				}
			} else {
				n := *al
				n.nil_ = false
				if n.empty() {
					st.wnum().bot = true
				}
				st.setAlts(x.id, &n)
			}
		case op == token.EQL && yal != nil && !yal.nil_:
			n := *al
			n.nil_ = false
			if n.empty() {
				st.wnum().bot = true
			}
			st.setAlts(x.id, &n)
		}
	}
	if st.num.bot {
		return nil
	}
	return []*State{st}
}

// byteFact uses that a byte of a string with a known prefix is compared with a constant.
func (e *engine) byteFact(st *State, a, b *Val) {
	if a.org == nil {
		return
	}
	c, ok := st.constOf(b.n)
	if !ok {
		return
	}
	p := st.pre[a.org.str]
	for i := 0; i < len(p); i++ {
		if int64(p[i]) != c {
			st.assumeNE(a.org.at.plus(-int64(i)))
		}
	}
	if at, ok := st.constOf(a.org.at); ok && at == int64(len(p)) {
		st.pre[a.org.str] = p + string(rune(c))
		if c >= 0x80 {
			st.pre[a.org.str] = p
		}
	}
}

func (e *engine) val(st *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Function:
		return &Val{k: kFunc, t: x.Type(), fn: x, n: konst(1), id: 0}
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Builtin:
		return &Val{k: kTop}
	}
	f := st.top()
	if i, ok := f.fi.num[v]; ok {
		if f.env[i] != nil {
			return f.env[i]
		}
	}
	return &Val{k: kTop, t: v.Type()}
}

func (e *engine) set(st *State, in ssa.Value, v *Val) []*State {
	st.set(st.top().fi.num[in], v)
	return []*State{st}
}

// --- obligations ---

func (e *engine) oblige(in ssa.Instruction, kind string, ok bool, text func() string) {
	if !e.record {
		return
	}
	k := oblKey{in, kind}
	o := e.obls[k]
	if o == nil {
		o = &obl{key: k}
		e.obls[k] = o
	}
	o.n++
	if !ok {
		o.fail++
		if o.text == "" {
			o.text = text()
			if len(e.stack) > 1 {
				var s []string
				for _, f := range e.stack {
					s = append(s, f.Name())
				}
				o.text += " (in " + strings.Join(s, " > ") + ")"
			}
		}
	}
}

// check decides l >= 0 as an obligation and goes on with it.
func (e *engine) check(st *State, in ssa.Instruction, kind string, l Lin, text string) bool {
	ok := st.num.entails(l)
	e.oblige(in, kind, ok, func() string { return text + ": cannot show " + st.lin(l).String() + " >= 0" + e.about(st, l) })
	if !ok {
		return st.assume(l)
	}
	return true
}

func (e *engine) about(st *State, l Lin) string {
	if os.Getenv("VERIF_DEBUG") == "" {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("\n      where")
	cs := st.num.component(st.lin(l))
	sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
	for _, c := range cs {
		sb.WriteString(" [" + c.String() + ">=0]")
	}
	f := st.top()
	sb.WriteString("\n     ")
	for i, v := range f.env {
		if v != nil && f.fi != nil {
			fmt.Fprintf(&sb, " %s=%s", f.fi.vals[i].Name(), v)
		}
	}
	return sb.String()
}

func (e *engine) notNil(st *State, in ssa.Instruction, v *Val, what string) bool {
	if v.k == kTop {
		return true
	}
	ok := e.check(st, in, "nil", v.n.plus(-1), what)
	if ok && v.id == 0 && v.k == kPtr {
		st.wnum().bot = true
		return false
	}
	return ok
}

func (e *engine) explicitPanic(st *State, x *ssa.Panic) {
	e.oblige(x, "panic", false, func() string { return "an explicit panic can be reached" })
}

// --- instructions ---

func (e *engine) exec(st *State, in ssa.Instruction) []*State {
	e.steps++
	switch x := in.(type) {
	case *ssa.Alloc:
		return e.set(st, x, e.alloc(st, x, x.Type().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		return e.binop(st, x)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.Call:
		return e.call(st, x, x.Common())
	case *ssa.ChangeInterface:
		v := *e.val(st, x.X)
		v.t = x.Type()
		return e.set(st, x, &v)
	case *ssa.ChangeType:
		v := *e.val(st, x.X)
		v.t = x.Type()
		return e.set(st, x, &v)
	case *ssa.Convert:
		return e.convert(st, x)
	case *ssa.MultiConvert:
		v, _ := e.generic(st, x.Type(), false)
		return e.set(st, x, v)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.k == kTuple && x.Index < len(t.f) {
			return e.set(st, x, t.f[x.Index])
		}
		v, ok := e.generic(st, x.Type(), false)
		if !ok {
			return nil
		}
		return e.set(st, x, v)
	case *ssa.Field:
		v := e.val(st, x.X)
		if v.k == kStruct && x.Field < len(v.f) {
			return e.set(st, x, v.f[x.Field])
		}
		g, ok := e.generic(st, x.Type(), false)
		if !ok {
			return nil
		}
		return e.set(st, x, g)
	case *ssa.FieldAddr:
		p := e.val(st, x.X)
		if p.k == kTop {
			return e.set(st, x, &Val{k: kTop, t: x.Type()})
		}
		if !e.notNil(st, x, p, "nil pointer is dereferenced") {
			return nil
		}
		v := *p
		v.t = x.Type()
		v.path = append(append([]int(nil), p.path...), x.Field)
		return e.set(st, x, &v)
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Index:
		return e.index(st, x)
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MakeClosure:
		v := &Val{k: kFunc, t: x.Type(), fn: x.Fn.(*ssa.Function), n: konst(1)}
		for _, b := range x.Bindings {
			v.f = append(v.f, e.val(st, b))
		}
		return e.set(st, x, v)
	case *ssa.MakeInterface:
		a := e.val(st, x.X)
		t := x.X.Type()
		al := &Alts{m: []alt{{types.TypeString(t, nil), t, a}}}
		return e.set(st, x, e.newIface(st, x.Type(), al))
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		ss := e.allocSite(x, mt.Elem(), false, true)
		id := e.newID()
		if !ss.l[0].ext {
			st.heap[id] = &Obj{kind: oMap, site: ss.l[0], elem: mt.Elem()}
		}
		return e.set(st, x, &Val{k: kMap, t: x.Type(), n: konst(1), id: id, sites: ss})
	case *ssa.MakeSlice:
		n, c := e.val(st, x.Len), e.val(st, x.Cap)
		if n.k == kNum && !e.check(st, x, "make", n.n, "make with a negative length") {
			return nil
		}
		if n.k == kNum && c.k == kNum && !e.check(st, x, "make", c.n.sub(n.n), "make with a length above the capacity") {
			return nil
		}
		et := under(x.Type()).(*types.Slice).Elem()
		ss := e.allocSite(x, et, true, false)
		id := e.newID()
		l := n.n
		if n.k != kNum {
			l = symLin(e.newSym())
			st.addGE(l)
		}
		if !ss.l[0].ext {
			e.newArray(st, id, ss.l[0], et, l)
		}
		return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: l, id: id, sites: ss})
	case *ssa.MapUpdate:
		return e.mapUpdate(st, x)
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.Range:
		id := e.newID()
		st.heap[id] = &Obj{kind: oIter, v: e.val(st, x.X)}
		return e.set(st, x, &Val{k: kPtr, t: types.NewPointer(types.Typ[types.Int]), n: konst(1), id: id})
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.Store:
		return e.store(st, x)
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.DebugRef, *ssa.RunDefers:
		return []*State{st}
	case *ssa.SliceToArrayPointer:
		e.oblige(x, "unsupported", false, func() string { return "conversion of a slice to an array is not modelled" })
		v, _ := e.generic(st, x.Type(), true)
		return e.set(st, x, v)
	}
	e.oblige(in, "unsupported", false, func() string { return fmt.Sprintf("%T is not modelled", in) })
	if v, ok := in.(ssa.Value); ok {
		g, ok := e.generic(st, v.Type(), false)
		if !ok {
			return nil
		}
		return e.set(st, v, g)
	}
	return []*State{st}
}

func (e *engine) store(st *State, x *ssa.Store) []*State {
	p, v := e.val(st, x.Addr), e.val(st, x.Val)
	if p.k != kPtr {
		e.publishReach(st, v)
		return []*State{st}
	}
	if !e.notNil(st, x, p, "store through a nil pointer") {
		return nil
	}
	e.write(st, p, v)
	return []*State{st}
}

func (e *engine) unop(st *State, x *ssa.UnOp) []*State {
	a := e.val(st, x.X)
	switch x.Op {
	case token.MUL:
		return e.load(st, x, a)
	case token.NOT:
		if a.k == kNum {
			return e.set(st, x, numVal(konst(1).sub(a.n), x.Type()))
		}
		return e.set(st, x, e.freshNum(st, x.Type()))
	case token.SUB:
		if a.k == kNum {
			return e.set(st, x, e.wrap(st, a.n.scale(-1), x.Type()))
		}
	}
	v, _ := e.generic(st, x.Type(), false)
	return e.set(st, x, v)
}

func (e *engine) load(st *State, x *ssa.UnOp, p *Val) []*State {
	if p.k != kPtr {
		v, ok := e.generic(st, x.Type(), false)
		if !ok {
			return nil
		}
		return e.set(st, x, v)
	}
	if !e.notNil(st, x, p, "load through a nil pointer") {
		return nil
	}
	if g, ok := x.X.(*ssa.Global); ok && g.Name() == "init$guard" {
		return e.set(st, x, boolVal(false))
	}
	var out []*State
	for _, s := range e.splitLoad(st, p) {
		v := e.content(s, p)
		if v == nil {
			continue
		}
		f := getPath(v, p.path)
		if f.k == kTop {
			g, ok := e.generic(s, x.Type(), false)
			if !ok {
				continue
			}
			f = g
		}
		out = append(out, e.set(s, x, f)...)
	}
	return out
}

// wrap keeps a result when it is in the range of its type.
func (e *engine) wrap(st *State, l Lin, t types.Type) *Val {
	lo, hi, hl, hh := numRange(t)
	if (hl && !st.num.entails(l.plus(-lo))) || (hh && !st.num.entails(l.scale(-1).plus(hi))) {
		return e.freshNum(st, t)
	}
	return numVal(st.lin(l), t)
}

func (e *engine) binop(st *State, x *ssa.BinOp) []*State {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		var out []*State
		for _, s := range e.assumeCmp(st.clone(), a, b, x.Op) {
			out = append(out, e.set(s, x, boolVal(true))...)
		}
		for _, s := range e.assumeCmp(st, a, b, negOp(x.Op)) {
			out = append(out, e.set(s, x, boolVal(false))...)
		}
		return out
	}
	if a.k == kStr && b.k == kStr && x.Op == token.ADD {
		if a.isC && b.isC {
			return e.set(st, x, e.strConst(a.cst+b.cst))
		}
		v := e.strLen(st.lin(a.n.add(b.n, 1)))
		if p := e.prefixOf(st, a); p != "" {
			if a.isC {
				p += e.prefixOf(st, b)
			}
			st.pre[v.id] = p
		}
		return e.set(st, x, v)
	}
	if a.k != kNum || b.k != kNum {
		v, _ := e.generic(st, x.Type(), false)
		return e.set(st, x, v)
	}
	t := x.Type()
	bc, bok := st.constOf(b.n)
	ac, aok := st.constOf(a.n)
	nn := func(l Lin) bool { return st.num.entails(l) }
	fresh := func() *Val { return e.freshNum(st, t) }
	var v *Val
	switch x.Op {
	case token.ADD:
		v = e.wrap(st, a.n.add(b.n, 1), t)
	case token.SUB:
		v = e.wrap(st, a.n.sub(b.n), t)
	case token.MUL:
		switch {
		case bok:
			v = e.wrap(st, a.n.scale(bc), t)
		case aok:
			v = e.wrap(st, b.n.scale(ac), t)
		default:
			v = fresh()
			if _, _, _, hh := numRange(t); nn(a.n) && nn(b.n) && !hh {
				st.addGE(v.n)
			}
		}
	case token.QUO, token.REM:
		if isIntType(t) {
			if !bok {
				ok := nn(b.n.plus(-1)) || nn(b.n.scale(-1).plus(-1))
				e.oblige(x, "div", ok, func() string { return "division by zero is possible" })
			} else {
				e.oblige(x, "div", bc != 0, func() string { return "division by zero" })
				if bc == 0 {
					return nil
				}
			}
		}
		v = fresh()
		if bok && bc > 0 && nn(a.n) {
			if x.Op == token.QUO {
				st.addGE(v.n)
				d := a.n.sub(v.n.scale(bc))
				st.addGE(d)
				st.addGE(d.scale(-1).plus(bc - 1))
			} else {
				st.addGE(v.n)
				st.addGE(v.n.scale(-1).plus(bc - 1))
				st.addGE(a.n.sub(v.n))
			}
		} else if bok && bc > 0 && x.Op == token.REM {
			st.addGE(v.n.plus(bc - 1))
			st.addGE(v.n.scale(-1).plus(bc - 1))
		}
	case token.SHR:
		v = fresh()
		if bok && bc >= 0 && bc < 31 && nn(a.n) {
			k := int64(1) << uint(bc)
			st.addGE(v.n)
			d := a.n.sub(v.n.scale(k))
			st.addGE(d)
			st.addGE(d.scale(-1).plus(k - 1))
		} else if nn(a.n) {
			st.addGE(v.n)
			st.addGE(a.n.sub(v.n))
		}
	case token.SHL:
		if bok && bc >= 0 && bc < 31 {
			v = e.wrap(st, a.n.scale(int64(1)<<uint(bc)), t)
		} else {
			v = fresh()
		}
	case token.AND:
		v = fresh()
		if bok && bc >= 0 {
			st.addGE(v.n)
			st.addGE(v.n.scale(-1).plus(bc))
		} else if aok && ac >= 0 {
			st.addGE(v.n)
			st.addGE(v.n.scale(-1).plus(ac))
		}
		if nn(a.n) && nn(b.n) {
			st.addGE(v.n)
			st.addGE(a.n.sub(v.n))
			st.addGE(b.n.sub(v.n))
		}
	default:
		v = fresh()
		if nn(a.n) && nn(b.n) {
			st.addGE(v.n)
		}
	}
	return e.set(st, x, v)
}

func (e *engine) prefixOf(st *State, v *Val) string {
	if v.isC {
		return v.cst
	}
	return st.pre[v.id]
}

func (e *engine) convert(st *State, x *ssa.Convert) []*State {
	a := e.val(st, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	switch {
	case a.k == kNum && isIntType(x.Type()):
		if !isIntType(x.X.Type()) {
			break
		}
		v := e.wrap(st, a.n, x.Type())
		if v.n.eq(st.lin(a.n)) && a.org != nil {
			w := *v
			w.org = a.org
			v = &w
		}
		return e.set(st, x, v)
	case a.k == kNum && isStrType(x.Type()):
		s := symLin(e.newSym())
		st.addGE(s.plus(-1))
		st.addGE(s.scale(-1).plus(4))
		return e.set(st, x, e.strLen(s))
	case a.k == kStr && isStrType(x.Type()):
		v := *a
		v.t = x.Type()
		return e.set(st, x, &v)
	case a.k == kStr:
		if sl, ok := to.(*types.Slice); ok {
			n := a.n
			if b, ok := under(sl.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
				n = symLin(e.newSym())
				st.addGE(n)
				st.addGE(a.n.sub(n))
			}
			ss := e.allocSite(x, sl.Elem(), true, false)
			return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: n, id: e.newID(), sites: ss})
		}
	case a.k == kSlice && isStrType(x.Type()):
		n := a.n
		if sl, ok := from.(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
				n = symLin(e.newSym())
				st.addGE(n)
			}
		}
		return e.set(st, x, e.strLen(n))
	}
	if b, ok := to.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return e.set(st, x, &Val{k: kTop, t: x.Type()})
	}
	v, ok := e.generic(st, x.Type(), true)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

func (e *engine) bounds(st *State, in ssa.Instruction, i, n Lin) bool {
	return e.check(st, in, "low", i, "index can be negative") &&
		e.check(st, in, "high", n.sub(i).plus(-1), "index can be out of range")
}

func (e *engine) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	a, i := e.val(st, x.X), e.val(st, x.Index)
	il := i.n
	if i.k != kNum {
		il = symLin(e.newSym())
	}
	el := x.Type().(*types.Pointer).Elem()
	switch a.k {
	case kSlice:
		if !e.bounds(st, x, il, a.n) {
			return nil
		}
		if a.sites == nil {
			return nil
		}
		idx := st.lin(a.off.add(il, 1))
		return e.set(st, x, &Val{k: kPtr, t: x.Type(), n: konst(1), id: a.id, sites: a.sites, idx: &idx})
	case kPtr:
		if !e.notNil(st, x, a, "nil array pointer") {
			return nil
		}
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		if !e.bounds(st, x, il, konst(at.Len())) {
			return nil
		}
		if len(a.path) > 0 || a.idx != nil || isModNamed(under(x.X.Type()).(*types.Pointer).Elem()) {
			if !simple(el) {
				e.oblige(x, "unsupported", false, func() string { return "array inside of a structure is not modelled" })
			}
			idx := st.lin(il)
			return e.set(st, x, &Val{k: kPtr, t: x.Type(), n: konst(1), id: e.newID(), sites: newSiteSet([]*site{e.extSite(el, true, false)}), idx: &idx})
		}
		idx := st.lin(il)
		return e.set(st, x, &Val{k: kPtr, t: x.Type(), n: konst(1), id: a.id, sites: a.sites, idx: &idx})
	}
	v, ok := e.generic(st, x.Type(), true)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

func (e *engine) strByte(st *State, s *Val, i Lin, t types.Type) *Val {
	if c, ok := st.constOf(i); ok && c >= 0 {
		if p := e.prefixOf(st, s); int(c) < len(p) {
			return numVal(konst(int64(p[c])), t)
		}
	}
	v := *e.freshNum(st, t)
	if !s.isC {
		v.org = &byteOrg{s.id, st.lin(i)}
	}
	return &v
}

func (e *engine) index(st *State, x *ssa.Index) []*State {
	a, i := e.val(st, x.X), e.val(st, x.Index)
	il := i.n
	if i.k != kNum {
		il = symLin(e.newSym())
	}
	if a.k == kStr {
		if !e.bounds(st, x, il, a.n) {
			return nil
		}
		return e.set(st, x, e.strByte(st, a, il, x.Type()))
	}
	if at, ok := under(x.X.Type()).(*types.Array); ok {
		if !e.bounds(st, x, il, konst(at.Len())) {
			return nil
		}
	} else {
		e.oblige(x, "unsupported", false, func() string { return "index of an unknown value" })
	}
	v, ok := e.generic(st, x.Type(), false)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

func (e *engine) lookup(st *State, x *ssa.Lookup) []*State {
	a, i := e.val(st, x.X), e.val(st, x.Index)
	if isStrType(x.X.Type()) {
		il := i.n
		if i.k != kNum || a.k != kStr {
			v, _ := e.generic(st, x.Type(), false)
			return e.set(st, x, v)
		}
		if !e.bounds(st, x, il, a.n) {
			return nil
		}
		return e.set(st, x, e.strByte(st, a, il, x.Type()))
	}
	mt := under(x.X.Type()).(*types.Map)
	var out []*State
	// found
	if !(a.k == kMap && isZero(st, a.n)) {
		s := st.clone()
		v := e.mapValue(s, a, mt.Elem())
		if v != nil {
			if x.CommaOk {
				out = append(out, e.set(s, x, &Val{k: kTuple, t: x.Type(), f: []*Val{v, boolVal(true)}})...)
			} else {
				out = append(out, e.set(s, x, v)...)
			}
		}
	}
	z := e.zero(st, mt.Elem())
	if x.CommaOk {
		out = append(out, e.set(st, x, &Val{k: kTuple, t: x.Type(), f: []*Val{z, boolVal(false)}})...)
	} else {
		out = append(out, e.set(st, x, z)...)
	}
	return out
}

func isZero(st *State, l Lin) bool {
	c, ok := st.constOf(l)
	return ok && c == 0
}

// mapValue is some value of a map; nil when there is none.
func (e *engine) mapValue(st *State, m *Val, elem types.Type) *Val {
	if m.k != kMap {
		v, ok := e.generic(st, elem, false)
		if !ok {
			return nil
		}
		return v
	}
	if o := st.heap[m.id]; o != nil {
		return e.fromDs(st, dsOf(o.lo))
	}
	if m.sites == nil {
		return nil
	}
	v := e.siteContent(st, m.sites, elem)
	return v
}

func (e *engine) mapUpdate(st *State, x *ssa.MapUpdate) []*State {
	m, v := e.val(st, x.Map), e.val(st, x.Value)
	if m.k != kMap {
		e.publishReach(st, v)
		return []*State{st}
	}
	if !e.check(st, x, "nilmap", m.n.plus(-1), "write to a nil map") {
		return nil
	}
	if o := st.heap[m.id]; o != nil {
		d := e.pack(st, v)
		if o = st.heap[m.id]; o != nil {
			n := *o
			n.lo, _ = e.addDisj(o.lo, d)
			st.heap[m.id] = &n
			return []*State{st}
		}
	}
	if m.sites == nil {
		return nil
	}
	st.mut = true
	ext := true
	for _, s := range m.sites.l {
		if !s.ext {
			ext = false
		}
	}
	if !ext {
		d := e.pack(st, v)
		for _, s := range m.sites.l {
			e.addToSite(s, d)
			if e.cur != nil && !e.cur.mods[s] {
				e.cur.mods[s] = true
				e.cur.modVer++
			}
		}
	}
	return []*State{st}
}

func (e *engine) next(st *State, x *ssa.Next) []*State {
	it := e.val(st, x.Iter)
	o := st.heap[it.id]
	tt := x.Type().(*types.Tuple)
	if o == nil || o.v == nil {
		v, _ := e.generic(st, tt, false)
		return e.set(st, x, v)
	}
	if x.IsString {
		s := o.v
		var out []*State
		// one more symbol
		a := st.clone()
		n := *o
		w := symLin(e.newSym())
		a.addGE(w.plus(-1))
		a.addGE(w.scale(-1).plus(4))
		pos := a.lin(o.pos)
		n.pos = a.lin(o.pos.add(w, 1))
		if a.assume(s.n.sub(n.pos)) {
			a.heap[it.id] = &n
			r := e.freshNum(a, types.Typ[types.Rune])
			a.addGE(r.n)
			a.addGE(r.n.scale(-1).plus(0x10FFFF))
			if p := e.prefixOf(a, s); p != "" {
				if c, ok := a.constOf(pos); ok && int(c) < len(p) && p[c] < 0x80 {
					r = numVal(konst(int64(p[c])), types.Typ[types.Rune])
					a.assumeEQ(w.plus(-1))
				}
			}
			out = append(out, e.set(a, x, &Val{k: kTuple, t: tt, f: []*Val{boolVal(true), numVal(pos, types.Typ[types.Int]), r}})...)
		}
		if st.assumeEQ(s.n.sub(o.pos)) {
			out = append(out, e.set(st, x, &Val{k: kTuple, t: tt, f: []*Val{boolVal(false), numVal(konst(0), types.Typ[types.Int]), numVal(konst(0), types.Typ[types.Rune])}})...)
		}
		return out
	}
	// map
	var out []*State
	a := st.clone()
	m := o.v
	if !(m.k == kMap && isZero(a, m.n)) {
		mt, _ := under(m.t).(*types.Map)
		if mt != nil {
			k, kok := e.generic(a, mt.Key(), false)
			v := e.mapValue(a, m, mt.Elem())
			if kok && v != nil {
				out = append(out, e.set(a, x, &Val{k: kTuple, t: tt, f: []*Val{boolVal(true), k, v}})...)
			}
		} else {
			v, _ := e.generic(a, tt, false)
			out = append(out, e.set(a, x, v)...)
		}
	}
	f := &Val{k: kTuple, t: tt, f: []*Val{boolVal(false), {k: kTop}, {k: kTop}}}
	return append(out, e.set(st, x, f)...)
}

func (e *engine) slice(st *State, x *ssa.Slice) []*State {
	a := e.val(st, x.X)
	opt := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		w := e.val(st, v)
		if w.k != kNum {
			return symLin(e.newSym())
		}
		return w.n
	}
	switch a.k {
	case kStr:
		lo, hi := opt(x.Low, konst(0)), opt(x.High, a.n)
		if !e.sliceBounds(st, x, lo, hi, a.n) {
			return nil
		}
		n := st.lin(hi.sub(lo))
		if p := e.prefixOf(st, a); p != "" || a.isC {
			l, lok := st.constOf(lo)
			h, hok := st.constOf(hi)
			if a.isC && lok && hok && l >= 0 && l <= h && h <= int64(len(a.cst)) {
				return e.set(st, x, e.strConst(a.cst[l:h]))
			}
			v := e.strLen(n)
			if lok && l < int64(len(p)) {
				q := p[l:]
				// only what is certainly inside
				for len(q) > 0 && !st.num.entails(n.plus(-int64(len(q)))) {
					q = q[:len(q)-1]
				}
				if q != "" {
					st.pre[v.id] = q
				}
			}
			return e.set(st, x, v)
		}
		if x.Low == nil && x.High == nil {
			return e.set(st, x, a)
		}
		return e.set(st, x, e.strLen(n))
	case kSlice:
		lo, hi := opt(x.Low, konst(0)), opt(x.High, a.n)
		if !e.sliceBounds(st, x, lo, hi, a.n) {
			return nil
		}
		v := *a
		v.t = x.Type()
		v.n = st.lin(hi.sub(lo))
		v.off = st.lin(a.off.add(lo, 1))
		return e.set(st, x, &v)
	case kPtr:
		if !e.notNil(st, x, a, "nil array pointer") {
			return nil
		}
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := konst(at.Len())
		lo, hi := opt(x.Low, konst(0)), opt(x.High, n)
		if !e.sliceBounds(st, x, lo, hi, n) {
			return nil
		}
		id, ss := a.id, a.sites
		if len(a.path) > 0 || a.idx != nil || isModNamed(under(x.X.Type()).(*types.Pointer).Elem()) {
			id, ss = e.newID(), newSiteSet([]*site{e.extSite(at.Elem(), true, false)})
		}
		return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: st.lin(hi.sub(lo)), off: st.lin(lo), id: id, sites: ss})
	}
	v, ok := e.generic(st, x.Type(), false)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

func (e *engine) sliceBounds(st *State, x *ssa.Slice, lo, hi, n Lin) bool {
	return e.check(st, x, "low", lo, "low bound of a slice can be negative") &&
		e.check(st, x, "order", hi.sub(lo), "low bound of a slice can be above the high bound") &&
		e.check(st, x, "high", n.sub(hi), "high bound of a slice can be above the length")
}

func (e *engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	a := e.val(st, x.X)
	if a.k != kIface || st.alts[a.id] == nil {
		if !x.CommaOk {
			e.oblige(x, "assert", false, func() string { return "type of the value is not known" })
		}
		v, ok := e.generic(st, x.Type(), true)
		if !ok {
			return nil
		}
		return e.set(st, x, v)
	}
	al := st.alts[a.id]
	hit := &Alts{}
	miss := &Alts{nil_: al.nil_}
	isIface := types.IsInterface(x.AssertedType)
	for _, m := range al.m {
		ok := false
		if isIface {
			ok = types.Implements(m.t, under(x.AssertedType).(*types.Interface))
		} else {
			ok = types.Identical(m.t, x.AssertedType)
		}
		if ok {
			hit.m = append(hit.m, m)
		} else {
			miss.m = append(miss.m, m)
		}
	}
	if al.ext {
		hit.ext, miss.ext = true, true
	}
	var out []*State
	value := func(s *State) (*Val, bool) {
		if isIface {
			v := *a
			v.t = x.AssertedType
			return &v, true
		}
		if len(hit.m) == 1 {
			return hit.m[0].v, true
		}
		return e.generic(s, x.AssertedType, false)
	}
	if !hit.empty() {
		s := st.clone()
		s.setAlts(a.id, hit)
		v, ok := value(s)
		if ok {
			if x.CommaOk {
				v = &Val{k: kTuple, t: x.Type(), f: []*Val{v, boolVal(true)}}
			}
			out = append(out, e.set(s, x, v)...)
		}
	}
	if !x.CommaOk {
		e.oblige(x, "assert", miss.empty(), func() string {
			var s []string
			if miss.nil_ {
				s = append(s, "nil")
			}
			if miss.ext {
				s = append(s, "other types")
			}
			for _, m := range miss.m {
				s = append(s, m.key)
			}
			return fmt.Sprintf("type assertion to %s can fail for %s", x.AssertedType, strings.Join(s, ", "))
		})
		return out
	}
	if !miss.empty() {
		st.setAlts(a.id, miss)
		z := e.zero(st, x.AssertedType)
		out = append(out, e.set(st, x, &Val{k: kTuple, t: x.Type(), f: []*Val{z, boolVal(false)}})...)
	}
	return out
}
