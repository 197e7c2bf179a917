package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one abstract state: frames of the inlined calls, local objects (updated in place), materialised contents of
// published objects, dynamic types of the interface values, and one system of linear constraints over all of them.
type State struct {
	num    *Num
	numOwn bool
	frames []*frame
	heap   map[int]*Obj
	mats   map[string]*mat
	alts   map[int]*Alts
	pre    map[int]string // known prefixes of strings
	snaps  map[snapKey]*Val
	facts  map[string]bool
	ghost  Lin  // calls of Store since the entry of the unit
	mut    bool // something which existed at the entry of the unit was written
}

type snapKey struct {
	depth int
	head  *ssa.BasicBlock
}

type frame struct {
	fi  *fnInfo
	env []*Val
	own bool
}

type objKind uint8

const (
	oCell objKind = iota // anything addressed as a whole: variable or struct
	oArray
	oMap
	oIter
)

// Obj is a local object.
type Obj struct {
	kind objKind
	site *site
	v    *Val // cell: content; iterator: string or map; cur element of an array
	// arrays: elements below bound are in lo, the others in hi; the element at at is v when has is set
	lo, hi *PSet
	bound  Lin
	alen   Lin
	has    bool
	at     Lin
	elem   types.Type
	pos    Lin // iterator
}

type mat struct {
	id    int
	idx   *Lin
	sites *siteSet
	v     *Val
}

func matKey(id int, idx *Lin) string {
	if idx == nil {
		return fmt.Sprintf("%d", id)
	}
	return fmt.Sprintf("%d[%s]", id, idx.String())
}

func newState() *State {
	return &State{num: newNum(), numOwn: true, heap: map[int]*Obj{}, mats: map[string]*mat{}, alts: map[int]*Alts{},
		pre: map[int]string{}, snaps: map[snapKey]*Val{}, facts: map[string]bool{}}
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	r := *s
	s.numOwn = false
	r.numOwn = false
	r.frames = make([]*frame, len(s.frames))
	for i, f := range s.frames {
		f.own = false
		g := *f
		r.frames[i] = &g
		s.frames[i].own = false
	}
	r.heap = copyMap(s.heap)
	r.mats = copyMap(s.mats)
	r.alts = copyMap(s.alts)
	r.pre = copyMap(s.pre)
	r.snaps = copyMap(s.snaps)
	r.facts = copyMap(s.facts)
	return &r
}

func (s *State) wnum() *Num {
	if !s.numOwn {
		s.num = s.num.clone()
		s.numOwn = true
	}
	return s.num
}

func (s *State) addGE(l Lin) {
	if len(l.t) == 0 && l.c >= 0 {
		return
	}
	s.wnum().addGE(l)
}

func (s *State) assume(l Lin) bool {
	l = s.num.norm(l)
	if l.isConst() {
		if l.c < 0 {
			s.wnum().bot = true
			return false
		}
		return !s.num.bot
	}
	return s.wnum().assume(l)
}

func (s *State) assumeEQ(l Lin) bool {
	l = s.num.norm(l)
	if l.isConst() {
		if l.c != 0 {
			s.wnum().bot = true
		}
		return !s.num.bot
	}
	return s.wnum().assumeEQ(l)
}

func (s *State) assumeNE(l Lin) bool {
	l = s.num.norm(l)
	if l.isConst() {
		if l.c == 0 {
			s.wnum().bot = true
		}
		return !s.num.bot
	}
	return s.wnum().assumeNE(l)
}

func (s *State) setAlts(id int, a *Alts) { s.alts[id] = a }

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

func (s *State) set(i int, v *Val) {
	f := s.top()
	if !f.own {
		f.env = append([]*Val(nil), f.env...)
		f.own = true
	}
	f.env[i] = v
}

// lin normalises an expression.
func (s *State) lin(l Lin) Lin { return s.num.norm(l) }

// isConst tells whether an expression has one value.
func (s *State) constOf(l Lin) (int64, bool) {
	l = s.num.norm(l)
	return l.c, l.isConst()
}

// --- walking the values ---

// walkVal visits the linear expressions and identities of a value.
func walkVal(v *Val, f func(v *Val)) {
	if v == nil {
		return
	}
	f(v)
	for _, x := range v.f {
		walkVal(x, f)
	}
}

func valLins(v *Val, out func(Lin)) {
	switch v.k {
	case kNum, kStr, kPtr, kMap, kBuf, kFunc:
		out(v.n)
		if v.k == kPtr && v.idx != nil {
			out(*v.idx)
		}
	case kSlice:
		out(v.n)
		out(v.off)
	}
}

// reach computes everything which is reachable from the given values: identities of local objects, materialised contents.
type reachSet struct {
	ids   map[int]bool
	mats  map[string]bool
	alts  map[int]bool
	syms  map[Sym]bool
	order []int
}

func (s *State) reach(roots []*Val) *reachSet {
	r := &reachSet{ids: map[int]bool{}, mats: map[string]bool{}, alts: map[int]bool{}, syms: map[Sym]bool{}}
	matsBy := map[int][]string{}
	for k, m := range s.mats {
		matsBy[m.id] = append(matsBy[m.id], k)
	}
	for _, l := range matsBy {
		sort.Strings(l)
	}
	addL := func(l Lin) {
		for _, t := range l.t {
			r.syms[t.s] = true
		}
	}
	var visit func(v *Val)
	visitID := func(id int) {
		if id == 0 || r.ids[id] {
			return
		}
		r.ids[id] = true
		r.order = append(r.order, id)
		if o := s.heap[id]; o != nil {
			addL(o.bound)
			addL(o.alen)
			addL(o.at)
			addL(o.pos)
			if o.v != nil {
				visit(o.v)
			}
		}
		for _, k := range matsBy[id] {
			r.mats[k] = true
			m := s.mats[k]
			if m.idx != nil {
				addL(*m.idx)
			}
			visit(m.v)
		}
	}
	visit = func(v *Val) {
		walkVal(v, func(v *Val) {
			valLins(v, addL)
			switch v.k {
			case kPtr, kSlice, kMap:
				visitID(v.id)
			case kIface:
				if !r.alts[v.id] {
					r.alts[v.id] = true
					if a := s.alts[v.id]; a != nil {
						for _, x := range a.m {
							visit(x.v)
						}
					}
				}
			case kNum:
				if v.org != nil {
					addL(v.org.at)
				}
			}
		})
	}
	for _, v := range roots {
		if v != nil {
			visit(v)
		}
	}
	return r
}

// roots lists all values of the state in a fixed order.
func (s *State) roots() []*Val {
	var l []*Val
	for _, f := range s.frames {
		for _, v := range f.env {
			if v != nil {
				l = append(l, v)
			}
		}
	}
	var ks []snapKey
	for k := range s.snaps {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].depth != ks[j].depth {
			return ks[i].depth < ks[j].depth
		}
		return ks[i].head.Index < ks[j].head.Index
	})
	for _, k := range ks {
		l = append(l, s.snaps[k])
	}
	l = append(l, &Val{k: kNum, n: s.ghost})
	return l
}

// gc drops what cannot be reached any more.
func (s *State) gc() *reachSet {
	r := s.reach(s.roots())
	for id := range s.heap {
		if !r.ids[id] {
			delete(s.heap, id)
		}
	}
	for k := range s.mats {
		if !r.mats[k] {
			delete(s.mats, k)
		}
	}
	for id := range s.alts {
		if !r.alts[id] {
			delete(s.alts, id)
		}
	}
	return r
}

// --- packing: self-contained disjuncts ---

type packer struct {
	e    *engine
	st   *State
	sym  []Lin // renamed symbols: i -> expression in the state
	memo map[string]Lin
	ids  map[int]int
	alts map[int]*Alts
}

func (p *packer) lin(l Lin) Lin {
	l = p.st.num.norm(l)
	if l.isConst() {
		return l
	}
	k := l.String()
	if r, ok := p.memo[k]; ok {
		return r
	}
	p.sym = append(p.sym, l)
	r := symLin(Sym(len(p.sym)))
	p.memo[k] = r
	return r
}

func (p *packer) id(id int) int {
	if id == 0 {
		return 0
	}
	if r, ok := p.ids[id]; ok {
		return r
	}
	r := len(p.ids) + 1
	p.ids[id] = r
	return r
}

// pack makes a disjunct of a value; local objects which it refers to are published first.
func (e *engine) pack(st *State, v *Val) *Disj {
	e.publishReach(st, v)
	p := &packer{e: e, st: st, memo: map[string]Lin{}, ids: map[int]int{}, alts: map[int]*Alts{}}
	pv := p.val(v)
	d := &Disj{v: pv, alts: p.alts}
	d.num = p.numeric()
	e.seq++
	d.seq = e.seq
	d.key = e.discKey(pv, d.alts, true)
	return d
}

func (p *packer) numeric() *Num {
	n := p.st.num
	// rename: new symbols are negative to keep them apart
	tmp := n.clone()
	keep := map[Sym]bool{}
	for i, l := range p.sym {
		s := Sym(-(i + 1))
		tmp.addEQ(symLin(s).sub(l))
		keep[s] = true
	}
	pr := tmp.project(keep)
	return renameNum(pr, func(s Sym) Lin { return symLin(-s) })
}

// renameNum substitutes every symbol.
func renameNum(n *Num, f func(Sym) Lin) *Num {
	r := newNum()
	r.bot = n.bot
	for _, l := range n.eqLins() {
		r.addEQ(substLin(l, f))
	}
	for _, l := range n.ineq {
		r.addGE(substLin(l, f))
	}
	return r
}

func substLin(l Lin, f func(Sym) Lin) Lin {
	r := konst(l.c)
	for _, t := range l.t {
		r = r.add(f(t.s), t.k)
	}
	return r
}

func (p *packer) val(v *Val) *Val {
	r := *v
	r.org = nil
	r.dj = nil
	switch v.k {
	case kNum, kMap, kBuf:
		r.n = p.lin(v.n)
	case kStr:
		r.n = p.lin(v.n)
		r.id = p.id(v.id)
	case kFunc:
		r.n = p.lin(v.n)
	case kPtr:
		r.n = p.lin(v.n)
		if v.idx != nil {
			i := p.lin(*v.idx)
			r.idx = &i
		}
	case kSlice:
		r.n = p.lin(v.n)
		r.off = p.lin(v.off)
	}
	switch v.k {
	case kPtr, kMap, kSlice:
		r.id = p.id(v.id)
	case kIface:
		r.id = p.id(v.id)
		if _, ok := p.alts[r.id]; !ok {
			a := p.st.alts[v.id]
			if a == nil {
				a = &Alts{nil_: true, ext: true}
			}
			na := &Alts{nil_: a.nil_, ext: a.ext}
			p.alts[r.id] = na
			for _, x := range a.m {
				na.m = append(na.m, alt{x.key, x.t, p.val(x.v)})
			}
		}
	}
	if len(v.f) > 0 {
		r.f = make([]*Val, len(v.f))
		for i, x := range v.f {
			r.f[i] = p.val(x)
		}
	}
	return &r
}

// unpack puts a disjunct into a state with fresh symbols and identities.
type unpacker struct {
	e    *engine
	st   *State
	syms map[Sym]Lin
	ids  map[int]int
	alts map[int]*Alts
}

func (e *engine) unpack(st *State, d *Disj) *Val {
	u := &unpacker{e: e, st: st, syms: map[Sym]Lin{}, ids: map[int]int{}, alts: d.alts}
	v := u.val(d.v)
	u.constraints(d.num)
	return v
}

func (u *unpacker) constraints(n *Num) {
	f := func(s Sym) Lin {
		l, ok := u.syms[s]
		if !ok {
			l = symLin(u.e.newSym())
			u.syms[s] = l
		}
		return l
	}
	if n.bot {
		u.st.wnum().bot = true
	}
	for _, l := range n.eqLins() {
		u.st.wnum().addEQ(substLin(l, f))
	}
	for _, l := range n.ineq {
		u.st.wnum().addGE(substLin(l, f))
	}
}

func (u *unpacker) lin(l Lin) Lin {
	if l.isConst() {
		return l
	}
	return substLin(l, func(s Sym) Lin {
		x, ok := u.syms[s]
		if !ok {
			x = symLin(u.e.newSym())
			u.syms[s] = x
		}
		return x
	})
}

func (u *unpacker) id(id int) int {
	if id == 0 {
		return 0
	}
	r, ok := u.ids[id]
	if !ok {
		r = u.e.newID()
		u.ids[id] = r
	}
	return r
}

func (u *unpacker) val(v *Val) *Val {
	r := *v
	switch v.k {
	case kNum, kMap, kBuf, kStr, kPtr, kFunc:
		r.n = u.lin(v.n)
		if v.idx != nil {
			i := u.lin(*v.idx)
			r.idx = &i
		}
	case kSlice:
		r.n = u.lin(v.n)
		r.off = u.lin(v.off)
	}
	switch v.k {
	case kStr:
		if v.isC {
			r.id = u.e.strConst(v.cst).id
		} else {
			r.id = u.id(v.id)
		}
	case kPtr, kMap, kSlice:
		r.id = u.id(v.id)
	case kIface:
		r.id = u.id(v.id)
		if _, ok := u.st.alts[r.id]; !ok {
			a := u.alts[v.id]
			if a == nil {
				a = &Alts{nil_: true, ext: true}
			}
			na := &Alts{nil_: a.nil_, ext: a.ext}
			u.st.setAlts(r.id, na)
			for _, x := range a.m {
				na.m = append(na.m, alt{x.key, x.t, u.val(x.v)})
			}
		}
	}
	if len(v.f) > 0 {
		r.f = make([]*Val, len(v.f))
		for i, x := range v.f {
			r.f[i] = u.val(x)
		}
	}
	return &r
}

// discKey is the partition key of a value: constants of bools and enums, -1, nil-ness.
func (e *engine) discKey(v *Val, alts map[int]*Alts, deep bool) string {
	var sb strings.Builder
	e.discKey1(&sb, v, alts, deep)
	return sb.String()
}

func (e *engine) discKey1(sb *strings.Builder, v *Val, alts map[int]*Alts, deep bool) {
	switch v.k {
	case kNum:
		if v.t != nil && e.isEnum(v.t) {
			if v.n.isConst() {
				fmt.Fprintf(sb, "%d;", v.n.c)
			} else {
				sb.WriteString("*;")
			}
		} else if v.n.isConst() && v.n.c == -1 {
			sb.WriteString("m;")
		} else {
			sb.WriteString(";")
		}
	case kPtr, kMap, kFunc:
		if v.n.isConst() {
			fmt.Fprintf(sb, "p%d;", v.n.c)
		} else {
			sb.WriteString("p?;")
		}
		shapeKey(sb, v)
	case kIface:
		a := alts[v.id]
		switch {
		case a == nil:
			sb.WriteString("i?;")
		case a.nil_ && !a.ext && len(a.m) == 0:
			sb.WriteString("i0;")
		case a.nil_:
			sb.WriteString("i?;")
		default:
			sb.WriteString("i1;")
		}
	case kStruct, kTuple:
		if deep {
			for _, f := range v.f {
				e.discKey1(sb, f, alts, deep)
			}
		}
	}
}

// shapeKey tells apart pointers into the inside of objects by the field, and functions: they cannot be joined.
func shapeKey(sb *strings.Builder, v *Val) {
	if v.k == kPtr && (len(v.path) > 0 || v.idx != nil) {
		fmt.Fprintf(sb, "%v%v", v.path, v.idx != nil)
	}
	if v.k == kFunc && v.fn != nil {
		sb.WriteString(v.fn.String())
	}
}

// --- sets of disjuncts ---

const maxDisj = 16

// addDisj adds a disjunct; changed tells whether the set has grown.
func (e *engine) addDisj(p *PSet, d *Disj) (r *PSet, changed bool) {
	if d.num.bot {
		return p, false
	}
	if p == nil {
		return &PSet{ds: []*Disj{d}}, true
	}
	for i, o := range p.ds {
		if o.key == d.key {
			j, ch := e.joinDisj(o, d)
			if !ch {
				return p, false
			}
			n := &PSet{ds: append([]*Disj(nil), p.ds...)}
			n.ds[i] = j
			return n, true
		}
	}
	n := &PSet{ds: append(append([]*Disj(nil), p.ds...), d)}
	sort.Slice(n.ds, func(i, j int) bool { return n.ds[i].key < n.ds[j].key })
	if len(n.ds) > maxDisj {
		j := n.ds[0]
		for _, o := range n.ds[1:] {
			j, _ = e.joinDisj(j, o)
		}
		k := *j
		k.key = "*"
		return &PSet{ds: []*Disj{&k}}, true
	}
	return n, true
}

func (e *engine) unionPSet(a, b *PSet) (*PSet, bool) {
	if b.empty() {
		return a, false
	}
	if a.empty() {
		return b, true
	}
	if a == b {
		return a, false
	}
	ch := false
	for _, d := range b.ds {
		same := false
		for _, o := range a.ds {
			if o == d {
				same = true
			}
		}
		if same {
			continue
		}
		var c bool
		if a, c = e.addDisj(a, d); c {
			ch = true
		}
	}
	return a, ch
}

func (e *engine) joinDisj(a, b *Disj) (*Disj, bool) {
	if a == b {
		return a, false
	}
	sa, sb := newState(), newState()
	e.nested++
	va := e.unpack(sa, a)
	vb := e.unpack(sb, b)
	j := &joiner{e: e, A: sa, B: sb, widen: a.joins >= 4}
	out, v := j.runVal(va, vb)
	d := e.pack(out, v)
	e.nested--
	d.key = a.key
	d.joins = a.joins + 1
	if !j.changed {
		return a, false
	}
	e.lastWhy = j.why
	return d, true
}

func (e *engine) joinAll(ds []*Disj) *Disj {
	if len(ds) == 1 {
		return ds[0]
	}
	var sb strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&sb, "%d,", d.seq)
	}
	if d, ok := e.joinCache[sb.String()]; ok {
		return d
	}
	j := ds[0]
	for _, d := range ds[1:] {
		k := *j
		k.joins = 0
		n, _ := e.joinDisj(&k, d)
		j = n
	}
	e.joinCache[sb.String()] = j
	return j
}
