package main

import (
	"fmt"
	"sort"
	"strings"
)

// joiner joins two states: values are paired slot by slot, every pair of different expressions becomes a new symbol whose
// constraints are the join of the constraints of both sides.
type joiner struct {
	e       *engine
	A, B    *State
	out     *State
	widen   bool
	changed bool

	memo   map[string]Lin
	pairs  []symPair
	keepA  map[Sym]bool // symbols of values which exist on one side only
	keepB  map[Sym]bool
	keep   map[Sym]bool
	ids    map[[2]int]int
	objA   map[int][2]int // local objects: paired with, new id
	objB   map[int]bool
	forceA map[int]bool
	forceB map[int]bool
	queue  [][2]int
	onlyA  []int
	onlyB  []int
	seenA  map[int]bool
	seenB  map[int]bool
	clash  bool
	tmpl   []Sym
	lenA   []Lin
	lenB   []Lin
	why    string
}

type symPair struct {
	s      Sym
	a, b   Lin
	noTmpl bool
}

func (j *joiner) init() {
	j.memo = map[string]Lin{}
	j.pairs = nil
	j.keepA, j.keepB, j.keep = map[Sym]bool{}, map[Sym]bool{}, map[Sym]bool{}
	j.ids = map[[2]int]int{}
	j.objA, j.objB = map[int][2]int{}, map[int]bool{}
	j.queue, j.onlyA, j.onlyB = nil, nil, nil
	j.seenA, j.seenB = map[int]bool{}, map[int]bool{}
	j.clash, j.changed = false, false
	j.tmpl, j.lenA, j.lenB = nil, nil, nil
	j.out = newState()
}

func (j *joiner) ch(why string) {
	if !j.changed && j.e.debugJoin {
		j.why = why
	}
	j.changed = true
}

func (j *joiner) lin(a, b Lin, noTmpl bool) Lin {
	a, b = j.A.num.norm(a), j.B.num.norm(b)
	if a.eq(b) {
		for _, t := range a.t {
			j.keep[t.s] = true
		}
		return a
	}
	k := a.String() + "|" + b.String()
	if r, ok := j.memo[k]; ok {
		return r
	}
	s := j.e.newSym()
	j.pairs = append(j.pairs, symPair{s, a, b, noTmpl})
	r := symLin(s)
	j.memo[k] = r
	j.keep[s] = true
	return r
}

// length: lengths are never negative.
func (j *joiner) length(a, b Lin) {
	if !a.isConst() {
		j.lenA = append(j.lenA, a)
	}
	if !b.isConst() {
		j.lenB = append(j.lenB, b)
	}
}

func (j *joiner) id(a, b int) int {
	if a == b {
		return a
	}
	k := [2]int{a, b}
	if r, ok := j.ids[k]; ok {
		return r
	}
	r := j.e.newID()
	j.ids[k] = r
	return r
}

// ref pairs the identities of objects.
func (j *joiner) ref(a, b int) int {
	if a == 0 || b == 0 {
		if a != 0 {
			j.takeA(a)
			return a
		}
		if b != 0 {
			j.takeB(b)
			return b
		}
		return 0
	}
	k := [2]int{a, b}
	if r, ok := j.ids[k]; ok {
		return r
	}
	oa, ob := j.A.heap[a], j.B.heap[b]
	if oa == nil && ob == nil {
		r := a
		if a != b {
			r = j.e.newID()
		}
		j.ids[k] = r
		j.queue = append(j.queue, k)
		return r
	}
	if oa != nil && ob != nil && oa.kind == ob.kind && oa.site == ob.site && !j.forceA[a] && !j.forceB[b] {
		_, pa := j.objA[a]
		if !pa && !j.objB[b] && !j.seenA[a] && !j.seenB[b] {
			r := a
			if a != b {
				r = j.e.newID()
			}
			j.ids[k] = r
			j.objA[a] = [2]int{b, r}
			j.objB[b] = true
			j.queue = append(j.queue, k)
			return r
		}
	}
	// cannot stay local
	if oa != nil {
		j.forceA[a] = true
	}
	if ob != nil {
		j.forceB[b] = true
	}
	j.clash = true
	return a
}

// takeA keeps an object which only A knows.
func (j *joiner) takeA(id int) {
	if j.seenA[id] {
		return
	}
	if _, ok := j.objA[id]; ok { // already joined with an object of B
		j.forceA[id] = true
		j.clash = true
		return
	}
	j.seenA[id] = true
	j.onlyA = append(j.onlyA, id)
}

func (j *joiner) takeB(id int) {
	if j.seenB[id] {
		return
	}
	if j.objB[id] {
		j.forceB[id] = true
		j.clash = true
		return
	}
	j.seenB[id] = true
	j.onlyB = append(j.onlyB, id)
}

// oneSided registers a value which exists on one side.
func (j *joiner) oneSided(v *Val, fromA bool) *Val {
	st, keep := j.A, j.keepA
	if !fromA {
		st, keep = j.B, j.keepB
	}
	norm := func(l Lin) Lin {
		l = st.num.norm(l)
		for _, t := range l.t {
			keep[t.s] = true
		}
		return l
	}
	r := *v
	r.org = nil
	switch v.k {
	case kNum, kStr, kPtr, kMap, kBuf, kFunc:
		r.n = norm(v.n)
		if v.idx != nil {
			l := norm(*v.idx)
			r.idx = &l
		}
	case kSlice:
		r.n, r.off = norm(v.n), norm(v.off)
	}
	switch v.k {
	case kPtr, kSlice, kMap:
		if v.id != 0 {
			if fromA {
				j.takeA(v.id)
			} else {
				j.takeB(v.id)
			}
		}
	case kIface:
		if _, ok := j.out.alts[v.id]; !ok {
			a := st.alts[v.id]
			if a == nil {
				a = &Alts{nil_: true, ext: true}
			}
			na := &Alts{nil_: a.nil_, ext: a.ext}
			j.out.alts[v.id] = na
			for _, x := range a.m {
				na.m = append(na.m, alt{x.key, x.t, j.oneSided(x.v, fromA)})
			}
		}
	}
	if len(v.f) > 0 {
		r.f = make([]*Val, len(v.f))
		for i, x := range v.f {
			r.f[i] = j.oneSided(x, fromA)
		}
	}
	return &r
}

func (j *joiner) val(a, b *Val) *Val {
	if a == nil || b == nil {
		return nil
	}
	if a.k != b.k {
		if a.k != kTop {
			j.ch("kind")
		}
		return &Val{k: kTop, t: a.t}
	}
	r := *a
	if a.org != nil && a.org != b.org {
		r.org = nil
	}
	switch a.k {
	case kTop:
		return a
	case kNum:
		r.n = j.lin(a.n, b.n, a.t != nil && j.e.isEnum(a.t))
	case kBuf:
		r.n = j.lin(a.n, b.n, false)
		j.length(a.n, b.n)
	case kStr:
		if a.isC && b.isC && a.cst == b.cst {
			return a
		}
		if a.isC {
			j.ch("const")
		}
		r.isC, r.cst = false, ""
		r.n = j.lin(a.n, b.n, false)
		j.length(a.n, b.n)
		r.id = j.id(a.id, b.id)
		pa, pb := j.prefix(j.A, a), j.prefix(j.B, b)
		if pa != "" {
			if c := commonPrefix(pa, pb); c != "" {
				j.out.pre[r.id] = c
			}
			if !strings.HasPrefix(pb, pa) {
				j.ch("prefix")
			}
		}
	case kPtr:
		r.n = j.lin(a.n, b.n, true)
		za, zb := isNilPtr(j.A, a), isNilPtr(j.B, b)
		switch {
		case za && zb:
			r.id, r.sites, r.path, r.idx = 0, nil, nil, nil
			return &r
		case za:
			c := *b
			c.n = Lin{}
			o := j.oneSided(&c, false)
			o.n = r.n
			j.ch("nil")
			return o
		case zb:
			c := *a
			c.n = Lin{}
			o := j.oneSided(&c, true)
			o.n = r.n
			return o
		}
		if !samePath(a.path, b.path) || (a.idx == nil) != (b.idx == nil) {
			j.ch("path")
			// different objects: publish them
			j.forceOut(a, b)
			r.sites = a.sites.union(b.sites)
			r.id = j.id(a.id, b.id)
			r.path, r.idx = a.path, a.idx
			j.e.note("pointers with different paths are joined")
			return &r
		}
		r.sites = a.sites.union(b.sites)
		if !a.sites.has(b.sites) {
			j.ch("sites")
		}
		r.id = j.ref(a.id, b.id)
		if a.idx != nil {
			l := j.lin(*a.idx, *b.idx, false)
			r.idx = &l
		}
	case kSlice:
		za, zb := a.id == 0, b.id == 0
		r.n = j.lin(a.n, b.n, false)
		j.length(a.n, b.n)
		r.sites = a.sites.union(b.sites)
		if !a.sites.has(b.sites) {
			j.ch("sites")
		}
		switch {
		case za && !zb:
			c := *b
			c.n = Lin{}
			o := j.oneSided(&c, false)
			r.id, r.off = o.id, o.off
		case zb && !za:
			c := *a
			c.n = Lin{}
			o := j.oneSided(&c, true)
			r.id, r.off = o.id, o.off
		default:
			r.off = j.lin(a.off, b.off, true)
			r.id = j.ref(a.id, b.id)
		}
	case kMap:
		r.n = j.lin(a.n, b.n, true)
		r.sites = a.sites.union(b.sites)
		if !a.sites.has(b.sites) {
			j.ch("sites")
		}
		r.id = j.ref(a.id, b.id)
	case kIface:
		return j.iface(a, b)
	case kFunc:
		if a.fn != b.fn {
			j.ch("fn")
			r.fn, r.f = nil, nil
			r.n = j.lin(a.n, b.n, true)
			return &r
		}
		r.n = j.lin(a.n, b.n, true)
		fallthrough
	case kStruct, kTuple:
		if len(a.f) != len(b.f) {
			j.ch("fields")
			return &Val{k: kTop, t: a.t}
		}
		same := a == b
		r.f = make([]*Val, len(a.f))
		for i := range a.f {
			r.f[i] = j.val(a.f[i], b.f[i])
			if r.f[i] == nil {
				r.f[i] = &Val{k: kTop}
			}
		}
		if a.k == kStruct && !same {
			r.dj = nil
			if len(a.dj) > 0 && len(b.dj) > 0 {
				r.dj = a.dj
				for _, d := range b.dj {
					found := false
					for _, o := range a.dj {
						if o == d {
							found = true
						}
					}
					if !found {
						r.dj = append(append([]*Disj(nil), r.dj...), d)
						j.ch("dj")
					}
				}
			} else if len(a.dj) > 0 {
				j.ch("dj lost")
			}
		}
	}
	return &r
}

func isNilPtr(st *State, v *Val) bool {
	c, ok := st.constOf(v.n)
	return v.id == 0 || (ok && c == 0)
}

func (j *joiner) prefix(st *State, v *Val) string {
	if v.isC {
		return v.cst
	}
	return st.pre[v.id]
}

func commonPrefix(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return a[:n]
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (j *joiner) forceOut(a, b *Val) {
	if j.A.heap[a.id] != nil && !j.forceA[a.id] {
		j.forceA[a.id] = true
		j.clash = true
	}
	if j.B.heap[b.id] != nil && !j.forceB[b.id] {
		j.forceB[b.id] = true
		j.clash = true
	}
}

func (j *joiner) iface(a, b *Val) *Val {
	aa, ab := j.A.alts[a.id], j.B.alts[b.id]
	if aa == nil || ab == nil {
		if aa != nil {
			j.ch("alts")
		}
		r := *a
		r.id = j.id(a.id, b.id)
		j.out.alts[r.id] = &Alts{nil_: true, ext: true}
		return &r
	}
	r := *a
	k := [2]int{a.id, b.id}
	if a.id == b.id {
		r.id = a.id
	} else if id, ok := j.ids[k]; ok {
		r.id = id
		return &r
	} else {
		r.id = j.e.newID()
		j.ids[k] = r.id
	}
	if _, ok := j.out.alts[r.id]; ok && a.id == b.id {
		return &r
	}
	na := &Alts{nil_: aa.nil_ || ab.nil_, ext: aa.ext || ab.ext}
	if na.nil_ != aa.nil_ || na.ext != aa.ext {
		j.ch("alts nil/ext")
	}
	j.out.alts[r.id] = na
	x, y := 0, 0
	for x < len(aa.m) || y < len(ab.m) {
		switch {
		case y == len(ab.m) || (x < len(aa.m) && aa.m[x].key < ab.m[y].key):
			na.m = append(na.m, alt{aa.m[x].key, aa.m[x].t, j.oneSided(aa.m[x].v, true)})
			x++
		case x == len(aa.m) || ab.m[y].key < aa.m[x].key:
			j.ch("alts " + ab.m[y].key)
			na.m = append(na.m, alt{ab.m[y].key, ab.m[y].t, j.oneSided(ab.m[y].v, false)})
			y++
		default:
			na.m = append(na.m, alt{aa.m[x].key, aa.m[x].t, j.val(aa.m[x].v, ab.m[y].v)})
			x++
			y++
		}
	}
	return &r
}

// drain joins the contents of the paired objects.
func (j *joiner) drain() {
	for {
		switch {
		case len(j.queue) > 0:
			k := j.queue[0]
			j.queue = j.queue[1:]
			j.pairContents(k[0], k[1], j.ids[k])
		case len(j.onlyA) > 0:
			id := j.onlyA[0]
			j.onlyA = j.onlyA[1:]
			j.takeContents(id, true)
		case len(j.onlyB) > 0:
			id := j.onlyB[0]
			j.onlyB = j.onlyB[1:]
			j.takeContents(id, false)
		default:
			return
		}
		if j.clash {
			return
		}
	}
}

func matsOf(st *State, id int) []*mat {
	var ks []string
	pre := fmt.Sprintf("%d", id)
	for k, m := range st.mats {
		if m.id == id && strings.HasPrefix(k, pre) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []*mat
	for _, k := range ks {
		r = append(r, st.mats[k])
	}
	return r
}

func (j *joiner) pairContents(a, b, r int) {
	if oa, ob := j.A.heap[a], j.B.heap[b]; oa != nil && ob != nil {
		o := &Obj{kind: oa.kind, site: oa.site, elem: oa.elem}
		switch oa.kind {
		case oCell:
			o.v = j.val(oa.v, ob.v)
		case oIter:
			o.v = j.val(oa.v, ob.v)
			o.pos = j.lin(oa.pos, ob.pos, false)
		case oArray:
			var c1, c2 bool
			o.lo, c1 = j.e.unionPSet(oa.lo, ob.lo)
			o.hi, c2 = j.e.unionPSet(oa.hi, ob.hi)
			if c1 || c2 {
				j.ch("cells " + j.e.lastWhy)
			}
			o.bound = j.lin(oa.bound, ob.bound, false)
			o.alen = j.lin(oa.alen, ob.alen, false)
			if oa.has && ob.has {
				o.has = true
				o.at = j.lin(oa.at, ob.at, false)
				o.v = j.val(oa.v, ob.v)
			}
		case oMap:
			var c bool
			o.lo, c = j.e.unionPSet(oa.lo, ob.lo)
			if c {
				j.ch("map")
			}
		}
		j.out.heap[r] = o
	}
	ma, mb := matsOf(j.A, a), matsOf(j.B, b)
	for _, x := range ma {
		for _, y := range mb {
			if (x.idx == nil) != (y.idx == nil) {
				continue
			}
			var idx *Lin
			if x.idx != nil {
				la, lb := j.A.num.norm(*x.idx), j.B.num.norm(*y.idx)
				if la.eq(lb) {
					l := j.lin(la, lb, false)
					idx = &l
				} else if m, ok := j.memo[la.String()+"|"+lb.String()]; ok {
					idx = &m
				} else if l, ok := j.paired(la, lb); ok {
					idx = &l
				} else {
					continue
				}
			}
			m := &mat{id: r, idx: idx, sites: x.sites.union(y.sites), v: j.val(x.v, y.v)}
			j.out.mats[matKey(r, idx)] = m
		}
	}
}

// paired finds an expression for two expressions which differ by a pair of values which is known.
func (j *joiner) paired(a, b Lin) (Lin, bool) {
	for _, p := range j.pairs {
		if d := a.sub(p.a); d.eq(b.sub(p.b)) {
			for _, t := range d.t {
				j.keep[t.s] = true
			}
			return d.add(symLin(p.s), 1), true
		}
	}
	return Lin{}, false
}

func (j *joiner) takeContents(id int, fromA bool) {
	st := j.A
	if !fromA {
		st = j.B
	}
	norm := func(l Lin) Lin {
		v := j.oneSided(&Val{k: kNum, n: l}, fromA)
		return v.n
	}
	if o := st.heap[id]; o != nil {
		n := *o
		n.bound, n.alen, n.at, n.pos = norm(o.bound), norm(o.alen), norm(o.at), norm(o.pos)
		if o.v != nil {
			n.v = j.oneSided(o.v, fromA)
		}
		j.out.heap[id] = &n
	}
	for _, m := range matsOf(st, id) {
		n := *m
		if m.idx != nil {
			l := norm(*m.idx)
			n.idx = &l
		}
		n.v = j.oneSided(m.v, fromA)
		j.out.mats[matKey(id, n.idx)] = &n
	}
}

// numeric joins the constraints.
func (j *joiner) numeric() {
	pa, pb := j.A.num, j.B.num
	na, nb := pa.clone(), pb.clone()
	for _, l := range j.lenA {
		na.addGE(l)
	}
	for _, l := range j.lenB {
		nb.addGE(l)
	}
	for _, p := range j.pairs {
		na.addEQ(symLin(p.s).sub(p.a))
		nb.addEQ(symLin(p.s).sub(p.b))
	}
	// one-sided symbols
	extra := func(own, other *Num, keep map[Sym]bool) map[Sym]bool {
		has := other.symSet()
		r := map[Sym]bool{}
		for s := range keep {
			if !has[s] && !j.keep[s] {
				r[s] = true
			}
		}
		return r
	}
	xa, xb := extra(na, nb, j.keepA), extra(nb, na, j.keepB)
	addAll := func(dst, src *Num, syms map[Sym]bool) {
		if len(syms) == 0 {
			return
		}
		p := src.project(syms)
		for _, l := range p.eqLins() {
			dst.addEQ(l)
		}
		for _, l := range p.ineq {
			dst.addGE(l)
		}
	}
	ca, cb := na.clone(), nb.clone()
	addAll(nb, ca, xa)
	addAll(na, cb, xb)
	keep := map[Sym]bool{}
	for _, m := range []map[Sym]bool{j.keep, j.keepA, j.keepB} {
		for s := range m {
			keep[s] = true
		}
	}
	p1, p2 := na.project(keep), nb.project(keep)
	var tmpl []Sym
	for _, p := range j.pairs {
		if !p.noTmpl {
			tmpl = append(tmpl, p.s)
		}
	}
	n, ch := joinNum(p1, p2, tmpl, j.widen, j.e.limits)
	if ch {
		if j.e.debugJoin {
			j.ch("num A{" + p1.String() + "} B{" + p2.String() + "} R{" + n.String() + "}")
		}
		j.ch("num")
	}
	j.out.num = n
	j.out.numOwn = true
}

func (n *Num) symSet() map[Sym]bool {
	r := map[Sym]bool{}
	for _, l := range n.ineq {
		for _, t := range l.t {
			r[t.s] = true
		}
	}
	for k, v := range n.eq {
		r[k] = true
		for _, t := range v.t {
			r[t.s] = true
		}
	}
	return r
}

// runVal joins two self-contained values.
func (j *joiner) runVal(a, b *Val) (*State, *Val) {
	j.forceA, j.forceB = map[int]bool{}, map[int]bool{}
	j.init()
	v := j.val(a, b)
	j.drain()
	j.numeric()
	return j.out, v
}

// runState joins two states at a block of the top function.
func (j *joiner) runState() *State {
	j.forceA, j.forceB = map[int]bool{}, map[int]bool{}
	for {
		j.init()
		// publish what cannot stay local
		if len(j.forceA) > 0 {
			j.A = j.A.clone()
			j.e.publishIDs(j.A, sortedInts(j.forceA))
		}
		if len(j.forceB) > 0 {
			j.B = j.B.clone()
			j.e.publishIDs(j.B, sortedInts(j.forceB))
		}
		A, B := j.A, j.B
		j.out.frames = make([]*frame, len(A.frames))
		for i, fa := range A.frames {
			fb := B.frames[i]
			nf := &frame{fi: fa.fi, env: make([]*Val, len(fa.env)), own: true}
			for k := range fa.env {
				if fa.env[k] != nil && fb.env[k] != nil {
					nf.env[k] = j.val(fa.env[k], fb.env[k])
				}
			}
			j.out.frames[i] = nf
		}
		for k, a := range A.snaps {
			if b := B.snaps[k]; b != nil {
				j.out.snaps[k] = j.val(a, b)
			}
		}
		j.out.ghost = j.lin(A.ghost, B.ghost, false)
		j.out.mut = A.mut || B.mut
		if j.out.mut && !A.mut {
			j.ch("mut")
		}
		j.drain()
		if j.clash {
			continue
		}
		for f := range A.facts {
			if g := j.e.factRename(f, j, true); g != "" && B.facts[j.e.factRename(f, j, false)] {
				j.out.facts[g] = true
			} else {
				j.ch("fact")
			}
		}
		j.numeric()
		return j.out
	}
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
