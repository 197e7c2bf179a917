package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Memory of the interpreter: local objects, published allocations.

func (e *engine) useSite(s *site) {
	if e.cur != nil {
		if _, ok := e.cur.seenSites[s]; !ok {
			e.cur.seenSites[s] = s.ver
		}
	}
}

// publishReach makes every local object, which a value refers to, a published one.
func (e *engine) publishReach(st *State, v *Val) {
	if len(st.heap) == 0 {
		return
	}
	r := st.reach([]*Val{v})
	var ids []int
	for _, id := range r.order {
		if o := st.heap[id]; o != nil {
			ids = append(ids, id)
		}
	}
	if len(ids) > 0 {
		e.publishIDs(st, ids)
	}
}

func (e *engine) publishIDs(st *State, ids []int) {
	// what the objects refer to is published too
	var roots []*Val
	for _, id := range ids {
		roots = append(roots, &Val{k: kPtr, id: id})
	}
	r := st.reach(roots)
	type pub struct {
		id int
		o  *Obj
	}
	var l []pub
	for _, id := range r.order {
		if o := st.heap[id]; o != nil {
			l = append(l, pub{id, o})
			delete(st.heap, id)
		}
	}
	for _, x := range l {
		switch x.o.kind {
		case oCell:
			st.mats[matKey(x.id, nil)] = &mat{x.id, nil, newSiteSet([]*site{x.o.site}), x.o.v}
		case oArray:
			if x.o.has {
				at := st.lin(x.o.at)
				st.mats[matKey(x.id, &at)] = &mat{x.id, &at, newSiteSet([]*site{x.o.site}), x.o.v}
			}
		}
	}
	for _, x := range l {
		switch x.o.kind {
		case oCell:
			e.addToSite(x.o.site, e.pack(st, x.o.v))
		case oArray:
			if x.o.has {
				e.addToSite(x.o.site, e.pack(st, x.o.v))
			}
			for _, d := range dsOf(x.o.lo) {
				e.addToSite(x.o.site, d)
			}
			if !st.num.entails(x.o.bound.sub(x.o.alen)) {
				for _, d := range dsOf(x.o.hi) {
					e.addToSite(x.o.site, d)
				}
			}
		case oMap:
			for _, d := range dsOf(x.o.lo) {
				e.addToSite(x.o.site, d)
			}
		}
	}
}

func dsOf(p *PSet) []*Disj {
	if p == nil {
		return nil
	}
	return p.ds
}

// siteContent instantiates what the objects of the sites contain; nil when nothing was published.
func (e *engine) siteContent(st *State, ss *siteSet, t types.Type) *Val {
	if ss == nil {
		return e.zeroOrTop(t)
	}
	var ds []*Disj
	seen := map[*Disj]bool{}
	for _, s := range ss.l {
		if s.ext {
			v, _ := e.generic(st, s.t, false)
			if v == nil {
				v = &Val{k: kTop, t: s.t}
			}
			return v
		}
		e.useSite(s)
		for _, d := range dsOf(s.ps) {
			if !seen[d] {
				seen[d] = true
				ds = append(ds, d)
			}
		}
	}
	return e.fromDs(st, ds)
}

func (e *engine) zeroOrTop(t types.Type) *Val { return &Val{k: kTop, t: t} }

func (e *engine) fromDs(st *State, ds []*Disj) *Val {
	if len(ds) == 0 {
		return nil
	}
	if len(ds) == 1 {
		return e.unpack(st, ds[0])
	}
	v := e.unpack(st, e.joinAll(ds))
	if v.k == kStruct {
		w := *v
		w.dj = ds
		v = &w
	}
	return v
}

// content returns the whole object or the whole array element a pointer refers to (nil: cannot exist).
func (e *engine) content(st *State, p *Val) *Val {
	if o := st.heap[p.id]; o != nil {
		switch o.kind {
		case oCell:
			return o.v
		case oArray:
			if p.idx == nil {
				return &Val{k: kTop}
			}
			if o.has && st.lin(o.at).eq(st.lin(*p.idx)) {
				return o.v
			}
			var ds []*Disj
			if !st.num.entails(p.idx.sub(o.bound)) {
				ds = append(ds, dsOf(o.lo)...)
			}
			if !st.num.entails(o.bound.sub(*p.idx).plus(-1)) {
				ds = append(ds, dsOf(o.hi)...)
			}
			if o.has {
				d := *p.idx
				d = d.sub(o.at)
				if !st.num.entails(d.plus(-1)) && !st.num.entails(d.scale(-1).plus(-1)) {
					// can be the current element
					c := st.clone()
					ds = append(ds, e.pack(c, o.v))
				}
			}
			return e.fromDs(st, ds)
		}
		return &Val{k: kTop}
	}
	k := e.matKeyOf(st, p)
	if m := st.mats[k]; m != nil {
		return m.v
	}
	t := p.t
	if pt, ok := under(p.t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	v := e.siteContent(st, p.sites, t)
	if v == nil {
		return nil
	}
	var idx *Lin
	if p.idx != nil {
		l := st.lin(*p.idx)
		idx = &l
	}
	st.mats[k] = &mat{p.id, idx, p.sites, v}
	return v
}

func (e *engine) matKeyOf(st *State, p *Val) string {
	if p.idx == nil {
		return matKey(p.id, nil)
	}
	l := st.lin(*p.idx)
	return matKey(p.id, &l)
}

// refine replaces the known content without a write.
func (e *engine) refine(st *State, p *Val, v *Val) {
	if o := st.heap[p.id]; o != nil {
		if o.kind == oCell || (o.kind == oArray && o.has && p.idx != nil && st.lin(o.at).eq(st.lin(*p.idx))) {
			n := *o
			n.v = v
			st.heap[p.id] = &n
		}
		return
	}
	k := e.matKeyOf(st, p)
	if m := st.mats[k]; m != nil {
		n := *m
		n.v = v
		st.mats[k] = &n
	}
}

// fold moves the current element of a local array into its segments.
func (e *engine) fold(st *State, id int) {
	o := st.heap[id]
	if o == nil || o.kind != oArray || !o.has {
		return
	}
	n := *o
	n.has = false
	n.v = nil
	d := e.pack(st, o.v)
	at := st.lin(o.at)
	switch {
	case st.num.entailsEQ(at.sub(o.bound)):
		n.lo, _ = e.addDisj(o.lo, d)
		n.bound = at.plus(1)
	case st.num.entails(o.bound.sub(at).plus(-1)):
		n.lo, _ = e.addDisj(o.lo, d)
	case st.num.entails(at.sub(o.bound)):
		n.hi, _ = e.addDisj(o.hi, d)
	default:
		n.lo, _ = e.addDisj(o.lo, d)
		n.hi, _ = e.addDisj(o.hi, d)
	}
	n.at = Lin{}
	if st.heap[id] == nil { // published while it was packed
		return
	}
	st.heap[id] = &n
}

// write stores into the object a pointer refers to.
func (e *engine) write(st *State, p *Val, x *Val) {
	if o := st.heap[p.id]; o != nil {
		switch o.kind {
		case oCell:
			n := *o
			n.v = setPath(o.v, p.path, x)
			st.heap[p.id] = &n
		case oArray:
			if p.idx == nil {
				return
			}
			if o.has && !st.lin(o.at).eq(st.lin(*p.idx)) {
				e.fold(st, p.id)
				o = st.heap[p.id]
				if o == nil {
					e.write(st, p, x)
					return
				}
			}
			var v *Val
			if o.has {
				v = o.v
			} else if len(p.path) > 0 {
				v = e.content(st, p)
				if v == nil {
					st.wnum().bot = true
					return
				}
			}
			n := *o
			n.has = true
			n.at = st.lin(*p.idx)
			n.v = setPath(v, p.path, x)
			st.heap[p.id] = &n
		}
		return
	}
	// published
	if p.sites == nil {
		return
	}
	st.mut = true
	for _, s := range p.sites.l {
		if e.cur != nil && !e.cur.mods[s] {
			e.cur.mods[s] = true
			e.cur.modVer++
		}
	}
	allExt := true
	for _, s := range p.sites.l {
		if !s.ext {
			allExt = false
		}
	}
	own := e.matKeyOf(st, p)
	if allExt && len(p.path) == 0 && p.idx != nil {
		e.dropMats(st, p.sites, own)
		delete(st.mats, own)
		return
	}
	var v *Val
	if len(p.path) > 0 {
		v = e.content(st, p)
		if v == nil {
			st.wnum().bot = true
			return
		}
	}
	nv := setPath(v, p.path, x)
	if !allExt {
		d := e.pack(st, nv)
		for _, s := range p.sites.l {
			e.addToSite(s, d)
		}
	}
	e.dropMats(st, p.sites, own)
	var idx *Lin
	if p.idx != nil {
		l := st.lin(*p.idx)
		idx = &l
	}
	st.mats[own] = &mat{p.id, idx, p.sites, nv}
}

// dropMats forgets the contents which a write to the sites can change.
func (e *engine) dropMats(st *State, ss *siteSet, own string) {
	for k, m := range st.mats {
		if k != own && m.sites.overlaps(ss) {
			delete(st.mats, k)
		}
	}
}

// clobber forgets what a call has modified.
func (e *engine) clobber(st *State, mods map[*site]bool) {
	if len(mods) == 0 {
		return
	}
	for k, m := range st.mats {
		hit := false
		for _, s := range m.sites.l {
			if mods[s] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if m.v.k == kBuf && e.grow {
			s := symLin(e.newSym())
			st.addGE(s.sub(m.v.n))
			v := *m.v
			v.n = s
			n := *m
			n.v = &v
			st.mats[k] = &n
			continue
		}
		delete(st.mats, k)
	}
}

// --- unification of a disjunct with values ---

type unifier struct {
	unpacker
	ok bool
}

func (e *engine) newUnifier(st *State, d *Disj) *unifier {
	return &unifier{unpacker{e: e, st: st, syms: map[Sym]Lin{}, ids: map[int]int{}, alts: d.alts}, true}
}

func (u *unifier) bind(p, l Lin) {
	if !u.ok {
		return
	}
	if p.isConst() {
		u.ok = u.st.assumeEQ(l.plus(-p.c))
		return
	}
	if len(p.t) == 1 && p.t[0].k == 1 && p.c == 0 {
		if o, ok := u.syms[p.t[0].s]; ok {
			if !o.eq(l) {
				u.ok = u.st.assumeEQ(l.sub(o))
			}
			return
		}
		u.syms[p.t[0].s] = l
		return
	}
	u.ok = u.st.assumeEQ(l.sub(u.lin(p)))
}

func (u *unifier) match(p, v *Val) {
	if !u.ok || p == nil || v == nil || p.k != v.k {
		return
	}
	switch p.k {
	case kNum, kMap, kBuf, kFunc, kPtr, kStr:
		if p.k == kStr && p.isC && v.isC && p.cst != v.cst {
			u.ok = false
			return
		}
		u.bind(p.n, v.n)
		if p.idx != nil && v.idx != nil {
			u.bind(*p.idx, *v.idx)
		}
	case kSlice:
		u.bind(p.n, v.n)
		u.bind(p.off, v.off)
	case kIface:
		if _, ok := u.ids[p.id]; ok {
			return
		}
		u.ids[p.id] = v.id
		pa, va := u.alts[p.id], u.st.alts[v.id]
		if pa == nil || va == nil {
			return
		}
		na := &Alts{nil_: pa.nil_ && va.nil_, ext: pa.ext && va.ext}
		for _, x := range va.m {
			for _, y := range pa.m {
				if x.key == y.key {
					na.m = append(na.m, x)
					if len(pa.m) == 1 && !pa.nil_ && !pa.ext {
						u.match(y.v, x.v)
					}
				}
			}
		}
		if na.empty() {
			u.ok = false
			return
		}
		u.st.setAlts(v.id, na)
	}
	switch p.k {
	case kStr, kPtr, kSlice, kMap:
		if p.id != 0 {
			if _, ok := u.ids[p.id]; !ok {
				u.ids[p.id] = v.id
			}
		}
	}
	if len(p.f) == len(v.f) {
		for i := range p.f {
			u.match(p.f[i], v.f[i])
		}
	}
}

// splitLoad forks a state by the disjuncts of the object when the loaded field tells them apart.
func (e *engine) splitLoad(st *State, p *Val) []*State {
	v := e.content(st, p)
	if v == nil {
		return nil
	}
	if v.k != kStruct || len(v.dj) < 2 || len(p.path) == 0 {
		return []*State{st}
	}
	f := getPath(v, p.path)
	switch f.k {
	case kNum, kPtr, kMap, kFunc:
		if _, ok := st.constOf(f.n); ok {
			return []*State{st}
		}
	case kIface:
		a := st.alts[f.id]
		if a != nil && (!a.nil_ || (!a.ext && len(a.m) == 0)) {
			return []*State{st}
		}
	default:
		return []*State{st}
	}
	groups := map[string][]*Disj{}
	for _, d := range v.dj {
		x := getPath(d.v, p.path)
		k := e.discKey(x, d.alts, false)
		groups[k] = append(groups[k], d)
	}
	if len(groups) < 2 {
		return []*State{st}
	}
	var out []*State
	for _, k := range sortedKeys(groups) {
		g := groups[k]
		s := st.clone()
		d := e.joinAll(g)
		u := e.newUnifier(s, d)
		u.match(d.v, v)
		if !u.ok {
			continue
		}
		u.constraints(d.num)
		if s.num.bot {
			continue
		}
		w := *v
		w.dj = g
		if len(g) == 1 {
			w.dj = nil
		}
		e.refine(s, p, &w)
		out = append(out, s)
	}
	return out
}

// alloc makes a local object.
func (e *engine) alloc(st *State, in ssa.Instruction, t types.Type) *Val {
	id := e.newID()
	if at, ok := under(t).(*types.Array); ok && structOfArray(t) {
		ss := e.allocSite(in, at.Elem(), true, false)
		v := &Val{k: kPtr, t: types.NewPointer(t), n: konst(1), id: id, sites: ss}
		if !ss.l[0].ext {
			e.newArray(st, id, ss.l[0], at.Elem(), konst(at.Len()))
		}
		return v
	}
	ss := e.allocSite(in, t, false, false)
	st.heap[id] = &Obj{kind: oCell, site: ss.l[0], v: e.zero(st, t)}
	return &Val{k: kPtr, t: types.NewPointer(t), n: konst(1), id: id, sites: ss}
}

func structOfArray(t types.Type) bool { return !isModNamed(t) }

// newArray makes a local array of zero values.
func (e *engine) newArray(st *State, id int, s *site, elem types.Type, n Lin) {
	tmp := newState()
	d := e.pack(tmp, e.zero(tmp, elem))
	st.heap[id] = &Obj{kind: oArray, site: s, elem: elem, hi: &PSet{ds: []*Disj{d}}, alen: n}
}
