package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Calls: functions of the module are inlined or summarised, functions of the standard library are modelled.

func (e *engine) call(st *State, x *ssa.Call, cc *ssa.CallCommon) []*State {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(st, x, b, cc)
	}
	args := make([]*Val, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = e.val(st, a)
	}
	if cc.IsInvoke() {
		return e.invoke(st, x, cc, args)
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []*Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, e.val(st, b))
			}
		}
		return e.callFn(st, x, f, args, bind)
	}
	fv := e.val(st, cc.Value)
	if fv.k == kFunc && fv.fn != nil {
		if !e.check(st, x, "nilfunc", fv.n.plus(-1), "call of a nil function") {
			return nil
		}
		return e.callFn(st, x, fv.fn, args, fv.f)
	}
	if fv.k == kFunc {
		e.check(st, x, "nilfunc", fv.n.plus(-1), "call of a nil function")
	}
	return e.unknownCall(st, x, args)
}

// unknownCall: the arguments escape, the results are arbitrary.
func (e *engine) unknownCall(st *State, x *ssa.Call, args []*Val) []*State {
	for _, a := range args {
		e.publishReach(st, a)
	}
	v, ok := e.generic(st, x.Type(), true)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

func (e *engine) callFn(st *State, x *ssa.Call, f *ssa.Function, args, bind []*Val) []*State {
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && x.Parent().Name() == "init" {
		return []*State{st} // initialised on its own
	}
	if len(f.Blocks) == 0 || !e.isMod(f) {
		return e.extCall(st, x, f, args)
	}
	if e.inline(f) {
		return e.callInline(st, x, f, args, bind)
	}
	if len(bind) > 0 {
		e.oblige(x, "unsupported", false, func() string { return "recursive closure is not modelled" })
		return e.unknownCall(st, x, args)
	}
	return e.callUnit(st, x, f, args)
}

func (e *engine) result(st *State, x *ssa.Call, res []*Val) []*State {
	switch len(res) {
	case 0:
		return []*State{st}
	case 1:
		return e.set(st, x, res[0])
	}
	return e.set(st, x, &Val{k: kTuple, t: x.Type(), f: append([]*Val(nil), res...)})
}

func (e *engine) callInline(st *State, x *ssa.Call, f *ssa.Function, args, bind []*Val) []*State {
	outs := e.enter(st, f, args, bind)
	var r []*State
	for _, o := range outs {
		res := o.top().env
		o.frames = o.frames[:len(o.frames)-1]
		r = append(r, e.result(o, x, res)...)
	}
	return r
}

// enter runs a function in the context of the state; the top frame of the results holds what it returns.
func (e *engine) enter(st *State, f *ssa.Function, args, bind []*Val) []*State {
	fi := e.fi(f)
	fr := &frame{fi: fi, env: make([]*Val, len(fi.vals)), own: true}
	for i := range f.Params {
		if i < len(args) {
			fr.env[i] = args[i]
		}
	}
	for i := range f.FreeVars {
		if i < len(bind) {
			fr.env[len(f.Params)+i] = bind[i]
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	e.stack = append(e.stack, f)
	outs := e.runFn(fi, []*State{st})
	e.stack = e.stack[:len(e.stack)-1]
	return outs
}

func (e *engine) callUnit(st *State, x *ssa.Call, f *ssa.Function, args []*Val) []*State {
	u := e.unit(f)
	t := &Val{k: kTuple, f: args}
	d := e.pack(st, t)
	ps, ch := e.addDisj(u.entry, d)
	if ch {
		u.entry = ps
		u.entVer++
	}
	if _, ok := e.cur.seenUnits[u]; !ok {
		e.cur.seenUnits[u] = u.exitVer + u.modVer
	}
	for s := range u.mods {
		if !e.cur.mods[s] {
			e.cur.mods[s] = true
			e.cur.modVer++
		}
	}
	if len(u.mods) > 0 {
		st.mut = true
	}
	e.clobber(st, u.mods)
	var out []*State
	ds := dsOf(u.exits)
	for i, d := range ds {
		s := st
		if i < len(ds)-1 {
			s = st.clone()
		}
		un := e.newUnifier(s, d)
		np := len(f.Params)
		for k := 0; k < np; k++ {
			un.match(d.v.f[k], args[k])
		}
		if !un.ok || s.num.bot {
			continue
		}
		un.constraints(d.num)
		if s.num.bot {
			continue
		}
		var res []*Val
		n := len(d.v.f) - 1
		for k := np; k < n; k++ {
			res = append(res, un.val(d.v.f[k]))
		}
		s.ghost = s.lin(s.ghost.add(un.lin(d.v.f[n].n), 1))
		if s.num.bot || !s.num.feasible(allSyms(s, res)) {
			continue
		}
		out = append(out, e.result(s, x, res)...)
	}
	return out
}

// allSyms is an expression which mentions the symbols of the values.
func allSyms(st *State, l []*Val) Lin {
	seen := map[Sym]bool{}
	r := Lin{}
	for _, v := range l {
		walkVal(v, func(v *Val) {
			valLins(v, func(l Lin) {
				for _, t := range st.lin(l).t {
					if !seen[t.s] {
						seen[t.s] = true
						r = r.add(symLin(t.s), 1)
					}
				}
			})
		})
	}
	return r
}

func (e *engine) invoke(st *State, x *ssa.Call, cc *ssa.CallCommon, args []*Val) []*State {
	recv := e.val(st, cc.Value)
	if types.Identical(cc.Value.Type(), e.storeIface) {
		if e.onStore != nil {
			e.onStore(e, st, x, args)
		}
		st.ghost = st.ghost.plus(1)
		return []*State{st}
	}
	al := st.alts[recv.id]
	if recv.k != kIface || al == nil {
		al = &Alts{ext: true}
	}
	e.oblige(x, "nil", !al.nil_, func() string { return "method " + cc.Method.Name() + " of a nil interface is called" })
	var out []*State
	n := len(al.m)
	for i, a := range al.m {
		s := st
		if i < n-1 || al.ext {
			s = st.clone()
		}
		s.setAlts(recv.id, al.only(a.key))
		f := e.p.methodOf(a.t, cc.Method)
		if f == nil {
			e.oblige(x, "unsupported", false, func() string { return "no method " + cc.Method.Name() + " of " + a.key })
			continue
		}
		out = append(out, e.callFn(s, x, f, append([]*Val{a.v}, args...), nil)...)
	}
	if al.ext {
		if recv.k == kIface {
			st.setAlts(recv.id, &Alts{ext: true})
		}
		out = append(out, e.unknownCall(st, x, args)...)
	}
	return out
}

// --- builtins ---

func (e *engine) builtin(st *State, x *ssa.Call, b *ssa.Builtin, cc *ssa.CallCommon) []*State {
	arg := func(i int) *Val { return e.val(st, cc.Args[i]) }
	switch b.Name() {
	case "len", "cap":
		a := arg(0)
		switch a.k {
		case kStr:
			return e.set(st, x, numVal(st.lin(a.n), x.Type()))
		case kSlice:
			if b.Name() == "len" {
				return e.set(st, x, numVal(st.lin(a.n), x.Type()))
			}
			v := e.freshNum(st, x.Type())
			st.addGE(v.n.sub(a.n))
			return e.set(st, x, v)
		case kPtr:
			if pt, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				if at, ok := under(pt.Elem()).(*types.Array); ok {
					return e.set(st, x, numVal(konst(at.Len()), x.Type()))
				}
			}
		}
		if at, ok := under(cc.Args[0].Type()).(*types.Array); ok {
			return e.set(st, x, numVal(konst(at.Len()), x.Type()))
		}
		v := e.freshNum(st, x.Type())
		st.addGE(v.n)
		if a.k == kMap {
			if isZero(st, a.n) {
				return e.set(st, x, numVal(konst(0), x.Type()))
			}
		}
		return e.set(st, x, v)
	case "append":
		return e.append(st, x, arg(0), arg(1))
	case "copy":
		return e.copyB(st, x, arg(0), arg(1))
	case "delete":
		m := arg(0)
		if m.k == kMap && st.heap[m.id] == nil {
			st.mut = true
		}
		return []*State{st}
	case "min", "max":
		v := e.freshNum(st, x.Type())
		for i := range cc.Args {
			a := arg(i)
			if a.k != kNum {
				continue
			}
			if b.Name() == "min" {
				st.addGE(a.n.sub(v.n))
			} else {
				st.addGE(v.n.sub(a.n))
			}
		}
		return e.set(st, x, v)
	case "print", "println", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			a := arg(0)
			if !e.notNil(st, x, a, "nil receiver") {
				return nil
			}
			return e.set(st, x, a)
		}
		return []*State{st}
	case "clear":
		return []*State{st}
	case "recover":
		return e.set(st, x, e.newIface(st, x.Type(), &Alts{nil_: true, ext: true}))
	}
	e.oblige(x, "unsupported", false, func() string { return "builtin " + b.Name() + " is not modelled" })
	v, ok := e.generic(st, x.Type(), false)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

// elemsOf are the contents of the elements of a slice.
func (e *engine) elemsOf(st *State, s *Val) (ds []*Disj, ext bool) {
	if s.k != kSlice || s.id == 0 {
		return nil, s.k != kSlice
	}
	if _, ok := st.heap[s.id]; ok {
		e.fold(st, s.id)
		if o := st.heap[s.id]; o != nil {
			// only the part which the slice covers
			lo, hi := s.off, s.off.add(s.n, 1)
			if !st.num.entails(lo.sub(o.bound)) {
				ds = append(ds, dsOf(o.lo)...)
			}
			if !st.num.entails(o.bound.sub(hi)) {
				ds = append(ds, dsOf(o.hi)...)
			}
			return ds, false
		}
	}
	if s.sites == nil {
		return nil, false
	}
	for _, x := range s.sites.l {
		if x.ext {
			return nil, true
		}
		e.useSite(x)
		ds = append(ds, dsOf(x.ps)...)
	}
	return ds, false
}

func (e *engine) append(st *State, x *ssa.Call, a, b *Val) []*State {
	t := under(x.Type()).(*types.Slice)
	bl := b.n
	if b.k == kTop {
		bl = symLin(e.newSym())
		st.addGE(bl)
	}
	if a.k != kSlice {
		return e.unknownCall(st, x, []*Val{a, b})
	}
	n := st.lin(a.n.add(bl, 1))
	if simple(t.Elem()) {
		return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: n, id: e.newID(), sites: newSiteSet([]*site{e.extSite(t.Elem(), true, false)})})
	}
	add, ext := e.elemsOf(st, b)
	if ext {
		g, ok := e.generic(st, t.Elem(), false)
		if !ok {
			return nil
		}
		add = append(add, e.pack(st, g))
	}
	old, _ := e.elemsOf(st, a)
	o := st.heap[a.id]
	switch {
	case a.id == 0 || (a.sites == nil || len(a.sites.l) == 0):
		// new array
		ss := e.allocSite(x, t.Elem(), true, false)
		id := e.newID()
		no := &Obj{kind: oArray, site: ss.l[0], elem: t.Elem(), alen: n, bound: n}
		for _, d := range add {
			no.lo, _ = e.addDisj(no.lo, d)
		}
		st.heap[id] = no
		return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: n, id: id, sites: ss})
	case o != nil:
		// the array grows in place or is copied: one object stands for both
		no := *o
		no.lo, no.hi = nil, nil
		for _, d := range old {
			no.lo, _ = e.addDisj(no.lo, d)
		}
		for _, d := range add {
			no.lo, _ = e.addDisj(no.lo, d)
		}
		no.alen = n
		no.bound = n
		id := e.newID()
		st.heap[id] = &no
		// the old array can share the elements
		if e.aliased(st, a, x) {
			oo := *o
			for _, d := range add {
				oo.hi, _ = e.addDisj(oo.hi, d)
			}
			st.heap[a.id] = &oo
		}
		return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: n, id: id, sites: a.sites})
	}
	// published array: elements behind the end are overwritten or a copy is made
	for _, s := range a.sites.l {
		for _, d := range add {
			e.addToSite(s, d)
		}
	}
	e.dropMats(st, a.sites, "")
	return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: n, id: e.newID(), sites: a.sites})
}

func (e *engine) aliased(st *State, a *Val, x *ssa.Call) bool { return true }

func (e *engine) copyB(st *State, x *ssa.Call, a, b *Val) []*State {
	v := e.freshNum(st, x.Type())
	st.addGE(v.n)
	st.addGE(a.n.sub(v.n))
	st.addGE(b.n.sub(v.n))
	if a.k == kSlice && a.id != 0 {
		t := under(a.t).(*types.Slice)
		if !simple(t.Elem()) {
			ds, _ := e.elemsOf(st, b)
			e.fold(st, a.id)
			if o := st.heap[a.id]; o != nil {
				no := *o
				for _, d := range ds {
					no.lo, _ = e.addDisj(no.lo, d)
					no.hi, _ = e.addDisj(no.hi, d)
				}
				st.heap[a.id] = &no
			} else if a.sites != nil {
				st.mut = true
				for _, s := range a.sites.l {
					for _, d := range ds {
						e.addToSite(s, d)
					}
					if !e.cur.mods[s] {
						e.cur.mods[s] = true
						e.cur.modVer++
					}
				}
				e.dropMats(st, a.sites, "")
			}
		} else if a.sites != nil {
			e.dropMats(st, a.sites, "")
		}
	}
	return e.set(st, x, v)
}

// --- standard library ---

func (e *engine) freshBool(st *State) *Val { return e.freshNum(st, types.Typ[types.Bool]) }

func (e *engine) errVal(st *State, t types.Type) *Val {
	return e.newIface(st, t, &Alts{ext: true})
}

// found forks a search: -1 or an index with room for a part of length k.
func (e *engine) found(st *State, x *ssa.Call, s Lin, k Lin) []*State {
	var out []*State
	a := st.clone()
	r := symLin(e.newSym())
	a.addGE(r)
	if a.assume(s.sub(k).sub(r)) {
		out = append(out, e.set(a, x, numVal(r, x.Type()))...)
	}
	return append(out, e.set(st, x, numVal(konst(-1), x.Type()))...)
}

func (e *engine) bytesOf(st *State, p *Val) (*Val, bool) {
	v := e.content(st, p)
	if v == nil {
		return nil, false
	}
	b := getPath(v, p.path)
	if b.k != kBuf {
		s := symLin(e.newSym())
		st.addGE(s)
		b = &Val{k: kBuf, t: under(p.t).(*types.Pointer).Elem(), n: s}
	}
	return b, true
}

func (e *engine) setBuf(st *State, p *Val, b *Val, n Lin) {
	w := *b
	w.n = st.lin(n)
	e.write(st, p, &w)
}

func (e *engine) extCall(st *State, x *ssa.Call, f *ssa.Function, args []*Val) []*State {
	name := f.Name()
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if rv := f.Signature.Recv(); rv != nil {
		t := rv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if isBufType(t) && len(args) > 0 && args[0].k == kPtr {
			return e.bufCall(st, x, name, args)
		}
		name = types.TypeString(t, func(*types.Package) string { return "" }) + "." + name
		if args[0].k == kPtr {
			if !e.notNil(st, x, args[0], "method of a nil pointer is called") {
				return nil
			}
		}
	}
	str := func(i int) *Val {
		if i < len(args) && args[i].k == kStr {
			return args[i]
		}
		return e.freshStr(st)
	}
	num := func(i int) Lin {
		if i < len(args) && args[i].k == kNum {
			return args[i].n
		}
		return symLin(e.newSym())
	}
	switch pk + "." + name {
	case "strings.Index", "strings.LastIndex":
		return e.found(st, x, str(0).n, str(1).n)
	case "strings.IndexByte", "strings.IndexAny", "strings.LastIndexAny", "strings.LastIndexByte", "strings.IndexFunc":
		return e.found(st, x, str(0).n, konst(1))
	case "strings.IndexRune":
		return e.found(st, x, str(0).n, konst(1))
	case "bytes.IndexByte":
		return e.found(st, x, args[0].n, konst(1))
	case "strings.HasPrefix", "strings.HasSuffix":
		var out []*State
		s, p := str(0), str(1)
		a := st.clone()
		if a.assume(s.n.sub(p.n)) {
			ok := true
			if name == "HasPrefix" && p.isC {
				k := e.prefixOf(a, s)
				if s.isC || len(k) >= len(p.cst) {
					ok = len(k) >= len(p.cst) && k[:len(p.cst)] == p.cst
				} else if p.cst[:len(k)] != k {
					ok = false
				} else {
					a.pre[s.id] = p.cst
				}
			}
			if ok {
				out = append(out, e.set(a, x, boolVal(true))...)
			}
		}
		if p.isC && name == "HasPrefix" {
			if k := e.prefixOf(st, s); len(k) >= len(p.cst) && k[:len(p.cst)] == p.cst {
				return out
			}
		}
		if p.isC && p.cst == "" {
			return out
		}
		return append(out, e.set(st, x, boolVal(false))...)
	case "strings.Compare":
		v := e.freshNum(st, x.Type())
		st.addGE(v.n.plus(1))
		st.addGE(v.n.scale(-1).plus(1))
		return e.set(st, x, v)
	case "strings.Cut":
		var out []*State
		s, sep := str(0), str(1)
		a := st.clone()
		b, c := e.freshStr(a), e.freshStr(a)
		if a.assumeEQ(b.n.add(c.n, 1).add(sep.n, 1).sub(s.n)) {
			out = append(out, e.set(a, x, &Val{k: kTuple, t: x.Type(), f: []*Val{b, c, boolVal(true)}})...)
		}
		return append(out, e.set(st, x, &Val{k: kTuple, t: x.Type(), f: []*Val{s, e.strConst(""), boolVal(false)}})...)
	case "strings.CutPrefix", "strings.CutSuffix":
		var out []*State
		s, sep := str(0), str(1)
		a := st.clone()
		b := e.freshStr(a)
		if a.assumeEQ(b.n.add(sep.n, 1).sub(s.n)) {
			out = append(out, e.set(a, x, &Val{k: kTuple, t: x.Type(), f: []*Val{b, boolVal(true)}})...)
		}
		return append(out, e.set(st, x, &Val{k: kTuple, t: x.Type(), f: []*Val{s, boolVal(false)}})...)
	case "strings.Split", "strings.SplitN", "strings.Fields":
		v, _ := e.generic(st, x.Type(), true)
		if name == "Split" {
			st.addGE(str(0).n.plus(1).sub(v.n))
			if sep := str(1); sep.isC && sep.cst != "" {
				st.addGE(v.n.plus(-1))
			}
		}
		return e.set(st, x, v)
	case "strings.Trim", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc":
		v := e.freshStr(st)
		st.addGE(str(0).n.sub(v.n))
		return e.set(st, x, v)
	case "strings.ToLower", "strings.ToUpper", "strings.ReplaceAll", "strings.Replace", "strings.Join", "strings.Map", "strings.Title":
		return e.set(st, x, e.freshStr(st))
	case "strings.Clone":
		return e.set(st, x, str(0))
	case "strings.Count":
		v := e.freshNum(st, x.Type())
		st.addGE(v.n)
		st.addGE(str(0).n.plus(1).sub(v.n))
		if sep := str(1); sep.isC && sep.cst != "" {
			st.addGE(str(0).n.sub(v.n))
		}
		return e.set(st, x, v)
	case "strings.Repeat":
		n := num(1)
		if !e.check(st, x, "repeat", n, "negative count of strings.Repeat") {
			return nil
		}
		s := str(0)
		if c, ok := st.constOf(s.n); ok {
			return e.set(st, x, e.strLen(st.lin(n.scale(c))))
		}
		return e.set(st, x, e.freshStr(st))
	case "strings.Contains", "strings.ContainsAny", "strings.ContainsRune", "strings.EqualFold", "strings.ContainsFunc":
		return e.set(st, x, e.freshBool(st))
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRune":
		l := str(0).n
		if args[0].k == kSlice {
			l = args[0].n
		}
		var out []*State
		a := st.clone()
		n := e.freshNum(a, types.Typ[types.Int])
		a.addGE(n.n.plus(-1))
		a.addGE(n.n.scale(-1).plus(4))
		if a.assume(l.sub(n.n)) {
			r := e.freshNum(a, types.Typ[types.Rune])
			a.addGE(r.n)
			a.addGE(r.n.scale(-1).plus(0x10FFFF))
			if name == "DecodeRuneInString" {
				if p := e.prefixOf(a, str(0)); p != "" && p[0] < 0x80 {
					a.assumeEQ(r.n.plus(-int64(p[0])))
					a.assumeEQ(n.n.plus(-1))
				}
			}
			out = append(out, e.set(a, x, &Val{k: kTuple, t: x.Type(), f: []*Val{r, n}})...)
		}
		if st.assumeEQ(l) {
			out = append(out, e.set(st, x, &Val{k: kTuple, t: x.Type(), f: []*Val{numVal(konst(0xFFFD), types.Typ[types.Rune]), numVal(konst(0), types.Typ[types.Int])}})...)
		}
		return out
	case "unicode/utf8.RuneLen":
		v := e.freshNum(st, x.Type())
		r := num(0)
		low := konst(-1)
		if (st.num.entails(r) && st.num.entails(r.scale(-1).plus(0xD7FF))) || (st.num.entails(r.plus(-0xE000)) && st.num.entails(r.scale(-1).plus(0x10FFFF))) {
			low = konst(1)
		}
		st.addGE(v.n.sub(low))
		st.addGE(v.n.scale(-1).plus(4))
		return e.set(st, x, v)
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		v := e.freshNum(st, x.Type())
		st.addGE(v.n)
		l := str(0).n
		if args[0].k == kSlice {
			l = args[0].n
		}
		st.addGE(l.sub(v.n))
		return e.set(st, x, v)
	case "unicode/utf8.ValidString", "unicode/utf8.ValidRune", "unicode/utf8.RuneStart", "unicode/utf8.FullRuneInString":
		return e.set(st, x, e.freshBool(st))
	case "unicode/utf8.AppendRune":
		v := *args[0]
		if v.k != kSlice {
			break
		}
		n := symLin(e.newSym())
		st.addGE(n.plus(-1))
		st.addGE(n.scale(-1).plus(4))
		v.n = st.lin(args[0].n.add(n, 1))
		v.id = e.newID()
		if v.sites == nil {
			v.sites = newSiteSet([]*site{e.extSite(types.Typ[types.Uint8], true, false)})
		}
		v.off = konst(0)
		return e.set(st, x, &v)
	case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n":
		n := num(0)
		if !e.check(st, x, "intn", n.plus(-1), "argument of rand.Intn must be positive") {
			return nil
		}
		v := e.freshNum(st, x.Type())
		st.addGE(v.n)
		st.addGE(n.sub(v.n).plus(-1))
		return e.set(st, x, v)
	case "sort.Slice", "sort.SliceStable":
		return e.sortSlice(st, x, args)
	case "sort.Strings", "sort.Ints":
		return []*State{st}
	case "errors.New", "fmt.Errorf":
		return e.set(st, x, e.errVal(st, x.Type()))
	case "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa", "strconv.Quote", "strconv.FormatInt":
		return e.set(st, x, e.freshStr(st))
	case "regexp.Compile":
		tt := x.Type().(*types.Tuple)
		a := st.clone()
		v, _ := e.generic(a, tt.At(0).Type(), true)
		out := e.set(a, x, &Val{k: kTuple, t: tt, f: []*Val{v, e.newIface(a, tt.At(1).Type(), &Alts{nil_: true})}})
		return append(out, e.set(st, x, &Val{k: kTuple, t: tt, f: []*Val{e.zero(st, tt.At(0).Type()), e.errVal(st, tt.At(1).Type())}})...)
	}
	for _, a := range args {
		e.publishReach(st, a)
	}
	e.extSeen[pk+"."+name]++
	v, ok := e.generic(st, x.Type(), true)
	if !ok {
		return nil
	}
	// errors can be nil
	fix := func(v *Val) {
		if v.k == kIface && v.t != nil && isErrorType(v.t) {
			st.setAlts(v.id, &Alts{nil_: true, ext: true})
		}
	}
	fix(v)
	for _, f := range v.f {
		fix(f)
	}
	return e.set(st, x, v)
}

func (e *engine) bufCall(st *State, x *ssa.Call, name string, args []*Val) []*State {
	p := args[0]
	if !e.notNil(st, x, p, "nil buffer is used") {
		return nil
	}
	b, ok := e.bytesOf(st, p)
	if !ok {
		return nil
	}
	ret := func(n Lin) []*State { // (n int, err error)
		t, _ := x.Type().(*types.Tuple)
		if t == nil {
			if isErrorType(x.Type()) {
				return e.set(st, x, e.newIface(st, x.Type(), &Alts{nil_: true}))
			}
			return []*State{st}
		}
		if t.Len() == 0 {
			return []*State{st}
		}
		v := &Val{k: kTuple, t: t}
		for i := 0; i < t.Len(); i++ {
			if isErrorType(t.At(i).Type()) {
				v.f = append(v.f, e.newIface(st, t.At(i).Type(), &Alts{nil_: true}))
			} else {
				v.f = append(v.f, numVal(st.lin(n), t.At(i).Type()))
			}
		}
		return e.set(st, x, v)
	}
	switch name {
	case "WriteString", "Write":
		n := symLin(e.newSym())
		if args[1].k == kStr || args[1].k == kSlice {
			n = args[1].n
		} else {
			st.addGE(n)
		}
		e.setBuf(st, p, b, b.n.add(n, 1))
		return ret(n)
	case "WriteByte":
		e.setBuf(st, p, b, b.n.plus(1))
		return ret(konst(1))
	case "WriteRune":
		n := symLin(e.newSym())
		st.addGE(n.plus(-1))
		st.addGE(n.scale(-1).plus(4))
		e.setBuf(st, p, b, b.n.add(n, 1))
		return ret(n)
	case "String":
		return e.set(st, x, e.strLen(b.n))
	case "Len":
		return e.set(st, x, numVal(st.lin(b.n), x.Type()))
	case "Cap", "Available":
		v := e.freshNum(st, x.Type())
		st.addGE(v.n)
		return e.set(st, x, v)
	case "Grow":
		if args[1].k == kNum && !e.check(st, x, "grow", args[1].n, "negative size of Grow") {
			return nil
		}
		return []*State{st}
	case "Reset":
		e.setBuf(st, p, b, konst(0))
		return []*State{st}
	case "Truncate":
		if args[1].k != kNum {
			break
		}
		if !e.check(st, x, "low", args[1].n, "negative size of Truncate") || !e.check(st, x, "high", b.n.sub(args[1].n), "size of Truncate can be above the length") {
			return nil
		}
		e.setBuf(st, p, b, args[1].n)
		return []*State{st}
	case "Bytes":
		return e.set(st, x, &Val{k: kSlice, t: x.Type(), n: b.n, id: e.newID(), sites: newSiteSet([]*site{e.extSite(types.Typ[types.Uint8], true, false)})})
	}
	n := symLin(e.newSym())
	st.addGE(n)
	e.setBuf(st, p, b, n)
	v, ok := e.generic(st, x.Type(), true)
	if !ok {
		return nil
	}
	return e.set(st, x, v)
}

// sortSlice calls the comparison for any two elements and mixes the elements.
func (e *engine) sortSlice(st *State, x *ssa.Call, args []*Val) []*State {
	var s *Val
	if args[0].k == kIface {
		if a := st.alts[args[0].id]; a != nil && len(a.m) == 1 {
			s = a.m[0].v
		}
	}
	less := args[1]
	if s == nil || s.k != kSlice || less.k != kFunc || less.fn == nil {
		e.oblige(x, "unsupported", false, func() string { return "sort of an unknown slice is not modelled" })
		return []*State{st}
	}
	if s.id != 0 {
		e.fold(st, s.id)
		if o := st.heap[s.id]; o != nil {
			no := *o
			no.lo, no.hi = nil, nil
			if !st.num.entails(o.bound.scale(-1)) {
				no.lo = o.lo
			}
			if !st.num.entails(o.bound.sub(o.alen)) {
				no.lo, _ = e.unionPSet(no.lo, o.hi)
			}
			no.bound = o.alen
			st.heap[s.id] = &no
		} else {
			e.dropMats(st, s.sites, "")
		}
	}
	c := st.clone()
	if c.assume(s.n.plus(-2)) {
		i, j := e.freshNum(c, types.Typ[types.Int]), e.freshNum(c, types.Typ[types.Int])
		c.addGE(i.n)
		c.addGE(j.n)
		c.addGE(s.n.sub(i.n).plus(-1))
		c.addGE(s.n.sub(j.n).plus(-1))
		if e.inline(less.fn) {
			e.enter(c, less.fn, []*Val{i, j}, less.f)
		} else {
			e.oblige(x, "unsupported", false, func() string { return fmt.Sprintf("comparison %s is not modelled", less.fn.Name()) })
		}
	}
	return []*State{st}
}
