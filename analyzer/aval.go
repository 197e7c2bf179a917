package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. A value is immutable after it was built; everything which a branch can refine (numbers, lengths, nil-ness,
// dynamic types) is held as a symbol or an identity whose meaning is in the state.

type VK uint8

const (
	kTop    VK = iota // anything of its type, without identity
	kNum              // integer or bool
	kStr              // string, n is the length
	kPtr              // pointer, n is 1 when it is not nil
	kSlice            // slice, n is the length
	kMap              // map, n is 1 when it is not nil
	kIface            // interface, the dynamic types are in State.alts
	kStruct           // struct value
	kTuple            // results of a call
	kFunc             // function value, f are the bindings
	kBuf              // content of a strings.Builder or a bytes.Buffer, n is the length
)

type Val struct {
	k     VK
	t     types.Type
	n     Lin
	id    int
	isC   bool
	cst   string
	sites *siteSet
	path  []int // kPtr: fields inside of the object
	idx   *Lin  // kPtr: element of the array object id
	off   Lin   // kSlice: index of the first element
	f     []*Val
	dj    []*Disj
	fn    *ssa.Function
	org   *byteOrg
}

// byteOrg says that a number is the byte of a string at an index.
type byteOrg struct {
	str int
	at  Lin
}

// Alts are the possible dynamic types of an interface value.
type Alts struct {
	nil_ bool
	ext  bool // some type which is not of the module
	m    []alt
}

type alt struct {
	key string
	t   types.Type
	v   *Val
}

func (a *Alts) only(key string) *Alts {
	for _, x := range a.m {
		if x.key == key {
			return &Alts{m: []alt{x}}
		}
	}
	return &Alts{}
}

func (a *Alts) empty() bool { return !a.nil_ && !a.ext && len(a.m) == 0 }

// site is a published allocation: what any object of it can contain.
type site struct {
	id    int
	name  string
	t     types.Type // type of the object, of the elements of an array, of the values of a map
	array bool
	isMap bool
	ext   bool // supplied by a caller: any content
	ps    *PSet
	ver   int
}

type siteSet struct {
	l   []*site
	key string
}

func newSiteSet(l []*site) *siteSet {
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var o []*site
	var sb strings.Builder
	for i, s := range l {
		if i > 0 && l[i-1] == s {
			continue
		}
		o = append(o, s)
		fmt.Fprintf(&sb, "%d,", s.id)
	}
	return &siteSet{o, sb.String()}
}

func (s *siteSet) union(o *siteSet) *siteSet {
	if s == nil || len(s.l) == 0 {
		return o
	}
	if o == nil || len(o.l) == 0 || s.key == o.key {
		return s
	}
	return newSiteSet(append(append([]*site(nil), s.l...), o.l...))
}

func (s *siteSet) has(o *siteSet) bool { // every site of o is in s
	if o == nil || len(o.l) == 0 {
		return true
	}
	if s == nil {
		return false
	}
	return s.union(o).key == s.key
}

func (s *siteSet) overlaps(o *siteSet) bool {
	if s == nil || o == nil {
		return false
	}
	for _, a := range s.l {
		for _, b := range o.l {
			if a == b {
				return true
			}
		}
	}
	return false
}

// Disj is one disjunct of what an object can contain, with its own numeric constraints.
type Disj struct {
	key   string
	v     *Val
	num   *Num
	alts  map[int]*Alts
	joins int
	seq   int
}

type PSet struct {
	ds   []*Disj
	join *Disj // cached join of all
}

func (p *PSet) empty() bool { return p == nil || len(p.ds) == 0 }

// --- types ---

func under(t types.Type) types.Type { return t.Underlying() }

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStrType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isBufType: strings.Builder, bytes.Buffer.
func isBufType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func isModNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && isModPkg(n.Obj().Pkg().Path())
}

// structOf returns the struct type when its fields are tracked (types of the module and anonymous ones).
func structOf(t types.Type) *types.Struct {
	if n, ok := types.Unalias(t).(*types.Named); ok && !isModNamed(n) {
		return nil
	}
	s, _ := under(t).(*types.Struct)
	return s
}

// simple: any value of the type is possible, nothing inside needs an invariant.
func simple(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		if structOf(t) == nil {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if !simple(u.Field(i).Type()) {
				return false
			}
			if u.NumFields() > 0 && !isStrType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return simple(u.Elem())
	}
	return false
}

// numRange is the range of a basic integer type, ok=false when it is not bounded for the analysis.
func numRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, 1, true, true
	case types.Int8:
		return -128, 127, true, true
	case types.Uint8:
		return 0, 255, true, true
	case types.Int16:
		return -32768, 32767, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	}
	return
}

func (e *engine) isEnum(t types.Type) bool {
	if isBoolType(t) {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	v, ok := e.enums[n.Obj()]
	if ok {
		return v
	}
	cnt := 0
	if b, ok := n.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && n.Obj().Pkg() != nil && isModPkg(n.Obj().Pkg().Path()) {
		sc := n.Obj().Pkg().Scope()
		for _, nm := range sc.Names() {
			if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), n) {
				cnt++
			}
		}
	}
	e.enums[n.Obj()] = cnt >= 2
	return cnt >= 2
}

// enumRange gives the range of the constants declared for an enumeration and its zero value.
func (e *engine) enumRange(t types.Type) (lo, hi int64, ok bool) {
	if isBoolType(t) || !e.isEnum(t) {
		return
	}
	n := types.Unalias(t).(*types.Named)
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if c, k := sc.Lookup(nm).(*types.Const); k && types.Identical(c.Type(), n) {
			if v, exact := constant.Int64Val(c.Val()); exact {
				lo, hi, ok = min(lo, v), max(hi, v), true
			}
		}
	}
	return
}

// --- construction ---

func (e *engine) newSym() Sym { e.nextSym++; return e.nextSym }
func (e *engine) newID() int  { e.nextID++; return e.nextID }

func numVal(l Lin, t types.Type) *Val { return &Val{k: kNum, n: l, t: t} }

func boolVal(b bool) *Val {
	if b {
		return &Val{k: kNum, n: konst(1), t: types.Typ[types.Bool]}
	}
	return &Val{k: kNum, n: konst(0), t: types.Typ[types.Bool]}
}

func (e *engine) strConst(s string) *Val {
	id, ok := e.strIDs[s]
	if !ok {
		id = e.newID()
		e.strIDs[s] = id
	}
	return &Val{k: kStr, n: konst(int64(len(s))), id: id, isC: true, cst: s, t: types.Typ[types.String]}
}

// freshNum is any number of the type.
func (e *engine) freshNum(st *State, t types.Type) *Val {
	s := symLin(e.newSym())
	lo, hi, hl, hh := numRange(t)
	if hl {
		st.addGE(s.plus(-lo))
	}
	if hh {
		st.addGE(s.scale(-1).plus(hi))
	}
	return numVal(s, t)
}

func (e *engine) freshStr(st *State) *Val {
	s := symLin(e.newSym())
	st.addGE(s)
	return &Val{k: kStr, n: s, id: e.newID(), t: types.Typ[types.String]}
}

func (e *engine) strLen(l Lin) *Val {
	return &Val{k: kStr, n: l, id: e.newID(), t: types.Typ[types.String]}
}

func (e *engine) freshNN(st *State) Lin {
	s := symLin(e.newSym())
	st.addGE(s)
	st.addGE(s.scale(-1).plus(1))
	return s
}

// newIface makes an interface value.
func (e *engine) newIface(st *State, t types.Type, a *Alts) *Val {
	id := e.newID()
	st.setAlts(id, a)
	return &Val{k: kIface, id: id, t: t}
}

// zero is the zero value of a type.
func (e *engine) zero(st *State, t types.Type) *Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			v := *e.strConst("")
			v.t = t
			return &v
		}
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return numVal(konst(0), t)
		}
	case *types.Pointer:
		return &Val{k: kPtr, t: t}
	case *types.Slice:
		return &Val{k: kSlice, t: t}
	case *types.Map:
		return &Val{k: kMap, t: t}
	case *types.Signature:
		return &Val{k: kFunc, t: t}
	case *types.Interface:
		return e.newIface(st, t, &Alts{nil_: true})
	case *types.Struct:
		if isBufType(t) {
			return &Val{k: kBuf, t: t}
		}
		if s := structOf(t); s != nil {
			v := &Val{k: kStruct, t: t}
			for i := 0; i < s.NumFields(); i++ {
				v.f = append(v.f, e.zero(st, s.Field(i).Type()))
			}
			return v
		}
	}
	return &Val{k: kTop, t: t}
}

// generic is any value of a type which code outside of the module can supply, made of what the module publishes.
func (e *engine) generic(st *State, t types.Type, nonNil bool) (v *Val, ok bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return e.freshStr(st), true
		}
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			v := e.freshNum(st, t)
			if lo, hi, ok := e.enumRange(t); ok {
				st.addGE(v.n.plus(-lo))
				st.addGE(v.n.scale(-1).plus(hi))
			}
			return v, true
		}
	case *types.Pointer:
		v := &Val{k: kPtr, t: t, id: e.newID()}
		el := u.Elem()
		if structOf(el) != nil && !simple(el) {
			v.sites = e.sitesOf(el, false, false)
			if len(v.sites.l) == 0 {
				if nonNil {
					return nil, false
				}
				return &Val{k: kPtr, t: t}, true
			}
		} else {
			v.sites = newSiteSet([]*site{e.extSite(el, false, false)})
		}
		if nonNil {
			v.n = konst(1)
		} else {
			v.n = e.freshNN(st)
		}
		return v, true
	case *types.Slice:
		v := &Val{k: kSlice, t: t, id: e.newID()}
		if simple(u.Elem()) {
			v.sites = newSiteSet([]*site{e.extSite(u.Elem(), true, false)})
		} else {
			v.sites = e.sitesOf(u.Elem(), true, false)
		}
		if len(v.sites.l) == 0 {
			return &Val{k: kSlice, t: t}, true
		}
		s := symLin(e.newSym())
		st.addGE(s)
		v.n = s
		return v, true
	case *types.Map:
		v := &Val{k: kMap, t: t, id: e.newID(), n: konst(1)}
		if simple(u.Elem()) {
			v.sites = newSiteSet([]*site{e.extSite(u.Elem(), false, true)})
		} else {
			v.sites = e.sitesOf(u.Elem(), false, true)
		}
		return v, true
	case *types.Interface:
		if types.Identical(t, e.storeIface) {
			return e.newIface(st, t, &Alts{ext: true}), true
		}
		a := &Alts{ext: u.NumMethods() == 0 || isErrorType(t), nil_: !nonNil}
		for _, it := range e.p.implementers(u) {
			if pt, ok := it.(*types.Pointer); ok {
				if len(e.sitesOf(pt.Elem(), false, false).l) == 0 {
					continue
				}
			} else if structOf(it) != nil && !simple(it) {
				continue
			}
			iv, ok := e.generic(st, it, true)
			if ok {
				a.m = append(a.m, alt{types.TypeString(it, nil), it, iv})
			}
		}
		sortAlts(a)
		return e.newIface(st, t, a), true
	case *types.Struct:
		if isBufType(t) {
			s := symLin(e.newSym())
			st.addGE(s)
			return &Val{k: kBuf, t: t, n: s}, true
		}
		if s := structOf(t); s != nil {
			v := &Val{k: kStruct, t: t}
			for i := 0; i < s.NumFields(); i++ {
				fv, ok := e.generic(st, s.Field(i).Type(), false)
				if !ok {
					return nil, false
				}
				v.f = append(v.f, fv)
			}
			return v, true
		}
	case *types.Signature:
		return &Val{k: kFunc, t: t, n: e.freshNN(st), id: e.newID()}, true
	case *types.Tuple:
		v := &Val{k: kTuple, t: t}
		for i := 0; i < u.Len(); i++ {
			fv, ok := e.generic(st, u.At(i).Type(), false)
			if !ok {
				return nil, false
			}
			v.f = append(v.f, fv)
		}
		return v, true
	}
	return &Val{k: kTop, t: t}, true
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func sortAlts(a *Alts) { sort.Slice(a.m, func(i, j int) bool { return a.m[i].key < a.m[j].key }) }

// constVal is the value of a constant.
func (e *engine) constVal(st *State, c *ssa.Const) *Val {
	if c.Value == nil {
		return e.zero(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.String:
		return e.strConst(constant.StringVal(c.Value))
	case constant.Bool:
		v := *boolVal(constant.BoolVal(c.Value))
		v.t = c.Type()
		return &v
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return numVal(konst(i), c.Type())
		}
	case constant.Float:
		if isIntType(c.Type()) {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return numVal(konst(i), c.Type())
			}
		}
	}
	return &Val{k: kTop, t: c.Type()}
}

// getPath selects a nested field.
func getPath(v *Val, path []int) *Val {
	for _, i := range path {
		if v.k != kStruct || i >= len(v.f) {
			return &Val{k: kTop}
		}
		v = v.f[i]
	}
	return v
}

// setPath replaces a nested field; what was known about combinations of the fields does not hold any more.
func setPath(v *Val, path []int, x *Val) *Val {
	if len(path) == 0 {
		return x
	}
	if v.k != kStruct || path[0] >= len(v.f) {
		return v
	}
	r := *v
	r.dj = nil
	r.f = append([]*Val(nil), v.f...)
	r.f[path[0]] = setPath(v.f[path[0]], path[1:], x)
	return &r
}

func (v *Val) String() string {
	if v == nil {
		return "_"
	}
	switch v.k {
	case kNum:
		return v.n.String()
	case kStr:
		if v.isC {
			return fmt.Sprintf("%q", v.cst)
		}
		return fmt.Sprintf("str#%d[%s]", v.id, v.n)
	case kPtr:
		s := ""
		if v.sites != nil {
			s = v.sites.key
		}
		x := ""
		if v.idx != nil {
			x = "[" + v.idx.String() + "]"
		}
		return fmt.Sprintf("ptr#%d{%s}%s%v nn=%s", v.id, s, x, v.path, v.n)
	case kSlice:
		s := ""
		if v.sites != nil {
			s = v.sites.key
		}
		return fmt.Sprintf("slice#%d{%s}[%s:+%s]", v.id, s, v.off, v.n)
	case kMap:
		return fmt.Sprintf("map#%d nn=%s", v.id, v.n)
	case kIface:
		return fmt.Sprintf("iface#%d", v.id)
	case kBuf:
		return fmt.Sprintf("buf[%s]", v.n)
	case kStruct, kTuple:
		var s []string
		for _, f := range v.f {
			s = append(s, f.String())
		}
		d := ""
		if len(v.dj) > 0 {
			d = fmt.Sprintf("|dj%d", len(v.dj))
		}
		return "(" + strings.Join(s, " ") + d + ")"
	case kFunc:
		if v.fn != nil {
			return "func " + v.fn.Name()
		}
		return "func?"
	}
	return "top"
}
