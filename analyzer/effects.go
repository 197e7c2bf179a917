package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural mutation summaries.
//
// Every reference value of a function is described by the set of regions it may refer to: the memory reachable from a
// parameter, from a free variable, from a package variable, or memory allocated by this call (an allocation site or the
// fresh result of a call). A summary says which regions a call may write, and how its results and stores connect regions.

type rkind int8

const (
	rParam rkind = iota
	rFree
	rGlobal
	rAlloc
	rExt // memory of unknown origin (result of an unmodelled external call)
)

type region struct {
	kind rkind
	n    int
	g    *ssa.Global
	v    ssa.Value
}

func (r region) String() string {
	switch r.kind {
	case rParam:
		return fmt.Sprintf("param%d", r.n)
	case rFree:
		return fmt.Sprintf("free%d", r.n)
	case rGlobal:
		return "global " + r.g.Name()
	case rAlloc:
		return "fresh"
	}
	return "external"
}

type rset map[region]bool

func (s rset) add(o rset) bool {
	ch := false
	for r := range o {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

func (s rset) add1(r region) bool {
	if s[r] {
		return false
	}
	s[r] = true
	return true
}

// write is a witness of a mutation.
type write struct {
	what string // what is done
	pos  string
	via  string // call chain
	mem  string // type of the written memory: a struct, "[]T" elements or a map; "" is unknown
}

type summary struct {
	fn      *ssa.Function
	writes  map[region]write // written regions (params, free variables, globals)
	results []rset           // regions of each result; fresh memory is region{kind:rAlloc} without a value
	flows   map[region]rset  // region <- regions stored inside of it
	unknown map[string]string
}

// typeKey identifies a type; slices and arrays of one element type share a key (elements are written the same way).
func typeKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "[]" + types.TypeString(u.Elem(), nil)
	case *types.Array:
		return "[]" + types.TypeString(u.Elem(), nil)
	case *types.Map:
		return types.TypeString(u, nil)
	}
	return types.TypeString(t, nil)
}

// memOf is the type of the memory written by a store to the address.
func memOf(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if pt, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			return typeKey(pt.Elem())
		}
	case *ssa.IndexAddr:
		t := a.X.Type().Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			return typeKey(pt.Elem())
		}
		return typeKey(t)
	case *ssa.Global:
		return ""
	}
	return ""
}

func memOfArg(v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		return typeKey(v.Type())
	case *types.Pointer:
		return typeKey(u.Elem())
	}
	return ""
}

// canHold reports whether memory of the type can be reachable from the region, judging by its static type
// (interfaces hold only the types which are converted to them somewhere in the module).
func (e *effects) canHold(fn *ssa.Function, r region, mem string) bool {
	if mem == "" {
		return true
	}
	var t types.Type
	switch r.kind {
	case rParam:
		if r.n >= len(fn.Params) {
			return true
		}
		t = fn.Params[r.n].Type()
	case rFree:
		if r.n >= len(fn.FreeVars) {
			return true
		}
		t = fn.FreeVars[r.n].Type()
	case rGlobal:
		t = r.g.Type()
	default:
		return true
	}
	m := e.holds[t]
	if m == nil {
		m = map[string]bool{}
		e.reachTypes(t, m, map[types.Type]bool{})
		e.holds[t] = m
	}
	return m[mem] || m["*"]
}

func (e *effects) reachTypes(t types.Type, out map[string]bool, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	out[typeKey(t)] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		e.reachTypes(u.Elem(), out, seen)
	case *types.Slice:
		e.reachTypes(u.Elem(), out, seen)
	case *types.Array:
		e.reachTypes(u.Elem(), out, seen)
	case *types.Map:
		e.reachTypes(u.Elem(), out, seen)
		e.reachTypes(u.Key(), out, seen)
	case *types.Chan:
		e.reachTypes(u.Elem(), out, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.reachTypes(u.Field(i).Type(), out, seen)
		}
	case *types.Signature:
		out["*"] = true // a closure can hold anything
	case *types.Interface:
		for _, c := range e.converted {
			if types.Implements(c, u) {
				e.reachTypes(c, out, seen)
			}
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out["*"] = true
		}
	}
}

type effects struct {
	holds     map[types.Type]map[string]bool
	converted []types.Type // types converted to an interface
	p         *Prog
	sums      map[*ssa.Function]*summary
	pts       map[ssa.Value]rset
	tup       map[ssa.Value][]rset
	contents  map[*ssa.Function]map[region]rset
	impls     map[*types.Interface][]types.Type
	external  map[string]int // external callees met
	changed   bool
}

var freshRes = region{kind: rAlloc}

func hasRef(t types.Type) bool { return hasRef1(t, map[types.Type]bool{}) }

func hasRef1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef1(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRef1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRef1(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

func newEffects(p *Prog) *effects {
	e := &effects{p: p, sums: map[*ssa.Function]*summary{}, pts: map[ssa.Value]rset{}, tup: map[ssa.Value][]rset{},
		contents: map[*ssa.Function]map[region]rset{}, impls: map[*types.Interface][]types.Type{}, external: map[string]int{}}
	e.holds = map[types.Type]map[string]bool{}
	conv := map[string]types.Type{}
	for _, fn := range p.funcs {
		if fn.Synthetic != "" && fn.Origin() == nil {
			continue // wrappers convert nothing of their own
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					conv[types.TypeString(mi.X.Type(), nil)] = mi.X.Type()
				}
			}
		}
	}
	for _, k := range sortedKeys(conv) {
		e.converted = append(e.converted, conv[k])
	}
	for _, fn := range p.funcs {
		s := &summary{fn: fn, writes: map[region]write{}, flows: map[region]rset{}, unknown: map[string]string{}}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			s.results = append(s.results, rset{})
		}
		e.sums[fn] = s
		e.contents[fn] = map[region]rset{}
	}
	for {
		e.changed = false
		for _, fn := range p.funcs {
			e.analyze(fn)
		}
		if !e.changed {
			break
		}
	}
	return e
}

func (e *effects) ptsOf(v ssa.Value) rset {
	if v == nil || !hasRef(v.Type()) {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return rset{region{kind: rGlobal, g: v}: true}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return rset{region{kind: rParam, n: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				return rset{region{kind: rFree, n: i}: true}
			}
		}
	}
	return e.pts[v]
}

func (e *effects) set(v ssa.Value, s rset) {
	if len(s) == 0 || !hasRef(v.Type()) {
		return
	}
	m := e.pts[v]
	if m == nil {
		m = rset{}
		e.pts[v] = m
	}
	if m.add(s) {
		e.changed = true
	}
}

// load gives the regions referred from inside of the given regions.
func (e *effects) load(fn *ssa.Function, s rset) rset {
	out := rset{}
	for r := range s {
		if r.kind != rAlloc {
			out.add1(r)
		}
		out.add(e.contents[fn][r])
	}
	return out
}

func (e *effects) storeIn(fn *ssa.Function, dst, src rset) {
	for d := range dst {
		c := e.contents[fn][d]
		if c == nil {
			c = rset{}
			e.contents[fn][d] = c
		}
		if c.add(src) {
			e.changed = true
		}
		if d.kind != rAlloc {
			f := e.sums[fn].flows[d]
			if f == nil {
				f = rset{}
				e.sums[fn].flows[d] = f
			}
			for s := range src {
				x := s
				if s.kind == rAlloc {
					x = freshRes
				}
				if f.add1(x) {
					e.changed = true
				}
			}
		}
	}
}

func (e *effects) write(fn *ssa.Function, dst rset, w write) {
	s := e.sums[fn]
	for d := range dst {
		if d.kind == rAlloc || !e.canHold(fn, d, w.mem) {
			continue
		}
		if _, ok := s.writes[d]; !ok {
			s.writes[d] = w
			e.changed = true
		}
	}
}

func (e *effects) analyze(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(fn, in)
		}
	}
}

func (e *effects) instr(fn *ssa.Function, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		val := v.(ssa.Value)
		e.set(val, rset{region{kind: rAlloc, v: val}: true})
	case *ssa.MakeClosure:
		r := region{kind: rAlloc, v: v}
		e.set(v, rset{r: true})
		for _, b := range v.Bindings {
			e.storeIn(fn, rset{r: true}, e.ptsOf(b))
		}
	case *ssa.FieldAddr:
		e.set(v, e.ptsOf(v.X))
	case *ssa.IndexAddr:
		e.set(v, e.ptsOf(v.X))
	case *ssa.Field:
		e.set(v, e.ptsOf(v.X))
	case *ssa.Index:
		e.set(v, e.ptsOf(v.X))
	case *ssa.Slice:
		e.set(v, e.ptsOf(v.X))
	case *ssa.ChangeType:
		e.set(v, e.ptsOf(v.X))
	case *ssa.ChangeInterface:
		e.set(v, e.ptsOf(v.X))
	case *ssa.MakeInterface:
		e.set(v, e.ptsOf(v.X))
	case *ssa.SliceToArrayPointer:
		e.set(v, e.ptsOf(v.X))
	case *ssa.MultiConvert:
		e.set(v, e.ptsOf(v.X))
	case *ssa.Convert:
		if !hasRef(v.X.Type()) && hasRef(v.Type()) {
			e.set(v, rset{region{kind: rAlloc, v: v}: true}) // string -> []byte copies
		} else {
			e.set(v, e.ptsOf(v.X))
		}
	case *ssa.TypeAssert:
		if v.CommaOk {
			e.setTuple(v, 0, e.ptsOf(v.X))
		} else {
			e.set(v, e.ptsOf(v.X))
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			e.set(v, e.ptsOf(x))
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if fa, ok := v.X.(*ssa.FreeVar); ok {
				_ = fa
			}
			e.set(v, e.load(fn, e.ptsOf(v.X)))
		case token.ARROW:
			e.set(v, e.load(fn, e.ptsOf(v.X)))
		}
	case *ssa.Lookup:
		s := e.load(fn, e.ptsOf(v.X))
		if v.CommaOk {
			e.setTuple(v, 0, s)
		} else {
			e.set(v, s)
		}
	case *ssa.Range:
		if hasRef(v.X.Type()) {
			m := e.pts[v]
			if m == nil {
				m = rset{}
				e.pts[v] = m
			}
			if m.add(e.ptsOf(v.X)) {
				e.changed = true
			}
		}
	case *ssa.Next:
		if !v.IsString {
			s := e.load(fn, e.pts[v.Iter])
			e.setTuple(v, 1, s)
			e.setTuple(v, 2, s)
		}
	case *ssa.Extract:
		if t := e.tup[v.Tuple]; t != nil && v.Index < len(t) {
			e.set(v, t[v.Index])
		}
	case *ssa.Store:
		e.write(fn, e.ptsOf(v.Addr), write{what: "store to " + describeAddr(v.Addr), pos: e.p.instrPos(v), mem: memOf(v.Addr)})
		e.storeIn(fn, e.ptsOf(v.Addr), e.ptsOf(v.Val))
	case *ssa.MapUpdate:
		e.write(fn, e.ptsOf(v.Map), write{what: "map update", pos: e.p.instrPos(v), mem: typeKey(v.Map.Type())})
		e.storeIn(fn, e.ptsOf(v.Map), e.ptsOf(v.Value))
		e.storeIn(fn, e.ptsOf(v.Map), e.ptsOf(v.Key))
	case *ssa.Send:
		e.write(fn, e.ptsOf(v.Chan), write{what: "channel send", pos: e.p.instrPos(v)})
		e.storeIn(fn, e.ptsOf(v.Chan), e.ptsOf(v.X))
	case *ssa.Return:
		s := e.sums[fn]
		for i, r := range v.Results {
			for x := range e.deep(fn, e.ptsOf(r)) {
				if x.kind == rAlloc {
					x = freshRes
				}
				if s.results[i].add1(x) {
					e.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		e.call(fn, v)
	}
}

// deep adds the regions referred from the fresh ones (a returned fresh object can carry references to parameters).
func (e *effects) deep(fn *ssa.Function, s rset) rset {
	out := rset{}
	var walk func(r region)
	walk = func(r region) {
		if out[r] {
			return
		}
		out[r] = true
		if r.kind == rAlloc {
			for c := range e.contents[fn][r] {
				walk(c)
			}
		}
	}
	for r := range s {
		walk(r)
	}
	return out
}

func (e *effects) setTuple(v ssa.Value, i int, s rset) {
	t := e.tup[v]
	for len(t) <= i {
		t = append(t, rset{})
	}
	e.tup[v] = t
	if t[i].add(s) {
		e.changed = true
	}
}

func describeAddr(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		if pt, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				return "field " + typeName(pt.Elem()) + "." + st.Field(a.Field).Name()
			}
		}
	case *ssa.IndexAddr:
		return "element of " + typeName(a.X.Type())
	case *ssa.Global:
		return "package variable " + a.Name()
	}
	return "memory of type " + typeName(v.Type())
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// callees resolves the module targets of a call; ext is the name of an external target, if there is one.
func (e *effects) callees(c *ssa.CallCommon) (fns []*ssa.Function, ext string, open bool) {
	if c.IsInvoke() {
		iface := c.Value.Type().Underlying().(*types.Interface)
		ts, ok := e.impls[iface]
		if !ok {
			ts = e.p.implementers(iface)
			e.impls[iface] = ts
		}
		seen := map[*ssa.Function]bool{}
		for _, t := range ts {
			if fn := e.p.methodOf(t, c.Method); fn != nil && !seen[fn] {
				seen[fn] = true
				fns = append(fns, fn)
			}
		}
		return fns, "", true
	}
	if fn := c.StaticCallee(); fn != nil {
		if e.sums[fn] != nil {
			return []*ssa.Function{fn}, "", false
		}
		return nil, fn.String(), false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, "", false
	}
	return nil, "dynamic call of " + c.Value.Type().String(), false
}

// extSpec describes external functions: which arguments are written, and whether results may refer to the arguments.
type extSpec struct {
	writes  []int
	aliases []int // results refer to these arguments
	calls   int   // index of a function argument which is called, -1
}

func extModel(name string) (extSpec, bool) {
	none := extSpec{calls: -1}
	switch {
	case name == "sort.Strings", name == "sort.Ints", name == "sort.Sort", name == "sort.Stable", name == "slices.Sort", name == "slices.Reverse":
		return extSpec{writes: []int{0}, calls: -1}, true
	case name == "sort.Slice", name == "sort.SliceStable", strings.HasPrefix(name, "slices.SortFunc"), strings.HasPrefix(name, "slices.SortStableFunc"):
		return extSpec{writes: []int{0}, calls: 1}, true
	case name == "sort.Search":
		return extSpec{calls: 1}, true
	case name == "sort.SearchStrings", name == "sort.SearchInts", name == "sort.StringsAreSorted":
		return none, true
	case strings.HasPrefix(name, "(*strings.Builder).Len"), strings.HasPrefix(name, "(*strings.Builder).Cap"), strings.HasPrefix(name, "(*strings.Builder).String"),
		strings.HasPrefix(name, "(*bytes.Buffer).Len"), strings.HasPrefix(name, "(*bytes.Buffer).String"), strings.HasPrefix(name, "(*bytes.Buffer).Cap"):
		return none, true
	case strings.HasPrefix(name, "(*bytes.Buffer).Bytes"):
		return extSpec{aliases: []int{0}, calls: -1}, true
	case strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer)."):
		return extSpec{writes: []int{0}, calls: -1}, true
	case name == "strings.Map", name == "strings.IndexFunc", name == "strings.FieldsFunc", name == "strings.TrimFunc", name == "strings.ContainsFunc":
		return extSpec{calls: 0}, true
	case strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "(*strings.Replacer)."), strings.HasPrefix(name, "(*strings.Reader).Len"):
		return none, true
	case strings.HasPrefix(name, "unicode/utf8.Append"), strings.HasPrefix(name, "strconv.Append"):
		return extSpec{writes: []int{0}, aliases: []int{0}, calls: -1}, true
	case name == "unicode/utf8.EncodeRune":
		return extSpec{writes: []int{0}, calls: -1}, true
	case strings.HasPrefix(name, "unicode/utf8."), strings.HasPrefix(name, "unicode."), strings.HasPrefix(name, "strconv."), strings.HasPrefix(name, "math."), strings.HasPrefix(name, "math/bits."):
		return none, true
	case strings.HasPrefix(name, "bytes.Trim"), strings.HasPrefix(name, "bytes.Fields"), strings.HasPrefix(name, "bytes.Split"), strings.HasPrefix(name, "bytes.Cut"):
		return extSpec{aliases: []int{0}, calls: -1}, true
	case name == "bytes.NewBuffer":
		return extSpec{aliases: []int{0}, calls: -1}, true
	case strings.HasPrefix(name, "bytes."):
		return none, true
	case strings.HasPrefix(name, "regexp.") || strings.HasPrefix(name, "(*regexp.Regexp).Match") || strings.HasPrefix(name, "(*regexp.Regexp).Find") || strings.HasPrefix(name, "(*regexp.Regexp).String"):
		return none, true
	case strings.HasPrefix(name, "(*regexp.Regexp).Longest"):
		return extSpec{writes: []int{0}, calls: -1}, true
	case name == "fmt.Errorf", strings.HasPrefix(name, "fmt.Sprint"), name == "errors.New", name == "errors.Is", name == "errors.As":
		return extSpec{aliases: []int{0, 1}, calls: -1}, true
	case strings.HasPrefix(name, "math/rand."), strings.HasPrefix(name, "time."):
		return none, true // reported by the determinism rule
	case name == "unsafe.String", name == "unsafe.StringData", name == "unsafe.SliceData", name == "unsafe.Slice":
		return extSpec{aliases: []int{0}, calls: -1}, true
	case strings.HasPrefix(name, "(*sync."), strings.HasPrefix(name, "sync/atomic."), strings.HasPrefix(name, "(*sync/atomic."):
		return extSpec{writes: []int{0}, aliases: []int{0, 1}, calls: -1}, true
	case strings.HasPrefix(name, "maps.") || strings.HasPrefix(name, "slices.Index") || strings.HasPrefix(name, "slices.Contains") || strings.HasPrefix(name, "slices.Equal") || strings.HasPrefix(name, "slices.BinarySearch") || strings.HasPrefix(name, "slices.Clone"):
		if strings.HasPrefix(name, "maps.Copy") || strings.HasPrefix(name, "maps.Delete") {
			return extSpec{writes: []int{0}, calls: -1}, true
		}
		return extSpec{aliases: []int{0}, calls: -1}, true
	}
	return extSpec{calls: -1}, false
}

func (e *effects) call(fn *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	var args []ssa.Value
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	} else {
		args = c.Args
	}
	res, _ := in.(ssa.Value)
	pos := e.p.instrPos(in.(ssa.Instruction))
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		e.builtin(fn, in, b.Name(), args, res, pos)
		return
	}
	fns, ext, open := e.callees(c)
	for _, callee := range fns {
		e.apply(fn, callee, args, nil, res, pos)
	}
	if open {
		if c.Method.Pkg() != nil && isModPkg(c.Method.Pkg().Path()) && isOutParam(c.Value.Type()) {
			// an implementation supplied by the caller: it can write only its own state
			e.write(fn, e.ptsOf(c.Value), write{what: "call of " + typeName(c.Value.Type()) + "." + c.Method.Name(), pos: pos})
		}
		return
	}
	if ext == "" {
		return
	}
	// closures called directly
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		e.apply(fn, mc.Fn.(*ssa.Function), args, mc.Bindings, res, pos)
		return
	}
	if strings.HasPrefix(ext, "dynamic call") {
		if fs := e.funcValues(c.Value); fs != nil {
			for _, f := range fs {
				var bind []ssa.Value
				if mc, ok := f.(*ssa.MakeClosure); ok {
					bind = mc.Bindings
					e.apply(fn, mc.Fn.(*ssa.Function), args, bind, res, pos)
				} else if sf, ok := f.(*ssa.Function); ok && e.sums[sf] != nil {
					e.apply(fn, sf, args, nil, res, pos)
				}
			}
			return
		}
	}
	e.external[ext]++
	spec, ok := extModel(ext)
	if !ok {
		e.sums[fn].unknown[ext] = pos
		for _, a := range args {
			e.write(fn, e.ptsOf(a), write{what: "passed to unmodelled external function " + ext, pos: pos})
		}
		if res != nil {
			all := rset{region{kind: rExt}: true}
			for _, a := range args {
				all.add(e.ptsOf(a))
			}
			e.setRes(res, all)
		}
		return
	}
	for _, i := range spec.writes {
		if i < len(args) {
			e.write(fn, e.ptsOf(args[i]), write{what: "written by " + ext, pos: pos, mem: memOfArg(args[i])})
			// a boxed slice (sort.Slice takes any)
		}
	}
	if spec.calls >= 0 && spec.calls < len(args) {
		for _, f := range e.funcValues(args[spec.calls]) {
			if mc, ok := f.(*ssa.MakeClosure); ok {
				e.apply(fn, mc.Fn.(*ssa.Function), nil, mc.Bindings, nil, pos)
			} else if sf, ok := f.(*ssa.Function); ok && e.sums[sf] != nil {
				e.apply(fn, sf, nil, nil, nil, pos)
			}
		}
	}
	if res != nil {
		s := rset{region{kind: rAlloc, v: res}: true}
		for _, i := range spec.aliases {
			if i < len(args) {
				s.add(e.ptsOf(args[i]))
			}
		}
		e.setRes(res, s)
	}
}

// funcValues traces a function value to the closures it can be.
func (e *effects) funcValues(v ssa.Value) []ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeClosure, *ssa.Function:
		return []ssa.Value{x}
	case *ssa.ChangeType:
		return e.funcValues(x.X)
	case *ssa.Phi:
		var r []ssa.Value
		for _, ed := range x.Edges {
			if ed != x {
				r = append(r, e.funcValues(ed)...)
			}
		}
		return r
	}
	return nil
}

func (e *effects) setRes(res ssa.Value, s rset) {
	if t, ok := res.Type().(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			if hasRef(t.At(i).Type()) {
				e.setTuple(res, i, s)
			}
		}
		return
	}
	e.set(res, s)
}

// apply uses the summary of a callee at a call.
func (e *effects) apply(fn, callee *ssa.Function, args, bindings []ssa.Value, res ssa.Value, pos string) {
	s := e.sums[callee]
	if s == nil {
		return
	}
	actual := func(r region) rset {
		switch r.kind {
		case rParam:
			if r.n < len(args) {
				return e.ptsOf(args[r.n])
			}
			return nil
		case rFree:
			if bindings != nil && r.n < len(bindings) {
				return e.ptsOf(bindings[r.n])
			}
			return nil
		case rAlloc:
			if res != nil {
				return rset{region{kind: rAlloc, v: res}: true}
			}
			return nil
		}
		return rset{r: true}
	}
	// a write through a free variable or a parameter reaches what the region refers to
	reach := func(s rset) rset {
		out := rset{}
		out.add(s)
		for r := range s {
			if r.kind == rAlloc {
				out.add(e.deep(fn, e.contents[fn][r]))
			}
		}
		return out
	}
	for r, w := range s.writes {
		via := fnName(callee)
		if w.via != "" {
			via += " -> " + w.via
		}
		if len(via) > 200 {
			via = via[:200]
		}
		dst := actual(r)
		if r.kind == rParam || r.kind == rFree {
			dst = reach(dst)
			if e.shallowOnly(callee, r) {
				dst = actual(r)
			}
		}
		e.write(fn, dst, write{what: w.what, pos: w.pos, via: via, mem: w.mem})
	}
	for d, srcs := range s.flows {
		for src := range srcs {
			e.storeIn(fn, actual(d), actual(src))
		}
	}
	if res != nil {
		if t, ok := res.Type().(*types.Tuple); ok {
			for i := 0; i < t.Len() && i < len(s.results); i++ {
				if hasRef(t.At(i).Type()) {
					o := rset{}
					for r := range s.results[i] {
						o.add(actual(r))
					}
					e.setTuple(res, i, o)
				}
			}
		} else if len(s.results) == 1 {
			o := rset{}
			for r := range s.results[0] {
				o.add(actual(r))
			}
			e.set(res, o)
		}
		// a fresh result can carry every region which the callee returns or stores
		fr := region{kind: rAlloc, v: res}
		for i := range s.results {
			if !s.results[i][freshRes] {
				continue
			}
			for r := range s.results[i] {
				if r != freshRes {
					e.storeIn(fn, rset{fr: true}, actual(r))
				}
			}
		}
	}
}

// shallowOnly reports that the callee writes only the memory directly referred by the parameter (no loads between).
func (e *effects) shallowOnly(callee *ssa.Function, r region) bool {
	if r.kind != rParam || r.n >= len(callee.Params) {
		return false
	}
	t := callee.Params[r.n].Type()
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return !hasRef(u.Elem())
	case *types.Slice:
		return !hasRef(u.Elem())
	case *types.Map:
		return !hasRef(u.Elem()) && !hasRef(u.Key())
	}
	return false
}

func (e *effects) builtin(fn *ssa.Function, in ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value, pos string) {
	switch name {
	case "append":
		s := rset{region{kind: rAlloc, v: res}: true}
		s.add(e.ptsOf(args[0]))
		e.set(res, s)
		if len(args) > 1 {
			if k, ok := args[1].(*ssa.Const); ok && k.IsNil() {
				return
			}
			e.write(fn, e.ptsOf(args[0]), write{what: "append in place to " + typeName(args[0].Type()), pos: pos, mem: typeKey(args[0].Type())})
			if hasRef(args[0].Type().Underlying().(*types.Slice).Elem()) {
				e.storeIn(fn, s, e.load(fn, e.ptsOf(args[0])))
				e.storeIn(fn, s, e.load(fn, e.ptsOf(args[1])))
			}
		}
	case "copy":
		e.write(fn, e.ptsOf(args[0]), write{what: "copy to " + typeName(args[0].Type()), pos: pos, mem: typeKey(args[0].Type())})
		if hasRef(args[0].Type().Underlying().(*types.Slice).Elem()) {
			e.storeIn(fn, e.ptsOf(args[0]), e.load(fn, e.ptsOf(args[1])))
		}
	case "delete", "clear":
		e.write(fn, e.ptsOf(args[0]), write{what: name, pos: pos, mem: typeKey(args[0].Type())})
	case "close":
		e.write(fn, e.ptsOf(args[0]), write{what: name, pos: pos})
	case "String", "StringData", "SliceData", "Slice", "Add":
		if res != nil {
			e.set(res, e.ptsOf(args[0]))
		}
	}
}

// isOutParam: parameters which exist to be written by the callee.
func isOutParam(t types.Type) bool {
	s := typeName(t)
	switch s {
	case "items.Store", "*strings.Builder", "*bytes.Buffer", "*items.MinStore", "*items.IndexStore", "*items.StringStore", "*items.AllStore":
		return true
	}
	return false
}

func sortedRegions(m map[region]write) []region {
	var rs []region
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].String() < rs[j].String() })
	return rs
}
