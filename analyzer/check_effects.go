package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkReadOnly
	checks["C02"] = checkInputs
	checks["C03"] = checkDeterminism
	checks["C04"] = checkUnsafeStrings
}

// matchEntries are the operations which only read a matcher: matching, formatting, comparing.
var matchEntries = []string{
	"glob.Glob.Match", "glob.Glob.String", "glob.Glob.Raw", "glob.GlobTree.Match",
	"gglob.GGlob.Match", "gglob.GGlob.MatchByParts", "gglob.GGlobTree.Match", "gglob.GGlobTree.MatchByParts",
	"gglob.GTreeItem.MatchItems", "gglob.GTreeItem.MatchItemsByParts",
	"gtags.TaggedTerm.Match", "gtags.TaggedTerm.String", "gtags.TaggedTerm.WriteString",
	"gtags.TaggedTermList.Match" + "ByTags", "gtags.TaggedTermList.MatchByTagsMap", "gtags.TaggedTermList.String", "gtags.TaggedTermList.WriteString",
	"gtags.GTagsTree.MatchByTags", "gtags.GTagsTree.MatchByTagsMap", "gtags.TaggedItem.MatchByTags", "gtags.TaggedItem.MatchByTagsMap",
	"pkg/items.MatchItems", "pkg/items.ItemsEqual", "pkg/items.LocateChildTreeItem", "pkg/items.TreeItem.Match",
	"pkg/utils.RunesRanges.Equal", "pkg/utils.RunesRanges.Contains", "pkg/utils.RunesRanges.Index", "pkg/utils.RunesRanges.IndexByte",
	"pkg/utils.RunesRanges.StartsWith", "pkg/utils.RunesRanges.EndsWith", "pkg/utils.RunesRanges.String", "pkg/utils.RunesRanges.WriteString",
	"pkg/utils.ASCIISet.Contains", "pkg/utils.ASCIISet.Index", "pkg/utils.ASCIISet.LastIndex", "pkg/utils.ASCIISet.Count", "pkg/utils.ASCIISet.IsEmpty",
	"pkg/utils.ASCIISet.String", "pkg/utils.ASCIISet.WriteString",
}

// inputEntries are the operations which take data owned by the caller; the named parameters are outputs.
var inputEntries = map[string][]string{
	"glob.Parse": nil, "glob.ParseMust": nil, "glob.GlobTree.Add": {"recv"}, "glob.GlobTree.AddGlob": {"recv"},
	"gglob.Parse": nil, "gglob.ParseMust": nil, "gglob.GGlobTree.Add": {"recv"}, "gglob.GGlobTree.AddGlob": {"recv"},
	"gglob.GGlob.MatchByParts": nil, "gglob.GGlobTree.MatchByParts": nil,
	"gglob.PathSplit": nil, "gglob.HasEmptyParts": nil, "gglob.PathLevel": nil,
	"gtags.ParseSeriesByTag": nil, "gtags.ParseTaggedConditions": nil,
	"gtags.GTagsTree.Add": {"recv"}, "gtags.GTagsTree.AddTerms": {"recv"},
	"gtags.TaggedTermList.MatchByTags": nil, "gtags.TaggedTermList.MatchByTagsMap": nil,
	"gtags.GTagsTree.MatchByTags": nil, "gtags.GTagsTree.MatchByTagsMap": nil, "gtags.TagsMap": nil,
	"gtags.PathTags": nil, "gtags.PathTagsMap": nil, "gtags.GraphitePathTags": nil, "gtags.GraphitePathTagsMap": nil,
	"expand.Expand": nil, "expand.ExpandTry": nil, "expand.ParseExpr": nil,
	"glob.GlobTree.Match": nil, "gglob.GGlobTree.Match": nil, "pkg/items.MatchItems": nil, "pkg/items.TreeItem.Match": nil,
}

func paramLabel(fn *ssa.Function, i int) string {
	if i == 0 && fn.Signature.Recv() != nil {
		return "recv"
	}
	return fn.Params[i].Name()
}

func effectsBase(p *Prog, r *Result) *effects {
	e := newEffects(p)
	calls := 0
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(ssa.CallInstruction); ok {
					calls++
				}
			}
		}
	}
	r.count("functions_analysed", len(p.funcs))
	r.count("call_sites_resolved", calls)
	r.Coverage["external_callees"] = len(e.external)
	r.need("functions_analysed", 250)
	return e
}

// judge reports the writes of an entry which are not allowed.
func judge(r *Result, e *effects, fn *ssa.Function, rule string, only func(i int) bool, globals bool) {
	s := e.sums[fn]
	for _, reg := range sortedRegions(s.writes) {
		w := s.writes[reg]
		via := ""
		if w.via != "" {
			via = " through " + w.via
		}
		switch reg.kind {
		case rParam:
			if isOutParam(fn.Params[reg.n].Type()) || !only(reg.n) {
				continue
			}
			r.fail(rule, fnName(fn)+" writes "+paramLabel(fn, reg.n), w.pos, "%s can modify memory reachable from its %s: %s%s", fnName(fn), paramLabel(fn, reg.n), w.what, via)
		case rGlobal, rExt:
			if globals {
				r.fail(rule, fnName(fn)+" writes "+reg.String(), w.pos, "%s can modify %s: %s%s", fnName(fn), reg, w.what, via)
			}
		}
	}
}

// checkReadOnly: matching, formatting and comparing never write the matcher or package state.
func checkReadOnly(p *Prog, _ string) *Result {
	r := newResult()
	e := effectsBase(p, r)
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] {
			seen[fn] = true
			fns = append(fns, fn)
		}
	}
	for _, n := range matchEntries {
		fn := p.lookupFunc(n)
		if fn == nil || e.sums[fn] == nil {
			r.fail("anchor", n, "-", "entry point %s is missing", n)
			continue
		}
		add(fn)
	}
	it, _ := p.lookupType("pkg/items.Item").(*types.Named)
	if it == nil {
		r.fail("anchor", "items.Item", "-", "interface items.Item is missing")
		return r
	}
	iface := it.Underlying().(*types.Interface)
	il, _ := p.lookupType("pkg/items.ItemList").(*types.Named)
	n := 0
	for _, t := range p.implementers(iface) {
		n++
		for _, ifc := range []*types.Interface{iface, il.Underlying().(*types.Interface)} {
			if !types.Implements(t, ifc) {
				continue
			}
			for i := 0; i < ifc.NumMethods(); i++ {
				if fn := p.methodOf(t, ifc.Method(i)); fn != nil && e.sums[fn] != nil {
					add(fn)
				}
			}
		}
	}
	r.count("item_implementations", n)
	r.need("item_implementations", 8)
	for _, fn := range fns {
		judge(r, e, fn, "read-only", func(i int) bool { return true }, true)
	}
	r.count("read_only_entries", len(fns))
	r.need("read_only_entries", 100)
	r.Coverage["entries"] = names(fns)
	r.Coverage["explanation"] = "mutation summaries (which memory regions a call can write) are computed for every function of the module to a fixpoint, with interface calls resolved to all implementers; the summary of each matching/formatting/comparing entry must not contain its receiver, its arguments (except store and output buffer) or any package variable"
	r.Assumptions = []string{"standard library functions write only what the model table lists (unlisted functions are treated as writing all their arguments)", "a Store implementation of the caller writes only its own memory", "MatchString of a compiled regexp is read-only (documented as safe for concurrent use)"}
	return r
}

func names(fns []*ssa.Function) []string {
	var s []string
	for _, f := range fns {
		s = append(s, fnName(f))
	}
	sort.Strings(s)
	return s
}

// checkInputs: no operation writes to the data passed by the caller.
func checkInputs(p *Prog, _ string) *Result {
	r := newResult()
	e := effectsBase(p, r)
	var fns []*ssa.Function
	for _, n := range sortedKeys(inputEntries) {
		fn := p.lookupFunc(n)
		if fn == nil || e.sums[fn] == nil {
			r.fail("anchor", n, "-", "entry point %s is missing", n)
			continue
		}
		fns = append(fns, fn)
		allowed := map[string]bool{}
		for _, a := range inputEntries[n] {
			allowed[a] = true
		}
		judge(r, e, fn, "input-modified", func(i int) bool { return !allowed[paramLabel(fn, i)] }, false)
		for i := range fn.Params {
			if hasRef(fn.Params[i].Type()) && !isOutParam(fn.Params[i].Type()) && !allowed[paramLabel(fn, i)] {
				r.count("reference_arguments_checked", 1)
			}
		}
	}
	r.count("entries_checked", len(fns))
	r.need("entries_checked", 30)
	r.need("reference_arguments_checked", 15)
	r.Coverage["entries"] = names(fns)
	r.Coverage["explanation"] = "mutation summaries of every function (fixpoint over the module); an exported operation must not write memory reachable from an argument, except the receiver of registration calls, stores and output buffers"
	r.Assumptions = []string{"standard library functions write only what the model table lists (unlisted functions are treated as writing all their arguments)"}
	return r
}

// reachableFrom returns the module functions reachable from the roots.
func (e *effects) reachableFrom(roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	push := func(f, by *ssa.Function) {
		if f == nil || e.sums[f] == nil {
			return
		}
		if _, ok := from[f]; !ok {
			from[f] = by
			work = append(work, f)
		}
	}
	for _, f := range roots {
		push(f, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, a := range f.AnonFuncs {
			push(a, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fns, _, _ := e.callees(c.Common())
					for _, g := range fns {
						push(g, f)
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						push(g, f)
					}
				}
			}
		}
	}
	return from
}

// deterministicEntries: operations with results which depend only on their arguments.
var deterministicEntries = []string{
	"glob.Parse", "glob.ParseMust", "glob.Glob.Match", "glob.Glob.String", "glob.GlobTree.Add", "glob.GlobTree.AddGlob", "glob.GlobTree.Match", "glob.NewTree",
	"gglob.Parse", "gglob.ParseMust", "gglob.GGlob.Match", "gglob.GGlob.MatchByParts", "gglob.GGlobTree.Add", "gglob.GGlobTree.AddGlob", "gglob.GGlobTree.Match", "gglob.GGlobTree.MatchByParts",
	"gglob.PathSplit", "gglob.PathSplitB", "gglob.PathLevel", "gglob.HasEmptyParts", "gglob.NewTree",
	"gtags.ParseSeriesByTag", "gtags.ParseTaggedConditions", "gtags.TaggedTerm.Match", "gtags.TaggedTerm.String", "gtags.TaggedTermList.String",
	"gtags.TaggedTermList.MatchByTags", "gtags.TaggedTermList.MatchByTagsMap", "gtags.GTagsTree.Add", "gtags.GTagsTree.AddTerms", "gtags.GTagsTree.MatchByTags", "gtags.GTagsTree.MatchByTagsMap",
	"gtags.PathTags", "gtags.PathTagsMap", "gtags.PathTagsMapB", "gtags.GraphitePathTags", "gtags.GraphitePathTagsMap", "gtags.GraphitePathTagsMapB", "gtags.TagsMap", "gtags.NewTree",
	"expand.Expand", "expand.ExpandTry", "expand.ParseExpr", "expand.Expressions.Expand",
	"pkg/items.NewItemList", "pkg/items.NewGroup", "pkg/items.NextWildcardItem", "pkg/items.MatchItems", "pkg/items.TreeItem.Match",
	"pkg/escape.Path", "pkg/escape.PathTo", "pkg/escape.Query", "pkg/escape.QueryTo", "pkg/escape.Unescape", "pkg/escape.UnescapeTo", "pkg/escape.UnescapeNameTo",
}

func checkDeterminism(p *Prog, _ string) *Result {
	r := newResult()
	e := effectsBase(p, r)
	var roots []*ssa.Function
	for _, n := range deterministicEntries {
		fn := p.lookupFunc(n)
		if fn == nil || e.sums[fn] == nil {
			r.fail("anchor", n, "-", "entry point %s is missing", n)
			continue
		}
		roots = append(roots, fn)
		s := e.sums[fn]
		for _, reg := range sortedRegions(s.writes) {
			if reg.kind == rGlobal {
				w := s.writes[reg]
				r.fail("global-state", fnName(fn)+" writes "+reg.String(), w.pos, "%s can modify package state (%s): %s %s", fnName(fn), reg, w.what, w.via)
			}
		}
	}
	from := e.reachableFrom(roots)
	// WriteRandom generates test data by design and is reached only through the Item interface
	reach := map[*ssa.Function]bool{}
	for f := range from {
		reach[f] = true
	}
	var fns []*ssa.Function
	for f := range reach {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	trail := func(f *ssa.Function) string {
		var s []string
		for f != nil && len(s) < 8 {
			s = append([]string{fnName(f)}, s...)
			f = from[f]
		}
		return strings.Join(s, " -> ")
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := p.instrPos(in)
				switch v := in.(type) {
				case *ssa.Go:
					r.fail("goroutine", fnName(f), pos, "starts a goroutine: results can depend on the schedule (%s)", trail(f))
				case *ssa.Select:
					r.fail("select", fnName(f), pos, "select: results can depend on the schedule (%s)", trail(f))
				case *ssa.Send:
					r.fail("channel", fnName(f), pos, "channel operation (%s)", trail(f))
				case *ssa.Convert:
					if isBasic(v.X.Type(), types.UnsafePointer) && isBasic(v.Type(), types.Uintptr) {
						r.fail("address", fnName(f), pos, "the result can depend on an address (%s)", trail(f))
					}
				case *ssa.Range:
					if _, ok := v.X.Type().Underlying().(*types.Map); ok {
						r.count("map_iterations", 1)
						if why := orderSensitive(v); why != "" {
							r.fail("map-order", fnName(f)+" ranges "+typeName(v.X.Type()), pos, "the result can depend on the map iteration order: %s (%s)", why, trail(f))
						}
					}
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && g.Pkg != nil && !isModPkg(g.Pkg.Pkg.Path()) {
						if s := g.String(); s != "io.EOF" && !strings.HasPrefix(s, "unicode.") && !strings.HasPrefix(s, "io.Err") {
							r.fail("external-state", fnName(f)+" reads "+s, pos, "reads a variable of another module: %s (%s)", s, trail(f))
						}
					}
				case ssa.CallInstruction:
					c := v.Common()
					r.count("calls_checked", 1)
					_, ext, _ := e.callees(c)
					if why := impure(ext); why != "" {
						r.fail("impure-call", fnName(f)+" calls "+ext, pos, "%s (%s)", why, trail(f))
					} else if ext != "" && !strings.HasPrefix(ext, "dynamic call") {
						if _, ok := extModel(ext); !ok && e.sums[f].unknown[ext] != "" {
							r.fail("impure-call", fnName(f)+" calls "+ext, pos, "calls an external function which is not known to be a function of its arguments: %s (%s)", ext, trail(f))
						}
					}
				}
			}
		}
	}
	r.count("functions_reached", len(fns))
	r.count("entries", len(roots))
	r.need("functions_reached", 150)
	r.need("entries", 50)
	r.need("map_iterations", 2)
	r.Coverage["explanation"] = "every function reachable from the parsing, registration, matching, expansion and escaping entries is scanned for sources of nondeterminism: package variables written after initialisation, goroutines, channels, time, randomness, environment, addresses, and map iterations whose body is order-sensitive"
	r.Assumptions = []string{"the standard library functions of the model table are functions of their arguments", "Store implementations of the caller are not analysed"}
	return r
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func impure(ext string) string {
	for _, pre := range []string{"time.", "(time.", "math/rand", "(*math/rand", "crypto/rand", "os.", "(*os.", "runtime.", "syscall.", "net.", "hash/maphash", "(*sync.Pool)", "(*sync.Map)"} {
		if strings.HasPrefix(ext, pre) {
			return "calls " + ext + ": the result can depend on something other than the arguments"
		}
	}
	return ""
}

// orderSensitive explains why the body of a map iteration can give a result which depends on the iteration order.
// Accepted: deleting from the ranged map, inserting into a map under the iteration key, commutative integer updates,
// and leaving the loop with a constant.
func orderSensitive(rg *ssa.Range) string {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// loop body: the blocks which can reach the head and are reachable from it
	body := loopBlocks(head)
	var key, val ssa.Value
	for _, ref := range *next.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok {
			switch ex.Index {
			case 1:
				key = ex
			case 2:
				val = ex
			}
		}
	}
	if key == nil && val == nil {
		return "" // the number of iterations only
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && body[in.Block()]
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.MapUpdate:
				if v.Key != key {
					return "inserts under a key which is not the iteration key"
				}
				if inLoop(v.Map) {
					if u, ok := v.Map.(*ssa.UnOp); !ok || u.Op != token.MUL {
						return "inserts into a map computed by the iteration"
					}
				}
			case *ssa.Store:
				if dependsOn(v.Val, key, val, map[ssa.Value]bool{}) || dependsOn(v.Addr, key, val, map[ssa.Value]bool{}) {
					return "stores an iteration value"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "effects in the iteration"
			case ssa.CallInstruction:
				c := v.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "len", "cap":
						continue
					case "append":
						return "appends in the iteration order"
					}
				}
				fn := c.StaticCallee()
				if fn != nil && fn.Pkg != nil && !isModPkg(fn.Pkg.Pkg.Path()) {
					if sp, ok := extModel(fn.String()); ok && len(sp.writes) == 0 && sp.calls < 0 {
						continue
					}
				}
				return "calls a function with effects in the iteration order"
			case *ssa.Phi:
				// accumulators at the head
				if b == head {
					if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						ok := true
						for _, ed := range v.Edges {
							if inLoop(ed) && ed != v {
								if bo, isb := ed.(*ssa.BinOp); !isb || (bo.Op != token.ADD && bo.Op != token.OR && bo.Op != token.XOR && bo.Op != token.MUL) {
									if ph, isp := ed.(*ssa.Phi); !isp || ph == nil {
										ok = false
									}
								}
							}
						}
						if ok {
							continue
						}
					}
					if _, isc := v.Type().Underlying().(*types.Basic); isc && constEdges(v, map[ssa.Value]bool{}) {
						continue
					}
					for _, ed := range v.Edges {
						if ed != v && inLoop(ed) {
							return "carries a value from one iteration to the next"
						}
					}
				}
			case *ssa.Return:
				for _, x := range v.Results {
					if dependsOn(x, key, val, map[ssa.Value]bool{}) {
						return "returns an iteration value"
					}
				}
			}
		}
	}
	// values leaving the loop early
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || b == head {
				continue
			}
			for _, in := range s.Instrs {
				switch v := in.(type) {
				case *ssa.Return:
					for _, x := range v.Results {
						if dependsOn(x, key, val, map[ssa.Value]bool{}) {
							return "returns an iteration value"
						}
					}
				case *ssa.Phi:
					for i, ed := range v.Edges {
						if s.Preds[i] == b && dependsOn(ed, key, val, map[ssa.Value]bool{}) {
							return "leaves the loop with an iteration value"
						}
					}
				}
			}
		}
	}
	return ""
}

func constEdges(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !constEdges(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func dependsOn(v, key, val ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v == key || v == val {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return false // merged with other iterations: handled at the phi
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if dependsOn(*o, key, val, seen) {
			return true
		}
	}
	return false
}

// loopBlocks returns the natural loop blocks of a head (blocks which reach head and are dominated by it).
func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, pr := range head.Preds {
		if head.Dominates(pr) {
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

// checkUnsafeStrings: a string built over a byte buffer without a copy is allowed only when the buffer is allocated by the
// same call and never written afterwards, so no returned string can change.
func checkUnsafeStrings(p *Prog, _ string) *Result {
	r := newResult()
	e := effectsBase(p, r)
	// makers: functions whose result string aliases the bytes of a parameter
	makers := map[*ssa.Function]map[int]bool{}
	type site struct {
		fn  *ssa.Function
		in  ssa.Instruction
		buf ssa.Value
	}
	var sites []site
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if buf := unsafeStringOf(in); buf != nil {
					sites = append(sites, site{fn, in, buf})
				}
			}
		}
	}
	r.count("unsafe_conversions", len(sites))
	done := map[ssa.Instruction]bool{}
	for len(sites) > 0 {
		s := sites[0]
		sites = sites[1:]
		if done[s.in] {
			continue
		}
		done[s.in] = true
		r.count("conversion_sites_judged", 1)
		for reg := range e.ptsOf(s.buf) {
			switch reg.kind {
			case rParam:
				if _, ok := s.fn.Params[reg.n].Type().Underlying().(*types.Slice); !ok {
					r.fail("unsafe-string", fnName(s.fn), p.instrPos(s.in), "a string is built without a copy over a buffer kept in %s, which can be written later", paramLabel(s.fn, reg.n))
					continue
				}
				if makers[s.fn] == nil {
					makers[s.fn] = map[int]bool{}
				}
				if makers[s.fn][reg.n] {
					continue
				}
				makers[s.fn][reg.n] = true
				if w, ok := e.sums[s.fn].writes[reg]; ok {
					r.fail("unsafe-string", fnName(s.fn), w.pos, "%s writes the buffer which it also returns as a string: %s", fnName(s.fn), w.what)
				}
				// judge the callers
				for _, g := range p.funcs {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok {
								fns, _, _ := e.callees(c.Common())
								for _, f := range fns {
									if f == s.fn && !c.Common().IsInvoke() {
										sites = append(sites, site{g, in, c.Common().Args[reg.n]})
									}
								}
							}
						}
					}
				}
			case rAlloc:
				if w := laterWrite(e, s.fn, s.in, reg); w != "" {
					r.fail("unsafe-string", fnName(s.fn), p.instrPos(s.in), "the buffer of a string built without a copy can be written afterwards: %s", w)
				}
			default:
				r.fail("unsafe-string", fnName(s.fn), p.instrPos(s.in), "a string is built without a copy over %s memory", reg)
			}
		}
	}
	r.need("unsafe_conversions", 1)
	r.Coverage["explanation"] = "all conversions of byte memory to a string without a copy are found in the SSA form (through unsafe.Pointer or unsafe.String); the buffer of each must be allocated by the same function and have no write, store or call with it reachable after the conversion; conversions of a parameter are judged at every caller"
	return r
}

func unsafeStringOf(in ssa.Instruction) ssa.Value {
	switch v := in.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL && isBasic(v.Type(), types.String) {
			if c, ok := v.X.(*ssa.Convert); ok && isBasic(c.X.Type(), types.UnsafePointer) {
				return traceUnsafe(c.X)
			}
		}
		// a struct or interface view of the memory which contains strings
		if v.Op == token.MUL && !isBasic(v.Type(), types.String) && hasString(v.Type()) {
			if c, ok := v.X.(*ssa.Convert); ok && isBasic(c.X.Type(), types.UnsafePointer) {
				return traceUnsafe(c.X)
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "String" {
			return v.Call.Args[0]
		}
	}
	return nil
}

func hasString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasString(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// traceUnsafe follows unsafe.Pointer(&b) to the slice variable b, and other conversions to their source.
func traceUnsafe(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	if a, ok := v.(*ssa.Alloc); ok {
		// the address of a slice variable: the buffer is the stored value
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
				return st.Val
			}
		}
	}
	return v
}

// laterWrite looks for an instruction after the conversion which can write the region or let it escape.
func laterWrite(e *effects, fn *ssa.Function, at ssa.Instruction, reg region) string {
	uses := func(v ssa.Value) bool { return v != nil && e.ptsOf(v)[reg] }
	check := func(in ssa.Instruction) string {
		switch v := in.(type) {
		case *ssa.Store:
			if uses(v.Addr) {
				return "store at " + e.p.instrPos(v)
			}
			if uses(v.Val) {
				return "kept at " + e.p.instrPos(v)
			}
		case *ssa.Return:
			for _, x := range v.Results {
				if uses(x) {
					return "the buffer itself is returned at " + e.p.instrPos(v)
				}
			}
		case ssa.CallInstruction:
			if b, ok := v.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return ""
			}
			for _, a := range v.Common().Args {
				if uses(a) {
					return "passed to a call at " + e.p.instrPos(in)
				}
			}
		case *ssa.MapUpdate:
			if uses(v.Value) {
				return "kept at " + e.p.instrPos(v)
			}
		}
		return ""
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) string
	walk = func(b *ssa.BasicBlock, from int) string {
		for _, in := range b.Instrs[from:] {
			if in == at {
				continue
			}
			// the allocation runs again: a new buffer
			if v, ok := in.(ssa.Value); ok && v == reg.v {
				return ""
			}
			if w := check(in); w != "" {
				return w
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if w := walk(s, 0); w != "" {
					return w
				}
			}
		}
		return ""
	}
	b := at.Block()
	for i, in := range b.Instrs {
		if in == at {
			return walk(b, i+1)
		}
	}
	return fmt.Sprint("instruction not found")
}
