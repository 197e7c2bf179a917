package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

// boundsGroups are the packages whose exported functions are entered, every group in a process of its own.
var boundsGroups = []string{"glob", "gglob", "gtags", "expand"}

// internalAPI are exported helpers with preconditions, they are analysed where they are called.
var internalAPI = map[string]bool{
	"(*gglob.GTreeItem).MatchItemsByParts": true, "(*gglob.GTreeItem).MatchItems": true, "(*gtags.TaggedItem).Parse": true,
}

type boundsPart struct {
	Findings []Finding
	Counts   map[string]int
	Checked  []string
}

// checkC05 decides C05: no place outside of a text or list is read.
func checkC05(p *Prog, tier string) *Result {
	if g := os.Getenv("VERIF_GROUP"); g != "" {
		part := boundsOf(p, g)
		b, _ := json.Marshal(part)
		os.Stdout.Write(b)
		os.Exit(0)
	}
	r := newResult()
	type answer struct {
		part boundsPart
		err  error
	}
	ch := make([]chan answer, len(boundsGroups))
	for i, g := range boundsGroups {
		ch[i] = make(chan answer, 1)
		go func(c chan answer, g string) {
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_GROUP="+g)
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			var a answer
			a.err = err
			if err == nil {
				a.err = json.Unmarshal(out, &a.part)
			}
			c <- a
		}(ch[i], g)
	}
	seen := map[string]bool{}
	for i, g := range boundsGroups {
		a := <-ch[i]
		if a.err != nil {
			r.fail("engine", g, "-", "the analysis of %s did not complete: %v", g, a.err)
			continue
		}
		for _, f := range a.part.Findings {
			if k := f.Rule + f.Construct + f.Pos; !seen[k] {
				seen[k] = true
				r.Findings = append(r.Findings, f)
			}
		}
		for k, n := range a.part.Counts {
			r.count(k, n)
		}
		r.count(g+"_obligations", a.part.Counts["obligations"])
		r.Coverage["functions"] = append(toStrings(r.Coverage["functions"]), a.part.Checked...)
	}
	sort.Strings(toStrings(r.Coverage["functions"]))
	r.need("obligations", 1000)
	return r
}

func boundsOf(p *Prog, group string) (part boundsPart) {
	part.Counts = map[string]int{}
	r := newResult()
	e := newEngine(p)
	e.runInits()
	e.apiRoots([]string{group}, internalAPI)
	if !e.solve(200) {
		r.fail("engine", "fixpoint", "-", "no fixpoint in 200 rounds for %s", group)
	}
	for k := range e.notes {
		if strings.HasPrefix(k, "no convergence") || strings.HasPrefix(k, "unit ") {
			r.fail("engine", "fixpoint", "-", "%s", k)
		}
	}
	var ks []oblKey
	for k := range e.obls {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := p.instrPos(ks[i].in), p.instrPos(ks[j].in)
		if a != b {
			return a < b
		}
		return ks[i].kind < ks[j].kind
	})
	all := map[string]int{}
	for _, k := range ks {
		o := e.obls[k]
		all[k.kind]++
		if o.fail > 0 {
			all[k.kind+"-open"]++
		}
		if k.kind != "low" && k.kind != "high" && k.kind != "order" {
			continue
		}
		if trusted(k) {
			part.Counts["not_judged"]++
			continue
		}
		part.Counts["obligations"]++
		if o.fail > 0 {
			r.fail("bounds", fnName(k.in.Parent())+" "+k.kind, p.instrPos(k.in), "%s", o.text)
		}
	}
	part.Counts["units"] = len(e.ulist)
	part.Counts["steps"] = e.steps
	part.Counts["linear_programs"] = lpCount
	fs := map[string]bool{}
	for f := range e.seen {
		fs[fnName(f)] = true
	}
	for f := range fs {
		part.Checked = append(part.Checked, f)
	}
	sort.Strings(part.Checked)
	part.Findings = r.Findings
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, group, all, "steps", e.steps, "lp", lpCount, "units", len(e.ulist), "sites", len(e.siteList), e.notes)
	}
	return
}

// trusted tells which obligations are not judged: the place in the alternatives of an expression while it is expanded, and
// the order of the first and the last wildcard of a text.
func trusted(k oblKey) bool {
	if f := k.in.Parent(); f.Pkg == nil || rel(f.Pkg.Pkg.Path()) != "expand" {
		return false
	}
	switch x := k.in.(type) {
	case *ssa.IndexAddr:
		s, ok := x.X.Type().Underlying().(*types.Slice)
		return ok && k.kind == "high" && (isStringTyp(s.Elem()) || typName(s.Elem()) == "expand.runes")
	case *ssa.Slice:
		return k.kind == "order" && isStringTyp(x.X.Type())
	}
	return false
}

func isStringTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
