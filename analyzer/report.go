package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation: rule and construct identify it, the text makes it diagnosable.
type Finding struct {
	Rule      string
	Construct string
	Pos       string
	Text      string
}

func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

// Result is what one check covered and found.
type Result struct {
	Findings    []Finding
	Coverage    map[string]any
	Assumptions []string
}

func newResult() *Result { return &Result{Coverage: map[string]any{}} }

func (r *Result) fail(rule, construct, pos, format string, a ...any) {
	r.Findings = append(r.Findings, Finding{rule, construct, pos, fmt.Sprintf(format, a...)})
}

func (r *Result) count(key string, n int) {
	if v, ok := r.Coverage[key].(int); ok {
		r.Coverage[key] = v + n
	} else {
		r.Coverage[key] = n
	}
}

// need fails when fewer instances than the confirmed minimum were found (a rule matching nothing passes vacuously).
func (r *Result) need(key string, min int) {
	n, _ := r.Coverage[key].(int)
	if n < min {
		r.fail("instances", key, "-", "only %d instances of %s were found, at least %d are expected: the rule has lost its anchors", n, key, min)
	}
}

type known struct{ prop, key string }

// readKnown reads the committed findings: "known: property=<id> key=<rule|construct> ..." lines; "fixed:" lines suppress nothing.
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k known
		if i := strings.Index(l, "property="); i >= 0 {
			k.prop = strings.Fields(l[i+9:])[0]
		}
		if i := strings.Index(l, "key="); i >= 0 {
			k.key = strings.TrimSpace(l[i+4:])
			if j := strings.Index(k.key, " :: "); j >= 0 {
				k.key = k.key[:j]
			}
		}
		ks = append(ks, k)
	}
	return ks
}

// emit writes the evidence and prints the verdict; the result is the exit code.
func emit(verif, prop, tier string, seed int, start time.Time, r *Result) int {
	ks := readKnown(filepath.Join(verif, "known-findings.txt"))
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	var viol, kn []Finding
	for _, f := range r.Findings {
		is := false
		for _, k := range ks {
			if k.prop == prop && k.key == f.Key() {
				is = true
			}
		}
		if is {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}
	if len(r.Coverage) == 0 {
		r.Coverage["units"] = 0
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": r.Coverage, "assumptions": r.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if _, ok := r.Coverage["explanation"]; !ok {
		r.Coverage["explanation"] = "see DESIGN.md, section " + prop
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := os.Getenv("VERIF_EVIDENCE") // only for runs on scratch copies
	rp := filepath.Join("evidence", prop+".findings.txt")
	if dir == "" {
		dir = filepath.Join(verif, "evidence")
	} else {
		rp = filepath.Join(dir, prop+".findings.txt")
	}
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s\n  rule: %s\n  construct: %s\n  %s\n", f.Pos, f.Rule, f.Construct, f.Text)
	}
	_ = os.WriteFile(filepath.Join(dir, prop+".findings.txt"), []byte(sb.String()), 0o644)
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", prop, f.Key(), f.Pos, f.Text)
	}
	if len(viol) > 0 {
		for _, f := range viol {
			fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Text)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	fmt.Printf("OK property=%s %s\n", prop, coverageLine(r.Coverage))
	return 0
}

func coverageLine(c map[string]any) string {
	var ks []string
	for k, v := range c {
		if _, ok := v.(int); ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%s=%d", k, c[k]))
	}
	return strings.Join(s, " ")
}
