package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type check func(p *Prog, tier string) *Result

var checks = map[string]check{}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(400)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var r *Result
	func() {
		defer func() {
			if x := recover(); x != nil {
				r = newResult()
				r.fail("analyzer", "panic", "-", "the analysis did not complete: %v\n%s", x, debug.Stack())
			}
		}()
		c := checks[*prop]
		if c == nil {
			var ids []string
			for k := range checks {
				ids = append(ids, k)
			}
			sort.Strings(ids)
			r = newResult()
			r.fail("analyzer", "unknown property", "-", "no check for %q, there are %v", *prop, ids)
			return
		}
		p, err := loadProg(*repo)
		if err != nil {
			r = newResult()
			r.fail("load", "program", "-", "%v", err)
			return
		}
		r = c(p, tier)
	}()
	code := emit(*verif, *prop, tier, seed, start, r)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "wall", time.Since(start))
	}
	os.Exit(code)
}
