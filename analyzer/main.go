package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

type checkDef struct {
	run         func(c *Ctx)
	explanation string
}

var checks = map[string]checkDef{}

func main() {
	root := flag.String("root", "/repo", "repository")
	verif := flag.String("verif", "/verif", "output directory")
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.StringVar(&goyaccBin, "goyacc", "", "goyacc binary")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	// the interpreter makes many short-lived values
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(8 << 30)
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	d, ok := checks[*prop]
	if !ok {
		fmt.Println("no such check")
		os.Exit(2)
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
		}
	}
	code := runCheck(*root, *verif, *prop, *tier, d)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func runCheck(root, verif, id, tier string, d checkDef) (code int) {
	start := time.Now()
	c := &Ctx{ID: id, Thorough: tier == "thorough", Verif: verif, counts: map[string]int{}, sets: map[string][]int{}, seen: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			// the analyser met something it cannot handle: not decided, so not held
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			c.fail("internal", "analyser", "the property could not be decided: %v", r)
			code = c.finish(start, "other", d.explanation)
		}
	}()
	p, err := load(root)
	if err != nil {
		c.fail("load", root, "the source tree cannot be analysed: %v", err)
		return c.finish(start, "other", d.explanation)
	}
	c.P = p
	c.T, err = decodeTables(p.Pkg.Syntax, p.Pkg.TypesInfo, p.Pkg.Types.Scope())
	if err != nil {
		c.fail("tables", "ast/y.go", "the parser tables cannot be decoded: %v", err)
		return c.finish(start, "other", d.explanation)
	}
	c.count("functions_in_scope", len(p.Funcs))
	d.run(c)
	if c.obligations == 0 {
		c.fail("vacuous", "analyser", "no obligation was generated")
	}
	return c.finish(start, "other", d.explanation)
}
