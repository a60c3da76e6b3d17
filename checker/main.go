package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
)

func main() {
	prop := flag.String("property", "", "property ids, comma separated, or all")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and reports go")
	dbg := flag.String("debug", "", "pkg:func to print the paths of")
	flag.Parse()
	if *dbg != "" {
		i := strings.IndexByte(*dbg, ':')
		p, err := LoadCached(*repo, nil, "./...")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugRun(p, (*dbg)[:i], (*dbg)[i+1:])
		return
	}
	if f := os.Getenv("SAWLINT_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		if c := runCheck(id, *repo, *verif, tier); c > code {
			code = c
		}
	}
	if os.Getenv("SAWLINT_PROFILE") != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func debugRun(p *Prog, pkg, fn string) {
	c := &Client{}
	c.OnEvent = func(s *State, ev *Event) bool { return ev.Kind != "pure" && ev.Kind != "range" }
	c.OnReturn = func(s *State, rets []*Term) {
		fmt.Println("-- return", rets)
		for _, ev := range s.Events() {
			fmt.Println("     ", describeEvent(p, ev), "->", ev.Res)
		}
		fmt.Println("   facts", s.F.describe())
	}
	e := NewEngine(p, c)
	f := p.Func(pkg, fn)
	e.Run(f, nil, nil)
	fmt.Println(fn, "steps", e.Steps, "paths", e.Paths, "err", e.Err)
}
