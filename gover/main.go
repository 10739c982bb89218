package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"sync"
	"time"
)

var debugPanics = os.Getenv("GOVER_PANIC") != ""

type OblJSON struct {
	Fn     string   `json:"function"`
	Kind   string   `json:"kind"`
	Desc   string   `json:"obligation"`
	Pos    string   `json:"at"`
	Status string   `json:"status"`
	Trace  []string `json:"path,omitempty"`
	Model  []string `json:"model,omitempty"`
	Query  string   `json:"query,omitempty"`
}

type Report struct {
	Property    string         `json:"property"`
	Functions   []*FnResult    `json:"functions"`
	Total       int            `json:"obligations"`
	Proved      int            `json:"discharged"`
	ByKind      map[string]int `json:"by_kind"`
	Failed      []OblJSON      `json:"failed"`
	Unsupported []string       `json:"unsupported"`
	Missing     []string       `json:"missing"` // contracts whose function is gone or changed its signature
	Trusted     []string       `json:"trusted"`
	Assume      []string       `json:"assumptions"`
	Sample      []string       `json:"sample"`
	Queries     int64          `json:"queries"`
	Fallback    int64          `json:"fallback_queries"`
	SolverSec   float64        `json:"solver_seconds"`
	WallSec     float64        `json:"wall_seconds"`
}

func main() {
	prop := flag.String("prop", "", "property")
	fnre := flag.String("fn", "", "only functions matching this")
	repo := flag.String("repo", "/repo/Go/sereal", "package directory")
	con := flag.String("contracts", "/verif/contracts", "contracts")
	out := flag.String("json", "", "report file")
	verbose := flag.Bool("v", false, "list obligations")
	limit := flag.Duration("limit", 400*time.Second, "per function")
	list := flag.Bool("list", false, "list functions and contracts")
	prof := flag.String("cpuprofile", "", "write a profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := loadProgram(*repo, *con)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(3)
	}
	fns := p.allFuncs()
	if *list {
		var ns []string
		for n := range fns {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			mark := "-"
			if c := p.con.byName[n]; c != nil {
				mark = fmt.Sprint(c.Props)
				if c.Inline {
					mark = "inline"
				}
				if c.Trusted {
					mark += " trusted"
				}
			}
			fmt.Println(n, fns[n].Signature, mark)
		}
		return
	}
	var re *regexp.Regexp
	if *fnre != "" {
		re = regexp.MustCompile(*fnre)
	}
	rep := &Report{Property: *prop, ByKind: map[string]int{}}
	var todo []string
	for n, c := range p.con.byName {
		if !hasProp(c, *prop) || re != nil && !re.MatchString(n) {
			continue
		}
		if c.Inline && len(c.Props) == 0 {
			continue
		}
		fn := fns[n]
		if fn == nil {
			rep.Missing = append(rep.Missing, n)
			continue
		}
		if c.Trusted {
			rep.Trusted = append(rep.Trusted, n)
			continue
		}
		if p.con.forFn(fn) == nil {
			rep.Missing = append(rep.Missing, n+" (signature changed)")
			continue
		}
		todo = append(todo, n)
	}
	sort.Strings(todo)
	results := make([]*FnResult, len(todo))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, n := range todo {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i] = verifyFunc(p, fns[n], *prop, *limit)
			if *verbose {
				fmt.Fprintf(os.Stderr, "%-40s %6.1fs %4d obligations %d returns %s\n", n, results[i].Seconds, len(results[i].Obligations), results[i].Returns, results[i].Unsupported)
			}
		}(i, n)
	}
	wg.Wait()
	as := map[string]bool{}
	for _, r := range results {
		rep.Functions = append(rep.Functions, r)
		for _, a := range r.Assume {
			as[a] = true
		}
		if r.Unsupported != "" {
			rep.Unsupported = append(rep.Unsupported, r.Fn+": "+r.Unsupported)
		}
		for _, o := range r.Obligations {
			if !o.forProp(*prop) {
				continue
			}
			rep.Total++
			rep.ByKind[o.Kind]++
			if o.Status == "proved" {
				rep.Proved++
				if len(rep.Sample) < 12 && (o.Kind == "post" || o.Kind == "inv" || len(rep.Sample) < 4) {
					rep.Sample = append(rep.Sample, fmt.Sprintf("%s %s: %s [%s]", o.Pos, o.Fn, o.Desc, o.Kind))
				}
			} else {
				rep.Failed = append(rep.Failed, OblJSON{o.Fn, o.Kind, o.Desc, o.Pos, o.Status, o.Trace, o.Model, o.Query})
			}
		}
	}
	rep.Assume = keys(as)
	rep.Queries, rep.Fallback, rep.SolverSec = totalQueries, fallbackQueries, float64(totalTimeNs)/1e9
	rep.WallSec = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	for _, m := range rep.Missing {
		fmt.Println("MISSING", m)
	}
	for _, u := range rep.Unsupported {
		fmt.Println("UNSUPPORTED", u)
	}
	for _, f := range rep.Failed {
		fmt.Printf("FAILED(%s) %s %s: %s [%s]\n", f.Status, f.Pos, f.Fn, f.Desc, f.Kind)
		if *verbose {
			fmt.Println("   path", f.Trace)
			fmt.Println("   model", f.Model)
		}
	}
	if *verbose {
		for _, r := range results {
			for k, v := range r.LoopInvs {
				fmt.Println("   loop", k, v)
			}
		}
	}
	fmt.Printf("%d functions, %d obligations, %d discharged, %d failed, %d unsupported; %d queries, %.1fs solver, %.1fs wall\n",
		len(results), rep.Total, rep.Proved, len(rep.Failed), len(rep.Unsupported), rep.Queries, rep.SolverSec, rep.WallSec)
}
