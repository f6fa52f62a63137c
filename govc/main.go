package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	out := flag.String("out", "", "result JSON")
	only := flag.String("func", "", "only this function")
	tmo := flag.Duration("func-timeout", 240*time.Second, "time limit per function")
	verbose := flag.Bool("v", false, "print every obligation")
	par := flag.Int("j", 4, "functions in parallel")
	flag.DurationVar(&obTimeout, "ob-timeout", obTimeout, "solver time limit per obligation")
	flag.BoolVar(&antecedents, "antecedents", false, "report conditions of postconditions that no execution meets")
	flag.BoolVar(&crossCheck, "cross", false, "ask a second solver about every discharged obligation")
	flag.Parse()
	t0 := time.Now()
	sf := newSpec()
	if err := sf.load(filepath.Join(*dir, flag.Arg(0)+".spec"), false); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var pats []string
	for p := range sf.Packages {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	overlay := map[string][]byte{}
	for _, g := range sf.Ghosts {
		b, err := os.ReadFile(filepath.Join(filepath.Dir(*dir), "ghost", g[1]))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		overlay[filepath.Join(*repo, strings.TrimPrefix(g[0], modPath+"/"), "zz_verif_"+filepath.Base(g[1]))] = b
	}
	p, err := loadProgram(*repo, pats, overlay)
	res := &RunResult{Prop: sf.Prop, Functions: map[string]*FuncResult{}}
	if err != nil {
		res.Obligations = append(res.Obligations, &Obligation{Func: "-", Name: "load", Desc: "the packages load and type-check", Status: "failed", Detail: err.Error()})
		res.finish(*out, t0, *verbose)
		return
	}
	var cts []*Contract
	for _, c := range sf.Contracts {
		if c.Prop != sf.Prop || c.Prop == "" {
			continue
		}
		if *only != "" && c.Func != *only {
			continue
		}
		cts = append(cts, c)
	}
	sem := make(chan struct{}, *par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, c := range cts {
		c := c
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r, e := p.verifyContract(sf, c, *tmo)
			mu.Lock()
			defer mu.Unlock()
			fr := &FuncResult{Exits: r.exits, Panics: r.panics, Secs: time.Since(r.start).Seconds()}
			if e != nil {
				fr.Inlined = sortedKeys(e.inlined)
				fr.Assumed = sortedKeys(e.assumed)
				fr.QuickCalls = e.q.calls
				fr.Steps = e.steps
			}
			res.Functions[c.Pkg+"."+c.Func+tag(c)] = fr
			res.Obligations = append(res.Obligations, r.obs...)
		}()
	}
	wg.Wait()
	res.finish(*out, t0, *verbose)
}

func tag(c *Contract) string {
	if n, ok := c.Flags["name"]; ok {
		return "#" + n
	}
	return ""
}

type FuncResult struct {
	Exits, Panics int
	Secs          float64
	Inlined       []string
	Assumed       []string
	QuickCalls    int
	Steps         int
}

type RunResult struct {
	Prop        string
	Functions   map[string]*FuncResult
	Obligations []*Obligation
	Secs        float64
	SolverSecs  float64
	SolverCalls int64
	Failed      int

	CrossAgreed, CrossSilent, CrossContrary int64
}

func (r *RunResult) finish(out string, t0 time.Time, verbose bool) {
	r.Secs = time.Since(t0).Seconds()
	r.SolverSecs = float64(totalSolverNS) / 1e9
	r.SolverCalls = solverCalls
	r.CrossAgreed, r.CrossSilent, r.CrossContrary = crossAgreed, crossSilent, crossContrary
	for _, o := range r.Obligations {
		if o.Status != "discharged" {
			r.Failed++
		}
		if verbose || o.Status != "discharged" && o.Detail != "same obligation failed on another path" {
			fmt.Printf("%-10s %s / %s  [%s %.2fs] %s %s\n", o.Status, o.Func, o.Name, o.Solver, o.Secs, o.Desc, o.Detail)
		}
	}
	for _, k := range sortedKeys(r.Functions) {
		f := r.Functions[k]
		fmt.Printf("-- %s: %d exits, %d panic exits, %.1fs, %d quick queries, %d steps\n", strings.TrimPrefix(k, modPath+"/"), f.Exits, f.Panics, f.Secs, f.QuickCalls, f.Steps)
	}
	fmt.Printf("%s: %d obligations, %d failed, %.1fs\n", r.Prop, len(r.Obligations), r.Failed, r.Secs)
	if out != "" {
		b, _ := json.MarshalIndent(r, "", " ")
		_ = os.WriteFile(out, b, 0o644)
		for i, o := range r.Obligations {
			if o.Status != "discharged" && o.Query != "" {
				_ = os.WriteFile(fmt.Sprintf("%s.q%d.smt2", out, i), []byte(o.Query), 0o644)
				if o.Model != "" {
					_ = os.WriteFile(fmt.Sprintf("%s.q%d.model", out, i), []byte(o.Model), 0o644)
				}
			}
		}
	}
	if r.Failed > 0 {
		os.Exit(1)
	}
}
