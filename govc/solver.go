package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type printer struct {
	c       *Ctx
	defined map[*Term]string
	out     *strings.Builder
	used    map[string]bool // symbols
}

// emit define-funs for shared closed subterms of t, returns text of t
func (p *printer) text(t *Term) string {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if t.Op == "sym" || t.Op == "app" {
			p.used[t.Name] = true
		}
		if _, ok := p.defined[t]; ok {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, a := range t.Pats {
			walk(a)
		}
		order = append(order, t)
	}
	walk(t)
	for _, s := range order {
		if cnt[s] > 1 && len(s.Args) > 0 && !s.bv && s.Op != "multi" {
			if _, ok := p.defined[s]; ok {
				continue
			}
			var b strings.Builder
			s.write(&b, p.defined, 0)
			n := fmt.Sprintf("d!%d", s.ID)
			fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, s.Sort, b.String())
			p.defined[s] = n
		}
	}
	var b strings.Builder
	t.write(&b, p.defined, 1)
	return b.String()
}

// symbols used in a term
func collectSyms(t *Term, used map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case "sym", "app", "constarr":
		if t.Name != "" {
			used[t.Name] = true
		}
	}
	for _, a := range t.Args {
		collectSyms(a, used, seen)
	}
	for _, a := range t.Pats {
		collectSyms(a, used, seen)
	}
}

func tokens(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
}

// relevant axioms and declarations for the terms
func (c *Ctx) closure(ts []*Term) (axs []*Axiom, used map[string]bool) {
	used = map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		collectSyms(t, used, seen)
	}
	in := map[*Axiom]bool{}
	for ch := true; ch; {
		ch = false
		for _, a := range c.axioms {
			if in[a] {
				continue
			}
			rel := len(a.Trig) == 0
			for _, t := range a.Trig {
				if used[t] {
					rel = true
				}
			}
			if rel {
				in[a] = true
				ch = true
				if a.Body != nil {
					collectSyms(a.Body, used, seen)
				} else {
					for _, t := range tokens(a.Raw) {
						used[t] = true
					}
				}
			}
		}
		for n := range used {
			if f := c.funs[n]; f != nil && f.Def != "" {
				for _, t := range tokens(f.Def) {
					if !used[t] && c.funs[t] != nil {
						used[t] = true
						ch = true
					}
				}
			}
		}
	}
	for _, a := range c.axioms {
		if in[a] {
			axs = append(axs, a)
		}
	}
	return
}

func (c *Ctx) decls(used map[string]bool, out *strings.Builder) {
	for _, d := range c.decl {
		if strings.HasPrefix(d, "(declare-fun ") || strings.HasPrefix(d, "(define-fun") {
			f := strings.Fields(d)
			if !used[f[1]] {
				continue
			}
		}
		out.WriteString(d)
		out.WriteByte('\n')
	}
}

// script asserting all ts
func (c *Ctx) Script(ts []*Term, solver string) string {
	axs, used := c.closure(ts)
	var head, body strings.Builder
	if strings.HasPrefix(solver, "cvc5") {
		head.WriteString("(set-logic ALL)\n")
	}
	c.decls(used, &head)
	p := &printer{c: c, defined: map[*Term]string{}, out: &body, used: map[string]bool{}}
	for _, a := range axs {
		if a.Body != nil {
			s := p.text(a.Body)
			fmt.Fprintf(&body, "(assert %s)\n", s)
		} else {
			fmt.Fprintf(&body, "(assert %s)\n", a.Raw)
		}
	}
	for _, t := range ts {
		s := p.text(t)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	body.WriteString("(check-sat)\n")
	return head.String() + body.String()
}

type Result struct {
	Status string // unsat sat unknown
	Solver string
	Model  string
	Time   time.Duration
	Query  string
}

var dumpDir = os.Getenv("GOVC_DUMP")
var dumpN int64

type backend struct {
	name string
	args func(to time.Duration) []string
}

var z3new = backend{"z3-new", func(to time.Duration) []string {
	return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds())+1), "smt.random_seed=1"}
}}
var z3mbqi = backend{"z3-new(no mbqi)", func(to time.Duration) []string {
	return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds())+1), "smt.random_seed=1", "smt.mbqi=false", "smt.auto_config=false"}
}}
var z3old = backend{"z3-4.8.12", func(to time.Duration) []string {
	return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds())+1), "smt.random_seed=1"}
}}
var cvc5b = backend{"cvc5", func(to time.Duration) []string {
	return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "--seed=1"}
}}
var cvc5e = backend{"cvc5(enum-inst)", func(to time.Duration) []string {
	return []string{"cvc5", "--lang=smt2", "--strings-exp", "--enum-inst", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "--seed=1"}
}}

var solverSem = make(chan struct{}, 8)

func runSolver(be backend, script string, to time.Duration, parent context.Context) (status, out string, dt time.Duration) {
	select {
	case solverSem <- struct{}{}:
	case <-parent.Done():
		return "unknown", "cancelled", 0
	}
	defer func() { <-solverSem }()
	cx, cf := context.WithTimeout(parent, to+2*time.Second)
	defer cf()
	a := be.args(to)
	cmd := exec.CommandContext(cx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	t0 := time.Now()
	_ = cmd.Run()
	dt = time.Since(t0)
	s := b.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		return first, s, dt
	case "unknown", "timeout":
		return "unknown", s, dt
	}
	if parent.Err() != nil {
		return "unknown", "cancelled", dt
	}
	if strings.Contains(s, "interrupted by timeout") || strings.Contains(s, "timeout") || s == "" {
		return "unknown", s, dt
	}
	return "error", s, dt
}

var crossCheck bool
var crossTime = 20 * time.Second
var crossAgreed, crossSilent, crossContrary int64
var totalSolverNS int64
var solverCalls int64
var errSeen sync.Map

// full portfolio check of the conjunction ts: "unsat" wanted
func (c *Ctx) Check(ts []*Term, to time.Duration, wantModel bool) Result {
	return runScript(c.Script(ts, "z3"), to, wantModel)
}

func runScript(script string, to time.Duration, wantModel bool) Result {
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		_ = os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d.smt2", n)), []byte(script), 0o644)
	}
	res := Result{Status: "unknown", Query: script}
	t0 := time.Now()
	// stage 1: z3 alone, short
	fast := 1 * time.Second
	if to < fast {
		fast = to
	}
	st, out, dt := runSolver(z3new, script, fast, context.Background())
	atomic.AddInt64(&totalSolverNS, int64(dt))
	atomic.AddInt64(&solverCalls, 1)
	if st == "error" {
		reportSolverError(z3new.name, out, script)
	}
	if st == "unsat" || st == "sat" {
		res.Status, res.Solver = st, z3new.name
	} else {
		// stage 2: portfolio in parallel
		type r struct {
			st, out, name string
			dt            time.Duration
		}
		cx, cf := context.WithCancel(context.Background())
		ch := make(chan r, 8)
		bes := []backend{z3mbqi, cvc5e, z3new, z3old, cvc5b}
		for _, be := range bes {
			be := be
			go func() {
				s := script
				if strings.HasPrefix(be.name, "cvc5") {
					s = "(set-logic ALL)\n" + script
				}
				st, out, dt := runSolver(be, s, to, cx)
				ch <- r{st, out, be.name, dt}
			}()
		}
		for range bes {
			x := <-ch
			atomic.AddInt64(&totalSolverNS, int64(x.dt))
			atomic.AddInt64(&solverCalls, 1)
			if x.st == "error" {
				reportSolverError(x.name, x.out, script)
			}
			if res.Status == "unknown" && (x.st == "unsat" || (x.st == "sat" && x.name != z3mbqi.name)) {
				res.Status, res.Solver = x.st, x.name
				break
			}
		}
		cf()
	}
	if crossCheck && res.Status == "unsat" {
		// a second, independent solver is asked the same question; only a contrary answer counts
		be, sc := cvc5b, "(set-logic ALL)\n"+script
		if strings.HasPrefix(res.Solver, "cvc5") {
			be, sc = z3new, script
		}
		st, _, dt := runSolver(be, sc, crossTime, context.Background())
		atomic.AddInt64(&totalSolverNS, int64(dt))
		switch st {
		case "unsat":
			atomic.AddInt64(&crossAgreed, 1)
		case "sat":
			atomic.AddInt64(&crossContrary, 1)
			res.Status = "unknown"
			fmt.Fprintf(os.Stderr, "govc: %s and %s disagree\n", res.Solver, be.name)
		default:
			atomic.AddInt64(&crossSilent, 1)
		}
	}
	res.Time = time.Since(t0)
	if res.Status == "sat" && wantModel {
		_, out, _ := runSolver(z3new, script+"(get-model)\n", fast, context.Background())
		if strings.HasPrefix(out, "sat") {
			res.Model = out[3:]
		}
	}
	return res
}

func reportSolverError(name, out, script string) {
	line := strings.SplitN(out, "\n", 2)[0]
	if _, dup := errSeen.LoadOrStore(name+line, true); dup {
		return
	}
	fmt.Fprintf(os.Stderr, "govc: solver %s error: %s\n", name, line)
	if os.Getenv("GOVC_DEBUG") != "" {
		_ = os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0o644)
	}
}

// ---- persistent solver for quick feasibility questions

type quick struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	p       *printer
	buf     *strings.Builder
	declN   int
	axN     int
	axDone  map[*Axiom]bool
	stack   []*Term
	cache   map[string]string
	calls   int
	dead    bool
	tmo     int
	sent    int
	extraAx map[string]bool
}

func newQuick(c *Ctx) *quick {
	q := &quick{c: c, cache: map[string]string{}}
	q.start()
	return q
}

func (q *quick) start() {
	q.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := q.cmd.StdinPipe()
	if err != nil {
		q.dead = true
		return
	}
	out, err := q.cmd.StdoutPipe()
	if err != nil {
		q.dead = true
		return
	}
	if q.cmd.Start() != nil {
		q.dead = true
		return
	}
	q.in = in
	q.out = bufio.NewReader(out)
	q.buf = &strings.Builder{}
	q.p = &printer{c: q.c, defined: map[*Term]string{}, out: q.buf, used: map[string]bool{}}
	q.declN, q.axN = 0, 0
	q.axDone = map[*Axiom]bool{}
	q.stack = nil
	q.sent = 0
	q.buf.WriteString("(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n")
}

func (q *quick) close() {
	if q.cmd != nil && q.cmd.Process != nil {
		_ = q.cmd.Process.Kill()
		_ = q.cmd.Wait()
	}
}

func (q *quick) sync() {
	c := q.c
	if len(c.axioms) > q.axN && len(q.stack) > 0 {
		fmt.Fprintf(q.buf, "(pop %d)\n", len(q.stack))
		q.stack = nil
	}
	for ; q.declN < len(c.decl); q.declN++ {
		q.buf.WriteString(c.decl[q.declN])
		q.buf.WriteByte('\n')
	}
	for ; q.axN < len(c.axioms); q.axN++ {
		a := c.axioms[q.axN]
		if a.Body != nil {
			s := q.p.text(a.Body)
			fmt.Fprintf(q.buf, "(assert %s)\n", s)
		} else {
			fmt.Fprintf(q.buf, "(assert %s)\n", a.Raw)
		}
	}
}

// status of conjunction pc ∧ extra
func (q *quick) check(pc []*Term, extra *Term, ms int) string {
	if extra == q.c.F {
		return "unsat"
	}
	var kb strings.Builder
	for _, t := range pc {
		if t == q.c.F {
			return "unsat"
		}
		fmt.Fprintf(&kb, "%d,", t.ID)
	}
	fmt.Fprintf(&kb, "?%d", extra.ID)
	key := kb.String()
	if r, ok := q.cache[key]; ok {
		return r
	}
	if q.dead {
		return "unknown"
	}
	q.calls++
	if q.sent > 30<<20 {
		q.close()
		q.start()
	}
	q.sync()
	// align stack
	n := 0
	for n < len(pc) && n < len(q.stack) && pc[n] == q.stack[n] {
		n++
	}
	if n < len(q.stack) {
		fmt.Fprintf(q.buf, "(pop %d)\n", len(q.stack)-n)
		q.stack = q.stack[:n]
	}
	for ; n < len(pc); n++ {
		q.buf.WriteString("(push)\n")
		s := q.p.text(pc[n])
		fmt.Fprintf(q.buf, "(assert %s)\n", s)
		q.stack = append(q.stack, pc[n])
	}
	q.buf.WriteString("(push)\n")
	s := q.p.text(extra)
	if ms != q.tmo {
		fmt.Fprintf(q.buf, "(set-option :timeout %d)\n", ms)
		q.tmo = ms
	}
	fmt.Fprintf(q.buf, "(assert %s)\n(check-sat)\n(pop)\n(echo \"@@\")\n", s)
	txt := q.buf.String()
	q.buf.Reset()
	q.sent += len(txt)
	if dumpDir != "" {
		f, _ := os.OpenFile(filepath.Join(dumpDir, fmt.Sprintf("quick_%p.smt2", q.c)), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		_, _ = f.WriteString(txt)
		_ = f.Close()
	}
	res := "unknown"
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond+5*time.Second, func() { _ = q.cmd.Process.Kill() })
	go func() {
		defer close(done)
		_, err := io.WriteString(q.in, txt)
		_ = err
	}()
	for {
		line, err := q.out.ReadString('\n')
		if err != nil {
			timer.Stop()
			q.close()
			q.start()
			q.cache[key] = "unknown"
			return "unknown"
		}
		line = strings.TrimSpace(line)
		if line == "@@" || line == "\"@@\"" {
			break
		}
		switch line {
		case "sat", "unsat", "unknown":
			res = line
		default:
			if strings.Contains(line, "error") {
				reportSolverError("quick", line, txt)
			}
		}
	}
	timer.Stop()
	<-done
	q.cache[key] = res
	return res
}
