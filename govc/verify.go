package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var userInvTimeout = 6 * time.Second
var obTimeout = 20 * time.Second

type Obligation struct {
	Func   string  `json:"function"`
	Name   string  `json:"name"`
	Desc   string  `json:"description"`
	Status string  `json:"status"` // discharged failed
	Solver string  `json:"solver"`
	Secs   float64 `json:"secs"`
	Detail string  `json:"detail,omitempty"`
	Query  string  `json:"-"`
	Model  string  `json:"-"`
}

type Root struct {
	ct       *Contract
	fn       *ssa.Function
	te       tenv
	entry    *State
	params   map[string]sval
	tparams  map[string]types.Type
	pkg      *types.Package
	obs      []*Obligation
	failed   map[string]bool
	exits    int
	panics   int
	guards   []*guardInfo
	smreps   []*smRepInfo
	results  []sval
	ants     map[string]bool
	start    time.Time
	mods     map[string]*Contract
	opaque   map[string]*ssa.Function
	opaqueFn map[string]bool
	merge    map[string]bool
	stubs    map[string]*ssa.Function
	mu       sync.Mutex
	wg       sync.WaitGroup
	queue    map[string]chan func()
}

type guardInfo struct {
	anonT      types.Type
	anon, name string       // a package variable of an unnamed struct type
	T          *types.Named // generic origin or type
	mutex      []string
	fields     map[string]bool
}
type smRepInfo struct {
	spec SMRep
	T    *types.Named
	idx  int
}

func (r *Root) flag(n string) bool { _, ok := r.ct.Flags[n]; return ok }
func (r *Root) callbacksPanic() bool {
	return r.flag("callbacks-panic")
}
func (r *Root) modular(key string) *Contract {
	return r.mods[key]
}
func (r *Root) afterCallback(e *Exec, st *State) {}

func (r *Root) env(e *Exec, st *State) *senv {
	s := &senv{e: e, st: st, old: r.entry, vars: map[string]sval{}, root: r, pkg: r.pkg, lets: map[string]letDef{}, fin: st}
	for k, v := range r.params {
		s.vars[k] = v
	}
	for _, l := range r.ct.Lets {
		s.lets[l.name] = l
	}
	return s
}

func (e *Exec) obligate(st *State, goal *Term, name, desc string) {
	if e.quiet > 0 || e.root == nil {
		return
	}
	c := e.c
	r := e.root
	if st.dead {
		return
	}
	ob := &Obligation{Func: r.ct.Func, Name: name, Desc: desc}
	t0 := time.Now()
	defer func() {
		ob.Secs = time.Since(t0).Seconds()
		r.obs = append(r.obs, ob)
	}()
	if goal == c.T {
		ob.Status, ob.Solver = "discharged", "simplifier"
		return
	}
	r.mu.Lock()
	dup := r.failed[name]
	r.mu.Unlock()
	if dup {
		ob.Status, ob.Solver = "failed", "-"
		ob.Detail = "same obligation failed on another path"
		return
	}
	// split conjunctions
	goals := []*Term{goal}
	if goal.Op == "and" {
		goals = goal.Args
	}
	var jobs []*job
	for _, g := range goals {
		if e.prove(st, g) {
			if ob.Solver == "" {
				ob.Solver = "z3-new (incremental)"
			}
			continue
		}
		jobs = append(jobs, &job{script: c.Script(append(append([]*Term{}, st.pc...), c.Not(g)), "z3"), goal: clip(g.String(), 1500)})
	}
	if len(jobs) == 0 {
		ob.Status = "discharged"
		return
	}
	r.later(e, ob, name, jobs)
}

type job struct{ script, goal string }

// the hard obligations are handed to the solvers while the execution goes on; those with the same name run one after
// the other, so that a failure is searched for once
func (r *Root) later(e *Exec, ob *Obligation, name string, jobs []*job) {
	if r.queue == nil {
		r.queue = map[string]chan func(){}
	}
	q := r.queue[name]
	if q == nil {
		q = make(chan func(), 1<<14)
		r.queue[name] = q
		r.wg.Add(1)
		go func() {
			defer r.wg.Done()
			for f := range q {
				f()
			}
		}()
	}
	deadline := e.deadline
	ob.Status = "failed"
	q <- func() {
		t0 := time.Now()
		defer func() { ob.Secs += time.Since(t0).Seconds() }()
		r.mu.Lock()
		dup := r.failed[name]
		r.mu.Unlock()
		if dup {
			ob.Solver, ob.Detail = "-", "same obligation failed on another path"
			return
		}
		for _, j := range jobs {
			if !deadline.IsZero() && time.Now().After(deadline) {
				ob.Detail = "time limit"
				return
			}
			res := runScript(j.script, obTimeout, true)
			if res.Status == "unsat" {
				ob.Solver = res.Solver
				continue
			}
			ob.Solver, ob.Query, ob.Model = res.Solver, res.Query, res.Model
			ob.Detail = fmt.Sprintf("solver answered %s for the negated obligation", res.Status)
			if e.debug {
				fmt.Fprintf(os.Stderr, "FAILED %s/%s: %s\n  goal %s\n", r.ct.Func, name, ob.Detail, j.goal)
			}
			r.mu.Lock()
			r.failed[name] = true
			r.mu.Unlock()
			return
		}
		ob.Status = "discharged"
	}
}

func (r *Root) settle() {
	for _, q := range r.queue {
		close(q)
	}
	r.queue = nil
	r.wg.Wait()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var braces = regexp.MustCompile(`\{[^}]*\}`)

// ---- guards

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (r *Root) guardOf(key string) (*guardInfo, string) {
	return nil, ""
}

// guard check for an access through a field place
func (e *Exec) guardAccess(fr *Frame, st *State, addr Val, in ssa.Instruction, write bool) {
	if e.root == nil || len(e.root.guards) == 0 {
		return
	}
	p, ok := e.resolve(addr).(*Place)
	if !ok || p.kind != pkField {
		return
	}
	for _, g := range e.root.guards {
		if g.anon != "" {
			f := p.key[strings.LastIndex(p.key, ".")+1:]
			if p.key == "F:"+g.anon+"."+f && g.fields[f] {
				e.guardCheck(st, g, p.ref, g.anon, "field "+f+" of "+g.name, in, write)
			}
			continue
		}
		pre := "F:" + typeKeyNoArgs(g.T)
		if !strings.HasPrefix(p.key, pre) {
			continue
		}
		f := p.key[strings.LastIndex(p.key, ".")+1:]
		tk := p.key[2 : len(p.key)-len(f)-1]
		if stripArgs(tk) != typeKeyNoArgs(g.T) || !g.fields[f] {
			continue
		}
		e.guardCheck(st, g, p.ref, tk, "field "+f+" of "+g.T.Obj().Name(), in, write)
	}
}

func stripArgs(k string) string {
	if i := strings.Index(k, "["); i >= 0 {
		return k[:i]
	}
	return k
}
func typeKeyNoArgs(n *types.Named) string { return stripArgs(typeKey(n)) }

func (e *Exec) guardCheck(st *State, g *guardInfo, ref *Term, tk, what string, in ssa.Instruction, write bool) {
	if e.quiet > 0 {
		return
	}
	if a := e.rootA(); a != nil && e.prove(st, e.c.Ge(ref, a)) {
		return // not shared yet
	}
	h := ""
	if g.mutex[0] != "@atomic" {
		h = e.heldMode(st, g, ref)
	}
	kind := "read"
	if write {
		kind = "written"
	}
	if h == "x" || (h == "s" && !write) {
		e.obligate(st, e.c.T, "guarded:"+what, what+" is only "+kind+" with its mutex held")
		return
	}
	e.obligate(st, e.c.F, "guarded:"+what, fmt.Sprintf("%s is %s without holding its mutex at %s", what, kind, e.pos(in.Pos())))
}

func (e *Exec) heldMode(st *State, g *guardInfo, ref *Term) string {
	for k, m := range st.held {
		if e.lockMatches(k, g, ref) {
			return m.Name
		}
	}
	return ""
}

// lock key of the guard's mutex for object ref
func (e *Exec) lockMatches(k string, g *guardInfo, ref *Term) bool {
	ref0 := ref
	// walk nested structs
	var T types.Type
	var name string
	if g.anon != "" {
		T, name = g.anonT, g.anon
	} else {
		T, name = g.T, typeKeyNoArgs(g.T)
	}
	st := T.Underlying().(*types.Struct)
	for n, m := range g.mutex {
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != m {
				continue
			}
			found = true
			ft := st.Field(i).Type()
			if n == len(g.mutex)-1 && !isStruct(ft) {
				key := "F:" + name + "." + m
				// instantiated type arguments do not matter
				parts := strings.SplitN(k, "|", 3)
				if len(parts) < 3 || parts[0] != fmt.Sprint(pkField) {
					return false
				}
				kk := parts[1]
				f := kk[strings.LastIndex(kk, ".")+1:]
				tk := kk[2 : len(kk)-len(f)-1]
				return (tk+"."+f == name+"."+m || "F:"+stripArgs(tk)+"."+f == key) && strings.HasSuffix(k, fmt.Sprintf("|r%d", ref0.ID))
			}
			if g.T != nil && g.T.TypeParams().Len() > 0 {
				return false
			}
			ref0 = e.subRef(T, i, ref0)
			T = ft
			st = ft.Underlying().(*types.Struct)
			name = stripArgs(typeKey(ft))
			break
		}
		if !found {
			return false
		}
	}
	return false
}

// remember that a value was read out of a guarded field: using the map later needs the lock
func (e *Exec) guardProv(st *State, p Val, v Val) {
	if e.root == nil || len(e.root.guards) == 0 {
		return
	}
	t, ok := v.(*Term)
	if !ok {
		return
	}
	pl, ok := e.resolve(p).(*Place)
	if !ok || pl.kind != pkField {
		return
	}
	st.prov[t] = pl.key
	e.provRef(t, pl)
}

var _ = sort.Strings

func (e *Exec) provRef(t *Term, pl *Place) {
	if e.provPl == nil {
		e.provPl = map[*Term]*Place{}
	}
	e.provPl[t] = pl
}

func (e *Exec) guardTerm(fr *Frame, st *State, x *Term, in ssa.Instruction, write bool) {
	if e.root == nil || len(e.root.guards) == 0 || st.prov[x] == "" {
		return
	}
	pl := e.provPl[x]
	if pl == nil {
		return
	}
	e.guardAccess(fr, st, pl, in, write)
}

func (e *Exec) guardAcquire(st *State, m Val) {
	if e.root == nil {
		return
	}
	key := e.lockKey(m)
	n := e.lockCount(st, key)
	st.held["#"+key] = e.c.Int(int64(n + 1))
	if e.root.flag("acq") {
		defer func() { st.acq = nil; st.acq = st.clone() }()
	}
	if n == 0 {
		return
	}
	// the lock was released in between: other goroutines may have changed what it guards
	for _, g := range e.root.guards {
		pl, ok := e.resolve(m).(*Place)
		if !ok || pl.kind != pkField {
			continue
		}
		tk := pl.key[2:strings.LastIndex(pl.key, ".")]
		if g.anon != "" && tk != g.anon || g.anon == "" && stripArgs(tk) != typeKeyNoArgs(g.T) {
			continue
		}
		for k := range e.heapSort {
			if !strings.HasPrefix(k, "F:"+tk+".") {
				continue
			}
			f := k[len("F:"+tk+"."):]
			if !g.fields[f] {
				continue
			}
			v := e.freshVal(st, "shared_"+f, e.heapTy[k])
			st.put(k, e.c.Store(st.get(e, k), pl.ref, v))
			if sl, ok := e.heapTy[k].Underlying().(*types.Slice); ok { // and the elements it holds
				bk := e.bkey(sl.Elem())
				if _, basic := sl.Elem().Underlying().(*types.Basic); !basic {
					st.put(bk, e.c.Fresh("shared_elems", st.get(e, bk).Sort))
				}
			}
		}
	}
}

func (e *Exec) lockCount(st *State, key string) int {
	if t := st.held["#"+key]; t != nil {
		return int(t.Int.Int64())
	}
	return 0
}

func (e *Exec) guardRelease(st *State, m Val) {}

// ---- sync.Map hooks

func (e *Exec) interfere(st *State, recv Val) {
	if e.root == nil || !e.root.flag("interfere") {
		return
	}
	c := e.c
	pl, ok := e.resolve(recv).(*Place)
	if !ok || pl.kind != pkField {
		return
	}
	if a := e.rootA(); a != nil && e.prove(st, c.Ge(pl.ref, a)) {
		return
	}
	m := e.syncMapArr(st, recv)
	n := c.Fresh("sm", m.Sort)
	k := c.BoundVar("k", "Any")
	nk := c.Select(n, k)
	ok0 := c.Sel("OptAny", "opt.some", c.Select(m, k))
	if e.root.ct.Flags["interfere"] == "add" {
		// rely: entries are only added by others
		st.assume(c.Forall([]BV{{"k", "Any"}}, c.Imp(ok0, c.Eq(nk, c.Select(m, k))), nk, c.Select(m, k)))
	}
	e.storePtr(st, recv, e.syncMapType(), n)
}

func (e *Exec) smGuarantee(st *State, recv Val, m, nm, key *Term) {
	if e.root == nil || e.root.ct.Flags["interfere"] != "add" {
		return
	}
	c := e.c
	ov := c.Select(m, key)
	e.obligate(st, c.Imp(c.Sel("OptAny", "opt.some", ov), c.Eq(c.Select(nm, key), ov)), "keep-entries", "an existing entry of the shared map is not replaced")
}

// the declared key and value types of the sync.Map behind recv
func (r *Root) smRepOf(e *Exec, recv Val) (kt, vt types.Type, pred *Clause) {
	for _, s := range r.smreps {
		pl, ok := e.resolve(recv).(*Place)
		if !ok || pl.kind != pkField {
			continue
		}
		f := pl.key[strings.LastIndex(pl.key, ".")+1:]
		tk := pl.key[2 : len(pl.key)-len(f)-1]
		if stripArgs(tk) != typeKeyNoArgs(s.T) || f != s.spec.Field {
			continue
		}
		kt, vt := r.smTypes(e, s, tk)
		return kt, vt, s.spec.Pred
	}
	return nil, nil, nil
}

func (r *Root) smPred(e *Exec, st *State, p *Clause, kt, vt types.Type, k, v *Term) *Term {
	env := r.env(e, st)
	env.vars["key"] = sval{t: e.unbox(kt, k), ty: kt}
	env.vars["val"] = sval{t: e.unbox(vt, v), ty: vt}
	return env.boolean(p.Expr)
}

// assumed of every entry read: key and value are boxed values of the declared types
func (r *Root) smInvariant(e *Exec, st *State, recv Val, has, k, v *Term) {
	kt, vt, pred := r.smRepOf(e, recv)
	for i, t := range []types.Type{kt, vt} {
		x := []*Term{k, v}[i]
		if t != nil {
			for _, f := range append([]*Term{e.repOf(t, x)}, e.repFacts(st, t, x)...) {
				st.assume(e.c.Imp(has, f))
			}
		}
	}
	if pred != nil {
		st.assume(e.c.Imp(has, r.smPred(e, st, pred, kt, vt, k, v)))
	}
}

// and shown of every entry written
func (r *Root) smKeep(e *Exec, st *State, recv Val, has, k, v *Term) {
	kt, vt, pred := r.smRepOf(e, recv)
	for i, t := range []types.Type{kt, vt} {
		if t != nil {
			e.obligate(st, e.c.Imp(has, e.repOf(t, []*Term{k, v}[i])), "map-representation", "keys and values stored in the shared map have the declared types")
		}
	}
	if pred != nil {
		e.obligate(st, e.c.Imp(has, r.smPred(e, st, pred, kt, vt, k, v)), "map-representation", "values stored in the shared map satisfy "+pred.Src)
	}
}

func (e *Exec) repFacts(st *State, t types.Type, a *Term) []*Term {
	if isIface(t) {
		return nil
	}
	return e.facts(e.unbox(t, a), t, st)
}

// a is the boxed form of some value of type t
func (e *Exec) repOf(t types.Type, a *Term) *Term {
	if isIface(t) {
		return e.c.Or(e.c.Eq(a, e.anynil), e.hasType(t, a))
	}
	if isTP(t) {
		return e.c.Eq(a, e.box(t, e.unbox(t, a)))
	}
	return e.hasType(t, a)
}

func (r *Root) smTypes(e *Exec, s *smRepInfo, tk string) (types.Type, types.Type) {
	// the concrete instantiation is recovered from the key table
	for k, ty := range e.instTypes {
		if k == tk {
			n := ty
			tp := n.TypeParams()
			ta := n.TypeArgs()
			get := func(name string) types.Type {
				for i := 0; i < tp.Len(); i++ {
					if n.Origin().TypeParams().At(i).Obj().Name() == name && ta != nil && ta.Len() > i {
						return ta.At(i)
					}
				}
				if o := types.Universe.Lookup(name); o != nil {
					return o.Type()
				}
				sfail("smrep: no type %s", name)
				return nil
			}
			return get(s.spec.Key), get(s.spec.Val)
		}
	}
	return nil, nil
}

// ---- running one contract

func (p *Program) verifyContract(sf *SpecFile, ct *Contract, deadline time.Duration) (r *Root, ex *Exec) {
	r = &Root{ct: ct, failed: map[string]bool{}, start: time.Now(), params: map[string]sval{}, tparams: map[string]types.Type{}, mods: map[string]*Contract{}}
	fail := func(name, f string, a ...any) {
		r.obs = append(r.obs, &Obligation{Func: ct.Func, Name: name, Desc: "the function is within reach of the verifier", Status: "failed", Solver: "-", Detail: fmt.Sprintf(f, a...)})
	}
	var e *Exec
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				fail("engine", "%s", x.msg)
			case specError:
				fail("contract", "%s", x.msg)
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(x)
				}
				fail("engine", "internal error: %v", x)
			}
		}
		r.settle()
		if e != nil {
			e.q.close()
		}
	}()
	fn, err := p.find(ct.Pkg, ct.Func)
	if err != nil {
		fail("contract", "%v", err)
		return
	}
	p.build(fn)
	r.fn = fn
	e = NewExec(p, sf)
	ex = e
	e.root = r
	e.deadline = time.Now().Add(deadline)
	r.pkg = p.pkgs[ct.Pkg].Pkg
	for i, tp := range fnTypeParams(fn) {
		_ = i
		r.tparams[tp.Obj().Name()] = tp
	}
	p.namedParams(sf, r)
	for _, c2 := range sf.Contracts {
		if c2.Modular {
			f2, err := p.find(c2.Pkg, c2.Func)
			if err == nil {
				r.mods[funcKey(f2)] = c2
			}
		}
	}
	r.opaque, r.opaqueFn = map[string]*ssa.Function{}, map[string]bool{}
	for _, n := range ct.Opaque {
		pk, fnn := ct.Pkg, n
		if i := strings.Index(n, ":"); i >= 0 {
			pk, fnn = n[:i], n[i+1:]
			if p.pkgs[pk] == nil {
				pk = modPath + "/" + pk
			}
		}
		f2, err := p.find(pk, fnn)
		if err != nil {
			fail("contract", "%v", err)
			return
		}
		if len(f2.Params) == 0 && f2.Blocks == nil {
			p.build(f2)
		}
		r.opaque[n] = f2
		r.opaqueFn[funcKey(f2)] = true
	}
	r.merge = map[string]bool{}
	for _, n := range ct.Merge { // only an efficiency matter: unknown names are ignored
		pk, fnn := ct.Pkg, n
		if i := strings.Index(n, ":"); i >= 0 {
			pk, fnn = n[:i], n[i+1:]
			if p.pkgs[pk] == nil {
				pk = modPath + "/" + pk
			}
		}
		if f2, err := p.find(pk, fnn); err == nil {
			r.merge[funcKey(f2)] = true
		}
	}
	r.stubs = map[string]*ssa.Function{}
	for _, s := range ct.Stubs {
		pk, fnn := ct.Pkg, s[0]
		if i := strings.Index(fnn, ":"); i >= 0 {
			pk, fnn = fnn[:i], fnn[i+1:]
			if p.pkgs[pk] == nil {
				pk = modPath + "/" + pk
			}
		}
		f2, err := p.find(pk, fnn)
		if err == nil {
			var g *ssa.Function
			g, err = p.find(ct.Pkg, s[1])
			if err == nil && !types.Identical(stubSig(f2.Signature), stubSig(g.Signature)) {
				err = fmt.Errorf("stub %s of %s has another signature", s[1], s[0])
			}
			r.stubs[funcKey(f2)] = g
		}
		if err != nil {
			fail("contract", "%v", err)
			return
		}
	}
	r.te = tenv{}
	if ct.TE != nil {
		env := r.env(e, nil)
		for i, tp := range fnTypeParams(fn) {
			_ = i
			if s, ok := ct.TE[tp.Obj().Name()]; ok {
				t := env.resolveType(parseExpr(s, ct.File))
				if t == nil {
					fail("contract", "type %s", s)
					return
				}
				r.te[tp] = t
				r.tparams[tp.Obj().Name()] = t
			}
		}
	}
	sorts := func(s string) string { // {T}: the sort of a Go type
		return braces.ReplaceAllStringFunc(s, func(m string) string {
			t := r.env(e, nil).resolveType(parseExpr(m[1:len(m)-1], ct.File))
			if t == nil {
				sfail("no type %s", m)
			}
			return e.sortOf(t)
		})
	}
	for _, f := range sf.Funs {
		var as []string
		for _, a := range f.Args {
			as = append(as, sorts(a))
		}
		e.c.DeclFun(f.Name, as, sorts(f.Ret))
	}
	for _, a := range sf.Axioms {
		e.c.axioms = append(e.c.axioms, &Axiom{Trig: a.Trig, Raw: sorts(a.Raw)})
		e.c.gen++
		e.note("axiom %s", a.Name)
	}
	for _, g := range sf.Guards {
		if t := p.typeByName(g.Pkg, g.Type); t != nil {
			gi := &guardInfo{T: t, mutex: strings.Split(g.Mutex, "."), fields: map[string]bool{}}
			for _, f := range g.Fields {
				gi.fields[f] = true
			}
			r.guards = append(r.guards, gi)
		} else if v, ok := p.pkgs[g.Pkg].Pkg.Scope().Lookup(g.Type).(*types.Var); ok { // a package variable of an unnamed struct type
			gi := &guardInfo{anon: typeKey(v.Type()), anonT: v.Type(), name: g.Type, mutex: strings.Split(g.Mutex, "."), fields: map[string]bool{}}
			for _, f := range g.Fields {
				gi.fields[f] = true
			}
			r.guards = append(r.guards, gi)
		} else {
			fail("contract", "no type %s in %s", g.Type, g.Pkg)
			return
		}
	}
	for _, s := range sf.SMReps {
		if t := p.typeByName(s.Pkg, s.Type); t != nil {
			r.smreps = append(r.smreps, &smRepInfo{spec: s, T: t})
		}
	}
	// entry state
	st := &State{pcset: map[*Term]bool{}, heap: map[string]*Term{}, env: map[int]map[ssa.Value]Val{}, cells: map[int]Val{}, defers: map[int][]deferred{}, held: map[string]*Term{}, prov: map[*Term]string{}}
	A := st.get(e, "A")
	st.assume(e.c.Ge(A, e.c.Int(1)), e.c.Ge(st.get(e, e.nowKey()), e.c.Int(1)))
	if len(ct.Params) != len(fn.Params) {
		fail("contract", "%s has %d parameters, the contract names %d", ct.Func, len(fn.Params), len(ct.Params))
		return
	}
	var args []Val
	for i, prm := range fn.Params {
		t := r.te.subst(prm.Type())
		v := e.c.Sym("in_"+sanitize(ct.Params[i]), e.sortOf(t))
		st.assume(e.facts(v, t, st)...)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				st.assume(e.c.Neq(v, e.c.Int(0)))
				if !override2(t) {
					st.assume(e.c.Gt(v, e.c.Int(0)))
				}
			}
		}
		args = append(args, v)
		r.params[ct.Params[i]] = sval{t: v, ty: t}
	}
	r.entry = st.clone()
	env := r.env(e, st)
	for _, q := range ct.Requires {
		st.assume(env.boolean(q.Expr))
	}
	r.entry = st.clone()
	if st.dead || e.q.check(st.pc, e.c.T, 2000) == "unsat" {
		fail("vacuity", "the preconditions are contradictory")
		return
	}
	var top Kont
	k := Kont{
		Ret: func(st *State, res []Val) {
			if st.dead || e.q.check(st.pc, e.c.T, 300) == "unsat" {
				return
			}
			if e.quiet > 0 {
				return
			}
			if len(st.gos) > 0 {
				e.runGos(st, Kont{Ret: func(st *State, _ []Val) { top.Ret(st, res) }, Panic: func(st *State, v *Term, why string) { top.Panic(st, v, why) }})
				return
			}
			r.exits++
			env := r.env(e, st)
			rs := fn.Signature.Results()
			for i, v := range res {
				sv := env.wrapv(v, r.te.subst(rs.At(i).Type()))
				if sv.t == nil {
					sv.t = e.term(v, sv.ty)
				}
				env.vars[fmt.Sprintf("result%d", i)] = sv
				if i == 0 {
					env.vars["result"] = sv
				}
			}
			for key := range st.held {
				if !strings.HasPrefix(key, "#") {
					e.obligate(st, e.c.F, "locks-released", "every mutex taken is released on return")
				}
			}
			for _, q := range ct.Must {
				e.obligate(st, e.c.Not(r.oldEnv(e).boolean(q.Expr)), "mustpanic", "does not return normally when "+q.Src)
			}
			for i, q := range ct.Ensures {
				e.obligate(st, env.boolean(q.Expr), q.Label, q.Src)
				if antecedents {
					r.reached(i, q, func(x ast.Expr) bool { return e.q.check(st.pc, env.boolean(x), 1000) != "unsat" })
				}
			}
			if ct.Modular { // callers rely on the modifies clauses
				var fr []ast.Expr
				for _, m := range ct.Modifies {
					fr = append(fr, m.Expr)
				}
				e.obligate(st, env.onlyModifies(fr), "modifies", "only the declared locations are modified")
				for _, key := range sortedKeys(st.heap) {
					if strings.HasPrefix(key, "T:") && st.heap[key] != r.entry.get(e, key) {
						e.obligate(st, e.c.Eq(st.heap[key], r.entry.get(e, key)), "modifies", "no recorded calls are made")
					}
				}
			}
		},
		Panic: func(st *State, v *Term, why string) {
			if st.dead || e.q.check(st.pc, e.c.T, 300) == "unsat" {
				return
			}
			if e.quiet > 0 {
				return
			}
			r.panics++
			env := r.env(e, st)
			env.vars["panicval"] = sval{t: v, ty: types.NewInterfaceType(nil, nil)}
			for key := range st.held {
				if !strings.HasPrefix(key, "#") {
					e.obligate(st, e.c.F, "locks-released", "every mutex taken is released when panicking")
				}
			}
			for _, q := range ct.OnPanic {
				e.obligate(st, env.boolean(q.Expr), q.Label, q.Src)
			}
			if ct.MayPanic || (why == "callback panic" && r.callbacksPanic()) {
				return
			}
			ok := e.c.F
			for _, q := range ct.Panics {
				ok = e.c.Or(ok, r.oldEnv(e).boolean(q.Expr))
			}
			e.obligate(st, ok, "no-panic", "no panic outside the documented cases ("+why+")")
		},
	}
	top = k
	e.runFunc(nil, fn, r.te, nil, args, st, false, k)
	for n, ok := range r.ants {
		if !ok {
			fmt.Printf("condition never met: %s / %s\n", ct.Func, n)
		}
	}
	if r.exits == 0 && !r.flag("never-returns") {
		fail("vacuity", "no execution reaches the end of the function")
	}
	return
}

var antecedents bool

// notes which conditions of a clause's implications can hold at an exit
func (r *Root) reached(i int, q Clause, sat func(ast.Expr) bool) {
	if r.ants == nil {
		r.ants = map[string]bool{}
	}
	k := 0
	var walk func(x ast.Expr)
	walk = func(x ast.Expr) {
		switch x := x.(type) {
		case *ast.ParenExpr:
			walk(x.X)
		case *ast.BinaryExpr:
			if x.Op == token.LAND {
				walk(x.X)
				walk(x.Y)
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "imp" && len(x.Args) == 2 {
				n := fmt.Sprintf("%s#%d.%d", q.Label, i, k)
				k++
				if !r.ants[n] {
					r.ants[n] = sat(x.Args[0])
				}
			}
		}
	}
	walk(q.Expr)
}

func override2(t types.Type) bool {
	_, ok := override(deref(t))
	return ok
}

func (r *Root) oldEnv(e *Exec) *senv { return r.env(e, r.entry) }

func fnTypeParams(fn *ssa.Function) []*types.TypeParam {
	var out []*types.TypeParam
	tl := fn.TypeParams()
	for i := 0; i < tl.Len(); i++ {
		out = append(out, tl.At(i))
	}
	return out
}

func (p *Program) typeByName(pkg, name string) *types.Named {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return namedOf(o.Type())
}

func (p *Program) namedParams(sf *SpecFile, r *Root) {
	if sf == nil || sf.TyParams == "" || len(r.tparams) > 0 {
		return
	}
	if n := p.typeByName(sf.TyPkg, sf.TyParams); n != nil {
		for i := 0; i < n.TypeParams().Len(); i++ {
			r.tparams[n.TypeParams().At(i).Obj().Name()] = n.TypeParams().At(i)
		}
	}
}

// ---- modular calls

func (e *Exec) applyContract(fr *Frame, st *State, ct *Contract, fn *ssa.Function, te tenv, args []Val, in ssa.Instruction, k Kont) {
	r := &Root{ct: ct, fn: fn, params: map[string]sval{}, tparams: map[string]types.Type{}, pkg: e.p.pkgs[ct.Pkg].Pkg, failed: map[string]bool{}}
	if len(ct.Params) != len(args) {
		e.fail("contract of %s: arity", ct.Func)
	}
	if fn.Origin() != nil {
		for i, tp := range fnTypeParams(fn.Origin()) {
			r.tparams[tp.Obj().Name()] = te.subst(fn.TypeArgs()[i])
		}
	} else {
		for _, tp := range fnTypeParams(fn) {
			r.tparams[tp.Obj().Name()] = te.subst(tp)
		}
	}
	e.p.namedParams(e.spec, r)
	sig := fn.Signature
	for i := range args {
		var t types.Type
		if sig.Recv() != nil {
			if i == 0 {
				t = sig.Recv().Type()
			} else {
				t = sig.Params().At(i - 1).Type()
			}
		} else {
			t = sig.Params().At(i).Type()
		}
		t = te.subst(t)
		r.params[ct.Params[i]] = sval{t: e.term(args[i], t), ty: t}
	}
	pre := st.clone()
	r.entry = pre
	env := r.env(e, st)
	for _, q := range ct.Requires {
		e.obligate(st, env.boolean(q.Expr), "pre:"+ct.Func, "precondition of "+ct.Func+": "+q.Src)
		st.assume(env.boolean(q.Expr))
	}
	// effects
	if _, ok := ct.Flags["pure"]; !ok {
		env.havocModifies(ct.Modifies)
	}
	post := st
	if ct.MayPanic || len(ct.Panics) > 0 {
		s2 := st.clone()
		ok := e.c.F
		for _, q := range ct.Panics {
			ok = e.c.Or(ok, r.env(e, pre).boolean(q.Expr))
		}
		if ct.MayPanic {
			ok = e.c.T
		}
		s2.assume(ok)
		if !s2.dead && e.q.check(s2.pc, e.c.T, 200) != "unsat" {
			v := e.c.Fresh("panic", "Any")
			s2.assume(e.c.Neq(v, e.anynil))
			k.Panic(s2, v, "panic of "+ct.Func)
		}
	}
	for _, q := range ct.Must {
		post.assume(e.c.Not(r.env(e, pre).boolean(q.Expr)))
	}
	env = r.env(e, post)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := te.subst(sig.Results().At(i).Type())
		v := e.freshVal(post, "res", t)
		res = append(res, v)
		env.vars[fmt.Sprintf("result%d", i)] = sval{t: v, ty: t}
		if i == 0 {
			env.vars["result"] = sval{t: v, ty: t}
		}
	}
	export := strings.Fields(ct.Flags["export"])
	for _, q := range ct.Ensures {
		if len(export) > 0 && !inList(export, q.Label) {
			continue // callers do not need it
		}
		post.assume(env.boolean(q.Expr))
	}
	e.inlined["contract:"+ct.Func] = true
	k.Ret(post, res)
}

func (s *senv) havocModifies(ms []Clause) {
	e := s.e
	// callees allocate
	a := e.c.Fresh("A", "Int")
	s.st.assume(e.c.Le(s.st.get(e, "A"), a))
	s.st.put("A", a)
	for _, m := range ms {
		n := *s
		n.st = s.old
		if ca, ok := m.Expr.(*ast.CallExpr); ok {
			id, _ := ca.Fun.(*ast.Ident)
			if id == nil || len(ca.Args) != 1 {
				sfail("modifies %s", m.Src)
			}
			switch id.Name {
			case "obj":
				v := n.eval(ca.Args[0])
				T := deref(v.ty)
				ref := n.tm(v)
				for i := 0; i < e.structType(T).NumFields(); i++ {
					ft := e.structType(T).Field(i).Type()
					if isStruct(ft) {
						continue
					}
					e.store(s.st, &Place{kind: pkField, key: e.fkey(T, i), ref: ref, base: ft}, e.freshVal(s.st, "mod", ft))
				}
				continue
			case "elems", "spare":
				v := n.eval(ca.Args[0])
				t := n.tm(v)
				k := e.bkey(v.ty.Underlying().(*types.Slice).Elem())
				lo, hi := e.slOff(t), e.c.Add(e.slOff(t), e.slLen(t))
				if id.Name == "spare" {
					lo, hi = hi, e.c.Add(e.slOff(t), e.slCap(t))
				}
				h := s.st.get(e, k)
				old := e.c.Select(h, e.slRef(t))
				nw := e.c.Fresh("mod", old.Sort)
				iv := e.c.BoundVar("i", "Int")
				x := e.c.Select(nw, iv)
				s.st.assume(e.c.Forall([]BV{{"i", "Int"}}, e.c.Imp(e.c.Not(e.c.And(e.c.Le(lo, iv), e.c.Lt(iv, hi))), e.c.Eq(x, e.c.Select(old, iv))), x))
				s.st.put(k, e.c.Store(h, e.slRef(t), nw))
				continue
			case "entries":
				v := n.eval(ca.Args[0])
				k := e.mkey(v.ty)
				h := s.st.get(e, k)
				ref := n.tm(v)
				s.st.put(k, e.c.Store(h, ref, e.c.Fresh("mod", e.c.Select(h, ref).Sort)))
				continue
			}
			sfail("modifies %s", m.Src)
		}
		v := n.addr(m.Expr)
		p, ok := v.v.(*Place)
		if !ok {
			sfail("modifies %s", m.Src)
		}
		e.store(s.st, p, e.freshVal(s.st, "mod", p.typ()))
	}
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// the signature with the receiver as the first parameter and without names
func stubSig(s *types.Signature) *types.Signature {
	var ps []*types.Var
	if s.Recv() != nil {
		ps = append(ps, types.NewParam(0, nil, "", s.Recv().Type()))
	}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.NewParam(0, nil, "", s.Params().At(i).Type()))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), s.Results(), s.Variadic())
}
