package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type activeLoop struct {
	frame  int
	header *ssa.BasicBlock
	nat    *natLoop
	quiet  bool
	onBack func(st *State, from *ssa.BasicBlock)
}

type loopVar struct {
	name string
	ty   types.Type
	init Val
}

type loopDef struct {
	id   string
	fr   *Frame
	ord  int
	vars []loopVar
	run  func(st *State, vals []Val, quiet bool, back func(st *State, vals []Val))
}

func (e *Exec) enterLoop(fr *Frame, nl *natLoop, from *ssa.BasicBlock, st *State) {
	h := nl.header
	vs := e.phiVals(fr, from, h, st)
	def := &loopDef{fr: fr, id: fmt.Sprintf("%s loop at %s", fr.fn.Name(), e.pos(loopPos(h)))}
	for o := range fr.li.header {
		if o.Index <= h.Index {
			def.ord++
		}
	}
	for i, v := range vs {
		ph := h.Instrs[i].(*ssa.Phi)
		def.vars = append(def.vars, loopVar{ph.Comment, e.typ(fr, ph), v})
	}
	def.run = func(st *State, vals []Val, quiet bool, back func(st *State, vals []Val)) {
		al := &activeLoop{frame: fr.id, header: h, nat: nl, quiet: quiet}
		sent := st.queued()
		needAcq := st.acq != nil
		al.onBack = func(st *State, from *ssa.BasicBlock) {
			if needAcq && !st.asAcquired(e) {
				e.fail("the state changes between taking the lock and the next turn of the loop at %s", e.pos(loopPos(h)))
			}
			if st.queued() != sent {
				e.fail("a loop that sends to or receives from a channel of this function at %s", e.pos(loopPos(h)))
			}
			nv := e.phiVals(fr, from, h, st)
			st.loops = st.loops[:len(st.loops)-1]
			back(st, nv)
		}
		st.loops = append(st.loops, al)
		for i, v := range vals {
			st.set(fr, h.Instrs[i].(*ssa.Phi), v)
		}
		e.block(fr, h, 0, st)
	}
	e.loop(st, def)
}

// nothing was changed since the lock was taken
func (s *State) asAcquired(e *Exec) bool {
	if s.acq == nil {
		return false
	}
	for k, t := range s.heap {
		if !strings.HasPrefix(k, "T:") && s.acq.get(e, k) != t {
			return false
		}
	}
	return true
}

func (s *State) queued() (n int) {
	for _, q := range s.queue {
		n += len(q)
	}
	return n
}

func loopPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

type heapMod struct {
	refs  map[*Term]bool
	whole bool
	inner map[*Term]map[*Term]bool // for 2-level arrays: ref -> stored indices
}

type modSet struct {
	phi   map[int]bool
	cells map[int]bool
	heap  map[string]*heapMod
}

func valSame(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Place:
		if y, ok := b.(*Place); ok {
			return x.k() == y.k()
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			if x.key != "" && x.key == y.key {
				return true
			}
			if x.fn != y.fn || x.fn == nil || len(x.binds) != len(y.binds) {
				return false
			}
			for i := range x.binds {
				if !valSame(x.binds[i], y.binds[i]) {
					return false
				}
			}
			return true
		}
	case *mapIter:
		if y, ok := b.(*mapIter); ok {
			return *x == *y
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			for i := range x {
				if !valSame(x[i], y[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// names of store targets between two versions of a heap array
func storeChain(t, base *Term, refs map[*Term]bool) bool {
	ok, got := false, map[*Term]bool{}
	if ok = storeChain1(t, base, got); !ok && base.Op == "store" { // a store over the same index was simplified away
		got = map[*Term]bool{base.Args[1]: true}
		ok = storeChain(t, base.Args[0], got)
	}
	if ok {
		for r := range got {
			refs[r] = true
		}
	}
	return ok
}

func storeChain1(t, base *Term, refs map[*Term]bool) bool {
	for t != base {
		switch t.Op {
		case "store":
			refs[t.Args[1]] = true
			t = t.Args[0]
		case "ite":
			return storeChain1(t.Args[1], base, refs) && storeChain1(t.Args[2], base, refs)
		default:
			return false
		}
	}
	return true
}

type cand struct {
	name string
	user bool
	eval func(st *State, vals []Val, n *Term) *Term
	prio int
}

type observable struct {
	name  string
	get   func(st *State, vals []Val) *Term
	ty    types.Type
	mod   bool
	fixed bool
	id    int
}

func (e *Exec) loop(st0 *State, def *loopDef) {
	c := e.c
	if len(e.curLoop) > 12 {
		e.fail("loop nesting at %s", def.id)
	}
	e.curLoop = append(e.curLoop, def.id)
	mark := c.nbirth
	mod := &modSet{phi: map[int]bool{}, cells: map[int]bool{}, heap: map[string]*heapMod{}}
	A0 := st0.get(e, "A")
	init := make([]Val, len(def.vars))
	for i, v := range def.vars {
		init[i] = v.init
	}
	savedCmp := e.branchCmp
	e.branchCmp = map[*Term]bool{}
	cells0 := map[int]Val{}
	for k, v := range st0.cells {
		cells0[k] = v
	}

	// ---- discovery of the modified locations
	var hdr *State
	var hvals []Val
	e.quiet++
	e.discover++
	for round := 0; ; round++ {
		if round > 12 {
			e.fail("modified locations do not stabilise at %s", def.id)
		}
		hdr, hvals = e.havoc(st0, def, mod, A0, mark)
		changed := false
		run := hdr.clone()
		hd := hdr
		hv := hvals
		def.run(run, hv, true, func(st *State, vals []Val) {
			for i := range vals {
				if !valSame(vals[i], hv[i]) && !mod.phi[i] {
					mod.phi[i] = true
					changed = true
				}
			}
			for id := range cells0 {
				if nv, ok := st.cells[id]; ok && !valSame(nv, hd.cells[id]) && !mod.cells[id] {
					mod.cells[id] = true
					changed = true
				}
			}
			for k, t := range st.heap {
				h := hd.get(e, k)
				if t == h {
					continue
				}
				m := mod.heap[k]
				if m == nil {
					m = &heapMod{refs: map[*Term]bool{}, inner: map[*Term]map[*Term]bool{}}
					mod.heap[k] = m
					changed = true
				}
				if !strings.HasPrefix(t.Sort, "(Array") {
					continue
				}
				if m.whole {
					continue
				}
				refs := map[*Term]bool{}
				if !storeChain(t, h, refs) {
					if os.Getenv("GOVC_CHAIN") != "" && strings.Contains(k, os.Getenv("GOVC_CHAIN")) {
						fmt.Fprintln(os.Stderr, "CHAIN", k, t.String(), "\n  FROM", h.String())
					}
					m.whole = true
					changed = true
					continue
				}
				for r := range refs {
					if m.refs[r] {
						continue
					}
					if os.Getenv("GOVC_CHAIN") != "" && strings.Contains(k, os.Getenv("GOVC_CHAIN")) {
						fmt.Fprintln(os.Stderr, "REF", k, r.String(), c.older(r, mark), A0)
					}
					if !c.older(r, mark) || (r.Sort == "Int" && e.prove(st, c.Ge(r, A0))) {
						m.whole = true
						changed = true
						continue
					}
					m.refs[r] = true
					changed = true
				}
			}
		})
		if !changed {
			break
		}
	}
	e.discover--
	stack := strings.Join(e.curLoop, "|")
	for k := range e.failedInv {
		if strings.HasPrefix(k, stack+"|") {
			delete(e.failedInv, k)
		}
	}
	// whole: refs provably old stay as named exceptions of the frame candidate

	// ---- candidates
	cmps := e.branchCmp
	e.branchCmp = savedCmp
	for k := range cmps {
		if c.older(k, mark) {
			savedCmp[k] = true
		}
	}
	obs := e.observables(st0, def, mod, mark)
	cands := e.templates(st0, def, mod, obs, A0, hdr, hvals, cmps, mark)
	if e.discover == 0 {
		for _, cd := range e.userCands(st0, def, obs, cells0) {
			if !e.failedInv[stack+"#"+cd.name] {
				cands = append(cands, cd)
			}
		}
	}
	zero := c.Int(0)
	n := c.Fresh("iter", "Int")
	hdr.assume(c.Le(zero, n), c.Le(n, c.Int(1<<60)))
	var live []*cand
	for _, cd := range cands {
		t := e.candEval(cd, st0, init, zero)
		if t == nil {
			continue
		}
		if e.proveCand(st0, t, cd.user) {
			live = append(live, cd)
		} else if cd.user {
			e.failedInv[stack+"#"+cd.name] = true
			if e.debug2 {
				fmt.Fprintf(os.Stderr, "[%s] init fails: %s\n", def.id, cd.name)
			}
		}
	}
	// ---- Houdini
	for round := 0; ; round++ {
		if round > 40 {
			e.fail("invariant inference does not converge at %s", def.id)
		}
		h := hdr.clone()
		var next []*cand
		for _, cd := range live {
			t := e.candEval(cd, h, hvals, n)
			if t == nil {
				continue
			}
			h.assume(t)
			next = append(next, cd)
		}
		live = next
		if h.dead {
			break
		}
		bad := map[*cand]bool{}
		def.run(h, hvals, true, func(st *State, vals []Val) {
			n1 := c.Add(n, c.Int(1))
			if e.q.check(st.pc, c.T, 200) == "unsat" {
				return
			}
			var hard []*cand
			var hardT []*Term
			for _, cd := range live {
				if bad[cd] {
					continue
				}
				t := e.candEval(cd, st, vals, n1)
				if t != nil && e.prove(st, t) {
					continue
				}
				if t != nil && cd.user {
					hard = append(hard, cd)
					hardT = append(hardT, t)
					continue
				}
				bad[cd] = true
			}
			for i, ok := range e.proveAll(st, hardT) {
				if !ok {
					cd := hard[i]
					bad[cd] = true
					e.failedInv[stack+"#"+cd.name] = true
					if e.debug2 {
						fmt.Fprintf(os.Stderr, "[%s] round %d drops %s\n", def.id, round, cd.name)
					}
				}
			}
		})
		if len(bad) == 0 {
			break
		}
		// auto candidates that fail may be the reason a user invariant is not
		// inductive only through other user invariants; drop and retry
		next = nil
		for _, cd := range live {
			if !bad[cd] {
				next = append(next, cd)
			}
		}
		live = next
	}
	e.quiet--
	// ---- use
	h := hdr.clone()
	for _, cd := range live {
		if t := e.candEval(cd, h, hvals, n); t != nil {
			h.assume(t)
		}
	}
	if e.debug {
		var ns []string
		for _, cd := range live {
			if cd.user {
				ns = append(ns, cd.name)
			}
		}
		var al []string
		for _, cd := range live {
			if !cd.user {
				al = append(al, cd.name)
			}
		}
		fmt.Fprintf(os.Stderr, "[%s] mod: %s\n   user invariants kept: %s\n   auto: %s\n", def.id, mod.str(), strings.Join(ns, " ; "), strings.Join(al, " ; "))
	}
	e.curLoop = e.curLoop[:len(e.curLoop)-1]
	saved := e.curLoop
	def.run(h, hvals, false, func(st *State, vals []Val) {
		e.pathEnd()
	})
	e.curLoop = saved
}

func (e *Exec) pathEnd() {}

func (e *Exec) anyBadUser(bad map[*cand]bool, live []*cand) bool { return false }

func (m *modSet) str() string {
	var ks []string
	for k, h := range m.heap {
		s := k
		if h.whole {
			s += "(whole)"
		}
		s += fmt.Sprintf("(%d refs)", len(h.refs))
		ks = append(ks, s)
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d phis %d cells heap %s", len(m.phi), len(m.cells), strings.Join(ks, ", "))
}

func (e *Exec) candEval(cd *cand, st *State, vals []Val, n *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specError); ok {
				if e.debug {
					fmt.Fprintf(os.Stderr, "candidate %s: %s\n", cd.name, se.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.eval(st, vals, n)
}

// the full portfolio on several goals at once
func (e *Exec) proveAll(st *State, ts []*Term) []bool {
	out := make([]bool, len(ts))
	var wg sync.WaitGroup
	for i, t := range ts {
		key := fmt.Sprintf("cand:%d:", t.ID)
		for _, p := range st.pc {
			key += fmt.Sprintf("%d,", p.ID)
		}
		if r, ok := e.q.cache[key]; ok {
			out[i] = r == "unsat"
			continue
		}
		q := e.c.Script(append(append([]*Term{}, st.pc...), e.c.Not(t)), "z3")
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := runScript(q, userInvTimeout, false)
			if d := os.Getenv("GOVC_DUMP"); d != "" && e.debug2 && r.Status != "unsat" {
				os.WriteFile(fmt.Sprintf("%s/cand_%d.smt2", d, ts[i].ID), []byte(q), 0o644)
			}
			if e.debug && r.Time > 1300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "   slow candidate %s (%.1fs %s): %s\n", r.Status, r.Time.Seconds(), r.Solver, clip(t.String(), 200))
			}
			out[i] = r.Status == "unsat"
		}()
	}
	wg.Wait()
	for i, t := range ts {
		key := fmt.Sprintf("cand:%d:", t.ID)
		for _, p := range st.pc {
			key += fmt.Sprintf("%d,", p.ID)
		}
		e.q.cache[key] = map[bool]string{true: "unsat", false: "unknown"}[out[i]]
	}
	return out
}

func (e *Exec) proveCand(st *State, t *Term, user bool) bool {
	if e.prove(st, t) {
		return true
	}
	if !user {
		return false
	}
	key := fmt.Sprintf("cand:%d:", t.ID)
	for _, p := range st.pc {
		key += fmt.Sprintf("%d,", p.ID)
	}
	if r, ok := e.q.cache[key]; ok {
		return r == "unsat"
	}
	r := e.c.Check(append(append([]*Term{}, st.pc...), e.c.Not(t)), userInvTimeout, false)
	e.q.cache[key] = r.Status
	return r.Status == "unsat"
}

func (e *Exec) freshVal(st *State, name string, t types.Type) *Term {
	v := e.c.Fresh(name, e.sortOf(t))
	st.assume(e.facts(v, t, st)...)
	return v
}

// header state: everything in mod is arbitrary
func (e *Exec) havoc(st0 *State, def *loopDef, mod *modSet, A0 *Term, mark int) (*State, []Val) {
	c := e.c
	h := st0.clone()
	if _, ok := mod.heap["A"]; ok {
		a := c.Fresh("A", "Int")
		h.put("A", a)
		h.assume(c.Le(A0, a))
	}
	keys := make([]string, 0, len(mod.heap))
	for k := range mod.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "A" {
			continue
		}
		m := mod.heap[k]
		old := st0.get(e, k)
		if !strings.HasPrefix(old.Sort, "(Array") {
			if ty := e.heapTy[k]; ty != nil {
				h.put(k, e.freshVal(h, "g", ty))
			} else {
				v := c.Fresh("g", old.Sort)
				if old.Sort == "Int" && strings.HasPrefix(k, "T:") {
					h.assume(c.Le(old, v))
				}
				h.put(k, v)
			}
			continue
		}
		if m.whole {
			v := c.Fresh("H_"+k, old.Sort)
			h.put(k, v)
			if f := e.heapFact(k, v); f != nil {
				h.assume(f)
			}
			continue
		}
		t := old
		_, vs := splitArr(old.Sort)
		var rs []*Term
		for r := range m.refs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
		for _, r := range rs {
			v := c.Fresh("h_"+k, vs)
			if strings.HasPrefix(k, "M:") {
				// nil maps stay empty
				h.assume(c.Imp(c.Eq(r, c.Int(0)), c.Eq(v, c.Select(old, r))))
			}
			if strings.HasPrefix(k, "T:cnt") {
				h.assume(c.Le(c.Select(old, r), v))
			}
			t = c.Store(t, r, v)
		}
		h.put(k, t)
	}
	var cs []int
	for id := range mod.cells {
		cs = append(cs, id)
	}
	sort.Ints(cs)
	for _, id := range cs {
		h.cells[id] = e.havocVal(h, "cell", e.cellTy[id], st0.cells[id])
	}
	h.acq = nil
	if st0.asAcquired(e) {
		h.acq = h.clone()
	}
	vals := make([]Val, len(def.vars))
	for i, v := range def.vars {
		if mod.phi[i] {
			vals[i] = e.havocVal(h, "phi_"+v.name, v.ty, v.init)
		} else {
			vals[i] = v.init
		}
	}
	return h, vals
}

func (e *Exec) havocVal(h *State, name string, t types.Type, old Val) Val {
	if it, ok := old.(*mapIter); ok {
		n := *it
		n.n = e.c.Fresh("itn", "Int")
		h.assume(e.c.Le(e.c.Int(0), n.n))
		if it.str != nil {
			n.pos = e.c.Fresh("itpos", "Int")
			h.assume(e.c.Le(e.c.Int(0), n.pos), e.c.Le(n.pos, e.c.B("str.len", "Int", it.str)), e.c.Le(n.n, n.pos))
		} else {
			n.vis = e.c.Fresh("itvis", it.vis.Sort)
		}
		return &n
	}
	if t == nil {
		e.fail("havoc of an untyped value")
	}
	if tu, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, e.freshVal(h, name, tu.At(i).Type()))
		}
		return r
	}
	return e.freshVal(h, name, t)
}

// ---- observables

func (e *Exec) observables(st0 *State, def *loopDef, mod *modSet, mark int) []*observable {
	var out []*observable
	for i, v := range def.vars {
		i := i
		v := v
		if _, ok := v.init.(*Term); !ok && !mod.phi[i] {
			continue
		}
		out = append(out, &observable{name: "phi:" + v.name, ty: v.ty, mod: mod.phi[i], get: func(st *State, vals []Val) *Term { return e.term(vals[i], v.ty) }})
	}
	var cs []int
	for id := range st0.cells {
		cs = append(cs, id)
	}
	sort.Ints(cs)
	for _, id := range cs {
		id := id
		t := e.cellTy[id]
		if t == nil {
			continue
		}
		if !mod.cells[id] {
			if _, ok := st0.cells[id].(*Term); !ok {
				continue
			}
		}
		out = append(out, &observable{name: fmt.Sprintf("cell%d", id), ty: t, mod: mod.cells[id], get: func(st *State, vals []Val) *Term { return e.term(st.cells[id], t) }})
	}
	var ks []string
	for k := range mod.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		m := mod.heap[k]
		if strings.HasPrefix(k, "G:") && e.heapTy[k] != nil {
			out = append(out, &observable{name: k, ty: e.heapTy[k], mod: true, get: func(st *State, vals []Val) *Term { return st.get(e, k) }})
			continue
		}
		if (strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "P:")) && e.heapTy[k] != nil && len(m.refs) <= 4 {
			var rs []*Term
			for r := range m.refs {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
			for _, r := range rs {
				r := r
				out = append(out, &observable{name: k + "@" + r.String(), ty: e.heapTy[k], mod: true, get: func(st *State, vals []Val) *Term { return e.c.Select(st.get(e, k), r) }})
			}
		}
		if strings.HasPrefix(k, "T:cnt") && !m.whole {
			for r := range m.refs {
				r := r
				out = append(out, &observable{name: k + "@" + r.String(), ty: types.Typ[types.Int], mod: true, get: func(st *State, vals []Val) *Term { return e.c.Select(st.get(e, k), r) }})
			}
		}
		if strings.HasPrefix(k, "M:") && !m.whole {
			for r := range m.refs {
				r := r
				_, dt := splitArr(e.heapSort[k])
				out = append(out, &observable{name: "len " + k + "@" + r.String(), ty: types.Typ[types.Int], mod: true, get: func(st *State, vals []Val) *Term { return e.c.Sel(dt, dt+".n", e.c.Select(st.get(e, k), r)) }})
			}
		}
	}
	// values computed before the loop
	if def.fr != nil {
		seen := map[*Term]bool{}
		var fx []*observable
		for v, x := range st0.env[def.fr.id] {
			t, ok := x.(*Term)
			if !ok || seen[t] || t.Op == "int" && v.Name() != "" && t.Int.IsInt64() && t.Int.Int64() < 0 {
				continue
			}
			seen[t] = true
			ty := e.typ(def.fr, v)
			if _, tup := ty.(*types.Tuple); tup || ty == nil {
				continue
			}
			fx = append(fx, &observable{name: v.Name(), ty: ty, id: t.ID, fixed: true, get: func(st *State, vals []Val) *Term { return t }})
		}
		sort.Slice(fx, func(i, j int) bool { return fx[i].id < fx[j].id })
		out = append(out, fx...)
	}
	return out
}

type intObs struct {
	name string
	get  func(st *State, vals []Val, n *Term) *Term
	init *Term
	isN  bool
}

func (e *Exec) templates(st0 *State, def *loopDef, mod *modSet, obs []*observable, A0 *Term, hdr *State, hvals []Val, cmps map[*Term]bool, mark int) []*cand {
	c := e.c
	init := make([]Val, len(def.vars))
	for i, v := range def.vars {
		init[i] = v.init
	}
	var out []*cand
	add := func(name string, f func(st *State, vals []Val, n *Term) *Term) {
		out = append(out, &cand{name: name, eval: f})
	}
	var ints []*intObs
	ints = append(ints, &intObs{name: "$n", get: func(st *State, vals []Val, n *Term) *Term { return n }, init: c.Int(0), isN: true})
	var slRefs []*Term
	for _, o := range obs {
		o := o
		i0 := func() *Term { return o.get(st0, init) }()
		if o.ty != nil && i0.Sort == "Slice" && !o.mod {
			continue
		}
		if !o.mod {
			continue
		}
		switch {
		case i0.Sort == "Int":
			ints = append(ints, &intObs{name: o.name, get: func(st *State, vals []Val, n *Term) *Term { return o.get(st, vals) }, init: i0})
		case i0.Sort == "Slice":
			slRefs = append(slRefs, e.slRef(i0))
			ints = append(ints, &intObs{name: "len(" + o.name + ")", get: func(st *State, vals []Val, n *Term) *Term { return e.slLen(o.get(st, vals)) }, init: e.slLen(i0)})
			add(o.name+" same array", func(st *State, vals []Val, n *Term) *Term { return c.Eq(e.slRef(o.get(st, vals)), e.slRef(i0)) })
			add(o.name+" same off", func(st *State, vals []Val, n *Term) *Term { return c.Eq(e.slOff(o.get(st, vals)), e.slOff(i0)) })
			add(o.name+" zero off", func(st *State, vals []Val, n *Term) *Term { return c.Eq(e.slOff(o.get(st, vals)), c.Int(0)) })
			add(o.name+" same cap", func(st *State, vals []Val, n *Term) *Term { return c.Eq(e.slCap(o.get(st, vals)), e.slCap(i0)) })
			add(o.name+" end", func(st *State, vals []Val, n *Term) *Term {
				x := o.get(st, vals)
				return c.Eq(c.Add(e.slOff(x), e.slCap(x)), c.Add(e.slOff(i0), e.slCap(i0)))
			})
			add(o.name+" fresh", func(st *State, vals []Val, n *Term) *Term { return c.Ge(e.slRef(o.get(st, vals)), A0) })
			add(o.name+" nil or fresh", func(st *State, vals []Val, n *Term) *Term {
				x := o.get(st, vals)
				return c.Or(c.Ge(e.slRef(x), A0), c.And(c.Eq(e.slRef(x), c.Int(0)), c.Eq(e.slCap(x), c.Int(0))))
			})
			add(o.name+" fresh or initial", func(st *State, vals []Val, n *Term) *Term {
				x := o.get(st, vals)
				return c.Or(c.Ge(e.slRef(x), A0), c.Eq(e.slRef(x), e.slRef(i0)))
			})
			if a := e.rootA(); a != nil && a != A0 {
				add(o.name+" fresh for the function", func(st *State, vals []Val, n *Term) *Term { return c.Ge(e.slRef(o.get(st, vals)), a) })
				add(o.name+" nil or fresh for the function", func(st *State, vals []Val, n *Term) *Term {
					x := o.get(st, vals)
					return c.Or(c.Ge(e.slRef(x), a), c.And(c.Eq(e.slRef(x), c.Int(0)), c.Eq(e.slCap(x), c.Int(0))))
				})
			}
		}
		if i0.Sort != "Slice" {
			add(o.name+" unchanged", func(st *State, vals []Val, n *Term) *Term { return c.Eq(o.get(st, vals), i0) })
		}
		if i0.Sort == "String" {
			ints = append(ints, &intObs{name: "len(" + o.name + ")", get: func(st *State, vals []Val, n *Term) *Term { return c.B("str.len", "Int", o.get(st, vals)) }, init: c.B("str.len", "Int", i0)})
			add(o.name+" prefix", func(st *State, vals []Val, n *Term) *Term { return c.B("str.prefixof", "Bool", i0, o.get(st, vals)) })
		}
		if i0.Sort == "Bool" {
			add(o.name+" changes at once", func(st *State, vals []Val, n *Term) *Term {
				return c.Eq(c.Eq(o.get(st, vals), i0), c.Eq(n, c.Int(0)))
			})
			add(o.name+" first iteration only", func(st *State, vals []Val, n *Term) *Term {
				return c.Imp(c.Eq(n, c.Int(0)), c.Eq(o.get(st, vals), i0))
			})
		}
		if i0.Sort == "Any" {
			add(o.name+" nil", func(st *State, vals []Val, n *Term) *Term { return c.Eq(o.get(st, vals), e.anynil) })
			add(o.name+" non-nil", func(st *State, vals []Val, n *Term) *Term { return c.Neq(o.get(st, vals), e.anynil) })
		}
		if i0.Sort == "Int" {
			switch o.ty.Underlying().(type) {
			case *types.Pointer, *types.Map:
				add(o.name+" non-nil", func(st *State, vals []Val, n *Term) *Term { return c.Neq(o.get(st, vals), c.Int(0)) })
				add(o.name+" fresh", func(st *State, vals []Val, n *Term) *Term { return c.Ge(o.get(st, vals), A0) })
			}
		}
	}
	// iterators
	for id := range mod.cells {
		id := id
		it0, ok := st0.cells[id].(*mapIter)
		if !ok {
			continue
		}
		ints = append(ints, &intObs{name: "iter", get: func(st *State, vals []Val, n *Term) *Term { return st.cells[id].(*mapIter).n }, init: it0.n})
		if it0.str != nil {
			ints = append(ints, &intObs{name: "iterpos", get: func(st *State, vals []Val, n *Term) *Term { return st.cells[id].(*mapIter).pos }, init: it0.pos})
			continue
		}
		add("visited within domain", func(st *State, vals []Val, n *Term) *Term {
			it := st.cells[id].(*mapIter)
			ks, _ := splitArr(it.vis.Sort)
			k := c.BoundVar("k", ks)
			return c.Forall([]BV{{"k", ks}}, c.Imp(c.Select(it.vis, k), it.inDom0(c, k)), c.Select(it.vis, k))
		})
		add("nothing visited at n=0", func(st *State, vals []Val, n *Term) *Term {
			it := st.cells[id].(*mapIter)
			ks, _ := splitArr(it.vis.Sort)
			return c.Iff(c.Eq(it.n, c.Int(0)), c.Eq(it.vis, c.ConstArr(ks, "Bool", c.F)))
		})
	}
	// bounds
	one := c.Int(1)
	for _, x := range ints {
		x := x
		if !x.isN {
			add(x.name+" >= init", func(st *State, vals []Val, n *Term) *Term { return c.Ge(x.get(st, vals, n), x.init) })
			add(x.name+" <= init", func(st *State, vals []Val, n *Term) *Term { return c.Le(x.get(st, vals, n), x.init) })
			add(x.name+" >= 0", func(st *State, vals []Val, n *Term) *Term { return c.Ge(x.get(st, vals, n), c.Int(0)) })
			add(x.name+" >= -1", func(st *State, vals []Val, n *Term) *Term { return c.Ge(x.get(st, vals, n), c.Int(-1)) })
		}
	}
	// bounds from comparisons: rewrite cmp a<=b with header value of x on one side
	seen := map[string]bool{}
	hn := c.Int(0)
	_ = hn
	for _, x := range ints {
		if x.isN {
			continue
		}
		x := x
		hx := x.get(hdr, hvals, c.Int(0))
		for cm := range cmps {
			a, b := cm.Args[0], cm.Args[1]
			l := c.linComb(b, 1, a, -1) // b - a >= 0 (or == 0)
			co := l.atoms[hx]
			if co == nil || co.CmpAbs(one.Int) != 0 {
				continue
			}
			rest := &lin{k: l.k, atoms: map[*Term]*bigInt{}}
			for at, f := range l.atoms {
				if at != hx {
					rest.atoms[at] = f
				}
			}
			r := c.fromLin(rest)
			if !c.older(r, mark) {
				continue
			}
			if co.Sign() > 0 {
				r = c.Sub(c.Int(0), r)
			}
			// x compared with r
			for d := int64(-1); d <= 1; d++ {
				bd := c.Add(r, c.Int(d))
				key := fmt.Sprintf("%s#%d", x.name, bd.ID)
				if seen[key] {
					continue
				}
				seen[key] = true
				add(x.name+" <= "+bd.String(), func(st *State, vals []Val, n *Term) *Term { return c.Le(x.get(st, vals, n), bd) })
				add(x.name+" >= "+bd.String(), func(st *State, vals []Val, n *Term) *Term { return c.Ge(x.get(st, vals, n), bd) })
			}
		}
	}
	// pairwise differences
	for i := range ints {
		for j := i + 1; j < len(ints); j++ {
			x, y := ints[i], ints[j]
			dx := func(st *State, vals []Val, n *Term) *Term { return c.Sub(x.get(st, vals, n), x.init) }
			dy := func(st *State, vals []Val, n *Term) *Term { return c.Sub(y.get(st, vals, n), y.init) }
			add(x.name+" ~ "+y.name, func(st *State, vals []Val, n *Term) *Term { return c.Eq(dx(st, vals, n), dy(st, vals, n)) })
			add(x.name+" ~ -"+y.name, func(st *State, vals []Val, n *Term) *Term {
				return c.Eq(dx(st, vals, n), c.Sub(c.Int(0), dy(st, vals, n)))
			})
			add(x.name+" <~ "+y.name, func(st *State, vals []Val, n *Term) *Term { return c.Le(dx(st, vals, n), dy(st, vals, n)) })
			add(x.name+" >~ "+y.name, func(st *State, vals []Val, n *Term) *Term { return c.Ge(dx(st, vals, n), dy(st, vals, n)) })
			if !x.isN && !y.isN {
				add(x.name+" < "+y.name, func(st *State, vals []Val, n *Term) *Term { return c.Lt(x.get(st, vals, n), y.get(st, vals, n)) })
				add(x.name+" <= "+y.name, func(st *State, vals []Val, n *Term) *Term { return c.Le(x.get(st, vals, n), y.get(st, vals, n)) })
				add(x.name+" > "+y.name, func(st *State, vals []Val, n *Term) *Term { return c.Gt(x.get(st, vals, n), y.get(st, vals, n)) })
			}
		}
	}
	// frames
	var ks []string
	for k := range mod.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		m := mod.heap[k]
		h0 := st0.get(e, k)
		if m.whole && strings.HasPrefix(h0.Sort, "(Array Int ") {
			frame := func(name string, ex []*Term, bound *Term) {
				add("frame "+k+" "+name, func(st *State, vals []Val, n *Term) *Term {
					h1 := st.get(e, k)
					r := c.BoundVar("r", "Int")
					cond := []*Term{}
					if bound != nil {
						cond = append(cond, c.Lt(r, bound))
					}
					for _, x := range ex {
						cond = append(cond, c.Neq(r, x))
					}
					return c.Forall([]BV{{"r", "Int"}}, c.Imp(c.And(cond...), c.Eq(c.Select(h1, r), c.Select(h0, r))), c.Select(h1, r))
				})
			}
			frame("old", nil, A0)
			var rs []*Term
			for r := range m.refs {
				rs = append(rs, r)
			}
			if len(rs) > 0 {
				frame("old except stores", rs, A0)
				frame("except stores", rs, nil)
			}
			if len(slRefs) > 0 {
				frame("old except slices", append(append([]*Term{}, rs...), slRefs...), A0)
			}
			if a := e.rootA(); a != nil && a != A0 {
				frame("old for the function", nil, a)
				if len(rs) > 0 {
					frame("old for the function except stores", rs, a)
				}
			}
		}
		if strings.HasPrefix(k, "T:") && !strings.HasPrefix(k, "T:cnt") && strings.HasPrefix(h0.Sort, "(Array ") {
			_, in := splitArr(h0.Sort)
			if !strings.HasPrefix(in, "(Array Int") || m.whole {
				continue
			}
			ck := "T:cnt:" + traceChan(k)
			for r := range m.refs {
				r := r
				cnt0 := c.Select(st0.get(e, ck), r)
				add("trace prefix "+k, func(st *State, vals []Val, n *Term) *Term {
					j := c.BoundVar("j", "Int")
					x := c.Select(c.Select(st.get(e, k), r), j)
					return c.Forall([]BV{{"j", "Int"}}, c.Imp(c.Lt(j, cnt0), c.Eq(x, c.Select(c.Select(h0, r), j))), x)
				})
			}
		}
	}
	return out
}

func (e *Exec) rootA() *Term {
	if e.root != nil && e.root.entry != nil {
		return e.root.entry.get(e, "A")
	}
	return nil
}
