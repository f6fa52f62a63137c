package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	te    tenv
	nat   func(e *Exec, fr *Frame, st *State, args []Val, k Kont) // native implementation
	key   string
}
type Tuple []Val

const (
	pkField  = iota // key: heap key, ref: object
	pkCell          // cell
	pkElem          // key: backing key, ref, idx
	pkGlobal        // key
	pkPtr           // key P:, ref
)

type pstep struct {
	dt, field string // struct step
	idx       *Term  // array step
	ty        types.Type
}
type Place struct {
	kind int
	key  string
	ref  *Term
	idx  *Term
	cell int
	base types.Type // type of the root
	path []pstep
}

func (p *Place) typ() types.Type {
	if len(p.path) > 0 {
		return p.path[len(p.path)-1].ty
	}
	return p.base
}
func (p *Place) k() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|", p.kind, p.key, p.cell)
	if p.ref != nil {
		fmt.Fprintf(&b, "r%d", p.ref.ID)
	}
	if p.idx != nil {
		fmt.Fprintf(&b, "i%d", p.idx.ID)
	}
	for _, s := range p.path {
		if s.idx != nil {
			fmt.Fprintf(&b, "[%d]", s.idx.ID)
		} else {
			fmt.Fprintf(&b, ".%s", s.field)
		}
	}
	return b.String()
}

type mapIter struct { // value kept in a cell
	m    *Term // map ref
	mk   string
	dom0 *Term // domain when the iteration started
	vis  *Term // visited
	n    *Term // number of visited
	mt   types.Type
	str  *Term // string iteration
	pos  *Term
}

func (it *mapIter) inDom0(c *Ctx, k *Term) *Term {
	x := c.Select(it.dom0, k)
	if x.Sort == "OptAny" {
		return c.Sel("OptAny", "opt.some", x)
	}
	return x
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	desc string
}
type panicInfo struct {
	val       *Term
	why       string
	recovered bool
	frame     int
}

type State struct {
	pc     []*Term
	pcset  map[*Term]bool
	heap   map[string]*Term
	env    map[int]map[ssa.Value]Val
	cells  map[int]Val
	defers map[int][]deferred
	loops  []*activeLoop
	panics []*panicInfo
	held   map[string]*Term // lock key -> exclusive/shared marker
	prov   map[*Term]string // provenance of values read from guarded fields
	trail  []string
	gos    []goro            // goroutines started (flag go-after)
	queue  map[*Term][]*Term // boxed values sent on the channels made here (flag go-now)
	acq    *State            // the state when the lock was last taken (flag acq)
	joins  []*goShared       // variables shared with goroutines not known to have ended (flag go-now)
	dead   bool
}

type goro struct {
	cc   *ssa.CallCommon
	fn   Val
	args []Val
	fr   *Frame
	in   ssa.Instruction
}

func (s *State) clone() *State {
	n := &State{pc: append(make([]*Term, 0, len(s.pc)+8), s.pc...), pcset: make(map[*Term]bool, len(s.pcset)+8), heap: make(map[string]*Term, len(s.heap)+4),
		env: make(map[int]map[ssa.Value]Val, len(s.env)), cells: make(map[int]Val, len(s.cells)+2), defers: make(map[int][]deferred, len(s.defers)), held: make(map[string]*Term, len(s.held)), prov: make(map[*Term]string, len(s.prov))}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for f, m := range s.env {
		c := make(map[ssa.Value]Val, len(m)+4)
		for k, v := range m {
			c[k] = v
		}
		n.env[f] = c
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.gos = append(n.gos, s.gos...)
	n.acq = s.acq
	n.joins = append(n.joins, s.joins...)
	if s.queue != nil {
		n.queue = make(map[*Term][]*Term, len(s.queue))
		for k, v := range s.queue {
			n.queue[k] = append([]*Term{}, v...)
		}
	}
	for k, v := range s.defers {
		n.defers[k] = append([]deferred{}, v...)
	}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.prov {
		n.prov[k] = v
	}
	n.loops = append([]*activeLoop{}, s.loops...)
	for _, p := range s.panics {
		q := *p
		n.panics = append(n.panics, &q)
	}
	n.trail = append([]string{}, s.trail...)
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		if t.Op == "true" || t.bv || s.pcset[t] { // (facts about bound variables are dropped)
			continue
		}
		if t.Op == "false" {
			s.dead = true
		}
		s.pcset[t] = true
		s.pc = append(s.pc, t)
	}
}

func (s *State) get(e *Exec, key string) *Term {
	if t, ok := s.heap[key]; ok {
		return t
	}
	return e.heapInit(key)
}
func (s *State) put(key string, t *Term) { s.heap[key] = t }

func (e *Exec) heapInit(key string) *Term {
	if t, ok := e.heap0[key]; ok {
		return t
	}
	srt, ok := e.heapSort[key]
	if !ok {
		panic("heap key without sort: " + key)
	}
	if key == "T:clk" {
		e.heap0[key] = e.c.Int(0)
		return e.heap0[key]
	}
	if strings.HasPrefix(key, "T:cnt:") {
		ks, _ := splitArr(srt)
		e.heap0[key] = e.c.ConstArr(ks, "Int", e.c.Int(0))
		return e.heap0[key]
	}
	t := e.c.Sym(fmt.Sprintf("h%d_%s", len(e.heap0), sanitize(key)), srt)
	e.heap0[key] = t
	if f := e.heapFact(key, t); f != nil {
		e.c.Axiom([]string{t.Name}, f)
	}
	// the entry heap is well formed: what it refers to was allocated before
	if ty := e.heapTy[key]; ty != nil && (strings.HasPrefix(key, "F:") || strings.HasPrefix(key, "B:") || strings.HasPrefix(key, "P:")) && strings.HasPrefix(srt, "(Array Int ") && key != "A" {
		if _, tp := ty.(*types.TypeParam); !tp {
			switch ty.Underlying().(type) {
			case *types.Slice, *types.Pointer, *types.Map, *types.Chan:
				_, in := splitArr(srt)
				r := e.c.BoundVar("r", "Int")
				x := e.c.Select(t, r)
				bv := []BV{{"r", "Int"}}
				if strings.HasPrefix(in, "(Array Int") && strings.HasPrefix(key, "B:") {
					x = e.c.Select(x, e.c.BoundVar("i", "Int"))
					bv = append(bv, BV{"i", "Int"})
				}
				st := &State{heap: map[string]*Term{}}
				if x.Sort == e.sortOf(ty) {
					if fs := e.facts(x, ty, st); len(fs) > 0 {
						e.c.Axiom([]string{t.Name}, e.c.Forall(bv, e.c.Imp(e.c.Lt(r, st.get(e, "A")), e.c.And(fs...)), x))
					}
				}
			}
		}
	}
	return t
}

// facts true of every version of a heap array
func (e *Exec) heapFact(key string, t *Term) *Term {
	if strings.HasPrefix(key, "M:") {
		dt := e.heapMap[key]
		_, ms := splitArr(t.Sort)
		m0 := e.c.Select(t, e.c.Int(0))
		d := e.c.dts[ms]
		ks, _ := splitArr(d.Fields[0].Sort)
		_ = dt
		return e.c.And(e.c.Eq(e.c.Sel(ms, ms+".dom", m0), e.c.ConstArr(ks, "Bool", e.c.F)), e.c.Eq(e.c.Sel(ms, ms+".n", m0), e.c.Int(0)))
	}
	return nil
}

type Kont struct {
	Ret   func(st *State, res []Val)
	Panic func(st *State, v *Term, why string)
}

type Frame struct {
	id      int
	fn      *ssa.Function // body being executed (origin for generics)
	te      tenv
	k       Kont
	parent  *Frame
	depth   int
	binds   []Val
	isDefer bool
	li      *loopInfo
}

type unsupported struct{ msg string }

type Exec struct {
	c         *Ctx
	q         *quick
	p         *Program
	anynil    *Term
	dtByKey   map[string]*Datatype
	typeIDs   map[string]int64
	typeOf    map[int64]types.Type
	implPreds map[string]*types.Interface

	heapSort map[string]string
	heapMap  map[string]types.Type
	heap0    map[string]*Term
	heapTy   map[string]types.Type // element type of the key, for facts after havoc
	nframe   int
	ncell    int
	cellTy   map[int]types.Type
	reg      map[int64]Val
	regKey   map[string]int64
	escaped  map[string]bool // types of places converted to terms

	quiet     int
	steps     int
	paths     int
	maxSteps  int
	deadline  time.Time
	assumed   map[string]bool // assumptions made (trusted externals ...)
	inlined   map[string]bool // functions whose body was executed
	spec      *SpecFile
	root      *Root
	curLoop   []string
	debug     bool
	branchCmp map[*Term]bool // comparisons observed (for bound candidates)
	clkUsed   bool
	provPl    map[*Term]*Place
	instTypes map[string]*types.Named
	discover  int
	failedInv map[string]bool
	patBad    map[*Term]bool
	patDone   map[*Term]bool
	debug2    bool
}

func NewExec(p *Program, spec *SpecFile) *Exec {
	e := &Exec{c: NewCtx(), p: p, dtByKey: map[string]*Datatype{}, typeIDs: map[string]int64{}, typeOf: map[int64]types.Type{}, implPreds: map[string]*types.Interface{},
		heapSort: map[string]string{}, heapMap: map[string]types.Type{}, heap0: map[string]*Term{}, heapTy: map[string]types.Type{}, cellTy: map[int]types.Type{}, reg: map[int64]Val{}, regKey: map[string]int64{}, escaped: map[string]bool{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, spec: spec, branchCmp: map[*Term]bool{}, instTypes: map[string]*types.Named{}, failedInv: map[string]bool{}, patBad: map[*Term]bool{}, patDone: map[*Term]bool{}, debug2: os.Getenv("GOVC_DEBUG") == "2", maxSteps: 400000}
	e.q = newQuick(e.c)
	e.initSorts()
	e.heapSort["A"] = "Int"
	e.debug = os.Getenv("GOVC_DEBUG") != ""
	return e
}

func (e *Exec) fail(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (e *Exec) note(f string, a ...any) { e.assumed[fmt.Sprintf(f, a...)] = true }

// ---- quick reasoning

const quickMS = 400

func (e *Exec) prove(st *State, t *Term) bool {
	if t == e.c.T || st.dead {
		return true
	}
	if t == e.c.F {
		return e.q.check(st.pc, e.c.T, quickMS) == "unsat"
	}
	if st.pcset[t] {
		return true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !e.prove(st, a) {
				return false
			}
		}
		return true
	}
	return e.q.check(st.pc, e.c.Not(t), quickMS) == "unsat"
}

func (e *Exec) infeasible(st *State, t *Term) bool {
	if t == e.c.F || st.dead {
		return true
	}
	if st.pcset[e.c.Not(t)] {
		return true
	}
	return e.q.check(st.pc, t, 200) == "unsat"
}

// ---- heap keys

func (e *Exec) structType(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func (e *Exec) fkey(T types.Type, i int) string {
	st := e.structType(T)
	f := st.Field(i)
	n := f.Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	k := "F:" + typeKey(T) + "." + n
	if _, ok := e.heapSort[k]; !ok {
		if nt := namedOf(T); nt != nil {
			e.instTypes[typeKey(T)] = nt
		}
		e.heapSort[k] = arrSort("Int", e.sortOf(f.Type()))
		e.heapTy[k] = f.Type()
	}
	return k
}
func (e *Exec) bkey(elem types.Type) string {
	k := "B:" + typeKey(elem)
	if _, ok := e.heapSort[k]; !ok {
		e.heapSort[k] = arrSort("Int", arrSort("Int", e.sortOf(elem)))
		e.heapTy[k] = elem
	}
	return k
}
func (e *Exec) mkey(m types.Type) string {
	mt := m.Underlying().(*types.Map)
	k := "M:" + typeKey(mt.Key()) + "," + typeKey(mt.Elem())
	if _, ok := e.heapSort[k]; !ok {
		e.heapSort[k] = arrSort("Int", e.mapDT(m))
		e.heapMap[k] = m
	}
	return k
}
func (e *Exec) pkey(t types.Type) string {
	k := "P:" + typeKey(t)
	if _, ok := e.heapSort[k]; !ok {
		e.heapSort[k] = arrSort("Int", e.sortOf(t))
		e.heapTy[k] = t
	}
	return k
}
func (e *Exec) gkey(g *ssa.Global) string {
	t := deref(g.Type())
	k := "G:" + g.RelString(nil)
	if _, ok := e.heapSort[k]; !ok {
		e.heapSort[k] = e.sortOf(t)
		e.heapTy[k] = t
	}
	return k
}

// sub-object reference of a nested struct field
func (e *Exec) subRef(T types.Type, i int, ref *Term) *Term {
	c := e.c
	d := e.structDT(T)
	n := "sub_" + d.Fields[i].Name
	if _, ok := c.funs[n]; !ok {
		c.DeclFun(n, []string{"Int"}, "Int")
		c.DeclFun("inv_"+n, []string{"Int"}, "Int")
		c.DeclFun("subtag", []string{"Int"}, "Int")
		r := c.BoundVar("r", "Int")
		s := c.App(n, r)
		c.DeclFun("subbase", []string{"Int"}, "Int")
		c.Axiom([]string{n}, c.Forall([]BV{{"r", "Int"}}, c.And(c.Eq(c.App("inv_"+n, s), r), c.Eq(c.App("subbase", s), c.Ite(c.Lt(r, c.Int(-1000000)), c.App("subbase", r), r)), c.Lt(s, c.Int(-1000000)), c.Eq(c.App("subtag", s), c.Int(int64(len(c.funs))))), s))
	}
	return c.App(n, ref)
}

func (e *Exec) alloc(st *State) *Term {
	a := st.get(e, "A")
	st.put("A", e.c.Add(a, e.c.Int(1)))
	return a
}

func (e *Exec) newCell(st *State, t types.Type, v Val) *Place {
	e.ncell++
	e.cellTy[e.ncell] = t
	st.cells[e.ncell] = v
	return &Place{kind: pkCell, cell: e.ncell, base: t}
}

// allocate an object of type t with zero content; returns pointer value
func (e *Exec) newObject(st *State, t types.Type) *Term {
	r := e.alloc(st)
	e.initObj(st, t, r)
	return r
}
func (e *Exec) initObj(st *State, t types.Type, r *Term) {
	s := e.structType(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isStruct(ft) {
			e.initObj(st, ft, e.subRef(t, i, r))
			continue
		}
		k := e.fkey(t, i)
		st.put(k, e.c.Store(st.get(e, k), r, e.zero(ft)))
	}
}

// ---- loads and stores

func (e *Exec) loadRoot(st *State, p *Place) Val {
	switch p.kind {
	case pkCell:
		v, ok := st.cells[p.cell]
		if !ok {
			e.fail("load of unknown cell")
		}
		return v
	case pkField, pkPtr:
		return e.c.Select(st.get(e, p.key), p.ref)
	case pkElem:
		return e.c.Select(e.c.Select(st.get(e, p.key), p.ref), p.idx)
	case pkGlobal:
		return st.get(e, p.key)
	}
	panic("loadRoot")
}

func (e *Exec) load(st *State, p *Place) Val {
	v := e.loadRoot(st, p)
	if len(p.path) == 0 {
		if t, ok := v.(*Term); ok {
			st.assume(e.facts(t, p.typ(), st)...)
			e.loadFacts(st, p, t)
		}
		return v
	}
	t := e.term(v, p.base)
	for _, s := range p.path {
		if s.idx != nil {
			t = e.c.Select(t, s.idx)
		} else {
			t = e.c.Sel(s.dt, s.field, t)
		}
	}
	st.assume(e.facts(t, p.typ(), st)...)
	return t
}

// facts on immutable package level error variables etc.
func (e *Exec) loadFacts(st *State, p *Place, t *Term) {
	if p.kind == pkGlobal && isIface(p.base) && t == e.heap0[p.key] {
		if e.errGlobal(p.key) {
			st.assume(e.c.Neq(t, e.anynil))
		}
	}
}

// package-level `var X = errors.New(..)`: non nil, distinct
func (e *Exec) errGlobal(key string) bool {
	n := key[2:]
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return false
	}
	base := n[i+1:]
	return strings.HasPrefix(base, "Err") || base == "EOF" || base == "EOD" || strings.HasSuffix(base, "Error")
}

func (e *Exec) store(st *State, p *Place, v Val) {
	if len(p.path) > 0 {
		root := e.term(e.loadRoot(st, p), p.base)
		v = e.updPath(root, p.path, e.term(v, p.typ()))
	}
	switch p.kind {
	case pkCell:
		st.cells[p.cell] = v
	case pkField, pkPtr:
		st.put(p.key, e.c.Store(st.get(e, p.key), p.ref, e.term(v, p.base)))
	case pkElem:
		b := st.get(e, p.key)
		st.put(p.key, e.c.Store(b, p.ref, e.c.Store(e.c.Select(b, p.ref), p.idx, e.term(v, p.base))))
	case pkGlobal:
		st.put(p.key, e.term(v, p.base))
	}
}

func (e *Exec) updPath(root *Term, path []pstep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		return e.c.Store(root, s.idx, e.updPath(e.c.Select(root, s.idx), path[1:], v))
	}
	return e.c.Upd(s.dt, s.field, root, e.updPath(e.c.Sel(s.dt, s.field, root), path[1:], v))
}

// value of a struct object in the heap
func (e *Exec) loadObj(st *State, t types.Type, r *Term) *Term {
	s := e.structType(t)
	d := e.structDT(t)
	args := make([]*Term, s.NumFields())
	for i := range args {
		ft := s.Field(i).Type()
		if isStruct(ft) {
			args[i] = e.loadObj(st, ft, e.subRef(t, i, r))
		} else {
			args[i] = e.c.Select(st.get(e, e.fkey(t, i)), r)
			st.assume(e.facts(args[i], ft, st)...)
		}
	}
	return e.c.Mk(d.Name, args...)
}
func (e *Exec) storeObj(st *State, t types.Type, r, v *Term) {
	s := e.structType(t)
	d := e.structDT(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fv := e.c.Sel(d.Name, d.Fields[i].Name, v)
		if isStruct(ft) {
			e.storeObj(st, ft, e.subRef(t, i, r), fv)
		} else {
			k := e.fkey(t, i)
			st.put(k, e.c.Store(st.get(e, k), r, fv))
		}
	}
}

// pointer value -> what it points at. ptr may be Term or Place
func (e *Exec) loadPtr(st *State, ptr Val, elem types.Type) Val {
	switch p := e.resolve(ptr).(type) {
	case *Place:
		return e.load(st, p)
	case *Term:
		if isStruct(elem) {
			return e.loadObj(st, elem, p)
		}
		if a, ok := elem.Underlying().(*types.Array); ok {
			return e.c.Select(st.get(e, e.bkey(a.Elem())), p)
		}
		e.checkEsc(p, elem)
		t := e.c.Select(st.get(e, e.pkey(elem)), p)
		st.assume(e.facts(t, elem, st)...)
		return t
	}
	e.fail("load through %T", ptr)
	return nil
}
func (e *Exec) storePtr(st *State, ptr Val, elem types.Type, v Val) {
	switch p := e.resolve(ptr).(type) {
	case *Place:
		e.store(st, p, v)
		return
	case *Term:
		if isStruct(elem) {
			e.storeObj(st, elem, p, e.term(v, elem))
			return
		}
		if a, ok := elem.Underlying().(*types.Array); ok {
			k := e.bkey(a.Elem())
			st.put(k, e.c.Store(st.get(e, k), p, e.term(v, elem)))
			return
		}
		e.checkEsc(p, elem)
		k := e.pkey(elem)
		st.put(k, e.c.Store(st.get(e, k), p, e.term(v, elem)))
		return
	}
	e.fail("store through %T", ptr)
}

func (e *Exec) checkEsc(p *Term, elem types.Type) {
	if e.escaped[typeKey(elem)] && p.Op != "int" && !(p.Op == "sym") {
		e.fail("dereference of a computed pointer to %s while such pointers escaped", typeKey(elem))
	}
}

// negative literals stand for places and closures
func (e *Exec) resolve(v Val) Val {
	if t, ok := v.(*Term); ok && t.Op == "int" && t.Int.Sign() < 0 && t.Int.IsInt64() {
		if r, ok := e.reg[t.Int.Int64()]; ok {
			return r
		}
	}
	return v
}

func (e *Exec) register(key string, v Val) *Term {
	id, ok := e.regKey[key]
	if !ok {
		id = -int64(1000 + len(e.regKey))
		e.regKey[key] = id
		if v != nil {
			e.reg[id] = v
		}
	}
	return e.c.Int(id)
}

func (e *Exec) term(v Val, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Place:
		e.escaped[typeKey(v.typ())] = true
		return e.register("place:"+v.k(), v)
	case *Closure:
		k := v.key
		if k == "" {
			var b strings.Builder
			if v.fn != nil {
				fmt.Fprintf(&b, "%p", v.fn)
			} else {
				fmt.Fprintf(&b, "nat%p", v)
			}
			for _, x := range v.binds {
				switch x := x.(type) {
				case *Place:
					b.WriteString("|" + x.k())
				default:
					fmt.Fprintf(&b, "|%d", e.term(x, nil).ID)
				}
			}
			k = b.String()
		}
		return e.register("clo:"+k, v)
	case nil:
		e.fail("nil value")
	}
	e.fail("cannot convert %T to a term", v)
	return nil
}

// ---- values

func (e *Exec) typ(fr *Frame, v ssa.Value) types.Type { return fr.te.subst(v.Type()) }

func (e *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v, fr.te.subst(v.Type()))
	case *ssa.Global:
		return e.globalAddr(v)
	case *ssa.Function:
		return &Closure{fn: v, te: fr.te, key: e.closKey(v, fr.te)}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
		e.fail("free var")
	case *ssa.Builtin:
		return v
	}
	if m := st.env[fr.id]; m != nil {
		if x, ok := m[v]; ok {
			return x
		}
	}
	e.fail("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

func (e *Exec) closKey(fn *ssa.Function, te tenv) string {
	k := fn.RelString(nil)
	var xs []string
	for p, t := range te {
		xs = append(xs, p.Obj().Name()+"="+typeKey(t))
	}
	sort.Strings(xs)
	return k + strings.Join(xs, ",")
}

func (e *Exec) globalAddr(g *ssa.Global) Val {
	t := deref(g.Type())
	if isStruct(t) {
		return e.register("glob:"+g.RelString(nil), nil)
	}
	return &Place{kind: pkGlobal, key: e.gkey(g), base: t}
}

func (e *Exec) tval(fr *Frame, st *State, v ssa.Value) *Term {
	return e.term(e.val(fr, st, v), e.typ(fr, v))
}

func (e *Exec) constVal(v *ssa.Const, t types.Type) *Term {
	if v.Value == nil {
		return e.zero(t)
	}
	u := t.Underlying()
	if isTP(t) {
		return e.c.Sym("const_"+sanitize(v.Value.ExactString())+"_"+sanitize(typeKey(t)), e.sortOf(t))
	}
	if isIface(t) {
		// untyped constant in interface context cannot occur in ssa
		e.fail("const of interface type")
	}
	b, ok := u.(*types.Basic)
	if !ok {
		e.fail("const of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(v.Value))
	case b.Info()&types.IsString != 0:
		return e.c.Str(constant.StringVal(v.Value))
	case b.Info()&types.IsInteger != 0:
		x := constant.ToInt(v.Value)
		bi, ok := new(big.Int).SetString(x.ExactString(), 10)
		if !ok {
			e.fail("int const %s", x.ExactString())
		}
		return e.c.IntBig(bi)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v.Value)
		return e.floatBits(f)
	}
	e.fail("const %s", v)
	return nil
}

func (e *Exec) floatBits(f float64) *Term {
	bits := math.Float64bits(f)
	return e.c.mk("lit", fmt.Sprintf("((_ to_fp 11 53) #x%016x)", bits), "Float64")
}

func (st *State) set(fr *Frame, v ssa.Value, x Val) {
	m := st.env[fr.id]
	if m == nil {
		m = map[ssa.Value]Val{}
		st.env[fr.id] = m
	}
	m[v] = x
}

// ---- running

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.p.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, e.p.Dir+"/"), ps.Line)
}

// execute fn with args; k is called on every outcome
func (e *Exec) runFunc(parent *Frame, fn *ssa.Function, te tenv, binds []Val, args []Val, st *State, isDefer bool, k Kont) {
	body := fn
	if fn.Origin() != nil && fn.Origin() != fn {
		body = fn.Origin()
		nt := tenv{}
		tps := body.TypeParams()
		targs := fn.TypeArgs()
		for i := 0; i < tps.Len(); i++ {
			nt[tps.At(i)] = te.subst(targs[i])
		}
		te = nt
	}
	e.p.build(body)
	if len(body.Blocks) == 0 {
		e.fail("no body for %s", fn)
	}
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		e.fail("call depth at %s", fn)
	}
	rec := 0
	for p := parent; p != nil; p = p.parent {
		if p.fn == body {
			rec++
		}
	}
	if rec > 3 {
		e.fail("recursion through %s needs a contract", fn)
	}
	e.nframe++
	fr := &Frame{id: e.nframe, fn: body, te: te, k: k, parent: parent, depth: depth, binds: binds, isDefer: isDefer, li: e.p.loopsOf(body)}
	if len(args) != len(body.Params) {
		e.fail("arity calling %s: %d vs %d", fn, len(args), len(body.Params))
	}
	st.env[fr.id] = map[ssa.Value]Val{}
	for i, p := range body.Params {
		st.set(fr, p, args[i])
	}
	e.inlined[body.RelString(nil)] = true
	e.block(fr, body.Blocks[0], 0, st)
}

func (e *Exec) tick() {
	e.steps++
	if e.steps > e.maxSteps {
		e.fail("step limit reached")
	}
	if e.steps%256 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.fail("time limit reached")
	}
}

func (e *Exec) block(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		e.tick()
		if st.dead {
			return
		}
		if len(st.joins) > 0 {
			e.raceCheck(fr, st, b.Instrs[i])
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.tval(fr, st, in.Cond)
			e.branch(st, c, func(st *State) { e.jump(fr, b, b.Succs[0], st) }, func(st *State) { e.jump(fr, b, b.Succs[1], st) })
			return
		case *ssa.Jump:
			e.jump(fr, b, b.Succs[0], st)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, e.val(fr, st, r))
			}
			e.ret(fr, st, res)
			return
		case *ssa.Panic:
			v := e.tval(fr, st, in.X)
			e.doPanic(fr, st, v, "explicit panic at "+e.pos(in.Pos()))
			return
		case *ssa.RunDefers:
			next := i + 1
			e.runDefers(fr, st, func(st *State) { e.block(fr, b, next, st) })
			return
		case *ssa.Defer:
			e.pushDefer(fr, st, in)
		case *ssa.Go:
			next := i + 1
			e.goStmt(fr, st, in, func(st *State) { e.block(fr, b, next, st) })
			return
		case *ssa.Call:
			next := i + 1
			e.call(fr, st, &in.Call, in, func(st *State, res []Val) {
				if len(res) == 1 {
					st.set(fr, in, res[0])
				} else {
					st.set(fr, in, Tuple(res))
				}
				e.block(fr, b, next, st)
			})
			return
		case *ssa.Select:
			next := i + 1
			e.selectStmt(fr, st, in, func(st *State, v Val) {
				st.set(fr, in, v)
				e.block(fr, b, next, st)
			}, func(st *State, v *Term, why string) { e.doPanic(fr, st, v, why) })
			return
		case *ssa.Next:
			next := i + 1
			e.next(fr, st, in, func(st *State, v Val) {
				st.set(fr, in, v)
				e.block(fr, b, next, st)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				next := i + 1
				e.recv(fr, st, in, func(st *State, v Val) {
					st.set(fr, in, v)
					e.block(fr, b, next, st)
				})
				return
			}
			v, ok := e.simple(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		case *ssa.Send:
			next := i + 1
			e.send(fr, st, in, func(st *State) { e.block(fr, b, next, st) }, func(st *State, v *Term, why string) { e.doPanic(fr, st, v, why) })
			return
		case *ssa.Store:
			if !e.derefCheck(fr, st, in.Addr, in) {
				return
			}
			e.guardAccess(fr, st, e.val(fr, st, in.Addr), in, true)
			e.storePtr(st, e.val(fr, st, in.Addr), e.typ(fr, in.Val), e.val(fr, st, in.Val))
		case *ssa.MapUpdate:
			if !e.mapUpdate(fr, st, in) {
				return
			}
		case ssa.Value:
			v, ok := e.simple(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		default:
			e.fail("instruction %T %s", in, in)
		}
	}
	e.fail("fell off block")
}

func (e *Exec) branch(st *State, c *Term, th, el func(st *State)) {
	if c == e.c.T {
		th(st)
		return
	}
	if c == e.c.F {
		el(st)
		return
	}
	e.noteCmp(c)
	n := e.c.Not(c)
	a := !e.infeasible(st, c)
	b := true
	if a {
		b = !e.infeasible(st, n)
	} else if e.infeasible(st, n) {
		return
	}
	switch {
	case a && b:
		s2 := st.clone()
		st.assume(c)
		th(st)
		s2.assume(n)
		el(s2)
	case a:
		st.assume(c)
		th(st)
	case b:
		st.assume(n)
		el(st)
	}
}

// remember linear comparisons for bound candidates
func (e *Exec) noteCmp(c *Term) {
	switch c.Op {
	case "not":
		e.noteCmp(c.Args[0])
	case "<=":
		e.branchCmp[c] = true
	case "=":
		if c.Args[0].Sort == "Int" {
			e.branchCmp[c] = true
		}
	case "and", "or":
		for _, a := range c.Args {
			e.noteCmp(a)
		}
	}
}

func (e *Exec) rtPanic(st *State, what string) *Term {
	v := e.c.Fresh("rtpanic", "Any")
	st.assume(e.c.Neq(v, e.anynil))
	return v
}

// runtime check: continue under cond, fork a panic path otherwise
func (e *Exec) check(fr *Frame, st *State, cond *Term, why string) bool {
	if cond == e.c.T || st.pcset[cond] {
		return true
	}
	if cond != e.c.F {
		if e.prove(st, cond) {
			st.assume(cond)
			return true
		}
		s2 := st.clone()
		s2.assume(e.c.Not(cond))
		e.doPanic(fr, s2, e.rtPanic(s2, why), "runtime panic: "+why)
		if e.infeasible(st, cond) {
			return false
		}
		st.assume(cond)
		return true
	}
	e.doPanic(fr, st, e.rtPanic(st, why), "runtime panic: "+why)
	return false
}

func (e *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	// active loops of this frame
	for len(st.loops) > 0 {
		al := st.loops[len(st.loops)-1]
		if al.frame != fr.id {
			break
		}
		if al.header == to {
			al.onBack(st, from)
			return
		}
		if !al.nat.blocks[to] {
			if al.quiet {
				return // leaving the loop during an inference pass
			}
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	if nl := fr.li.header[to]; nl != nil {
		e.enterLoop(fr, nl, from, st)
		return
	}
	e.assignPhis(fr, from, to, st)
	e.block(fr, to, 0, st)
}

func (e *Exec) phiVals(fr *Frame, from, to *ssa.BasicBlock, st *State) []Val {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vs []Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, e.val(fr, st, ph.Edges[pi]))
	}
	return vs
}

func (e *Exec) assignPhis(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	vs := e.phiVals(fr, from, to, st)
	for i, v := range vs {
		st.set(fr, to.Instrs[i].(*ssa.Phi), v)
	}
}

// leave frame: are we inside an inference pass of a loop of this frame?
func (e *Exec) leaveLoops(fr *Frame, st *State) (cut bool) {
	for len(st.loops) > 0 {
		al := st.loops[len(st.loops)-1]
		if al.frame != fr.id {
			break
		}
		if al.quiet {
			return true
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	return false
}

func (e *Exec) ret(fr *Frame, st *State, res []Val) {
	if e.leaveLoops(fr, st) {
		return
	}
	delete(st.env, fr.id)
	delete(st.defers, fr.id)
	fr.k.Ret(st, res)
}

// ---- panics and defers

func (e *Exec) doPanic(fr *Frame, st *State, v *Term, why string) {
	if st.dead || e.leaveLoops(fr, st) {
		return
	}
	if e.quiet > 0 && e.loopBelow(st) {
		// a panic leaving a loop body under inference: the path does not come back
		// unless some frame in between recovers; keep unwinding
	}
	pi := &panicInfo{val: v, why: why, frame: fr.id}
	e.unwind(fr, st, pi)
}
func (e *Exec) loopBelow(st *State) bool { return len(st.loops) > 0 }

func (e *Exec) unwind(fr *Frame, st *State, pi *panicInfo) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		delete(st.env, fr.id)
		delete(st.defers, fr.id)
		fr.k.Panic(st, pi.val, pi.why)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	st.panics = append(st.panics, pi)
	lvl := len(st.panics)
	e.callDeferred(fr, st, d, Kont{
		Ret: func(st *State, _ []Val) {
			cur := st.panics[lvl-1]
			st.panics = st.panics[:lvl-1]
			if cur.recovered {
				e.runDefers(fr, st, func(st *State) { e.resume(fr, st) })
				return
			}
			e.unwind(fr, st, cur)
		},
		Panic: func(st *State, v *Term, why string) {
			st.panics = st.panics[:lvl-1]
			e.unwind(fr, st, &panicInfo{val: v, why: why, frame: fr.id})
		},
	})
}

// after a recovered panic the function returns its named results
func (e *Exec) resume(fr *Frame, st *State) {
	if fr.fn.Recover != nil {
		e.block(fr, fr.fn.Recover, 0, st)
		return
	}
	var res []Val
	rs := fr.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		res = append(res, e.zero(fr.te.subst(rs.At(i).Type())))
	}
	e.ret(fr, st, res)
}

func (e *Exec) runDefers(fr *Frame, st *State, k func(st *State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	e.callDeferred(fr, st, d, Kont{
		Ret:   func(st *State, _ []Val) { e.runDefers(fr, st, k) },
		Panic: func(st *State, v *Term, why string) { e.unwind(fr, st, &panicInfo{val: v, why: why, frame: fr.id}) },
	})
}

func (e *Exec) pushDefer(fr *Frame, st *State, in *ssa.Defer) {
	if len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == fr.id {
		e.fail("defer inside a loop in %s", fr.fn)
	}
	d := deferred{call: &in.Call}
	if !in.Call.IsInvoke() {
		if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			d.fn = e.val(fr, st, in.Call.Value)
		}
	} else {
		d.fn = e.val(fr, st, in.Call.Value)
	}
	for _, a := range in.Call.Args {
		d.args = append(d.args, e.val(fr, st, a))
	}
	st.defers[fr.id] = append(st.defers[fr.id], d)
}

func (e *Exec) callDeferred(fr *Frame, st *State, d deferred, k Kont) {
	e.callVals(fr, st, d.call, d.fn, d.args, nil, true, k)
}

func isNilVal(v Val) bool { return v == nil }

// ---- simple instructions: value, false if the path ended

func (e *Exec) derefCheck(fr *Frame, st *State, addr ssa.Value, in ssa.Instruction) bool {
	v := e.val(fr, st, addr)
	if t, ok := v.(*Term); ok {
		return e.check(fr, st, e.c.Neq(t, e.c.Int(0)), "nil dereference at "+e.pos(in.Pos()))
	}
	return true
}

func (e *Exec) simple(fr *Frame, st *State, in ssa.Value) (Val, bool) {
	c := e.c
	switch in := in.(type) {
	case *ssa.Alloc:
		t := fr.te.subst(deref(in.Type()))
		if a, ok := t.Underlying().(*types.Array); ok {
			if _, ov := override(t); !ov {
				r := e.alloc(st)
				k := e.bkey(a.Elem())
				z := e.zero(a.Elem())
				st.put(k, c.Store(st.get(e, k), r, c.ConstArr("Int", z.Sort, z)))
				return r, true
			}
		}
		if isStruct(t) && in.Heap {
			return e.newObject(st, t), true
		}
		if _, ov := override(t); ov && in.Heap {
			r := e.alloc(st)
			k := e.pkey(t)
			st.put(k, c.Store(st.get(e, k), r, e.zero(t)))
			return r, true
		}
		return e.newCell(st, t, e.zero(t)), true
	case *ssa.FieldAddr:
		if !e.derefCheck(fr, st, in.X, in) {
			return nil, false
		}
		T := fr.te.subst(deref(in.X.Type().Underlying()))
		return e.fieldAddr(st, e.val(fr, st, in.X), T, in.Field), true
	case *ssa.Field:
		T := e.typ(fr, in.X)
		x := e.tval(fr, st, in.X)
		d := e.structDT(T)
		t := c.Sel(d.Name, d.Fields[in.Field].Name, x)
		st.assume(e.facts(t, e.typ(fr, in), st)...)
		return t, true
	case *ssa.IndexAddr:
		i := e.tval(fr, st, in.Index)
		xt := e.typ(fr, in.X)
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			s := e.tval(fr, st, in.X)
			if !e.check(fr, st, c.And(c.Le(c.Int(0), i), c.Lt(i, e.slLen(s))), "index out of range at "+e.pos(in.Pos())) {
				return nil, false
			}
			return &Place{kind: pkElem, key: e.bkey(u.Elem()), ref: e.slRef(s), idx: c.Add(e.slOff(s), i), base: u.Elem()}, true
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			if !e.check(fr, st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(a.Len()))), "index out of range at "+e.pos(in.Pos())) {
				return nil, false
			}
			switch p := e.resolve(e.val(fr, st, in.X)).(type) {
			case *Term:
				return &Place{kind: pkElem, key: e.bkey(a.Elem()), ref: p, idx: i, base: a.Elem()}, true
			case *Place:
				q := *p
				q.path = append(append([]pstep{}, p.path...), pstep{idx: i, ty: a.Elem()})
				return &q, true
			}
		}
		e.fail("IndexAddr on %s", xt)
	case *ssa.Index:
		i := e.tval(fr, st, in.Index)
		xt := e.typ(fr, in.X)
		switch u := xt.Underlying().(type) {
		case *types.Array:
			if !e.check(fr, st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(u.Len()))), "index out of range at "+e.pos(in.Pos())) {
				return nil, false
			}
			t := c.Select(e.tval(fr, st, in.X), i)
			st.assume(e.facts(t, u.Elem(), st)...)
			return t, true
		case *types.Basic:
			return e.strIndex(fr, st, e.tval(fr, st, in.X), i, in)
		}
		e.fail("Index on %s", xt)
	case *ssa.Lookup:
		return e.lookup(fr, st, in)
	case *ssa.UnOp:
		return e.unop(fr, st, in)
	case *ssa.BinOp:
		return e.binop(fr, st, in)
	case *ssa.Convert:
		return e.convert(fr, st, in.X, e.typ(fr, in), in)
	case *ssa.MultiConvert:
		return e.convert(fr, st, in.X, e.typ(fr, in), in)
	case *ssa.ChangeType:
		v := e.val(fr, st, in.X)
		if t, ok := v.(*Term); ok {
			to := e.sortOf(e.typ(fr, in))
			if t.Sort != to {
				if from := e.typ(fr, in.X); !isIface(from) && isIface(e.typ(fr, in)) {
					return e.box(from, t), true
				}
				return e.recast(t, e.typ(fr, in.X), e.typ(fr, in)), true
			}
		}
		return v, true
	case *ssa.ChangeInterface:
		if from := e.typ(fr, in.X); !isIface(from) && isIface(e.typ(fr, in)) {
			return e.box(from, e.term(e.val(fr, st, in.X), from)), true
		}
		return e.val(fr, st, in.X), true
	case *ssa.MakeInterface:
		t := e.typ(fr, in.X)
		return e.box(t, e.term(e.val(fr, st, in.X), t)), true
	case *ssa.TypeAssert:
		x := e.tval(fr, st, in.X)
		T := fr.te.subst(in.AssertedType)
		has := e.hasType(T, x)
		if from := e.typ(fr, in.X); isIface(from) && isIface(T) && !isTP(from) && types.Implements(from, T.Underlying().(*types.Interface)) { // a value of the static type has the methods
			st.assume(c.Or(c.Eq(x, e.anynil), has))
		}
		if in.CommaOk {
			v := e.c.Ite(has, e.unboxF(st, T, x, has), e.zero(T))
			return Tuple{v, has}, true
		}
		if !e.check(fr, st, has, "type assertion to "+typeKey(T)+" at "+e.pos(in.Pos())) {
			return nil, false
		}
		return e.unboxF(st, T, x, c.T), true
	case *ssa.Extract:
		tp, ok := e.val(fr, st, in.Tuple).(Tuple)
		if !ok {
			e.fail("extract from %T", e.val(fr, st, in.Tuple))
		}
		return tp[in.Index], true
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function), te: fr.te}
		for _, b := range in.Bindings {
			cl.binds = append(cl.binds, e.val(fr, st, b))
		}
		return cl, true
	case *ssa.MakeMap:
		t := e.typ(fr, in)
		r := e.alloc(st)
		k := e.mkey(t)
		st.put(k, c.Store(st.get(e, k), r, e.emptyMap(t)))
		return r, true
	case *ssa.MakeSlice:
		ln, cp := e.tval(fr, st, in.Len), e.tval(fr, st, in.Cap)
		if !e.check(fr, st, c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)), "makeslice at "+e.pos(in.Pos())) {
			return nil, false
		}
		st.assume(c.Le(cp, c.Int(1<<48)))
		el := e.typ(fr, in).Underlying().(*types.Slice).Elem()
		r := e.alloc(st)
		k := e.bkey(el)
		z := e.zero(el)
		st.put(k, c.Store(st.get(e, k), r, e.constArr(z)))
		return e.mkSlice(r, c.Int(0), ln, cp), true
	case *ssa.MakeChan:
		r := e.alloc(st)
		e.chanInit(st, r, e.typ(fr, in), e.tval(fr, st, in.Size))
		return r, true
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.Range:
		t := e.typ(fr, in.X)
		x := e.tval(fr, st, in.X)
		it := &mapIter{mt: t, n: c.Int(0)}
		if m, ok := t.Underlying().(*types.Map); ok {
			it.m = x
			it.mk = e.mkey(t)
			dt := e.mapDT(t)
			it.dom0 = c.Sel(dt, dt+".dom", c.Select(st.get(e, it.mk), x))
			it.vis = c.ConstArr(e.sortOf(m.Key()), "Bool", c.F)
		} else {
			it.str = x
			it.pos = c.Int(0)
		}
		return e.newCell(st, nil, it), true
	case *ssa.SliceToArrayPointer:
		e.fail("slice to array pointer")
	}
	e.fail("instruction %T: %s", in, in)
	return nil, false
}

func (e *Exec) constArr(z *Term) *Term { return e.c.ConstArr("Int", z.Sort, z) }

func (e *Exec) unboxF(st *State, T types.Type, x, has *Term) *Term {
	u := e.unbox(T, x)
	if !isIface(T) {
		st.assume(e.c.Imp(has, e.c.And(e.facts(u, T, st)...)))
	}
	return u
}

func (e *Exec) fieldAddr(st *State, x Val, T types.Type, i int) Val {
	s := e.structType(T)
	ft := s.Field(i).Type()
	switch p := e.resolve(x).(type) {
	case *Term:
		if isStruct(ft) {
			return e.subRef(T, i, p)
		}
		return &Place{kind: pkField, key: e.fkey(T, i), ref: p, base: ft}
	case *Place:
		d := e.structDT(T)
		q := *p
		q.path = append(append([]pstep{}, p.path...), pstep{dt: d.Name, field: d.Fields[i].Name, ty: ft})
		return &q
	}
	e.fail("field address of %T", x)
	return nil
}

// convert between struct types with identical underlying type
func (e *Exec) recast(t *Term, from, to types.Type) *Term {
	if isStruct(from) && isStruct(to) {
		df, dt := e.structDT(from), e.structDT(to)
		var args []*Term
		for i := range dt.Fields {
			x := e.c.Sel(df.Name, df.Fields[i].Name, t)
			if x.Sort != dt.Fields[i].Sort {
				x = e.recast(x, e.structType(from).Field(i).Type(), e.structType(to).Field(i).Type())
			}
			args = append(args, x)
		}
		return e.c.Mk(dt.Name, args...)
	}
	e.fail("conversion %s to %s", from, to)
	return nil
}

func (e *Exec) strIndex(fr *Frame, st *State, s, i *Term, in ssa.Instruction) (Val, bool) {
	c := e.c
	if !e.check(fr, st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.B("str.len", "Int", s))), "string index out of range at "+e.pos(in.Pos())) {
		return nil, false
	}
	return e.charAt(st, s, i), true
}

func (e *Exec) charAt(st *State, s, i *Term) *Term {
	c := e.c
	if s.Op == "str" && i.Op == "int" && i.Int.IsInt64() && i.Int.Int64() >= 0 && i.Int.Int64() < int64(len(s.Name)) {
		return c.Int(int64(s.Name[i.Int.Int64()]))
	}
	t := c.B("str.to_code", "Int", c.B("str.at", "String", s, i))
	st.assume(c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, c.B("str.len", "Int", s))), c.And(c.Le(c.Int(0), t), c.Le(t, c.Int(255)))))
	return t
}

func (e *Exec) mapVal(st *State, t types.Type, m *Term) (mv *Term, dt string) {
	dt = e.mapDT(t)
	mv = e.c.Select(st.get(e, e.mkey(t)), m)
	return
}

func (e *Exec) mapFacts(st *State, dt string, mv *Term) {
	c := e.c
	n := c.Sel(dt, dt+".n", mv)
	dom := c.Sel(dt, dt+".dom", mv)
	ks, _ := splitArr(dom.Sort)
	st.assume(c.Le(c.Int(0), n), c.Le(n, c.Int(1<<48)), c.Iff(c.Eq(n, c.Int(0)), c.Eq(dom, c.ConstArr(ks, "Bool", c.F))))
}

func (e *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) (Val, bool) {
	c := e.c
	xt := e.typ(fr, in.X)
	x := e.tval(fr, st, in.X)
	mt, ok := xt.Underlying().(*types.Map)
	if !ok {
		return e.strIndex(fr, st, x, e.tval(fr, st, in.Index), in)
	}
	e.guardTerm(fr, st, x, in, false)
	k := e.tval(fr, st, in.Index)
	mv, dt := e.mapVal(st, xt, x)
	has := c.Select(c.Sel(dt, dt+".dom", mv), k)
	v0 := c.Select(c.Sel(dt, dt+".val", mv), k)
	st.assume(c.Imp(has, c.Ge(c.Sel(dt, dt+".n", mv), c.Int(1))))
	st.assume(c.Imp(has, c.And(e.facts(v0, mt.Elem(), st)...)))
	st.assume(c.Imp(c.Eq(x, c.Int(0)), c.Not(has)))
	v := c.Ite(has, v0, e.zero(mt.Elem()))
	if in.CommaOk {
		return Tuple{v, has}, true
	}
	return v, true
}

func (e *Exec) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) bool {
	c := e.c
	xt := e.typ(fr, in.Map)
	x := e.tval(fr, st, in.Map)
	if !e.check(fr, st, c.Neq(x, c.Int(0)), "assignment to entry in nil map at "+e.pos(in.Pos())) {
		return false
	}
	e.guardTerm(fr, st, x, in, true)
	e.mapPut(st, xt, x, e.tval(fr, st, in.Key), e.tval(fr, st, in.Value))
	return true
}

func (e *Exec) mapPut(st *State, xt types.Type, x, k, v *Term) {
	c := e.c
	mv, dt := e.mapVal(st, xt, x)
	dom, val, n := c.Sel(dt, dt+".dom", mv), c.Sel(dt, dt+".val", mv), c.Sel(dt, dt+".n", mv)
	e.mapFacts(st, dt, mv)
	nm := c.Mk(dt, c.Store(dom, k, c.T), c.Store(val, k, v), c.Ite(c.Select(dom, k), n, c.Add(n, c.Int(1))))
	key := e.mkey(xt)
	st.put(key, c.Store(st.get(e, key), x, nm))
}

func (e *Exec) mapDelete(st *State, xt types.Type, x, k *Term) {
	c := e.c
	mv, dt := e.mapVal(st, xt, x)
	dom, val, n := c.Sel(dt, dt+".dom", mv), c.Sel(dt, dt+".val", mv), c.Sel(dt, dt+".n", mv)
	e.mapFacts(st, dt, mv)
	st.assume(c.Imp(c.Select(dom, k), c.Ge(n, c.Int(1))))
	nm := c.Mk(dt, c.Store(dom, k, c.F), val, c.Ite(c.Select(dom, k), c.Sub(n, c.Int(1)), n))
	nm = c.Ite(c.Eq(x, c.Int(0)), mv, nm)
	key := e.mkey(xt)
	st.put(key, c.Store(st.get(e, key), x, nm))
}

func (e *Exec) next(fr *Frame, st *State, in *ssa.Next, k func(st *State, v Val)) {
	c := e.c
	pl := e.val(fr, st, in.Iter).(*Place)
	it := st.cells[pl.cell].(*mapIter)
	if in.IsString {
		s := it.str
		ln := c.B("str.len", "Int", s)
		e.branch(st, c.Lt(it.pos, ln), func(st *State) {
			it := st.cells[pl.cell].(*mapIter)
			n2 := *it
			ch := e.charAt(st, s, it.pos)
			r := c.Fresh("rune", "Int")
			w := c.Fresh("runew", "Int")
			st.assume(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(it.pos, w), ln), c.Le(c.Int(0), r), c.Le(r, c.Int(0x10ffff)),
				c.Imp(c.Lt(ch, c.Int(128)), c.And(c.Eq(r, ch), c.Eq(w, c.Int(1)))), c.Imp(c.Ge(ch, c.Int(128)), c.Ge(r, c.Int(128))))
			n2.pos = c.Add(it.pos, w)
			n2.n = c.Add(it.n, c.Int(1))
			st.cells[pl.cell] = &n2
			k(st, Tuple{c.T, it.pos, r})
		}, func(st *State) {
			it := st.cells[pl.cell].(*mapIter)
			st.assume(c.Eq(it.pos, ln))
			k(st, Tuple{c.F, c.Int(0), c.Int(0)})
		})
		return
	}
	mt := it.mt.Underlying().(*types.Map)
	e.guardTerm(fr, st, it.m, in, false)
	mv, dt := e.mapVal(st, it.mt, it.m)
	dom, val, n := c.Sel(dt, dt+".dom", mv), c.Sel(dt, dt+".val", mv), c.Sel(dt, dt+".n", mv)
	e.mapFacts(st, dt, mv)
	ks := e.sortOf(mt.Key())
	// done
	done := st.clone()
	q := c.BoundVar("k", ks)
	done.assume(c.Forall([]BV{{"k", ks}}, c.Imp(c.And(c.Select(it.dom0, q), c.Select(dom, q)), c.Select(it.vis, q)), c.Select(dom, q)))
	if dom == it.dom0 {
		done.assume(c.Eq(dom, it.vis), c.Eq(n, it.n))
	}
	// another element
	key := c.Fresh("mapkey", ks)
	st.assume(e.facts(key, mt.Key(), st)...)
	st.assume(c.Select(dom, key), c.Not(c.Select(it.vis, key)), c.Ge(n, c.Int(1)))
	if dom == it.dom0 {
		st.assume(c.Lt(it.n, n))
	}
	v := c.Select(val, key)
	st.assume(e.facts(v, mt.Elem(), st)...)
	n2 := *it
	n2.vis = c.Store(it.vis, key, c.T)
	n2.n = c.Add(it.n, c.Int(1))
	if e.q.check(done.pc, c.T, 200) != "unsat" {
		k(done, Tuple{c.F, e.zero(mt.Key()), e.zero(mt.Elem())})
	}
	if e.q.check(st.pc, c.T, 200) != "unsat" {
		st.cells[pl.cell] = &n2
		k(st, Tuple{c.T, key, v})
	}
}

func (e *Exec) slice(fr *Frame, st *State, in *ssa.Slice) (Val, bool) {
	c := e.c
	xt := e.typ(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = e.tval(fr, st, in.Low)
	} else {
		lo = c.Int(0)
	}
	if in.High != nil {
		hi = e.tval(fr, st, in.High)
	}
	if in.Max != nil {
		mx = e.tval(fr, st, in.Max)
	}
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		s := e.tval(fr, st, in.X)
		ln := c.B("str.len", "Int", s)
		if hi == nil {
			hi = ln
		}
		if !e.check(fr, st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, ln)), "slice bounds out of range at "+e.pos(in.Pos())) {
			return nil, false
		}
		return e.substr(s, lo, c.Sub(hi, lo)), true
	case *types.Slice:
		s := e.tval(fr, st, in.X)
		if hi == nil {
			hi = e.slLen(s)
		}
		if mx == nil {
			mx = e.slCap(s)
		}
		if !e.check(fr, st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, e.slCap(s))), "slice bounds out of range at "+e.pos(in.Pos())) {
			return nil, false
		}
		return e.mkSlice(e.slRef(s), c.Add(e.slOff(s), lo), c.Sub(hi, lo), c.Sub(mx, lo)), true
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = c.Int(a.Len())
		}
		if mx == nil {
			mx = c.Int(a.Len())
		}
		if !e.check(fr, st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, c.Int(a.Len()))), "slice bounds out of range at "+e.pos(in.Pos())) {
			return nil, false
		}
		p, ok := e.resolve(e.val(fr, st, in.X)).(*Term)
		if !ok {
			e.fail("slicing an array inside another value")
		}
		return e.mkSlice(p, lo, c.Sub(hi, lo), c.Sub(mx, lo)), true
	}
	e.fail("slice of %s", xt)
	return nil, false
}

func (e *Exec) substr(s, lo, n *Term) *Term {
	if s.Op == "str" && lo.Op == "int" && n.Op == "int" && lo.Int.IsInt64() && n.Int.IsInt64() {
		l, m := int(lo.Int.Int64()), int(n.Int.Int64())
		if l >= 0 && m >= 0 && l+m <= len(s.Name) {
			return e.c.Str(s.Name[l : l+m])
		}
	}
	if lo.Op == "int" && lo.Int.Sign() == 0 && n == e.c.B("str.len", "Int", s) {
		return s
	}
	// drop a literal prefix
	if s.Op == "str.++" && s.Args[0].Op == "str" && lo.Op == "int" && lo.Int.IsInt64() {
		l := int(lo.Int.Int64())
		if l > 0 && l <= len(s.Args[0].Name) && n == e.c.Sub(e.c.B("str.len", "Int", s), lo) {
			return e.c.Concat(append([]*Term{e.c.Str(s.Args[0].Name[l:])}, s.Args[1:]...)...)
		}
	}
	return e.c.B("str.substr", "String", s, lo, n)
}

// ---- operators

func (e *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) (Val, bool) {
	c := e.c
	switch in.Op {
	case token.MUL:
		if !e.derefCheck(fr, st, in.X, in) {
			return nil, false
		}
		p := e.val(fr, st, in.X)
		e.guardAccess(fr, st, p, in, false)
		t := e.typ(fr, in)
		v := e.loadPtr(st, p, t)
		e.guardProv(st, p, v)
		return v, true
	case token.NOT:
		return c.Not(e.tval(fr, st, in.X)), true
	case token.SUB:
		x := e.tval(fr, st, in.X)
		t := e.typ(fr, in)
		if x.Sort == "Float64" {
			return c.B("fp.neg", "Float64", x), true
		}
		return e.wrap(st, c.Sub(c.Int(0), x), t), true
	case token.XOR:
		x := e.tval(fr, st, in.X)
		t := e.typ(fr, in)
		return e.wrap(st, c.Sub(c.Int(-1), x), t), true
	}
	e.fail("unop %s", in)
	return nil, false
}

// reduce a mathematical result into the type's range
func (e *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if t.Op == "int" {
		if t.Int.Cmp(lo) >= 0 && t.Int.Cmp(hi) <= 0 {
			return t
		}
	} else if e.prove(st, e.inRange(t, b)) {
		st.assume(e.inRange(t, b))
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if lo.Sign() == 0 {
		return e.c.Mod(t, e.c.IntBig(m))
	}
	h := e.c.IntBig(new(big.Int).Neg(lo))
	return e.c.Sub(e.c.Mod(e.c.Add(t, h), e.c.IntBig(m)), h)
}

func (e *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) (Val, bool) {
	c := e.c
	xt := e.typ(fr, in.X)
	xv, yv := e.val(fr, st, in.X), e.val(fr, st, in.Y)
	// pointer / function comparisons with nil without materialising places
	if in.Op == token.EQL || in.Op == token.NEQ {
		nilCmp := func(a Val, b ssa.Value) (Val, bool) {
			k, isC := b.(*ssa.Const)
			if !isC || k.Value != nil {
				return nil, false
			}
			switch a.(type) {
			case *Place, *Closure:
				return c.Bool(in.Op == token.NEQ), true
			}
			return nil, false
		}
		if v, ok := nilCmp(xv, in.Y); ok {
			return v, true
		}
		if v, ok := nilCmp(yv, in.X); ok {
			return v, true
		}
	}
	x, y := e.term(xv, xt), e.term(yv, e.typ(fr, in.Y))
	if ph, ok := in.X.(*ssa.Phi); ok && in.Op == token.ADD && ph.Comment == "rangeindex" {
		return c.Add(x, y), true // compiler generated index of a range loop, bounded by the length
	}
	return e.arith(fr, st, in.Op, xt, x, y, e.typ(fr, in), in)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Exec) goEq(st *State, t types.Type, x, y *Term) *Term {
	if x.Sort == "Float64" {
		return e.c.B("fp.eq", "Bool", x, y)
	}
	if x.Sort == "Slice" { // comparison with nil only
		z := e.slRef(y)
		if y == e.nilSlice() {
			return e.c.Eq(e.slRef(x), e.c.Int(0))
		}
		if x == e.nilSlice() {
			return e.c.Eq(z, e.c.Int(0))
		}
	}
	return e.c.Eq(x, y)
}

func (e *Exec) arith(fr *Frame, st *State, op token.Token, xt types.Type, x, y *Term, rt types.Type, in ssa.Instruction) (Val, bool) {
	c := e.c
	switch op {
	case token.EQL:
		if x.Sort != y.Sort {
			// interface against concrete
			e.fail("comparison of %s and %s", x.Sort, y.Sort)
		}
		return e.goEq(st, xt, x, y), true
	case token.NEQ:
		return c.Not(e.goEq(st, xt, x, y)), true
	}
	if x.Sort == "Float64" {
		f := map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}
		if o, ok := f[op]; ok {
			return c.B(o, "Bool", x, y), true
		}
		g := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}
		if o, ok := g[op]; ok {
			r := c.B(o, "Float64", c.mk("lit", "RNE", "RoundingMode"), x, y)
			if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				c.DeclFun("f32round", []string{"Float64"}, "Float64")
				r = c.App("f32round", r)
			}
			return r, true
		}
	}
	if x.Sort == "String" {
		switch op {
		case token.ADD:
			return c.Concat(x, y), true
		case token.LSS:
			return c.B("str.<", "Bool", x, y), true
		case token.LEQ:
			return c.B("str.<=", "Bool", x, y), true
		case token.GTR:
			return c.B("str.<", "Bool", y, x), true
		case token.GEQ:
			return c.B("str.<=", "Bool", y, x), true
		}
	}
	if isTP(xt) {
		n := "tpop_" + sanitize(op.String()) + "_" + sanitize(typeKey(xt))
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt := "tplt_" + sanitize(typeKey(xt))
			c.DeclFun(lt, []string{x.Sort, x.Sort}, "Bool")
			switch op {
			case token.LSS:
				return c.App(lt, x, y), true
			case token.GTR:
				return c.App(lt, y, x), true
			}
			c.DeclFun(n, []string{x.Sort, x.Sort}, "Bool")
			return c.App(n, x, y), true
		}
		c.DeclFun(n, []string{x.Sort, x.Sort}, x.Sort)
		return c.App(n, x, y), true
	}
	if x.Sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y), true
		case token.OR, token.LOR:
			return c.Or(x, y), true
		}
	}
	if x.Sort != "Int" {
		e.fail("binop %s on %s", op, x.Sort)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y), true
	case token.LEQ:
		return c.Le(x, y), true
	case token.GTR:
		return c.Lt(y, x), true
	case token.GEQ:
		return c.Le(y, x), true
	case token.ADD:
		return e.wrap(st, c.Add(x, y), rt), true
	case token.SUB:
		return e.wrap(st, c.Sub(x, y), rt), true
	case token.MUL:
		return e.wrap(st, c.Mul(x, y), rt), true
	case token.QUO, token.REM:
		if !e.check(fr, st, c.Neq(y, c.Int(0)), "integer divide by zero at "+e.pos(in.Pos())) {
			return nil, false
		}
		// truncated division through euclidean
		var q *Term
		if e.prove(st, c.Ge(x, c.Int(0))) {
			if y.Op == "int" && y.Int.Sign() > 0 || e.prove(st, c.Gt(y, c.Int(0))) {
				if op == token.QUO {
					return c.Div(x, y), true
				}
				return c.Mod(x, y), true
			}
		}
		ab := func(t *Term) *Term { return c.Ite(c.Ge(t, c.Int(0)), t, c.Sub(c.Int(0), t)) }
		d := c.Div(ab(x), ab(y))
		q = c.Ite(c.Eq(c.Ge(x, c.Int(0)), c.Ge(y, c.Int(0))), d, c.Sub(c.Int(0), d))
		if op == token.QUO {
			return e.wrap(st, q, rt), true
		}
		return c.Sub(x, c.Mul(y, q)), true
	case token.SHL, token.SHR:
		if y.Op == "int" && y.Int.IsInt64() && y.Int.Int64() >= 0 && y.Int.Int64() < 64 {
			p := c.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64())))
			if op == token.SHL {
				return e.wrap(st, c.Mul(x, p), rt), true
			}
			return c.Div(x, p), true
		}
	case token.AND:
		if x.Op == "int" {
			x, y = y, x
		}
		if y.Op == "int" && y.Int.Sign() >= 0 {
			p := new(big.Int).Add(y.Int, big.NewInt(1))
			if new(big.Int).And(p, y.Int).Sign() == 0 {
				return c.Mod(x, c.IntBig(p)), true
			}
		}
	}
	n := "bitop_" + map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
	c.DeclFun(n, []string{"Int", "Int"}, "Int")
	t := c.App(n, x, y)
	if b, ok := rt.Underlying().(*types.Basic); ok {
		st.assume(e.inRange(t, b))
	}
	return t, true
}

func (e *Exec) convert(fr *Frame, st *State, xv ssa.Value, to types.Type, in ssa.Instruction) (Val, bool) {
	c := e.c
	from := e.typ(fr, xv)
	v := e.val(fr, st, xv)
	if isTP(from) || isTP(to) {
		x := e.term(v, from)
		n := "conv_" + sanitize(typeKey(from)) + "_" + sanitize(typeKey(to))
		c.DeclFun(n, []string{e.sortOf(from)}, e.sortOf(to))
		return c.App(n, x), true
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		x := e.term(v, from)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return e.wrap(st, x, to), true
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				c.DeclFun("i2f32", []string{"Int"}, "Float64")
				return c.App("i2f32", x), true
			}
			f := e.i2f(x)
			if f.Op == "app" { // rounding is monotone
				lo, hi, _ := intRange(fb)
				l, _ := new(big.Float).SetInt(lo).Float64()
				h, _ := new(big.Float).SetInt(hi).Float64()
				st.assume(c.B("fp.leq", "Bool", e.floatBits(l), f), c.B("fp.leq", "Bool", f, e.floatBits(h)))
			}
			return f, true
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			// the integer part when the type holds it, otherwise whatever the implementation makes of it
			lo, hi, _ := intRange(tb)
			n := "f2i_" + tb.Name()
			c.DeclFun(n, []string{"Float64"}, "Int")
			t := c.App(n, x)
			st.assume(e.inRange(t, tb), c.Imp(e.fpWithin(x, lo, hi), c.Eq(t, e.ftrunc(x))))
			return t, true
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				c.DeclFun("f32round", []string{"Float64"}, "Float64")
				return c.App("f32round", x), true
			}
			return x, true
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x, true
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return e.runeStr(x), true
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.bytesOf(st, e.term(v, from), to), true
			}
			// []rune(s)
			return e.runesOf(st, e.term(v, from)), true
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.strOf(st, e.term(v, from), sl.Elem()), true
			}
			return e.strOfRunes(st, e.term(v, from)), true
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v, true
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		e.fail("unsafe pointer conversion")
	}
	e.fail("conversion %s -> %s", from, to)
	return nil, false
}

func (e *Exec) i2f(x *Term) *Term {
	e.c.DeclFun("i2f", []string{"Int"}, "Float64")
	if x.Op == "int" && x.Int.IsInt64() {
		return e.floatBits(float64(x.Int.Int64()))
	}
	return e.c.App("i2f", x)
}

// the integer part of x (a mathematical integer; of no meaning for NaN and the infinities)
func (e *Exec) ftrunc(x *Term) *Term {
	e.c.DeclFun("ftrunc", []string{"Float64"}, "Int")
	return e.c.App("ftrunc", x)
}

// the integer part of x lies in [lo, hi]
func (e *Exec) fpWithin(x *Term, lo, hi *big.Int) *Term {
	exact := func(b *big.Int) (float64, bool) {
		f, _ := new(big.Float).SetInt(b).Float64()
		back, _ := new(big.Float).SetFloat64(f).Int(nil)
		return f, back.Cmp(b) == 0
	}
	c := e.c
	var l, h *Term
	if f, ok := exact(new(big.Int).Sub(lo, big.NewInt(1))); ok {
		l = c.B("fp.gt", "Bool", x, e.floatBits(f))
	} else if f, ok := exact(lo); ok {
		l = c.B("fp.geq", "Bool", x, e.floatBits(f))
	} else {
		e.fail("bound %s of a float conversion", lo)
	}
	if f, ok := exact(new(big.Int).Add(hi, big.NewInt(1))); ok {
		h = c.B("fp.lt", "Bool", x, e.floatBits(f))
	} else if f, ok := exact(hi); ok {
		h = c.B("fp.leq", "Bool", x, e.floatBits(f))
	} else {
		e.fail("bound %s of a float conversion", hi)
	}
	return c.And(l, h)
}
func (e *Exec) runeStr(x *Term) *Term {
	if x.Op == "int" && x.Int.IsInt64() {
		return e.c.Str(string(rune(x.Int.Int64())))
	}
	e.c.DeclFun("rune2str", []string{"Int"}, "String")
	i := e.c.BoundVar("i", "Int")
	e.c.Axiom([]string{"rune2str"}, e.c.Forall([]BV{{"i", "Int"}}, e.c.Imp(e.c.And(e.c.Le(e.c.Int(0), i), e.c.Lt(i, e.c.Int(128))), e.c.Eq(e.c.App("rune2str", i), e.c.B("str.from_code", "String", i))), e.c.App("rune2str", i)))
	return e.c.App("rune2str", x)
}

// bytes of a string: fresh backing array
func (e *Exec) bytesOf(st *State, s *Term, to types.Type) *Term {
	c := e.c
	el := to.Underlying().(*types.Slice).Elem()
	e.strFuns()
	r := e.alloc(st)
	k := e.bkey(el)
	st.put(k, c.Store(st.get(e, k), r, c.App("str2arr", s)))
	n := c.B("str.len", "Int", s)
	cp := c.Fresh("cap", "Int")
	st.assume(c.Le(n, cp), c.Le(cp, c.Int(1<<48)))
	// Go: []byte("") is non-nil
	return e.mkSlice(r, c.Int(0), n, cp)
}

func (e *Exec) strFuns() {
	c := e.c
	if _, ok := c.funs["str2arr"]; ok {
		return
	}
	c.DeclFun("str2arr", []string{"String"}, "(Array Int Int)")
	c.DeclFun("arr2str", []string{"(Array Int Int)", "Int", "Int"}, "String")
	s := c.BoundVar("s", "String")
	i := c.BoundVar("i", "Int")
	at := c.Select(c.App("str2arr", s), i)
	ln := c.B("str.len", "Int", s)
	c.Axiom([]string{"str2arr"}, c.Forall([]BV{{"s", "String"}, {"i", "Int"}}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, ln)), c.Eq(at, c.B("str.to_code", "Int", c.B("str.at", "String", s, i)))), at))
	a := c.BoundVar("a", "(Array Int Int)")
	o := c.BoundVar("o", "Int")
	n := c.BoundVar("n", "Int")
	x := c.App("arr2str", a, o, n)
	c.Axiom([]string{"arr2str"}, c.Forall([]BV{{"a", "(Array Int Int)"}, {"o", "Int"}, {"n", "Int"}}, c.Imp(c.Le(c.Int(0), n), c.Eq(c.B("str.len", "Int", x), n)), x))
	rt := c.App("arr2str", c.App("str2arr", s), c.Int(0), ln)
	c.Axiom([]string{"arr2str"}, c.Forall([]BV{{"s", "String"}}, c.Eq(rt, s), c.App("str2arr", s)))
	y := c.App("arr2str", c.App("str2arr", s), c.Int(0), n)
	c.Axiom([]string{"arr2str"}, c.Forall([]BV{{"s", "String"}, {"n", "Int"}}, c.Imp(c.Eq(n, ln), c.Eq(y, s)), y))
}

func (e *Exec) strOf(st *State, b *Term, el types.Type) *Term {
	c := e.c
	e.strFuns()
	arr := c.Select(st.get(e, e.bkey(el)), e.slRef(b))
	if arr.Op == "app" && arr.Name == "str2arr" && e.slOff(b) == c.Int(0) && e.slLen(b) == c.B("str.len", "Int", arr.Args[0]) {
		return arr.Args[0]
	}
	return c.App("arr2str", arr, e.slOff(b), e.slLen(b))
}
func (e *Exec) runesOf(st *State, s *Term) *Term {
	e.fail("[]rune conversion")
	return nil
}
func (e *Exec) strOfRunes(st *State, s *Term) *Term {
	e.fail("string([]rune) conversion")
	return nil
}
