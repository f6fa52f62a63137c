package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// function bodies from these packages are executed, everything else needs a model
var inlinePkgs = map[string]bool{
	"container/heap": true, "slices": true, "maps": true, "cmp": true,
}
var inlineFuncs = map[string]bool{
	"(*net/http.Request).Context": true, "(net/http.HandlerFunc).ServeHTTP": true,
	"(*context.valueCtx).Value": true, "(*context.cancelCtx).Value": true,
	"strings.Cut": true, "sort.Sort": false,
}

// packages whose functions are deterministic in their (scalar) arguments
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "path": true, "path/filepath": true, "html": true, "net/url": true, "mime": true, "net/textproto": true,
	"go/token": true, "math/bits": true, "bytes": true, "net": true,
}

// deterministic functions of their arguments in packages which are not pure
var pureFns = map[string]bool{"(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(reflect.Value).Int": true, "(reflect.Value).Uint": true, "(reflect.Value).Float": true, "(reflect.Value).Bool": true, "(reflect.Value).String": true, "(reflect.Value).IsNil": true,
	"(reflect.Value).Kind": true, "reflect.ValueOf": true, "(reflect.Value).Type": true,
	"(reflect.Value).NumField": true, "(reflect.Value).Field": true, "(reflect.Value).Len": true, "(reflect.Value).Index": true, "(reflect.Value).Elem": true, "(reflect.Value).Interface": true, "(reflect.Value).MapIndex": true,
	"(reflect.Value).Addr": true, "(reflect.Value).CanSet": true, "(reflect.StructField).IsExported": true}

type callInfo struct {
	fn    *ssa.Function
	key   string
	te    tenv
	args  []Val
	fr    *Frame
	in    ssa.Instruction
	ci    *ssa.CallCommon
	res   []types.Type
	recvT types.Type
}

type intrinsic func(e *Exec, st *State, ci *callInfo, k Kont)

func (e *Exec) inModule(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return f.Synthetic != ""
	}
	p := f.Pkg.Pkg.Path()
	return strings.HasPrefix(p, modPath) || inlinePkgs[p]
}

func (e *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, k func(st *State, res []Val)) {
	var fn Val
	if cc.IsInvoke() {
		fn = e.val(fr, st, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fn = e.val(fr, st, cc.Value)
	}
	args := make([]Val, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = e.val(fr, st, a)
	}
	e.callVals(fr, st, cc, fn, args, in, false, Kont{Ret: k, Panic: func(st *State, v *Term, why string) { e.doPanic(fr, st, v, why) }})
}

func (e *Exec) resTypes(te tenv, sig *types.Signature) []types.Type {
	var rs []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, te.subst(sig.Results().At(i).Type()))
	}
	return rs
}

func (e *Exec) callVals(fr *Frame, st *State, cc *ssa.CallCommon, fn Val, args []Val, in ssa.Instruction, isDefer bool, k Kont) {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		e.builtin(fr, st, b, cc, args, in, isDefer, k)
		return
	}
	if cc.IsInvoke() {
		e.invoke(fr, st, cc, e.term(fn, e.typ(fr, cc.Value)), fr.te.subst(cc.Value.Type()), cc.Method, args, in, isDefer, k)
		return
	}
	e.callFuncVal(fr, st, fn, fr.te.subst(cc.Value.Type()), args, cc, in, isDefer, k)
}

func (e *Exec) callFuncVal(fr *Frame, st *State, fn Val, ft types.Type, args []Val, cc *ssa.CallCommon, in ssa.Instruction, isDefer bool, k Kont) {
	switch f := e.resolve(fn).(type) {
	case *Closure:
		if f.nat != nil {
			f.nat(e, fr, st, args, k)
			return
		}
		e.callFn(fr, st, f.fn, f.te, f.binds, args, cc, in, isDefer, k)
	case *Term:
		if f.Op == "ite" {
			e.branch(st, f.Args[0], func(st *State) { e.callFuncVal(fr, st, f.Args[1], ft, args, cc, in, isDefer, k) },
				func(st *State) { e.callFuncVal(fr, st, f.Args[2], ft, args, cc, in, isDefer, k) })
			return
		}
		where := ""
		if in != nil {
			where = e.pos(in.Pos())
		}
		if !e.check(fr, st, e.c.Neq(f, e.c.Int(0)), "call of nil function at "+where) {
			return
		}
		sig := ft.Underlying().(*types.Signature)
		e.unknownCall(fr, st, cbChan(ft), f, sig, args, k)
	default:
		e.fail("call of %T", fn)
	}
}

func cbChan(ft types.Type) string {
	return "cb:" + typeKey(ft.Underlying())
}
func traceChan(k string) string { // T:arg0:chan
	i := strings.Index(k[2:], ":")
	return k[2+i+1:]
}

// ---- ghost traces

func (e *Exec) traceKeys(ch string, idxSort string) (cnt, at string) {
	cnt, at = "T:cnt:"+ch, "T:at:"+ch
	if _, ok := e.heapSort[cnt]; !ok {
		e.heapSort[cnt] = arrSort(idxSort, "Int")
		e.heapSort[at] = arrSort(idxSort, arrSort("Int", "Int"))
		if _, ok := e.heapSort["T:clk"]; !ok {
			e.heapSort["T:clk"] = "Int"
		}
	}
	return
}
func (e *Exec) traceArg(ch, idxSort string, k int, s string) string {
	key := fmt.Sprintf("T:arg%d:%s", k, ch)
	if _, ok := e.heapSort[key]; !ok {
		e.heapSort[key] = arrSort(idxSort, arrSort("Int", s))
	}
	return key
}
func (e *Exec) traceRet(ch string, idx *Term, j *Term, k int, t types.Type) *Term {
	n := fmt.Sprintf("ret%d_%s", k, sanitize(ch))
	e.c.DeclFun(n, []string{idx.Sort, "Int"}, e.sortOf(t))
	return e.c.App(n, idx, j)
}

func (e *Exec) event(st *State, ch string, idx *Term, args []*Term) (j *Term) {
	c := e.c
	cnt, at := e.traceKeys(ch, idx.Sort)
	j = c.Select(st.get(e, cnt), idx)
	st.assume(c.Le(c.Int(0), j))
	for i, a := range args {
		k := e.traceArg(ch, idx.Sort, i, a.Sort)
		h := st.get(e, k)
		st.put(k, c.Store(h, idx, c.Store(c.Select(h, idx), j, a)))
	}
	clk := st.get(e, "T:clk")
	h := st.get(e, at)
	st.put(at, c.Store(h, idx, c.Store(c.Select(h, idx), j, clk)))
	st.put("T:clk", c.Add(clk, c.Int(1)))
	st.put(cnt, c.Store(st.get(e, cnt), idx, c.Add(j, c.Int(1))))
	return j
}

// call of unknown code: recorded in the trace, results are prophecies
func (e *Exec) unknownCall(fr *Frame, st *State, ch string, idx *Term, sig *types.Signature, args []Val, k Kont) {
	var ts []*Term
	for i, a := range args {
		var pt types.Type
		if i < sig.Params().Len() {
			pt = sig.Params().At(i).Type()
		}
		ts = append(ts, e.term(a, pt))
	}
	if e.root != nil {
		for _, q := range e.root.ct.AtCall {
			e.obligate(st, e.root.env(e, st).boolean(q.Expr), q.Label, "whenever unknown code is called: "+q.Src)
		}
	}
	j := e.event(st, ch, idx, ts)
	if e.root != nil && e.root.callbacksPanic() {
		s2 := st.clone()
		v := e.c.Fresh("cbpanic", "Any")
		s2.assume(e.c.Neq(v, e.anynil))
		if k.Panic != nil {
			k.Panic(s2, v, "callback panic")
		}
	}
	if e.root != nil {
		e.root.afterCallback(e, st)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := fr.te.subst(sig.Results().At(i).Type())
		r := e.traceRet(ch, idx, j, i, t)
		st.assume(e.facts(r, t, st)...)
		if isIface(t) && !isTP(t) {
			st.assume(e.c.Imp(e.c.Neq(r, e.anynil), e.implPred(t, e.typOf(r))))
		}
		res = append(res, r)
	}
	k.Ret(st, res)
}

func (e *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *Term, it types.Type, m *types.Func, args []Val, in ssa.Instruction, isDefer bool, k Kont) {
	if recv.Op == "ite" {
		e.branch(st, recv.Args[0], func(st *State) { e.invoke(fr, st, cc, recv.Args[1], it, m, args, in, isDefer, k) },
			func(st *State) { e.invoke(fr, st, cc, recv.Args[2], it, m, args, in, isDefer, k) })
		return
	}
	recv = e.pinned(st, recv)
	where := ""
	if in != nil {
		where = e.pos(in.Pos())
	}
	if !isTP(it) && !e.check(fr, st, e.c.Neq(recv, e.anynil), "method call on nil interface at "+where) {
		return
	}
	id := e.typOf(recv)
	if id.Op != "int" {
		// a dynamic type pinned by the path condition
		for _, p := range st.pc {
			if p.Op == "=" && p.Args[0] == id && p.Args[1].Op == "int" {
				id = p.Args[1]
				break
			}
			if p.Op == "=" && p.Args[1] == id && p.Args[0].Op == "int" {
				id = p.Args[0]
				break
			}
		}
	}
	mname := typeKey(it) + "." + m.Name()
	if id.Op == "int" {
		T := e.typeOf[id.Int.Int64()]
		if T != nil && !isTP(T) {
			var te tenv
			fn := e.p.lookupMethod(T, m.Pkg(), m.Name())
			if fn == nil {
				fn, te = e.p.genericMethod(T, m.Pkg(), m.Name())
			}
			if fn == nil {
				e.fail("no method %s on %s", m.Name(), T)
			}
			rv := e.unbox(T, recv)
			e.callFn(fr, st, fn, te, nil, append([]Val{rv}, args...), cc, in, isDefer, k)
			return
		}
	}
	if !m.Exported() && !isTP(it) && m.Pkg() != nil {
		// only types of that package can have the method: one path per implementation
		if ts := e.implementers(m.Pkg(), it); len(ts) > 0 && len(ts) <= 8 {
			e.note("interface %s is implemented only inside its package", typeKey(it))
			var alts func(st *State, i int)
			alts = func(st *State, i int) {
				if i == len(ts) {
					return
				}
				tid := e.c.Int(e.typeID(ts[i]))
				e.branch(st, e.c.Eq(id, tid), func(st *State) {
					fn := e.p.lookupMethod(ts[i], m.Pkg(), m.Name())
					rv := e.unbox(ts[i], recv)
					st.assume(e.c.Eq(recv, e.box(ts[i], rv)))
					e.callFn(fr, st, fn, nil, nil, append([]Val{rv}, args...), cc, in, isDefer, k)
				}, func(st *State) { alts(st, i+1) })
			}
			alts(st, 0)
			return
		}
	}
	sig := m.Type().(*types.Signature)
	if typeKey(it) == "reflect.Type" {
		e.note("reflect.Type.%s: deterministic", m.Name())
		ts := []*Term{recv}
		sorts := []string{"Any"}
		for i, a := range args {
			t := e.term(a, fr.te.subst(sig.Params().At(i).Type()))
			ts, sorts = append(ts, t), append(sorts, t.Sort)
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			n := "rtype_" + m.Name()
			if i > 0 {
				n += fmt.Sprint(i)
			}
			e.c.DeclFun(n, sorts, e.sortOf(t))
			r := e.c.App(n, ts...)
			st.assume(e.facts(r, t, st)...)
			if isIface(t) {
				if n := m.Name(); n == "Elem" || n == "Key" || n == "In" || n == "Out" { // or they panic
					st.assume(e.c.Neq(r, e.anynil))
				}
				st.assume(e.c.Imp(e.c.Neq(r, e.anynil), e.implPred(t, e.typOf(r))))
			}
			res = append(res, r)
		}
		k.Ret(st, res)
		return
	}
	if ifm, ok := ifaceIntrinsics[m.Name()]; ok {
		ci := &callInfo{key: mname, te: fr.te, args: append([]Val{recv}, args...), fr: fr, in: in, ci: cc, res: e.resTypes(fr.te, sig), recvT: it}
		if ifm(e, st, ci, k) {
			return
		}
	}
	e.unknownCall(fr, st, "im:"+m.Name(), recv, sig, args, k)
}

func (e *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, te tenv, binds, args []Val, cc *ssa.CallCommon, in ssa.Instruction, isDefer bool, k Kont) {
	key := funcKey(fn)
	if te == nil {
		te = tenv{}
	}
	if e.root != nil && e.root.opaqueFn[key] && fr != nil {
		e.opaqueCall(fr, st, fn, te, args, k)
		return
	}
	if e.root != nil && fr != nil {
		if g := e.root.stubs[key]; g != nil && fn != g {
			e.note("%s is replaced by %s", key, funcKey(g))
			e.callFn(fr, st, g, tenv{}, nil, args, cc, in, isDefer, k)
			return
		}
	}
	// te for instances: substitute the caller's environment
	if intr, ok := intrinsics[key]; ok {
		sub := te
		ci := &callInfo{fn: fn, key: key, te: sub, args: args, fr: fr, in: in, ci: cc, res: e.resTypes(sub, fn.Signature)}
		intr(e, st, ci, k)
		return
	}
	if e.root != nil {
		if ct := e.root.modular(key); ct != nil && !(fr == nil) {
			e.applyContract(fr, st, ct, fn, te, args, in, k)
			return
		}
	}
	if fn.Blocks == nil && fn.Origin() == nil {
		e.p.build(fn)
	}
	if e.root != nil && e.root.merge[key] {
		e.runMerged(fr, st, fn, te, binds, args, k)
		return
	}
	if e.inModule(fn) || inlineFuncs[key] || (fn.Pkg == nil && fn.Synthetic != "") {
		e.runFunc(fr, fn, te, binds, args, st, isDefer, k)
		return
	}
	if fn.Parent() != nil && !e.inModule(fn) {
		e.runFunc(fr, fn, te, binds, args, st, isDefer, k)
		return
	}
	e.external(fr, st, fn, key, te, args, k)
}

// a call that is only recorded: its own contract (or an assumption) covers what it does
func (e *Exec) opaqueCall(fr *Frame, st *State, fn *ssa.Function, te tenv, args []Val, k Kont) {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.term(a, te.subst(fn.Params[i].Type())))
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	ch := opaqueChan(o)
	idx := e.c.Int(0)
	j := e.event(st, ch, idx, ts)
	e.note("%s is taken by its calls: arbitrary result, returns normally, no effect on the state this contract describes", ch[3:])
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := te.subst(fn.Signature.Results().At(i).Type())
		r := e.traceRet(ch, idx, j, i, t)
		st.assume(e.facts(r, t, st)...)
		if isIface(t) && !isTP(t) {
			st.assume(e.c.Imp(e.c.Neq(r, e.anynil), e.implPred(t, e.typOf(r))))
		}
		res = append(res, r)
	}
	k.Ret(st, res)
}

func (e *Exec) external(fr *Frame, st *State, fn *ssa.Function, key string, te tenv, args []Val, k Kont) {
	rts := e.resTypes(te, fn.Signature)
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	pure := purePkgs[pkg] || pureFns[key]
	var ts []*Term
	var sorts []string
	for i, a := range args {
		var pt types.Type
		if i < len(fn.Params) {
			pt = fn.Params[i].Type()
		}
		if p, ok := a.(*Place); ok && !pure {
			// a pointer handed to unknown code: its target may change
			e.havocPlace(st, p)
			continue
		}
		t := e.term(a, pt)
		ts = append(ts, t)
		sorts = append(sorts, t.Sort)
		if t.Sort == "Slice" {
			pure = false
		}
	}
	var res []Val
	for i, t := range rts {
		var r *Term
		if pure {
			n := fmt.Sprintf("ext%d_%s", i, sanitize(key))
			e.c.DeclFun(n, sorts, e.sortOf(t))
			r = e.c.App(n, ts...)
			st.assume(e.facts(r, t, st)...)
		} else {
			r = e.freshVal(st, "ext_"+key, t)
		}
		res = append(res, r)
	}
	if pure {
		e.note("%s: deterministic, no side effects", key)
	} else {
		e.note("%s: arbitrary result, no side effect on modelled state, does not panic", key)
	}
	k.Ret(st, res)
}

func (e *Exec) havocPlace(st *State, p *Place) {
	if p.kind == pkCell && len(p.path) == 0 {
		if e.cellTy[p.cell] == nil {
			return
		}
		st.cells[p.cell] = e.freshVal(st, "out", e.cellTy[p.cell])
		return
	}
	e.store(st, p, e.freshVal(st, "out", p.typ()))
}

// ---- builtins

func (e *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, in ssa.Instruction, isDefer bool, k Kont) {
	c := e.c
	at := func(i int) types.Type { return e.typ(fr, cc.Args[i]) }
	tm := func(i int) *Term { return e.term(args[i], at(i)) }
	ret := func(v ...Val) { k.Ret(st, v) }
	switch b.Name() {
	case "len", "cap":
		x := tm(0)
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				ret(e.slLen(x))
			} else {
				ret(e.slCap(x))
			}
			return
		case *types.Basic:
			t := c.B("str.len", "Int", x)
			st.assume(c.Le(t, c.Int(1<<48)))
			ret(t)
			return
		case *types.Map:
			mv, dt := e.mapVal(st, at(0), x)
			e.guardTerm(fr, st, x, in, false)
			e.mapFacts(st, dt, mv)
			ret(c.Sel(dt, dt+".n", mv))
			return
		case *types.Array:
			ret(c.Int(u.Len()))
			return
		case *types.Pointer:
			ret(c.Int(u.Elem().Underlying().(*types.Array).Len()))
			return
		case *types.Chan:
			v := c.Fresh("chanlen", "Int")
			st.assume(c.Le(c.Int(0), v), c.Le(v, c.Int(1<<48)))
			ret(v)
			return
		}
		if isTP(at(0)) {
			e.fail("len of type parameter")
		}
	case "append":
		st2 := at(0).Underlying().(*types.Slice)
		if bt, ok := at(1).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			ret(e.appendStr(st, tm(0), tm(1), st2.Elem()))
			return
		}
		ret(e.appendSlice(st, tm(0), tm(1), st2.Elem()))
		return
	case "copy":
		el := at(0).Underlying().(*types.Slice).Elem()
		if bt, ok := at(1).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			s := tm(1)
			e.strFuns()
			d := tm(0)
			n := c.Ite(c.Le(e.slLen(d), c.B("str.len", "Int", s)), e.slLen(d), c.B("str.len", "Int", s))
			e.copyArr(st, e.bkey(el), d, c.App("str2arr", s), c.Int(0), n)
			ret(n)
			return
		}
		d, s := tm(0), tm(1)
		n := c.Ite(c.Le(e.slLen(d), e.slLen(s)), e.slLen(d), e.slLen(s))
		k := e.bkey(el)
		e.copyArr(st, k, d, c.Select(st.get(e, k), e.slRef(s)), e.slOff(s), n)
		ret(n)
		return
	case "delete":
		e.guardTerm(fr, st, tm(0), in, true)
		e.mapDelete(st, at(0), tm(0), tm(1))
		ret()
		return
	case "clear":
		e.fail("clear")
	case "min", "max":
		r := tm(0)
		for i := 1; i < len(args); i++ {
			x := tm(i)
			if r.Sort != "Int" {
				e.fail("min/max of %s", r.Sort)
			}
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, x), r, x)
			} else {
				r = c.Ite(c.Le(x, r), r, x)
			}
		}
		ret(r)
		return
	case "print", "println":
		ret()
		return
	case "panic":
		k.Panic(st, tm(0), "explicit panic (deferred)")
		return
	case "recover":
		// only a function called directly by the deferring machinery recovers
		if fr.isDefer && len(st.panics) > 0 {
			p := st.panics[len(st.panics)-1]
			if !p.recovered {
				p.recovered = true
				if p.why == "goexit" {
					p.recovered = false
					ret(e.anynil)
					return
				}
				ret(p.val)
				return
			}
		}
		ret(e.anynil)
		return
	case "close":
		e.chanClose(fr, st, tm(0), at(0).Underlying().(*types.Chan).Elem(), in, k)
		return
	case "ssa:wrapnilchk":
		ret(args[0])
		return
	}
	e.fail("builtin %s", b.Name())
}

func (e *Exec) appendSlice(st *State, a, b *Term, el types.Type) *Term {
	c := e.c
	k := e.bkey(el)
	B := st.get(e, k)
	ar, ao, al, ac := e.slRef(a), e.slOff(a), e.slLen(a), e.slCap(a)
	bl := e.slLen(b)
	if bl == c.Int(0) {
		return a
	}
	arr := c.Select(B, ar)
	src := c.Select(B, e.slRef(b))
	var narr *Term
	if bl.Op == "int" && bl.Int.IsInt64() && bl.Int.Int64() <= 16 {
		narr = arr
		for i := int64(0); i < bl.Int.Int64(); i++ {
			narr = c.Store(narr, c.Add(c.Add(ao, al), c.Int(i)), c.Select(src, c.Add(e.slOff(b), c.Int(i))))
		}
	} else {
		narr = e.spliceArr(st, arr, c.Add(ao, al), src, e.slOff(b), bl)
	}
	return e.finishAppend(st, k, a, narr, bl, ar, ao, al, ac)
}

func (e *Exec) finishAppend(st *State, k string, a, narr, bl, ar, ao, al, ac *Term) *Term {
	c := e.c
	nl := c.Add(al, bl)
	st.assume(c.Le(c.Add(ao, nl), c.Int(1<<48)))
	fits := c.Le(nl, ac)
	if e.prove(st, fits) {
		fits = c.T
	} else if e.prove(st, c.Not(fits)) {
		fits = c.F
	}
	nref := e.alloc(st)
	ref := c.Ite(fits, ar, nref)
	ncap := ac
	if fits != c.T {
		g := c.Fresh("cap", "Int")
		st.assume(c.Le(nl, g), c.Le(c.Add(ao, g), c.Int(1<<48)))
		ncap = c.Ite(fits, ac, g)
	}
	if e.root != nil && fits != c.T {
		e.note("append: elements of a reallocated array between len and cap are not modelled as zero; offset of a slice is kept on reallocation")
	}
	// nothing appended: the slice is unchanged
	B := st.get(e, k)
	res := e.mkSlice(ref, ao, nl, ncap)
	if bl.Op == "int" {
		st.put(k, c.Store(B, ref, narr))
		return res
	}
	some := c.Gt(bl, c.Int(0))
	if e.prove(st, some) {
		st.put(k, c.Store(B, ref, narr))
		return res
	}
	if e.prove(st, c.Not(some)) {
		return a
	}
	// narr equals the old content when bl = 0
	rr := c.Ite(some, ref, ar)
	st.put(k, c.Store(B, rr, c.Ite(some, narr, c.Select(B, rr))))
	return e.mkSlice(rr, ao, nl, c.Ite(some, ncap, ac))
}

// array equal to dst except dst[at+i] = src[from+i] for i<n
func (e *Exec) spliceArr(st *State, dst, at, src, from, n *Term) *Term {
	c := e.c
	r := c.Fresh("splice", dst.Sort)
	i := c.BoundVar("i", "Int")
	x := c.Select(r, i)
	st.assume(c.Forall([]BV{{"i", "Int"}}, c.Eq(x, c.Ite(c.And(c.Le(at, i), c.Lt(i, c.Add(at, n))), c.Select(src, c.Add(c.Sub(i, at), from)), c.Select(dst, i))), x))
	return r
}

func (e *Exec) appendStr(st *State, a, s *Term, el types.Type) *Term {
	c := e.c
	e.strFuns()
	k := e.bkey(el)
	B := st.get(e, k)
	ar, ao, al, ac := e.slRef(a), e.slOff(a), e.slLen(a), e.slCap(a)
	n := c.B("str.len", "Int", s)
	narr := e.spliceArr(st, c.Select(B, ar), c.Add(ao, al), c.App("str2arr", s), c.Int(0), n)
	return e.finishAppend(st, k, a, narr, n, ar, ao, al, ac)
}

func (e *Exec) copyArr(st *State, k string, d *Term, src, from, n *Term) {
	c := e.c
	B := st.get(e, k)
	ref := e.slRef(d)
	na := e.spliceArr(st, c.Select(B, ref), e.slOff(d), src, from, n)
	st.put(k, c.Store(B, ref, na))
}

// element i of a []any (or other) argument slice
func (e *Exec) elemAt(st *State, s *Term, el types.Type, i int64) *Term {
	return e.c.Select(e.c.Select(st.get(e, e.bkey(el)), e.slRef(s)), e.c.Add(e.slOff(s), e.c.Int(i)))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// non-generic types of a package which implement an interface, values first
func (e *Exec) implementers(pkg *types.Package, it types.Type) []types.Type {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, n := range pkg.Scope().Names() {
		o, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || o.IsAlias() {
			continue
		}
		nt, ok := o.Type().(*types.Named)
		if !ok || isIface(nt) {
			continue
		}
		if nt.TypeParams().Len() > 0 {
			if types.NewMethodSet(types.NewPointer(nt)).Len() > 0 && implementsLoosely(nt, iface) {
				return nil
			}
			continue
		}
		if types.Implements(nt, iface) {
			out = append(out, nt)
		}
		if pt := types.NewPointer(nt); types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	return out
}

func implementsLoosely(nt *types.Named, iface *types.Interface) bool {
	ms := types.NewMethodSet(types.NewPointer(nt))
	for i := 0; i < iface.NumMethods(); i++ {
		if ms.Lookup(iface.Method(i).Pkg(), iface.Method(i).Name()) == nil {
			return false
		}
	}
	return true
}

// run a function and continue once for all the paths which left the memory alike
func (e *Exec) runMerged(fr *Frame, st *State, fn *ssa.Function, te tenv, binds, args []Val, k Kont) {
	n := len(st.pc)
	base := st.clone()
	type outcome struct {
		st  *State
		res []Val
	}
	var outs []outcome
	rts := e.resTypes(te, fn.Signature)
	e.runFunc(fr, fn, te, binds, args, st, false, Kont{Panic: k.Panic, Ret: func(s2 *State, res []Val) {
		for i, r := range res {
			if _, ok := r.(*Term); !ok && (isIface(rts[i]) || e.sortOf(rts[i]) != "Int") {
				res[i] = e.term(r, rts[i])
			}
		}
		outs = append(outs, outcome{s2, res})
	}})
	alike := func(a, b outcome) bool {
		if len(a.st.gos) != len(b.st.gos) || len(a.st.panics) != len(b.st.panics) || len(a.st.held) != len(b.st.held) {
			return false
		}
		for l, v := range a.st.held {
			if b.st.held[l] != v {
				return false
			}
		}
		for _, m := range []map[string]*Term{a.st.heap, b.st.heap} {
			for h := range m {
				if a.st.get(e, h) != b.st.get(e, h) {
					return false
				}
			}
		}
		for id := range base.cells {
			x, ok1 := a.st.cells[id].(*Term)
			y, ok2 := b.st.cells[id].(*Term)
			if ok1 != ok2 || x != y || !ok1 {
				if !ok1 && fmt.Sprintf("%p", a.st.cells[id]) == fmt.Sprintf("%p", b.st.cells[id]) {
					continue
				}
				return false
			}
		}
		for i, r := range a.res {
			x, ok1 := r.(*Term)
			y, ok2 := b.res[i].(*Term)
			if (!ok1 || !ok2) && r != b.res[i] || ok1 && ok2 && x.Sort != y.Sort {
				return false
			}
		}
		return true
	}
	for len(outs) > 0 {
		group, rest := outs[:1:1], []outcome(nil)
		for _, o := range outs[1:] {
			if alike(group[0], o) {
				group = append(group, o)
			} else {
				rest = append(rest, o)
			}
		}
		outs = rest
		g := group[0]
		if len(group) == 1 {
			k.Ret(g.st, g.res)
			continue
		}
		var conds []*Term
		for _, o := range group {
			conds = append(conds, e.c.And(o.st.pc[n:]...))
		}
		m := g.st
		m.pc = append([]*Term{}, base.pc...)
		m.pcset = map[*Term]bool{}
		for _, t := range m.pc {
			m.pcset[t] = true
		}
		m.assume(e.c.Or(conds...))
		res := append([]Val{}, g.res...)
		for i := range res {
			x, ok := group[len(group)-1].res[i].(*Term)
			if !ok {
				continue
			}
			for j := len(group) - 2; j >= 0; j-- {
				x = e.c.Ite(conds[j], group[j].res[i].(*Term), x)
			}
			res[i] = x
		}
		k.Ret(m, res)
	}
}
