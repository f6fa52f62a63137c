package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

var intrinsics = map[string]intrinsic{}
var ifaceIntrinsics = map[string]func(e *Exec, st *State, ci *callInfo, k Kont) bool{}

func ret(k Kont, st *State, v ...Val) { k.Ret(st, v) }

func nop(e *Exec, st *State, ci *callInfo, k Kont) {
	var res []Val
	for _, t := range ci.res {
		res = append(res, e.freshVal(st, "nop", t))
	}
	k.Ret(st, res)
}

// no-op returning zero values
func nopZero(e *Exec, st *State, ci *callInfo, k Kont) {
	var res []Val
	for _, t := range ci.res {
		res = append(res, e.zero(t))
	}
	k.Ret(st, res)
}

func (ci *callInfo) t(e *Exec, i int) *Term {
	var ty types.Type
	if ci.fn != nil && i < len(ci.fn.Params) {
		ty = ci.te.subst(ci.fn.Params[i].Type())
	}
	return e.term(ci.args[i], ty)
}

func init() {
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	// logging has no effect on the modelled state
	const L = modPath + "/ctx/log."
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		if e.root != nil && e.root.flag("tracelog") {
			e.runFunc(ci.fr, ci.fn, ci.te, nil, ci.args, st, false, k)
			return
		}
		e.note("%s: logging has no effect on the modelled state and does not panic", ci.key)
		nop(e, st, ci, k)
	}, L+"Debugf", L+"Infof", L+"Warnf", L+"Errorf", L+"Tracef", L+"Fatalf")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.note("%s: logging has no effect on the modelled state and does not panic", ci.key)
		nop(e, st, ci, k)
	}, "log.Printf", "log.Println", "log.Print", "fmt.Printf", "fmt.Println")

	// ---- sync
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { e.condWait(st, ci, k) }, "(*sync.Cond).Wait")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { e.lock(ci, st, "x", k) }, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { e.unlock(ci, st, "x", k) }, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { e.lock(ci, st, "s", k) }, "(*sync.RWMutex).RLock")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { e.unlock(ci, st, "s", k) }, "(*sync.RWMutex).RUnlock")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		if !e.check(ci.fr, st, e.c.Neq(e.term(ci.args[0], nil), e.c.Int(0)), "nil sync.Once") {
			return
		}
		ot := deref(ci.fn.Params[0].Type())
		v := e.term(e.loadPtr(st, ci.args[0], ot), ot)
		e.branch(st, e.c.Eq(v, e.c.Int(0)), func(st *State) {
			done := func(st *State) { e.storePtr(st, ci.args[0], ot, e.c.Int(1)) }
			e.callFuncVal(ci.fr, st, ci.args[1], ci.fn.Params[1].Type(), nil, nil, ci.in, false, Kont{
				Ret:   func(st *State, _ []Val) { done(st); k.Ret(st, nil) },
				Panic: func(st *State, v *Term, why string) { done(st); k.Panic(st, v, why) },
			})
		}, func(st *State) { k.Ret(st, nil) })
	}, "(*sync.Once).Do")
	reg(nopZero, "(*sync.Cond).Broadcast", "(*sync.Cond).Signal", "sync.NewCond")

	// ---- sync.Map
	for _, n := range []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndDelete", "CompareAndSwap", "Swap"} {
		n := n
		reg(func(e *Exec, st *State, ci *callInfo, k Kont) { e.syncMapOp(n, st, ci, k) }, "(*sync.Map)."+n)
	}
	reg((*Exec).syncMapRange, "(*sync.Map).Range")

	// ---- atomics
	for _, ty := range []string{"Int64", "Int32", "Uint64", "Uint32"} {
		var el types.Type
		switch ty {
		case "Int64":
			el = types.Typ[types.Int64]
		case "Int32":
			el = types.Typ[types.Int32]
		case "Uint64":
			el = types.Typ[types.Uint64]
		case "Uint32":
			el = types.Typ[types.Uint32]
		}
		op := func(f func(e *Exec, st *State, ci *callInfo, v *Term) (nv *Term, res []Val)) intrinsic {
			return func(e *Exec, st *State, ci *callInfo, k Kont) {
				v := e.atomicLoad(st, ci, el)
				nv, res := f(e, st, ci, v)
				e.atomicEvent(st, ci, v, nv)
				if nv != v {
					e.storePtr(st, ci.args[0], el, nv)
				}
				k.Ret(st, res)
			}
		}
		reg(op(func(e *Exec, st *State, ci *callInfo, v *Term) (*Term, []Val) {
			nv := e.wrap(st, e.c.Add(v, ci.t(e, 1)), el)
			return nv, []Val{nv}
		}), "sync/atomic.Add"+ty, "(*sync/atomic."+ty+").Add")
		reg(op(func(e *Exec, st *State, ci *callInfo, v *Term) (*Term, []Val) {
			return v, []Val{v}
		}), "sync/atomic.Load"+ty, "(*sync/atomic."+ty+").Load")
		reg(op(func(e *Exec, st *State, ci *callInfo, v *Term) (*Term, []Val) {
			return ci.t(e, 1), nil
		}), "sync/atomic.Store"+ty, "(*sync/atomic."+ty+").Store")
		reg(op(func(e *Exec, st *State, ci *callInfo, v *Term) (*Term, []Val) {
			return ci.t(e, 1), []Val{v}
		}), "sync/atomic.Swap"+ty, "(*sync/atomic."+ty+").Swap")
		reg(op(func(e *Exec, st *State, ci *callInfo, v *Term) (*Term, []Val) {
			ok := e.c.Eq(v, ci.t(e, 1))
			return e.c.Ite(ok, ci.t(e, 2), v), []Val{ok}
		}), "sync/atomic.CompareAndSwap"+ty, "(*sync/atomic."+ty+").CompareAndSwap")
	}

	// ---- time
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		t := e.c.Fresh("now", "Int")
		old := st.get(e, e.nowKey())
		st.assume(e.c.Ge(t, e.c.Int(1)), e.c.Ge(t, old))
		st.put(e.nowKey(), t)
		e.note("time.Now: positive and non-decreasing")
		k.Ret(st, []Val{t})
	}, "time.Now")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.c.Lt(ci.t(e, 0), ci.t(e, 1))})
	}, "(time.Time).Before")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.c.Lt(ci.t(e, 1), ci.t(e, 0))})
	}, "(time.Time).After")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.c.Eq(ci.t(e, 0), ci.t(e, 1))})
	}, "(time.Time).Equal")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.c.Eq(ci.t(e, 0), e.c.Int(0))})
	}, "(time.Time).IsZero")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.c.Add(ci.t(e, 0), ci.t(e, 1))})
	}, "(time.Time).Add")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.c.Sub(ci.t(e, 0), ci.t(e, 1))})
	}, "(time.Time).Sub")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		t := e.c.Fresh("now", "Int")
		old := st.get(e, e.nowKey())
		st.assume(e.c.Ge(t, e.c.Int(1)), e.c.Ge(t, old))
		st.put(e.nowKey(), t)
		k.Ret(st, []Val{e.c.Sub(ci.t(e, 0), t)})
	}, "time.Until")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		t := e.c.Fresh("now", "Int")
		old := st.get(e, e.nowKey())
		st.assume(e.c.Ge(t, e.c.Int(1)), e.c.Ge(t, old))
		st.put(e.nowKey(), t)
		k.Ret(st, []Val{e.c.Sub(t, ci.t(e, 0))})
	}, "time.Since")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		n := "dur_seconds"
		e.c.DeclFun(n, []string{"Int"}, "Float64")
		k.Ret(st, []Val{e.c.App(n, ci.t(e, 0))})
	}, "(time.Duration).Seconds")

	// ---- fmt
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		k.Ret(st, []Val{e.sprintf(st, ci.t(e, 0), ci.t(e, 1))})
	}, "fmt.Sprintf")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		s := e.sprintf(st, ci.t(e, 1), ci.t(e, 2))
		e.writeEvent(ci.fr, st, ci.t(e, 0), s, k)
	}, "fmt.Fprintf")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		s := e.sprintf(st, ci.t(e, 0), ci.t(e, 1))
		w := e.c.Str("")
		_ = w
		e.c.DeclFun("fmt_errorf", []string{"String", "Int"}, "Any")
		e.c.DeclFun("err_msg", []string{"Any"}, "String")
		a := e.alloc(st)
		er := e.c.App("fmt_errorf", s, a)
		st.assume(e.c.Neq(er, e.anynil), e.c.Eq(e.c.App("err_msg", er), s))
		e.wrapFacts(st, er, ci)
		k.Ret(st, []Val{er})
	}, "fmt.Errorf")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.c.DeclFun("errors_new", []string{"String", "Int"}, "Any")
		e.c.DeclFun("err_msg", []string{"Any"}, "String")
		a := e.alloc(st)
		er := e.c.App("errors_new", ci.t(e, 0), a)
		st.assume(e.c.Neq(er, e.anynil), e.c.Eq(e.c.App("err_msg", er), ci.t(e, 0)))
		k.Ret(st, []Val{er})
	}, "errors.New")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { // fmt.Sprint / Sprintln of anything
		e.c.DeclFun("fmt_args", []string{"Int"}, "String")
		k.Ret(st, []Val{e.c.Fresh("sprint", "String")})
	}, "fmt.Sprint", "fmt.Sprintln")

	reg(func(e *Exec, st *State, ci *callInfo, k Kont) { // somewhere, or beyond the end of the stack
		var res []Val
		for i, t := range ci.res {
			res = append(res, e.freshVal(st, fmt.Sprintf("caller%d", i), t))
		}
		k.Ret(st, res)
	}, "runtime.Caller")
	// ---- errors
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.errorsIsWalk(ci.fr, st, ci.t(e, 0), ci.t(e, 1), 8, k)
	}, "errors.Is")

	reg((*Exec).errorsAsCall, "errors.As")

	// ---- strings
	c2 := func(op, srt string, swap bool) intrinsic {
		return func(e *Exec, st *State, ci *callInfo, k Kont) {
			a, b := ci.t(e, 0), ci.t(e, 1)
			if swap {
				a, b = b, a
			}
			k.Ret(st, []Val{e.c.B(op, srt, a, b)})
		}
	}
	reg(c2("str.prefixof", "Bool", true), "strings.HasPrefix")
	reg(c2("str.suffixof", "Bool", true), "strings.HasSuffix")
	reg(c2("str.contains", "Bool", false), "strings.Contains")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		t := e.c.B("str.indexof", "Int", ci.t(e, 0), ci.t(e, 1), e.c.Int(0))
		st.assume(e.c.Ge(t, e.c.Int(-1)), e.c.Le(t, e.c.B("str.len", "Int", ci.t(e, 0))))
		k.Ret(st, []Val{t})
	}, "strings.Index")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		b, a, f := e.strCut(ci.t(e, 0), ci.t(e, 1))
		k.Ret(st, []Val{b, a, f})
	}, "strings.Cut")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		s, p := ci.t(e, 0), ci.t(e, 1)
		c := e.c
		pl := c.B("str.len", "Int", p)
		k.Ret(st, []Val{c.Ite(c.B("str.prefixof", "Bool", p, s), c.B("str.substr", "String", s, pl, c.Sub(c.B("str.len", "Int", s), pl)), s)})
	}, "strings.TrimPrefix")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		s, p := ci.t(e, 0), ci.t(e, 1)
		c := e.c
		pl := c.B("str.len", "Int", p)
		k.Ret(st, []Val{c.Ite(c.B("str.suffixof", "Bool", p, s), c.B("str.substr", "String", s, c.Int(0), c.Sub(c.B("str.len", "Int", s), pl)), s)})
	}, "strings.TrimSuffix")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		s, sep := ci.t(e, 0), ci.t(e, 1)
		e.strSplit(st, s, sep, k)
	}, "strings.Split")

	// ---- context
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		v := e.c.Sym("ctx_background", "Any")
		st.assume(e.c.Neq(v, e.anynil))
		k.Ret(st, []Val{v})
	}, "context.Background", "context.TODO")

	ctxObj := func(e *Exec, st *State, tn string, fields map[string]*Term) *Term {
		t := e.p.pkgs["context"].Type(tn).Type()
		r := e.newObject(st, t)
		s := e.structType(t)
		for i := 0; i < s.NumFields(); i++ {
			if v, ok := fields[s.Field(i).Name()]; ok {
				k := e.fkey(t, i)
				st.put(k, e.c.Store(st.get(e, k), r, v))
			}
		}
		return e.box(types.NewPointer(t), r)
	}
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		p, key := ci.t(e, 0), ci.t(e, 1)
		if !e.check(ci.fr, st, e.c.And(e.c.Neq(p, e.anynil), e.c.Neq(key, e.anynil)), "context.WithValue of a nil parent or key") {
			return
		}
		e.note("context.WithValue: the key is comparable")
		k.Ret(st, []Val{ctxObj(e, st, "valueCtx", map[string]*Term{"Context": p, "key": key, "val": ci.t(e, 2)})})
	}, "context.WithValue")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		p := ci.t(e, 0)
		if !e.check(ci.fr, st, e.c.Neq(p, e.anynil), "context.WithCancel of a nil parent") {
			return
		}
		e.note("context.WithCancelCause: a context that answers Value like its parent; its cancel function is unknown code")
		cf := e.c.Fresh("cancel", e.sortOf(ci.res[1]))
		st.assume(e.facts(cf, ci.res[1], st)...)
		st.assume(e.c.Neq(cf, e.c.Int(0)))
		k.Ret(st, []Val{ctxObj(e, st, "cancelCtx", map[string]*Term{"Context": p}), cf})
	}, "context.WithCancelCause")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		p := ci.t(e, 0)
		if !e.check(ci.fr, st, e.c.Neq(p, e.anynil), "a context without parent") {
			return
		}
		e.note("context.WithTimeout, WithDeadline, WithCancel: a context that answers Value like its parent; its cancel function is unknown code")
		cf := e.c.Fresh("cancel", e.sortOf(ci.res[1]))
		st.assume(e.facts(cf, ci.res[1], st)...)
		st.assume(e.c.Neq(cf, e.c.Int(0)))
		k.Ret(st, []Val{ctxObj(e, st, "cancelCtx", map[string]*Term{"Context": p}), cf})
	}, "context.WithTimeout", "context.WithDeadline", "context.WithCancel")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		ct := e.p.pkgs["context"].Type("Context").Type()
		m, _, _ := types.LookupFieldOrMethod(ct, true, nil, "Value")
		e.invoke(ci.fr, st, ci.ci, ci.t(e, 0), ct, m.(*types.Func), ci.args[1:], ci.in, false, k)
	}, "context.value")

	// ---- reflect: descriptions of types and values are deterministic; what a value holds is its getters
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.note("%s: a description, if there is something to describe; otherwise arbitrary", ci.key)
		c := e.c
		var t *Term
		if ci.key == "reflect.TypeOf" {
			t = e.reflectType(st, ci.t(e, 0))
			st.assume(c.Or(c.Eq(ci.t(e, 0), e.anynil), c.Neq(t, e.anynil)))
		} else {
			v := ci.t(e, 0)
			c.DeclFun("ext0_"+sanitize("(reflect.Value).Type"), []string{"RV"}, "Any")
			t = c.App("ext0_"+sanitize("(reflect.Value).Type"), v)
			c.DeclFun("rtype_Kind", []string{"Any"}, "Int")
			st.assume(c.Neq(t, e.anynil), c.Eq(c.App("rtype_Kind", t), e.reflectKind(st, v)))
		}
		st.assume(e.facts(t, ci.res[0], st)...)
		st.assume(c.Or(c.Eq(t, e.anynil), e.implPred(ci.res[0], e.typOf(t))))
		k.Ret(st, []Val{t})
	}, "reflect.TypeOf", "(reflect.Value).Type")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.note("reflect.ValueOf: deterministic")
		c := e.c
		x := ci.t(e, 0)
		e.rvInit()
		n := "ext0_" + sanitize("reflect.ValueOf")
		c.DeclFun(n, []string{"Any"}, "RV")
		v := c.App(n, x)
		c.DeclFun("ext0_"+sanitize("(reflect.Value).Type"), []string{"RV"}, "Any")
		st.assume(c.Imp(c.Neq(x, e.anynil), c.Eq(e.reflectType(st, x), c.App("ext0_"+sanitize("(reflect.Value).Type"), v))))
		st.assume(c.Imp(c.Neq(x, e.anynil), c.Neq(e.reflectKind(st, v), c.Int(0))))
		k.Ret(st, []Val{v})
	}, "reflect.ValueOf")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.note("(reflect.Value).Kind: deterministic")
		k.Ret(st, []Val{e.reflectKind(st, ci.t(e, 0))})
	}, "(reflect.Value).Kind")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		c := e.c
		kd := e.reflectKind(st, ci.t(e, 0))
		x := ci.t(e, 1)
		lo, hi := c.Int(int64(reflect.Int)), c.Int(int64(reflect.Int64))
		switch ci.key {
		case "(reflect.Value).OverflowUint":
			lo, hi = c.Int(int64(reflect.Uint)), c.Int(int64(reflect.Uintptr))
		case "(reflect.Value).OverflowFloat":
			lo, hi = c.Int(int64(reflect.Float32)), c.Int(int64(reflect.Float64))
		}
		if !e.check(ci.fr, st, c.And(c.Le(lo, kd), c.Le(kd, hi)), ci.key+" of a value of another kind") {
			return
		}
		is := func(r reflect.Kind) *Term { return c.Eq(kd, c.Int(int64(r))) }
		var out *Term
		switch ci.key {
		case "(reflect.Value).OverflowInt":
			out = c.Bool(false)
			for _, b := range []struct {
				k reflect.Kind
				n uint
			}{{reflect.Int8, 8}, {reflect.Int16, 16}, {reflect.Int32, 32}} {
				out = c.Or(out, c.And(is(b.k), c.Or(c.Lt(x, c.Int(-1<<(b.n-1))), c.Lt(c.Int(1<<(b.n-1)-1), x))))
			}
		case "(reflect.Value).OverflowUint":
			out = c.Bool(false)
			for _, b := range []struct {
				k reflect.Kind
				n uint
			}{{reflect.Uint8, 8}, {reflect.Uint16, 16}, {reflect.Uint32, 32}} {
				out = c.Or(out, c.And(is(b.k), c.Lt(c.Int(1<<b.n-1), x)))
			}
		default:
			out = c.And(is(reflect.Float32), e.f32over(x))
		}
		e.note("%s: as documented", ci.key)
		k.Ret(st, []Val{out})
	}, "(reflect.Value).OverflowInt", "(reflect.Value).OverflowUint", "(reflect.Value).OverflowFloat")

	// ---- bytes.Buffer and strings.Builder: the text they hold, never read from
	for _, B := range []string{"bytes.Buffer", "strings.Builder"} {
		el := func(e *Exec) types.Type {
			i := strings.Index(B, ".")
			return e.p.pkgs[B[:i]].Type(B[i+1:]).Type()
		}
		add := func(e *Exec, st *State, ci *callInfo, s *Term, k Kont) {
			e.note("%s holds what was written to it, in order; writing to it does not fail", B)
			cur := e.term(e.loadPtr(st, ci.args[0], el(e)), el(e))
			e.storePtr(st, ci.args[0], el(e), e.c.Concat(cur, s))
			if len(ci.res) == 2 {
				k.Ret(st, []Val{e.c.B("str.len", "Int", s), e.anynil})
			} else {
				k.Ret(st, []Val{e.anynil})
			}
		}
		reg(func(e *Exec, st *State, ci *callInfo, k Kont) { add(e, st, ci, ci.t(e, 1), k) }, "(*"+B+").WriteString")
		reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
			add(e, st, ci, e.strOf(st, ci.t(e, 1), types.Typ[types.Uint8]), k)
		}, "(*"+B+").Write")
		reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
			add(e, st, ci, e.c.B("str.from_code", "String", ci.t(e, 1)), k)
		}, "(*"+B+").WriteByte")
		reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
			k.Ret(st, []Val{e.loadPtr(st, ci.args[0], el(e))})
		}, "(*"+B+").String")
		reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
			k.Ret(st, []Val{e.c.B("str.len", "Int", e.term(e.loadPtr(st, ci.args[0], el(e)), el(e)))})
		}, "(*"+B+").Len")
	}
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		T := e.p.pkgs["bytes"].Type("Buffer").Type()
		b := e.bytesOf(st, e.term(e.loadPtr(st, ci.args[0], T), T), ci.res[0])
		k.Ret(st, []Val{b})
	}, "(*bytes.Buffer).Bytes")

	// ---- sort
	reg((*Exec).sortSlice, "sort.Slice", "sort.SliceStable")
	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		s := ci.t(e, 0)
		p := e.permuteSlice(st, s, types.Typ[types.String])
		c := e.c
		i := c.BoundVar("i", "Int")
		j := c.BoundVar("j", "Int")
		ai := c.Select(p, c.Add(e.slOff(s), i))
		aj := c.Select(p, c.Add(e.slOff(s), j))
		st.assume(c.Forall([]BV{{"i", "Int"}, {"j", "Int"}}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, j), c.Lt(j, e.slLen(s))), c.B("str.<=", "Bool", ai, aj)), c.mk("multi", "", "Bool", ai, aj)))
		k.Ret(st, nil)
	}, "sort.Strings")

	reg(func(e *Exec, st *State, ci *callInfo, k Kont) {
		e.note("runtime.Caller: arbitrary result")
		nop(e, st, ci, k)
	}, "runtime.Caller", "runtime.Callers", "runtime/debug.Stack", "runtime.NumGoroutine")

	// ---- interface methods
	ifaceIntrinsics["Read"] = (*Exec).readerRead
	ifaceIntrinsics["Write"] = func(e *Exec, st *State, ci *callInfo, k Kont) bool {
		if len(ci.args) != 2 || e.term(ci.args[1], nil).Sort != "Slice" {
			return false
		}
		e.writeEvent(ci.fr, st, e.term(ci.args[0], nil), e.strOf(st, e.term(ci.args[1], nil), types.Typ[types.Uint8]), k)
		return true
	}
	ifaceIntrinsics["Error"] = func(e *Exec, st *State, ci *callInfo, k Kont) bool {
		if len(ci.args) != 1 || len(ci.res) != 1 {
			return false
		}
		e.c.DeclFun("err_msg", []string{"Any"}, "String")
		k.Ret(st, []Val{e.c.App("err_msg", e.term(ci.args[0], nil))})
		return true
	}
	for m, f := range map[string]string{"GoString": "gostring", "String": "stringer"} {
		m, f := m, f
		ifaceIntrinsics[m] = func(e *Exec, st *State, ci *callInfo, k Kont) bool {
			if len(ci.args) != 1 || len(ci.res) != 1 {
				return false
			}
			e.note("%s of an unknown value: a function of the value, without effects or panics", m)
			e.c.DeclFun(f, []string{"Any"}, "String")
			k.Ret(st, []Val{e.c.App(f, e.term(ci.args[0], nil))})
			return true
		}
	}
	ifaceIntrinsics["Err"] = func(e *Exec, st *State, ci *callInfo, k Kont) bool {
		if len(ci.args) != 1 || len(ci.res) != 1 || e.root != nil && e.root.flag("record-err") {
			return false
		}
		// context.Context.Err changes over time
		k.Ret(st, []Val{e.c.Fresh("ctxerr", "Any")})
		return true
	}
	ifaceIntrinsics["Value"] = func(e *Exec, st *State, ci *callInfo, k Kont) bool {
		if len(ci.args) != 2 || e.root != nil && e.root.flag("record-value") {
			return false
		}
		e.c.DeclFun("ctx_value", []string{"Any", "Any"}, "Any")
		k.Ret(st, []Val{e.c.App("ctx_value", e.term(ci.args[0], nil), e.term(ci.args[1], nil))})
		return true
	}
}

// io.Reader: up to len(p) bytes are put into p, the text they make is result 2
func (e *Exec) readerRead(st *State, ci *callInfo, k Kont) bool {
	if len(ci.args) != 2 || len(ci.res) != 2 || e.term(ci.args[1], nil).Sort != "Slice" || typeKey(ci.res[0]) != "int" {
		return false
	}
	c := e.c
	e.note("io.Reader: Read puts n bytes into its buffer, 0 <= n <= len(p), and touches nothing else")
	rv, p := e.term(ci.args[0], nil), e.term(ci.args[1], nil)
	ch := "im:Read"
	j := e.event(st, ch, rv, []*Term{p})
	n, er, txt := e.traceRet(ch, rv, j, 0, ci.res[0]), e.traceRet(ch, rv, j, 1, ci.res[1]), e.traceRet(ch, rv, j, 2, types.Typ[types.String])
	el := types.Typ[types.Uint8]
	e.strFuns()
	key := e.bkey(el)
	h := st.get(e, key)
	old := c.Select(h, e.slRef(p))
	nw := c.Fresh("read", old.Sort)
	i := c.BoundVar("i", "Int")
	x := c.Select(nw, i)
	off := e.slOff(p)
	st.assume(c.Le(c.Int(0), n), c.Le(n, e.slLen(p)), c.Eq(c.B("str.len", "Int", txt), n), c.Eq(c.App("arr2str", nw, off, n), txt),
		c.Forall([]BV{{"i", "Int"}}, c.And(c.Le(c.Int(0), x), c.Le(x, c.Int(255)), c.Imp(c.Not(c.And(c.Le(off, i), c.Lt(i, c.Add(off, e.slLen(p))))), c.Eq(x, c.Select(old, i)))), x))
	st.put(key, c.Store(h, e.slRef(p), nw))
	st.assume(c.Imp(c.Neq(er, e.anynil), e.implPred(ci.res[1], e.typOf(er))))
	k.Ret(st, []Val{n, er})
	return true
}

func (e *Exec) nowKey() string {
	if _, ok := e.heapSort["T:now"]; !ok {
		e.heapSort["T:now"] = "Int"
	}
	return "T:now"
}

// an atomic access; other goroutines may have changed the value before it
func (e *Exec) atomicLoad(st *State, ci *callInfo, el types.Type) *Term {
	if e.root != nil && e.root.flag("interfere") {
		if pl, ok := e.resolve(ci.args[0]).(*Place); ok && pl.kind == pkField && len(pl.path) == 0 {
			if a := e.rootA(); a == nil || !e.prove(st, e.c.Ge(pl.ref, a)) {
				e.storePtr(st, ci.args[0], el, e.freshVal(st, "atomic", el))
			}
		}
	}
	return e.term(e.loadPtr(st, ci.args[0], el), el)
}

func (e *Exec) atomicEvent(st *State, ci *callInfo, v, nv *Term) {
	if pl, ok := e.resolve(ci.args[0]).(*Place); ok && pl.kind == pkField && len(pl.path) == 0 {
		e.event(st, "atomic:"+pl.key, pl.ref, []*Term{v, nv})
	}
}

// ---- writes to an io.Writer

func (e *Exec) writeEvent(fr *Frame, st *State, w, s *Term, k Kont) {
	c := e.c
	// a known dynamic writer
	if w.Op == "app" && strings.HasPrefix(w.Name, "box_ptr.") && !strings.HasPrefix(w.Name, "box_ptr.bytes.Buffer") && !strings.HasPrefix(w.Name, "box_ptr.strings.Builder") {
		if id := e.typOf(w); id.Op == "int" {
			T := e.typeOf[id.Int.Int64()]
			ms := types.NewMethodSet(T)
			if sel := ms.Lookup(nil, "Write"); sel != nil {
				fn := e.p.prog.MethodValue(sel)
				if fn != nil && e.inModule(fn) {
					b := e.bytesOf(st, s, types.NewSlice(types.Typ[types.Uint8]))
					e.callFn(fr, st, fn, nil, nil, []Val{e.unbox(T, w), b}, nil, nil, false, k)
					return
				}
			}
		}
	}
	j := e.event(st, "W", w, []*Term{s})
	n := e.traceRet("W", w, j, 0, types.Typ[types.Int])
	er := e.traceRet("W", w, j, 1, types.Universe.Lookup("error").Type())
	st.assume(c.Le(c.Int(0), n), c.Le(n, c.B("str.len", "Int", s)), c.Imp(c.Eq(er, e.anynil), c.Eq(n, c.B("str.len", "Int", s))))
	k.Ret(st, []Val{n, er})
}

// ---- formatting

func (e *Exec) fmtVal(st *State, verb byte, flags string, v *Term) *Term {
	c := e.c
	if flags == "" && v.Op == "app" && strings.HasPrefix(v.Name, "box_") {
		if id := e.typOf(v); id.Op == "int" {
			T := e.typeOf[id.Int.Int64()]
			u := v.Args[0]
			b, isB := T.(*types.Basic)
			if !isB && !isTP(T) {
				if bb, ok := T.Underlying().(*types.Basic); ok && types.NewMethodSet(T).Len() == 0 {
					b, isB = bb, true
				}
			}
			if isB {
				switch {
				case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
					return u
				case b.Info()&types.IsString != 0 && verb == 'q':
					return e.quoteStr(st, u)
				case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
					return e.itoa(u)
				case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
					return c.Ite(u, c.Str("true"), c.Str("false"))
				}
				n := "fmt_" + string(verb) + "_" + sanitize(u.Sort)
				c.DeclFun(n, []string{u.Sort}, "String")
				return c.App(n, u)
			}
		}
	}
	n := "fmt_" + sanitize(flags) + string(verb) + "_any"
	c.DeclFun(n, []string{"Any"}, "String")
	return c.App(n, v)
}

func (e *Exec) quoteStr(st *State, u *Term) *Term {
	e.c.DeclFun("fmt_q", []string{"String"}, "String")
	return e.c.App("fmt_q", u)
}

func (e *Exec) itoa(u *Term) *Term {
	c := e.c
	if u.Op == "int" {
		return c.Str(u.Int.String())
	}
	return c.Ite(c.Ge(u, c.Int(0)), c.B("str.from_int", "String", u), c.Concat(c.Str("-"), c.B("str.from_int", "String", c.Sub(c.Int(0), u))))
}

func (e *Exec) sprintf(st *State, f, args *Term) *Term {
	c := e.c
	if f.Op != "str" || e.slLen(args).Op != "int" {
		c.DeclFun("sprintf", []string{"String", "(Array Int Any)", "Int", "Int"}, "String")
		el := types.NewInterfaceType(nil, nil)
		return c.App("sprintf", f, c.Select(st.get(e, e.bkey(el)), e.slRef(args)), e.slOff(args), e.slLen(args))
	}
	n := int(e.slLen(args).Int.Int64())
	el := types.NewInterfaceType(nil, nil)
	var parts []*Term
	s := f.Name
	ai := 0
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			parts = append(parts, c.Str(s[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			parts = append(parts, c.Str(s[i:]))
			break
		}
		flags, verb := s[i+1:j], s[j]
		i = j + 1
		if verb == '%' {
			parts = append(parts, c.Str("%"))
			continue
		}
		if ai >= n {
			parts = append(parts, c.Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		v := e.elemAt(st, args, el, int64(ai))
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		parts = append(parts, e.fmtVal(st, verb, flags, v))
	}
	return c.Concat(parts...)
}

func (e *Exec) wrapFacts(st *State, er *Term, ci *callInfo) {
	// fmt.Errorf("%w") wraps
	f := ci.t(e, 0)
	args := ci.t(e, 1)
	if f.Op != "str" || e.slLen(args).Op != "int" {
		return
	}
	e.c.DeclFun("err_wraps", []string{"Any"}, "Any")
	ai := int64(0)
	el := types.NewInterfaceType(nil, nil)
	for i := 0; i+1 < len(f.Name); i++ {
		if f.Name[i] != '%' {
			continue
		}
		i++
		for i < len(f.Name) && strings.IndexByte("+-# 0123456789.", f.Name[i]) >= 0 {
			i++
		}
		if i >= len(f.Name) {
			break
		}
		if f.Name[i] == '%' {
			continue
		}
		if f.Name[i] == 'w' {
			st.assume(e.c.Eq(e.c.App("err_wraps", er), e.elemAt(st, args, el, ai)))
			return
		}
		ai++
	}
	st.assume(e.c.Eq(e.c.App("err_wraps", er), e.anynil))
}

// errors.Is unfolded as far as the dynamic types are known to be types of the module
func (e *Exec) errorsIsWalk(fr *Frame, st *State, a, b *Term, depth int, k Kont) {
	c := e.c
	if a.Op == "ite" && depth > 0 {
		e.branch(st, a.Args[0], func(st *State) { e.errorsIsWalk(fr, st, a.Args[1], b, depth-1, k) },
			func(st *State) { e.errorsIsWalk(fr, st, a.Args[2], b, depth-1, k) })
		return
	}
	id := e.typOf(a)
	var T types.Type
	if id.Op == "int" {
		T = e.typeOf[id.Int.Int64()]
	}
	n := namedOf(deref2(T))
	if T == nil || isTP(T) || n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || depth == 0 || a == e.anynil {
		k.Ret(st, []Val{e.errorsIs(st, a, b)})
		return
	}
	find := func(name string, in, out int) *ssa.Function {
		o, _, _ := types.LookupFieldOrMethod(T, false, n.Obj().Pkg(), name)
		m, ok := o.(*types.Func)
		if !ok {
			return nil
		}
		sg := m.Type().(*types.Signature)
		if sg.Params().Len() != in || sg.Results().Len() != out {
			return nil
		}
		return e.p.lookupMethod(T, m.Pkg(), name)
	}
	eq := c.F
	if types.Comparable(T) {
		eq = c.Eq(a, b)
	}
	rv := e.unbox(T, a)
	e.branch(st, eq, func(st *State) { k.Ret(st, []Val{c.T}) }, func(st *State) {
		unwrap := func(st *State) {
			f := find("Unwrap", 0, 1)
			if f == nil {
				k.Ret(st, []Val{c.F})
				return
			}
			e.callFn(fr, st, f, nil, nil, []Val{rv}, nil, nil, false, Kont{Panic: k.Panic, Ret: func(st *State, res []Val) {
				u := e.term(res[0], nil)
				e.branch(st, c.Eq(u, e.anynil), func(st *State) { k.Ret(st, []Val{c.F}) }, func(st *State) { e.errorsIsWalk(fr, st, u, b, depth-1, k) })
			}})
		}
		f := find("Is", 1, 1)
		if f == nil {
			unwrap(st)
			return
		}
		e.callFn(fr, st, f, nil, nil, []Val{rv, b}, nil, nil, false, Kont{Panic: k.Panic, Ret: func(st *State, res []Val) {
			e.branch(st, e.term(res[0], types.Typ[types.Bool]), func(st *State) { k.Ret(st, []Val{c.T}) }, unwrap)
		}})
	})
}

func deref2(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// errors.As as a function of the error and the type of the target
func (e *Exec) errorsAs(st *State, err *Term, t types.Type) (ok, val *Term) {
	c := e.c
	n := sanitize(typeKey(t))
	c.DeclFun("errors_as_"+n, []string{"Any"}, "Bool")
	c.DeclFun("errors_as_val_"+n, []string{"Any"}, e.sortOf(t))
	ok, val = c.App("errors_as_"+n, err), c.App("errors_as_val_"+n, err)
	st.assume(c.Imp(c.Eq(err, e.anynil), c.Not(ok)))
	is := e.hasType(t, err)
	st.assume(c.Imp(c.And(c.Neq(err, e.anynil), is), c.And(ok, c.Eq(val, e.unbox(t, err)))))
	st.assume(e.facts(val, t, st)...)
	return
}

func (e *Exec) errorsAsCall(st *State, ci *callInfo, k Kont) {
	tgt := ci.t(e, 1)
	id := e.typOf(tgt)
	if id.Op != "int" {
		e.fail("errors.As with an unknown target")
	}
	pt, ok := e.typeOf[id.Int.Int64()].Underlying().(*types.Pointer)
	if !ok {
		e.fail("errors.As with a target that is no pointer")
	}
	t := pt.Elem()
	e.note("errors.As: a function of the error and the target's type; the error itself if it has that type")
	is, v := e.errorsAs(st, ci.t(e, 0), t)
	r := e.unbox(pt, tgt)
	e.branch(st, is, func(st *State) {
		if !isStruct(t) {
			e.fail("errors.As with a target of type %s", t)
		}
		e.storeObj(st, t, r, v)
		k.Ret(st, []Val{e.c.T})
	}, func(st *State) { k.Ret(st, []Val{e.c.F}) })
}

func (e *Exec) errorsIs(st *State, a, b *Term) *Term {
	c := e.c
	c.DeclFun("errors_is", []string{"Any", "Any"}, "Bool")
	r := c.App("errors_is", a, b)
	same := c.Eq(a, b)
	if id := e.typOf(b); id.Op == "int" {
		if T := e.typeOf[id.Int.Int64()]; T != nil && !types.Comparable(T) {
			same = c.F // such a target is never compared with ==
		}
	}
	st.assume(c.Imp(same, r), c.Imp(c.And(c.Eq(a, e.anynil), c.Neq(b, e.anynil)), c.Not(r)))
	if _, ok := c.funs["err_wraps"]; ok {
		st.assume(c.Imp(c.And(c.Neq(a, e.anynil), c.Eq(c.App("err_wraps", a), b)), r))
	}
	return r
}

func (e *Exec) strCut(s, sep *Term) (before, after, found *Term) {
	c := e.c
	found = c.B("str.contains", "Bool", s, sep)
	i := c.B("str.indexof", "Int", s, sep, c.Int(0))
	n := c.Add(i, c.B("str.len", "Int", sep))
	before = c.Ite(found, c.B("str.substr", "String", s, c.Int(0), i), s)
	after = c.Ite(found, c.B("str.substr", "String", s, n, c.Sub(c.B("str.len", "Int", s), n)), c.Str(""))
	return
}

func (e *Exec) strSplit(st *State, s, sep *Term, k Kont) {
	c := e.c
	if sep.Op != "str" || sep.Name == "" {
		e.fail("strings.Split with a computed separator")
	}
	// uninterpreted pieces with the defining facts used by the contracts
	c.DeclFun("split_n", []string{"String", "String"}, "Int")
	c.DeclFun("split_at", []string{"String", "String", "Int"}, "String")
	n := c.App("split_n", s, sep)
	st.assume(c.Ge(n, c.Int(1)), c.Le(n, c.Add(c.B("str.len", "Int", s), c.Int(1))))
	st.assume(c.Iff(c.Eq(n, c.Int(1)), c.Not(c.B("str.contains", "Bool", s, sep))))
	p0 := c.App("split_at", s, sep, c.Int(0))
	st.assume(c.Imp(c.Eq(n, c.Int(1)), c.Eq(p0, s)))
	st.assume(c.Eq(p0, c.Ite(c.B("str.contains", "Bool", s, sep), c.B("str.substr", "String", s, c.Int(0), c.B("str.indexof", "Int", s, sep, c.Int(0))), s)))
	r := e.alloc(st)
	key := e.bkey(types.Typ[types.String])
	arr := c.Fresh("split", "(Array Int String)")
	i := c.BoundVar("i", "Int")
	x := c.Select(arr, i)
	st.assume(c.Forall([]BV{{"i", "Int"}}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.And(c.Eq(x, c.App("split_at", s, sep, i)), c.Not(c.B("str.contains", "Bool", x, sep)))), x))
	st.put(key, c.Store(st.get(e, key), r, arr))
	k.Ret(st, []Val{e.mkSlice(r, c.Int(0), n, n)})
}

// ---- sorting: the result is a permutation

func (e *Exec) permuteSlice(st *State, s *Term, el types.Type) *Term {
	c := e.c
	k := e.bkey(el)
	B := st.get(e, k)
	old := c.Select(B, e.slRef(s))
	na := c.Fresh("sorted", old.Sort)
	// permutation functions p, q
	c.fresh["perm"]++
	pn := fmt.Sprintf("perm!p%d", c.fresh["perm"])
	qn := fmt.Sprintf("perm!q%d", c.fresh["perm"])
	c.DeclFun(pn, []string{"Int"}, "Int")
	c.DeclFun(qn, []string{"Int"}, "Int")
	i := c.BoundVar("i", "Int")
	z := c.Int(0)
	n := e.slLen(s)
	off := e.slOff(s)
	in := c.And(c.Le(z, i), c.Lt(i, n))
	pi, qi := c.App(pn, i), c.App(qn, i)
	st.assume(c.Forall([]BV{{"i", "Int"}}, c.Imp(in, c.And(c.Le(z, pi), c.Lt(pi, n), c.Eq(c.App(qn, pi), i), c.Eq(c.Select(na, c.Add(off, i)), c.Select(old, c.Add(off, pi))))), pi, c.Select(na, c.Add(off, i))))
	st.assume(c.Forall([]BV{{"i", "Int"}}, c.Imp(in, c.And(c.Le(z, qi), c.Lt(qi, n), c.Eq(c.App(pn, qi), i), c.Eq(c.Select(old, c.Add(off, i)), c.Select(na, c.Add(off, qi))))), qi, c.Select(old, c.Add(off, i))))
	j := c.BoundVar("i", "Int")
	nj := c.Select(na, j)
	st.assume(c.Forall([]BV{{"i", "Int"}}, c.Imp(c.Or(c.Lt(j, off), c.Ge(j, c.Add(off, n))), c.Eq(nj, c.Select(old, j))), nj))
	st.put(k, c.Store(B, e.slRef(s), na))
	e.note("package sort: the result is a permutation of the input ordered by the comparison used")
	return na
}

func (e *Exec) sortSlice(st *State, ci *callInfo, k Kont) {
	x := ci.t(e, 0)
	id := e.typOf(x)
	if id.Op != "int" {
		e.fail("sort.Slice of unknown slice type")
	}
	T := e.typeOf[id.Int.Int64()]
	s := e.unbox(T, x)
	el := T.Underlying().(*types.Slice).Elem()
	na := e.permuteSlice(st, s, el)
	_ = na
	// one symbolic comparison of two positions (i<j): not less(j, i)
	c := e.c
	i, j := c.Fresh("si", "Int"), c.Fresh("sj", "Int")
	probe := st.clone()
	base := len(probe.pc)
	probe.assume(c.Le(c.Int(0), i), c.Lt(i, e.slLen(s)), c.Le(c.Int(0), j), c.Lt(j, e.slLen(s)))
	npre := len(probe.pc)
	type outc struct {
		conds []*Term
		res   *Term
	}
	var outs []outc
	e.quiet++
	nb := c.nbirth
	e.callFuncVal(ci.fr, probe, ci.args[1], ci.fn.Signature.Params().At(1).Type(), []Val{i, j}, ci.ci, ci.in, false, Kont{
		Ret: func(s2 *State, res []Val) {
			outs = append(outs, outc{append([]*Term{}, s2.pc[npre:]...), e.term(res[0], types.Typ[types.Bool])})
		},
		Panic: func(s2 *State, v *Term, why string) {},
	})
	e.quiet--
	_ = base
	lt := c.F
	for _, o := range outs {
		t := c.And(append(append([]*Term{}, o.conds...), o.res)...)
		lt = c.Or(lt, t)
	}
	// only usable if no new unknowns were introduced
	if c.older(c.Subst(lt, map[*Term]*Term{i: c.Int(0), j: c.Int(0)}), nb) {
		bi, bj := c.BoundVar("i", "Int"), c.BoundVar("j", "Int")
		less := c.Subst(lt, map[*Term]*Term{i: bj, j: bi})
		ai := c.Select(na, c.Add(e.slOff(s), bi))
		aj := c.Select(na, c.Add(e.slOff(s), bj))
		st.assume(c.Forall([]BV{{"i", "Int"}, {"j", "Int"}}, c.Imp(c.And(c.Le(c.Int(0), bi), c.Lt(bi, bj), c.Lt(bj, e.slLen(s))), c.Not(less)), c.mk("multi", "", "Bool", ai, aj)))
	}
	k.Ret(st, nil)
}

// ---- mutexes and guarded fields

func (e *Exec) lockKey(v Val) string {
	switch p := e.resolve(v).(type) {
	case *Place:
		return p.k()
	case *Term:
		return fmt.Sprintf("t%d", p.ID)
	}
	return "?"
}

func (e *Exec) lock(ci *callInfo, st *State, mode string, k Kont) {
	key := e.lockKey(ci.args[0])
	if h := st.held[key]; h != nil && !(mode == "s" && h.Name == "s") {
		// self deadlock: never returns
		e.obligate(st, e.c.F, "self-deadlock", "lock is not already held by this call at "+e.pos(ci.in.Pos()))
		return
	}
	st.held[key] = e.c.Sym(mode, "Int")
	e.guardAcquire(st, ci.args[0])
	k.Ret(st, nil)
}

// sync.Cond: Wait gives the lock away and takes it again; others may have changed what it guards
func (e *Exec) condWait(st *State, ci *callInfo, k Kont) {
	e.note("sync.Cond.Wait releases the lock, waits (perhaps not at all) and takes the lock again")
	T := e.p.pkgs["sync"].Type("Cond").Type()
	var l *Term
	for i := 0; i < e.structType(T).NumFields(); i++ {
		if f := e.structType(T).Field(i); f.Name() == "L" {
			l = e.pinned(st, e.term(e.loadPtr(st, e.fieldAddr(st, ci.args[0], T, i), f.Type()), f.Type()))
		}
	}
	if !(l.Op == "app" && strings.HasPrefix(l.Name, "box_ptr.sync.")) {
		e.fail("the lock of a sync.Cond")
	}
	m := e.resolve(l.Args[0])
	key := e.lockKey(m)
	if h := st.held[key]; h == nil || h.Name != "x" {
		e.obligate(st, e.c.F, "unlock", "the lock is held when waiting")
		return
	}
	e.guardAcquire(st, m)
	k.Ret(st, nil)
}

// the interface value that the path condition says x is
func (e *Exec) pinned(st *State, x *Term) *Term {
	if x.Op == "app" && strings.HasPrefix(x.Name, "box_") {
		return x
	}
	for _, p := range st.pc {
		if p.Op == "=" {
			for i := 0; i < 2; i++ {
				if p.Args[i] == x && p.Args[1-i].Op == "app" && strings.HasPrefix(p.Args[1-i].Name, "box_") {
					return p.Args[1-i]
				}
			}
		}
	}
	return x
}

func (e *Exec) unlock(ci *callInfo, st *State, mode string, k Kont) {
	key := e.lockKey(ci.args[0])
	if h := st.held[key]; h == nil || h.Name != mode {
		e.obligate(st, e.c.F, "unlock", "mutex is held when unlocked")
		return
	}
	e.guardRelease(st, ci.args[0])
	delete(st.held, key)
	k.Ret(st, nil)
}

// ---- sync.Map

func (e *Exec) syncMapArr(st *State, recv Val) *Term {
	t := e.c
	_ = t
	return e.term(e.loadPtr(st, recv, e.syncMapType()), nil)
}

func (e *Exec) syncMapType() types.Type {
	if e.p.pkgs["sync"] == nil {
		e.fail("sync not loaded")
	}
	return e.p.pkgs["sync"].Pkg.Scope().Lookup("Map").Type()
}

func (e *Exec) smKey(recv Val) *Term {
	switch p := e.resolve(recv).(type) {
	case *Place:
		if p.kind == pkField && len(p.path) == 0 {
			return p.ref
		}
	}
	return e.c.Int(0)
}

func (e *Exec) smPut(st *State, recv Val, old, nw *Term) {
	e.storePtr(st, recv, e.syncMapType(), nw)
}

func (e *Exec) syncMapOp(op string, st *State, ci *callInfo, k Kont) {
	c := e.c
	recv := ci.args[0]
	if t, ok := recv.(*Term); ok {
		if !e.check(ci.fr, st, c.Neq(t, c.Int(0)), "nil sync.Map") {
			return
		}
	}
	e.interfere(st, recv)
	m := e.syncMapArr(st, recv)
	key := ci.t(e, 1)
	ov := c.Select(m, key)
	has := c.Sel("OptAny", "opt.some", ov)
	val := c.Sel("OptAny", "opt.val", ov)
	some := func(v *Term) *Term { return c.Mk("OptAny", c.T, v) }
	none := c.Mk("OptAny", c.F, e.anynil)
	if e.root != nil {
		e.root.smInvariant(e, st, recv, has, key, val)
	}
	var res []Val
	nm := m
	switch op {
	case "Load":
		res = []Val{c.Ite(has, val, e.anynil), has}
	case "Store":
		nm = c.Store(m, key, some(ci.t(e, 2)))
	case "Swap":
		nm = c.Store(m, key, some(ci.t(e, 2)))
		res = []Val{c.Ite(has, val, e.anynil), has}
	case "LoadOrStore":
		nv := ci.t(e, 2)
		nm = c.Ite(has, m, c.Store(m, key, some(nv)))
		res = []Val{c.Ite(has, val, nv), has}
	case "LoadAndDelete":
		nm = c.Store(m, key, none)
		res = []Val{c.Ite(has, val, e.anynil), has}
	case "Delete":
		nm = c.Store(m, key, none)
	case "CompareAndDelete":
		ok := c.And(has, c.Eq(val, ci.t(e, 2)))
		nm = c.Ite(ok, c.Store(m, key, none), m)
		res = []Val{ok}
	case "CompareAndSwap":
		ok := c.And(has, c.Eq(val, ci.t(e, 2)))
		nm = c.Ite(ok, c.Store(m, key, some(ci.t(e, 3))), m)
		res = []Val{ok}
	}
	e.smEvent(st, recv, op, key, m, nm)
	if nm != m {
		if nv := c.Select(nm, key); e.root != nil {
			e.root.smKeep(e, st, recv, c.Sel("OptAny", "opt.some", nv), key, c.Sel("OptAny", "opt.val", nv))
		}
		e.smGuarantee(st, recv, m, nm, key)
		e.smPut(st, recv, m, nm)
	}
	k.Ret(st, res)
}

// count of atomic operations per map, with pre/post snapshots
func (e *Exec) smEvent(st *State, recv Val, op string, key, pre, post *Term) {
	c := e.c
	idx := e.smKey(recv)
	e.event(st, "sm", idx, []*Term{c.Str(op), key, pre, post})
}

func (e *Exec) syncMapRange(st *State, ci *callInfo, k Kont) {
	c := e.c
	recv := ci.args[0]
	e.interfere(st, recv)
	m := e.syncMapArr(st, recv)
	e.smEvent(st, recv, "Range", e.anynil, m, m)
	it := &mapIter{n: c.Int(0), dom0: m, vis: c.ConstArr("Any", "Bool", c.F)}
	cell := e.newCell(st, nil, it)
	ft := ci.fn.Signature.Params().At(0).Type()
	def := &loopDef{id: "sync.Map.Range at " + e.pos(ci.in.Pos())}
	def.run = func(st *State, vals []Val, quiet bool, back func(st *State, vals []Val)) {
		it := st.cells[cell.cell].(*mapIter)
		key := c.BoundVar("k", "Any")
		// done
		done := st.clone()
		hk := c.Sel("OptAny", "opt.some", c.Select(m, key))
		done.assume(c.Forall([]BV{{"k", "Any"}}, c.Iff(hk, c.Select(it.vis, key)), c.Select(it.vis, key), c.Select(m, key)))
		// the empty map: nothing was visited
		kx := c.Fresh("rangekey", "Any")
		st.assume(c.Sel("OptAny", "opt.some", c.Select(m, kx)), c.Not(c.Select(it.vis, kx)))
		n2 := *it
		n2.vis = c.Store(it.vis, kx, c.T)
		n2.n = c.Add(it.n, c.Int(1))
		v := c.Sel("OptAny", "opt.val", c.Select(m, kx))
		if !quiet && e.q.check(done.pc, c.T, 200) != "unsat" {
			k.Ret(done, nil)
		}
		if e.q.check(st.pc, c.T, 200) == "unsat" {
			return
		}
		e.rangeFacts(st, recv, kx, v)
		n2.m = nil
		e.event(st, "smv", e.smKey(recv), []*Term{kx})
		st.cells[cell.cell] = &n2
		e.callFuncVal(ci.fr, st, ci.args[1], ft, []Val{kx, v}, ci.ci, ci.in, false, Kont{
			Ret: func(st *State, res []Val) {
				e.branch(st, e.term(res[0], types.Typ[types.Bool]), func(st *State) {
					back(st, nil)
				}, func(st *State) {
					if !quiet {
						k.Ret(st, nil)
					}
				})
			},
			Panic: func(st *State, v *Term, why string) {
				if !quiet {
					k.Panic(st, v, why)
				}
			},
		})
	}
	e.loop(st, def)
}

// hook: facts on the entries of a sync.Map from the data type invariant
func (e *Exec) rangeFacts(st *State, recv Val, k, v *Term) {
	if e.root != nil {
		e.root.smInvariant(e, st, recv, e.c.T, k, v)
	}
}

// ---- goroutines and channels (only in contracts that allow them)

func (e *Exec) goStmt(fr *Frame, st *State, in *ssa.Go, k func(st *State)) {
	if e.root != nil && e.root.flag("go-skip") {
		e.note("go statement at %s: the spawned goroutine is not modelled", e.pos(in.Pos()))
		k(st)
		return
	}
	if e.root != nil && e.root.flag("go-after") {
		e.note("the goroutine started at %s is run to its end after the function has returned", e.pos(in.Pos()))
		cc := &in.Call
		g := goro{cc: cc, fr: fr, in: in}
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			g.fn = e.val(fr, st, cc.Value)
		}
		for _, a := range cc.Args {
			g.args = append(g.args, e.val(fr, st, a))
		}
		st.gos = append(st.gos, g)
		k(st)
		return
	}
	if e.root != nil && e.root.flag("go-now") {
		e.goNow(fr, st, in, k)
		return
	}
	e.fail("go statement at %s", e.pos(in.Pos()))
}

// what a running goroutine writes of its starter's variables
type goShared struct {
	frame int
	vars  map[ssa.Value]bool
}

// The goroutine runs to its end before its starter goes on, or it does not end as long as the starter runs: then what it
// may have written by then is arbitrary and what it may have sent is not there. The starter must not touch what the goroutine
// writes, without a lock, before it has received from a channel (an obligation).
func (e *Exec) goNow(fr *Frame, st *State, in *ssa.Go, k func(st *State)) {
	e.note("the goroutine started at %s ends before its starter receives from it, or never; the starter does not touch what it writes meanwhile (an obligation)", e.pos(in.Pos()))
	cc := &in.Call
	var fn Val
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fn = e.val(fr, st, cc.Value)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(fr, st, a))
	}
	sh := &goShared{frame: fr.id, vars: map[ssa.Value]bool{}}
	given := append([]ssa.Value{}, cc.Args...)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		f := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if writesVar(f, f.FreeVars[i], 0) {
				given = append(given, b)
			}
		}
	}
	for _, v := range given {
		if a, ok := v.(*ssa.Alloc); ok && !syncType(deref(a.Type())) {
			sh.vars[a] = true
		}
	}
	changed, cells := map[string]bool{}, map[int]bool{}
	note := func(s *State) {
		for key, t := range s.heap {
			if t != st.get(e, key) {
				changed[key] = true
			}
		}
		for c, v := range s.cells {
			if o, ok := st.cells[c]; ok && !valSame(o, v) {
				cells[c] = true
			}
		}
	}
	mark := len(st.loops)
	e.callVals(fr, st.clone(), cc, fn, args, in, false, Kont{Ret: func(s *State, _ []Val) {
		note(s)
		if len(s.loops) != mark {
			e.fail("goroutine left inside a loop")
		}
		s.joins = append(s.joins, sh)
		k(s)
	}, Panic: func(s *State, v *Term, why string) {
		note(s)
		e.doPanic(fr, s, v, "in a goroutine: "+why)
	}})
	s := st.clone()
	for _, key := range sortedKeys(changed) {
		old := s.get(e, key)
		t := e.c.Fresh("go", old.Sort)
		if old.Sort == "Int" { // the allocation counter and the clocks
			s.assume(e.c.Le(old, t))
		}
		s.put(key, t)
	}
	for c := range cells {
		if e.cellTy[c] == nil {
			e.fail("variable shared with a goroutine")
		}
		s.cells[c] = e.freshVal(s, "go", e.cellTy[c])
	}
	s.joins = append(s.joins, sh)
	k(s)
}

func syncType(t types.Type) bool {
	k := typeKey(t)
	return strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "sync/atomic.")
}

// f may write the variable behind the pointer v
func writesVar(f *ssa.Function, v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 4 {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && writesVar(g, g.FreeVars[i], depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// an instruction of the starter that touches what a running goroutine writes
func (e *Exec) raceCheck(fr *Frame, st *State, in ssa.Instruction) {
	for key := range st.held {
		if !strings.HasPrefix(key, "#") {
			return
		}
	}
	var ops []*ssa.Value
	for _, j := range st.joins {
		if j.frame != fr.id {
			continue
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && syncType(deref(fa.Type())) {
			continue
		}
		if _, ok := in.(*ssa.MakeClosure); ok {
			continue
		}
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil && j.vars[*o] {
				e.obligate(st, e.c.F, "data-race", "what a running goroutine writes is not touched at "+e.pos(in.Pos()))
			}
		}
	}
}

// runs the goroutines started so far
func (e *Exec) runGos(st *State, k Kont) {
	if len(st.gos) == 0 {
		k.Ret(st, nil)
		return
	}
	g := st.gos[0]
	st.gos = append([]goro{}, st.gos[1:]...)
	e.callVals(g.fr, st, g.cc, g.fn, g.args, g.in, false, Kont{Ret: func(st *State, _ []Val) { e.runGos(st, k) }, Panic: func(st *State, v *Term, why string) {
		k.Panic(st, v, "in a goroutine: "+why)
	}})
}
func (e *Exec) selectStmt(fr *Frame, st *State, in *ssa.Select, k func(st *State, v Val), pan func(*State, *Term, string)) {
	// any ready case may be chosen; received values are arbitrary
	if e.root == nil || !e.root.flag("chan") {
		e.fail("select at %s", e.pos(in.Pos()))
	}
	c := e.c
	n := len(in.States)
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	for i := lo; i < int64(n); i++ {
		s2 := st.clone()
		tp := Tuple{c.Int(i), c.F}
		closed := c.F
		for j, s := range in.States {
			et := fr.te.subst(s.Chan.Type().Underlying().(*types.Chan).Elem())
			ch := e.tval(fr, s2, s.Chan)
			if int64(j) == i {
				s2.assume(c.Neq(ch, c.Int(0))) // nil channels are never ready
			}
			if s.Dir == types.RecvOnly {
				v := e.zero(et)
				if int64(j) == i {
					var ok *Term
					v, ok = e.recvVal(s2, ch, et)
					if s2.dead {
						break
					}
					tp[1] = ok
				}
				tp = append(tp, v)
			} else if int64(j) == i {
				closed = e.chanClosed(s2, ch)
				s3 := s2.clone()
				s3.assume(closed)
				if !s3.dead && !e.infeasible(s3, c.T) {
					pan(s3, e.rtPanic(s3, "send"), "runtime panic: send on closed channel")
				}
				s2.assume(c.Not(closed))
				e.enqueue(s2, ch, e.box(et, e.term(e.val(fr, s2, s.Send), et)))
				e.chanEvent(s2, "send", ch, et, []*Term{e.box(et, e.term(e.val(fr, s2, s.Send), et))})
			}
		}
		if s2.dead {
			continue
		}
		k(s2, tp)
	}
}

func chanChan(kind string, et types.Type) string { return kind + ":" + typeKey(et) }

func (e *Exec) chanEvent(st *State, kind string, ch *Term, et types.Type, args []*Term) {
	e.event(st, chanChan(kind, et), ch, args)
}

// a value that was sent, or the zero value of a channel that is closed and empty
func (e *Exec) recvVal(st *State, ch *Term, et types.Type) (v, ok *Term) {
	if q, tracked := st.queue[ch]; tracked {
		closed := e.chanClosed(st, ch)
		switch {
		case len(q) > 0:
			v, ok = e.unbox(et, q[0]), e.c.T
			st.queue[ch] = q[1:]
		case closed == e.c.F:
			st.dead = true // never ready
			return e.zero(et), e.c.F
		default:
			st.assume(closed)
			v, ok = e.zero(et), e.c.F
		}
		st.joins = nil
		e.chanEvent(st, "recv", ch, et, []*Term{e.box(et, v), ok})
		return v, ok
	}
	ok = e.c.Fresh("recvok", "Bool")
	v = e.term(e.freshVal(st, "recv", et), et)
	st.assume(e.c.Imp(e.c.Not(ok), e.c.Eq(v, e.zero(et))))
	e.chanEvent(st, "recv", ch, et, []*Term{e.box(et, v), ok})
	return v, ok
}
func (e *Exec) enqueue(st *State, ch, v *Term) {
	if q, ok := st.queue[ch]; ok {
		st.queue[ch] = append(append([]*Term{}, q...), v)
	}
}
func (e *Exec) chanClosed(st *State, ch *Term) *Term {
	key := "C:closed"
	if _, ok := e.heapSort[key]; !ok {
		e.heapSort[key] = "(Array Int Bool)"
	}
	return e.c.Select(st.get(e, key), ch)
}
func (e *Exec) recv(fr *Frame, st *State, in *ssa.UnOp, k func(st *State, v Val)) {
	if e.root == nil || !e.root.flag("chan") {
		e.fail("channel receive at %s", e.pos(in.Pos()))
	}
	et := fr.te.subst(in.X.Type().Underlying().(*types.Chan).Elem())
	ch := e.tval(fr, st, in.X)
	st.assume(e.c.Neq(ch, e.c.Int(0))) // a nil channel blocks forever
	if st.dead {
		return
	}
	v, ok := e.recvVal(st, ch, et)
	if in.CommaOk {
		k(st, Tuple{v, ok})
		return
	}
	k(st, v)
}
func (e *Exec) send(fr *Frame, st *State, in *ssa.Send, k func(st *State), pan func(*State, *Term, string)) {
	if e.root == nil || !e.root.flag("chan") {
		e.fail("channel send at %s", e.pos(in.Pos()))
	}
	et := fr.te.subst(in.Chan.Type().Underlying().(*types.Chan).Elem())
	ch := e.tval(fr, st, in.Chan)
	st.assume(e.c.Neq(ch, e.c.Int(0)))
	closed := e.chanClosed(st, ch)
	s3 := st.clone()
	s3.assume(closed)
	if !s3.dead && !e.infeasible(s3, e.c.T) {
		pan(s3, e.rtPanic(s3, "send"), "runtime panic: send on closed channel")
	}
	st.assume(e.c.Not(closed))
	if st.dead {
		return
	}
	e.enqueue(st, ch, e.box(et, e.term(e.val(fr, st, in.X), et)))
	e.chanEvent(st, "send", ch, et, []*Term{e.box(et, e.term(e.val(fr, st, in.X), et))})
	k(st)
}

// a channel just made is open
func (e *Exec) chanInit(st *State, r *Term, t types.Type, size *Term) {
	key := "C:closed"
	if _, ok := e.heapSort[key]; !ok {
		e.heapSort[key] = "(Array Int Bool)"
	}
	st.put(key, e.c.Store(st.get(e, key), r, e.c.F))
	if e.root != nil && e.root.flag("go-now") {
		if len(st.loops) > 0 {
			e.fail("channel made in a loop")
		}
		if st.queue == nil {
			st.queue = map[*Term][]*Term{}
		}
		st.queue[r] = nil
	}
}
func (e *Exec) chanClose(fr *Frame, st *State, ch *Term, et types.Type, in ssa.Instruction, k Kont) {
	c := e.c
	key := "C:closed"
	if _, ok := e.heapSort[key]; !ok {
		e.heapSort[key] = "(Array Int Bool)"
	}
	h := st.get(e, key)
	bad := c.Or(c.Eq(ch, c.Int(0)), c.Select(h, ch))
	if !e.prove(st, c.Not(bad)) {
		s2 := st.clone()
		s2.assume(bad)
		k.Panic(s2, e.rtPanic(s2, "close"), "runtime panic: close of nil or closed channel")
		if e.infeasible(st, c.Not(bad)) {
			return
		}
	}
	st.assume(c.Not(bad))
	st.put(key, c.Store(h, ch, c.T))
	e.chanEvent(st, "close", ch, et, nil)
	k.Ret(st, nil)
}

func (e *Exec) reflectType(st *State, x *Term) *Term {
	n := "ext0_" + sanitize("reflect.TypeOf")
	e.c.DeclFun(n, []string{"Any"}, "Any")
	return e.c.App(n, x)
}

func (e *Exec) reflectKind(st *State, v *Term) *Term {
	e.rvInit()
	n := "ext0_" + sanitize("(reflect.Value).Kind")
	e.c.DeclFun(n, []string{"RV"}, "Int")
	t := e.c.App(n, v)
	if st != nil {
		st.assume(e.c.Le(e.c.Int(0), t), e.c.Le(t, e.c.Int(int64(reflect.UnsafePointer))))
	}
	return t
}

// too large for a float32 (infinities fit)
func (e *Exec) f32over(x *Term) *Term {
	c := e.c
	m := e.floatBits(math.MaxFloat32)
	inf := c.B("fp.isInfinite", "Bool", x)
	return c.And(c.Not(inf), c.Or(c.B("fp.gt", "Bool", x, m), c.B("fp.lt", "Bool", x, e.floatBits(-math.MaxFloat32))))
}
