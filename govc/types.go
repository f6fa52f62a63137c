package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- type substitution (generic bodies are executed with a type environment)

type tenv map[*types.TypeParam]types.Type

func (te tenv) subst(t types.Type) types.Type {
	if len(te) == 0 || t == nil {
		return t
	}
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := te[t]; ok {
			return r
		}
		return t
	case *types.Named:
		ta := t.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		args := make([]types.Type, ta.Len())
		ch := false
		for i := range args {
			args[i] = te.subst(ta.At(i))
			if args[i] != ta.At(i) {
				ch = true
			}
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(tctx, t.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Alias:
		return te.subst(types.Unalias(t))
	case *types.Pointer:
		e := te.subst(t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewPointer(e)
	case *types.Slice:
		e := te.subst(t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewSlice(e)
	case *types.Array:
		e := te.subst(t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewArray(e, t.Len())
	case *types.Chan:
		e := te.subst(t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewChan(t.Dir(), e)
	case *types.Map:
		k, e := te.subst(t.Key()), te.subst(t.Elem())
		if k == t.Key() && e == t.Elem() {
			return t
		}
		return types.NewMap(k, e)
	case *types.Tuple:
		var vs []*types.Var
		ch := false
		for i := 0; i < t.Len(); i++ {
			v := t.At(i)
			nt := te.subst(v.Type())
			if nt != v.Type() {
				ch = true
			}
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), nt))
		}
		if !ch {
			return t
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		p := te.subst(t.Params()).(*types.Tuple)
		r := te.subst(t.Results()).(*types.Tuple)
		if p == t.Params() && r == t.Results() {
			return t
		}
		return types.NewSignatureType(nil, nil, nil, p, r, t.Variadic())
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		ch := false
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			nt := te.subst(f.Type())
			if nt != f.Type() {
				ch = true
			}
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), nt, f.Embedded()))
			tags = append(tags, t.Tag(i))
		}
		if !ch {
			return t
		}
		return types.NewStruct(fs, tags)
	}
	return t
}

var tctx = types.NewContext()

func typeKey(t types.Type) string {
	switch t := t.(type) {
	case *types.TypeParam:
		return "$" + t.Obj().Name()
	case *types.Alias:
		return typeKey(types.Unalias(t))
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if strings.Contains(k, "byte") || strings.Contains(k, "rune") { // aliases of basic types
		k = basicAlias.ReplaceAllStringFunc(k, func(s string) string {
			if s == "byte" {
				return "uint8"
			}
			return "int32"
		})
	}
	return k
}

var basicAlias = regexp.MustCompile(`\b(byte|rune)\b`)

// types whose values are abstracted by a single sort
var overrides = map[string]string{
	"time.Time":                       "Int",
	"time.Location":                   "Int",
	"reflect.Value":                   "RV",
	"sync.Mutex":                      "Int",
	"sync.RWMutex":                    "Int",
	"sync.Once":                       "Int",
	"sync.WaitGroup":                  "Int",
	"sync.Map":                        "(Array Any OptAny)",
	"bytes.Buffer":                    "String",
	"strings.Builder":                 "String",
	"sync/atomic.Int64":               "Int",
	"sync/atomic.Int32":               "Int",
	"math/big.Int":                    "Int",
	"math/big.Float":                  "Int",
	"sync.notifyList":                 "Int",
	"sync.copyChecker":                "Int",
	"strings.Replacer":                "Int",
	"net/http.Client":                 "Int",
	"net/http.Server":                 "Int",
	"encoding/json.Decoder":           "Int",
	"encoding/json.Encoder":           "Int",
	"regexp.Regexp":                   "Int",
	"compress/gzip.Writer":            "Int",
	"sync.noCopy":                     "Int",
	"testing.T":                       "Int",
	"testing.common":                  "Int",
	"net/http.ServeMux":               "Int",
	"golang.org/x/net/websocket.Conn": "Int",
	"log/slog.Logger":                 "Int",
	"net/url.URL":                     "",
}

func override(t types.Type) (string, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		s, ok := overrides[typeKey(n)]
		if ok && s != "" {
			return s, true
		}
		// type T time.Time
		if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 3 && st.Field(0).Name() == "wall" && st.Field(1).Name() == "ext" && st.Field(2).Name() == "loc" {
			return overrides["time.Time"], true
		}
	}
	return "", false
}

func isStruct(t types.Type) bool {
	if _, ok := override(t); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isTP(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func (e *Exec) initSorts() {
	c := e.c
	c.DeclSort("Any")
	c.DeclDT("Slice", []BV{{"sl.ref", "Int"}, {"sl.off", "Int"}, {"sl.len", "Int"}, {"sl.cap", "Int"}})
	c.DeclDT("OptAny", []BV{{"opt.some", "Bool"}, {"opt.val", "Any"}})
	c.DeclFun("typ", []string{"Any"}, "Int")
	e.anynil = c.Sym("anynil", "Any")
	a := c.BoundVar("a", "Any")
	ta := c.App("typ", a)
	c.Axiom([]string{"typ", "anynil"}, c.And(c.Eq(c.App("typ", e.anynil), c.Int(0)),
		c.Forall([]BV{{"a", "Any"}}, c.And(c.Ge(ta, c.Int(0)), c.Imp(c.Eq(ta, c.Int(0)), c.Eq(a, e.anynil))), ta)))
}

// structural sanity: sort of a Go type
func (e *Exec) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := override(t); ok {
		switch s {
		case "RV":
			e.rvInit()
		}
		return s
	}
	switch u := t.(type) {
	case *types.TypeParam:
		return e.c.DeclSort("TP_" + sanitize(u.Obj().Name()))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Info()&types.IsFloat != 0:
			return "Float64"
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Any"
	case *types.Array:
		return arrSort("Int", e.sortOf(u.Elem()))
	case *types.Struct:
		return e.structDT(t).Name
	case *types.Tuple:
		return "Int"
	}
	panic(fmt.Sprintf("sortOf %T %v", t, t))
}

func (e *Exec) structDT(t types.Type) *Datatype {
	k := typeKey(t)
	if d, ok := e.dtByKey[k]; ok {
		return d
	}
	st := t.Underlying().(*types.Struct)
	short := k
	if i := strings.LastIndex(short, "/"); i >= 0 && !strings.ContainsAny(short, "[{ ") {
		short = short[i+1:]
	}
	if len(short) > 40 {
		short = short[:40]
	}
	name := fmt.Sprintf("S%d_%s", len(e.dtByKey), sanitize(short))
	e.dtByKey[k] = &Datatype{Name: name} // guard against accidental recursion
	var fs []BV
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs = append(fs, BV{e.fieldName(name, st, i), e.sortOf(f.Type())})
	}
	d := e.c.DeclDT(name, fs)
	e.dtByKey[k] = d
	return d
}

func (e *Exec) fieldName(dt string, st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return dt + "." + n
}

func (e *Exec) mapDT(t types.Type) string {
	m := t.Underlying().(*types.Map)
	ks, vs := e.sortOf(m.Key()), e.sortOf(m.Elem())
	name := "Map_" + sanitize(ks) + "_" + sanitize(vs)
	e.c.DeclDT(name, []BV{{name + ".dom", arrSort(ks, "Bool")}, {name + ".val", arrSort(ks, vs)}, {name + ".n", "Int"}})
	return name
}

func (e *Exec) emptyMap(t types.Type) *Term {
	m := t.Underlying().(*types.Map)
	dt := e.mapDT(t)
	ks, vs := e.sortOf(m.Key()), e.sortOf(m.Elem())
	z := e.c.ConstArr(ks, vs, e.zero(m.Elem()))
	if z.Args[0].Op == "sym" {
		z = e.c.Sym("zmap_"+sanitize(ks+vs), arrSort(ks, vs))
	}
	return e.c.Mk(dt, e.c.ConstArr(ks, "Bool", e.c.F), z, e.c.Int(0))
}

func (e *Exec) nilSlice() *Term {
	z := e.c.Int(0)
	return e.c.Mk("Slice", z, z, z, z)
}

func (e *Exec) zero(t types.Type) *Term {
	c := e.c
	t = types.Unalias(t)
	if s, ok := override(t); ok {
		switch s {
		case "Int":
			return c.Int(0)
		case "String":
			return c.Str("")
		case "RV":
			e.rvInit()
			return c.Sym("rv_invalid", "RV")
		case "(Array Any OptAny)":
			return c.ConstArr("Any", "OptAny", c.Mk("OptAny", c.F, e.anynil))
		}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return c.Sym("zero_"+sanitize(tp.Obj().Name()), e.sortOf(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.F
		case u.Info()&types.IsInteger != 0:
			return c.Int(0)
		case u.Info()&types.IsString != 0:
			return c.Str("")
		case u.Info()&types.IsFloat != 0:
			return e.floatLit(0)
		}
		return c.Int(0)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.Int(0)
	case *types.Slice:
		return e.nilSlice()
	case *types.Interface:
		return e.anynil
	case *types.Array:
		z := e.zero(u.Elem())
		return c.ConstArr("Int", z.Sort, z)
	case *types.Struct:
		d := e.structDT(t)
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return c.Mk(d.Name, args...)
	}
	panic(fmt.Sprintf("zero %T", t))
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	bits := 0
	signed := true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits = 64
	case types.Int32:
		bits = 32
	case types.Int16:
		bits = 16
	case types.Int8:
		bits = 8
	case types.Uint, types.Uint64, types.Uintptr:
		bits, signed = 64, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint8:
		bits, signed = 8, false
	default:
		return nil, nil, false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func (e *Exec) inRange(t *Term, b *types.Basic) *Term {
	lo, hi, ok := intRange(b)
	if !ok {
		return e.c.T
	}
	return e.c.And(e.c.Le(e.c.IntBig(lo), t), e.c.Le(t, e.c.IntBig(hi)))
}

// facts that hold for every value of the Go type (in a state with allocation counter A)
func (e *Exec) facts(t *Term, ty types.Type, st *State) []*Term {
	c := e.c
	ty = types.Unalias(ty)
	switch t.Op {
	case "int", "str", "mk", "true", "false":
		if t.Op != "mk" {
			return nil
		}
	}
	if s, ok := override(ty); ok {
		if s == "Int" && typeKey(ty) == "time.Time" {
			return []*Term{c.Ge(t, c.Int(0))}
		}
		return nil
	}
	if _, ok := ty.(*types.TypeParam); ok {
		return nil
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return []*Term{e.inRange(t, u)}
		}
	case *types.Slice:
		ref, off, ln, cp := e.slRef(t), e.slOff(t), e.slLen(t), e.slCap(t)
		z := c.Int(0)
		max := c.Int(1 << 48)
		return []*Term{c.Le(z, ref), c.Lt(ref, st.get(e, "A")), c.Le(z, off), c.Le(z, ln), c.Le(ln, cp), c.Le(c.Add(off, cp), max),
			c.Imp(c.Eq(ref, z), c.And(c.Eq(cp, z), c.Eq(off, z)))}
	case *types.Pointer, *types.Chan:
		return []*Term{c.Lt(t, st.get(e, "A"))}
	case *types.Map:
		return []*Term{c.Le(c.Int(0), t), c.Lt(t, st.get(e, "A"))}
	}
	return nil
}

func (e *Exec) slRef(t *Term) *Term { return e.c.Sel("Slice", "sl.ref", t) }
func (e *Exec) slOff(t *Term) *Term { return e.c.Sel("Slice", "sl.off", t) }
func (e *Exec) slLen(t *Term) *Term { return e.c.Sel("Slice", "sl.len", t) }
func (e *Exec) slCap(t *Term) *Term { return e.c.Sel("Slice", "sl.cap", t) }
func (e *Exec) mkSlice(ref, off, ln, cp *Term) *Term {
	return e.c.Mk("Slice", ref, off, ln, cp)
}

// ---- interface boxing

func (e *Exec) typeID(t types.Type) int64 {
	t = types.Unalias(t)
	k := typeKey(t)
	if id, ok := e.typeIDs[k]; ok {
		return id
	}
	id := int64(len(e.typeIDs) + 1)
	e.typeIDs[k] = id
	e.typeOf[id] = t
	// implements facts for known interface predicates
	for name, it := range e.implPreds {
		e.implFact(name, it, id, t)
	}
	return id
}

func (e *Exec) implFact(name string, it *types.Interface, id int64, t types.Type) {
	if isTP(t) {
		return
	}
	v := types.Implements(t, it)
	f := e.c.App(name, e.c.Int(id))
	if !v {
		f = e.c.Not(f)
	}
	e.c.Axiom([]string{name}, f)
}

// predicate over type ids: does the dynamic type implement the interface
func (e *Exec) implPred(it types.Type, id *Term) *Term {
	name := "impl_" + sanitize(typeKey(it))
	iface := it.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return e.c.Neq(id, e.c.Int(0))
	}
	if _, ok := e.implPreds[name]; !ok {
		e.c.DeclFun(name, []string{"Int"}, "Bool")
		e.implPreds[name] = iface
		e.c.Axiom([]string{name}, e.c.Not(e.c.App(name, e.c.Int(0))))
		for tid, t := range e.typeOf {
			e.implFact(name, iface, tid, t)
		}
	}
	return e.c.App(name, id)
}

func (e *Exec) boxName(t types.Type) (box, unbox string) {
	k := sanitize(typeKey(types.Unalias(t)))
	return "box_" + k, "unbox_" + k
}

func (e *Exec) declBox(t types.Type) {
	c := e.c
	s := e.sortOf(t)
	b, u := e.boxName(t)
	if _, ok := c.funs[b]; ok {
		return
	}
	c.DeclFun(b, []string{s}, "Any")
	c.DeclFun(u, []string{"Any"}, s)
	x := c.BoundVar("x", s)
	bx := c.App(b, x)
	if isTP(t) {
		h := "has_" + sanitize(typeKey(t))
		c.DeclFun(h, []string{"Any"}, "Bool")
		a := c.BoundVar("a", "Any")
		ha := c.App(h, a)
		c.Axiom([]string{b}, c.Forall([]BV{{"x", s}}, c.And(
			c.Imp(c.Neq(bx, e.anynil), c.And(c.App(h, bx))),
			c.Eq(c.App(u, bx), x),
			c.Imp(c.Eq(bx, e.anynil), c.Eq(x, e.zero(t)))), bx))
		c.Axiom([]string{h}, c.Forall([]BV{{"a", "Any"}}, c.Imp(ha, c.Eq(a, c.App(b, c.App(u, a)))), ha))
		c.Axiom([]string{h}, c.Not(c.App(h, e.anynil)))
		if tpBasic(t) {
			c.Axiom([]string{b}, c.Forall([]BV{{"x", s}}, c.Neq(bx, e.anynil), bx))
		}
		return
	}
	id := e.typeID(t)
	c.Axiom([]string{b}, c.Forall([]BV{{"x", s}}, c.And(c.Eq(c.App(u, bx), x), c.Eq(c.App("typ", bx), c.Int(id))), bx))
	a := c.BoundVar("a", "Any")
	ua := c.App(u, a)
	c.Axiom([]string{u}, c.Forall([]BV{{"a", "Any"}}, c.Imp(c.Eq(c.App("typ", a), c.Int(id)), c.Eq(a, c.App(b, ua))), ua))
}

func (e *Exec) box(t types.Type, x *Term) *Term {
	if isIface(t) {
		return x
	}
	e.declBox(t)
	b, u := e.boxName(t)
	if x.Op == "app" && x.Name == u && !isTP(t) {
		// box(unbox(a)) simplifies only when typ known; leave it to the solver
	}
	return e.c.App(b, x)
}

func (e *Exec) unbox(t types.Type, a *Term) *Term {
	if isIface(t) {
		return a
	}
	e.declBox(t)
	b, u := e.boxName(t)
	if a.Op == "app" && a.Name == b {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return e.c.Ite(a.Args[0], e.unbox(t, a.Args[1]), e.unbox(t, a.Args[2]))
	}
	return e.c.App(u, a)
}

// predicate: dynamic type of a is t (or implements t)
func (e *Exec) hasType(t types.Type, a *Term) *Term {
	if a.Op == "ite" {
		return e.c.Ite(a.Args[0], e.hasType(t, a.Args[1]), e.hasType(t, a.Args[2]))
	}
	if isIface(t) {
		id := e.typOf(a)
		if id.Op == "int" {
			if id.Int.Sign() == 0 {
				return e.c.F
			}
			if dt := e.typeOf[id.Int.Int64()]; dt != nil && !isTP(dt) {
				return e.c.Bool(types.Implements(dt, t.Underlying().(*types.Interface)))
			}
		}
		return e.implPred(t, id)
	}
	e.declBox(t)
	if isTP(t) {
		h := "has_" + sanitize(typeKey(t))
		if a == e.anynil {
			return e.c.F
		}
		return e.c.App(h, a)
	}
	return e.c.Eq(e.typOf(a), e.c.Int(e.typeID(t)))
}

func (e *Exec) typOf(a *Term) *Term {
	if a == e.anynil {
		return e.c.Int(0)
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "box_") && !tpBox(a) {
		for id, t := range e.typeOf {
			if b, _ := e.boxName(t); b == a.Name {
				return e.c.Int(id)
			}
		}
	}
	if a.Op == "ite" {
		return e.c.Ite(a.Args[0], e.typOf(a.Args[1]), e.typOf(a.Args[2]))
	}
	return e.c.App("typ", a)
}

// ---- floats (uninterpreted carrier, IEEE comparison through the FP theory)

func (e *Exec) floatLit(f float64) *Term {
	return e.floatBits(f)
}

// deref pointer element type
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(fmt.Sprintf("deref of %v", t))
}

func funcKey(f *ssa.Function) string {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	return o.RelString(nil)
}

func (e *Exec) rvInit() { e.c.DeclSort("RV") }

// the constraint admits only basic types, so a value is never a nil interface
func tpBasic(t types.Type) bool {
	tp, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return false
	}
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		u, ok := it.EmbeddedType(i).(*types.Union)
		if !ok {
			continue
		}
		all := u.Len() > 0
		for j := 0; j < u.Len(); j++ {
			if _, ok := u.Term(j).Type().Underlying().(*types.Basic); !ok {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}
