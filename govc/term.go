package main

// Hash-consed first-order terms (SMT-LIB sorts) with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type BV struct{ Name, Sort string }

type Term struct {
	Op    string // int str true false sym app forall exists + * ite select store and or not = <= etc.
	Name  string // symbol / function name / literal text
	Args  []*Term
	Sort  string
	ID    int
	Bound []BV
	Pats  []*Term
	Int   *big.Int
	lin   *lin
	bv    bool // contains a free bound variable
	fv    []string
}

type Datatype struct {
	Name   string
	Fields []BV
}

type FunDecl struct {
	Name string
	Args []string
	Ret  string
	Def  string // if set, raw text emitted instead of declare-fun
}

type Ctx struct {
	noSplit bool
	tab     map[string]*Term
	n       int
	sorts   map[string]bool
	decl    []string // ordered raw declarations (sorts, datatypes, functions)
	declKey map[string]bool
	funs    map[string]*FunDecl
	dts     map[string]*Datatype
	axioms  []*Axiom
	fresh   map[string]int
	T, F    *Term
	gen     int // bumped when decl/axioms change
	raw     []string
	birth   map[string]int
	nbirth  int
}

type Axiom struct {
	Trig []string // function symbols which make the axiom relevant (any); empty: always
	Body *Term
	Raw  string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]bool{}, declKey: map[string]bool{}, funs: map[string]*FunDecl{}, dts: map[string]*Datatype{}, fresh: map[string]int{}, birth: map[string]int{}}
	c.T = c.mk("true", "", "Bool")
	c.F = c.mk("false", "", "Bool")
	return c
}

func (c *Ctx) mk(op, name, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, Name: name, Sort: srt, Args: args, ID: c.n}
	for _, a := range args {
		t.fv = unionFV(t.fv, a.fv)
	}
	if op == "bound" {
		t.fv = []string{name}
	}
	t.bv = len(t.fv) > 0
	c.tab[k] = t
	return t
}

func (c *Ctx) DeclSort(name string) string {
	if !c.sorts[name] {
		c.sorts[name] = true
		c.decl = append(c.decl, fmt.Sprintf("(declare-sort %s 0)", name))
		c.gen++
	}
	return name
}

func (c *Ctx) DeclDT(name string, fields []BV) *Datatype {
	if d, ok := c.dts[name]; ok {
		return d
	}
	d := &Datatype{name, fields}
	c.dts[name] = d
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", name, name)
	for _, f := range fields {
		fmt.Fprintf(&b, " (%s %s)", f.Name, f.Sort)
	}
	b.WriteString("))))")
	if len(fields) == 0 {
		b.Reset()
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s))))", name, name)
	}
	c.decl = append(c.decl, b.String())
	c.gen++
	return d
}

func (c *Ctx) DeclFun(name string, args []string, ret string) *FunDecl {
	if f, ok := c.funs[name]; ok {
		return f
	}
	f := &FunDecl{Name: name, Args: args, Ret: ret}
	c.funs[name] = f
	c.decl = append(c.decl, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), ret))
	c.gen++
	return f
}

func (c *Ctx) DefFun(name string, args []string, ret, def string) *FunDecl {
	if f, ok := c.funs[name]; ok {
		return f
	}
	f := &FunDecl{Name: name, Args: args, Ret: ret, Def: def}
	c.funs[name] = f
	c.decl = append(c.decl, def)
	c.gen++
	return f
}

func (c *Ctx) Axiom(trig []string, body *Term) {
	key := fmt.Sprintf("ax%d", body.ID)
	if c.declKey[key] {
		return
	}
	c.declKey[key] = true
	c.axioms = append(c.axioms, &Axiom{Trig: trig, Body: body})
	c.gen++
}

func (c *Ctx) Sym(name, srt string) *Term {
	c.DeclFun(name, nil, srt)
	return c.mk("sym", name, srt)
}

func (c *Ctx) Fresh(prefix, srt string) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	n := fmt.Sprintf("%s!%d", prefix, c.fresh[prefix])
	c.nbirth++
	c.birth[n] = c.nbirth
	return c.Sym(n, srt)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("ptr.")
		case r == '[':
			b.WriteString("_L")
		case r == ']':
			b.WriteString("R_")
		case r == '/':
			b.WriteString(".")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func (c *Ctx) App(name string, args ...*Term) *Term {
	f := c.funs[name]
	if f == nil {
		panic("undeclared function " + name)
	}
	if len(f.Args) != len(args) {
		panic(fmt.Sprintf("arity of %s: %d vs %d", name, len(f.Args), len(args)))
	}
	for i, a := range args {
		if a.Sort != f.Args[i] {
			panic(fmt.Sprintf("sort mismatch in %s arg %d: have %s want %s (%s)", name, i, a.Sort, f.Args[i], a))
		}
	}
	return c.mk("app", name, f.Ret, args...)
}

func (c *Ctx) Mk(dt string, args ...*Term) *Term {
	d := c.dts[dt]
	if d == nil {
		panic("no datatype " + dt)
	}
	if len(args) != len(d.Fields) {
		panic("mk arity " + dt)
	}
	for i, a := range args {
		if a.Sort != d.Fields[i].Sort {
			panic(fmt.Sprintf("mk_%s field %s: have %s want %s", dt, d.Fields[i].Name, a.Sort, d.Fields[i].Sort))
		}
	}
	// eta: mk(sel0(x), sel1(x) ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Name == d.Fields[0].Name {
		x := args[0].Args[0]
		ok := x.Sort == dt
		for i, a := range args {
			if a.Op != "sel" || a.Name != d.Fields[i].Name || a.Args[0] != x {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return c.mk("mk", dt, dt, args...)
}

func (c *Ctx) Sel(dt, field string, x *Term) *Term {
	d := c.dts[dt]
	if d == nil || x.Sort != dt {
		panic(fmt.Sprintf("Sel %s.%s of %s (%s)", dt, field, x.Sort, x))
	}
	for i, f := range d.Fields {
		if f.Name == field {
			if x.Op == "mk" {
				return x.Args[i]
			}
			if x.Op == "ite" && (x.Args[1].Op == "mk" || x.Args[2].Op == "mk" || x.Args[1].Op == "ite" || x.Args[2].Op == "ite") {
				return c.Ite(x.Args[0], c.Sel(dt, field, x.Args[1]), c.Sel(dt, field, x.Args[2]))
			}
			return c.mk("sel", field, f.Sort, x)
		}
	}
	panic("no field " + field + " in " + dt)
}

// functional update of one field
func (c *Ctx) Upd(dt, field string, x, v *Term) *Term {
	d := c.dts[dt]
	args := make([]*Term, len(d.Fields))
	for i, f := range d.Fields {
		if f.Name == field {
			args[i] = v
		} else {
			args[i] = c.Sel(dt, f.Name, x)
		}
	}
	return c.Mk(dt, args...)
}

func (c *Ctx) IntBig(b *big.Int) *Term {
	t := c.mk("int", b.String(), "Int")
	if t.Int == nil {
		t.Int = new(big.Int).Set(b)
	}
	return t
}
func (c *Ctx) Int(i int64) *Term { return c.IntBig(big.NewInt(i)) }

// string literal: each byte of s is one character
func (c *Ctx) Str(s string) *Term { return c.mk("str", s, "String") }

// ---- linear forms

type lin struct {
	k     *big.Int
	atoms map[*Term]*big.Int
}

func (c *Ctx) linear(t *Term) *lin {
	if t.lin != nil {
		return t.lin
	}
	l := &lin{k: new(big.Int), atoms: map[*Term]*big.Int{}}
	add := func(x *lin, f *big.Int) {
		l.k.Add(l.k, new(big.Int).Mul(x.k, f))
		for a, co := range x.atoms {
			if l.atoms[a] == nil {
				l.atoms[a] = new(big.Int)
			}
			l.atoms[a].Add(l.atoms[a], new(big.Int).Mul(co, f))
			if l.atoms[a].Sign() == 0 {
				delete(l.atoms, a)
			}
		}
	}
	switch {
	case t.Op == "int":
		l.k.Set(t.Int)
	case t.Op == "+":
		for _, a := range t.Args {
			add(c.linear(a), big.NewInt(1))
		}
	case t.Op == "*" && len(t.Args) == 2 && t.Args[0].Op == "int":
		add(c.linear(t.Args[1]), t.Args[0].Int)
	default:
		l.atoms[t] = big.NewInt(1)
	}
	t.lin = l
	return l
}

func (c *Ctx) fromLin(l *lin) *Term {
	var as []*Term
	for a := range l.atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	var args []*Term
	for _, a := range as {
		co := l.atoms[a]
		if co.Cmp(big.NewInt(1)) == 0 {
			args = append(args, a)
		} else {
			args = append(args, c.mk("*", "", "Int", c.IntBig(co), a))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.IntBig(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "", "Int", args...)
}

func (c *Ctx) linComb(a *Term, fa int64, b *Term, fb int64) *lin {
	l := &lin{k: new(big.Int), atoms: map[*Term]*big.Int{}}
	for _, p := range []struct {
		t *Term
		f int64
	}{{a, fa}, {b, fb}} {
		x := c.linear(p.t)
		f := big.NewInt(p.f)
		l.k.Add(l.k, new(big.Int).Mul(x.k, f))
		for at, co := range x.atoms {
			if l.atoms[at] == nil {
				l.atoms[at] = new(big.Int)
			}
			l.atoms[at].Add(l.atoms[at], new(big.Int).Mul(co, f))
			if l.atoms[at].Sign() == 0 {
				delete(l.atoms, at)
			}
		}
	}
	return l
}

func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(c.linComb(a, 1, b, 1)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(c.linComb(a, 1, b, -1)) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := c.linear(b)
		r := &lin{k: new(big.Int).Mul(l.k, a.Int), atoms: map[*Term]*big.Int{}}
		if a.Int.Sign() != 0 {
			for at, co := range l.atoms {
				r.atoms[at] = new(big.Int).Mul(co, a.Int)
			}
		}
		return c.fromLin(r)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("*", "", "Int", a, b)
}

// SMT (euclidean) div / mod
func (c *Ctx) Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() != 0 {
		q, m := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		_ = m
		return c.IntBig(q)
	}
	return c.mk("div", "", "Int", a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() != 0 {
		return c.IntBig(new(big.Int).Mod(a.Int, b.Int))
	}
	return c.mk("mod", "", "Int", a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.linComb(b, 1, a, -1)
	if len(d.atoms) == 0 {
		return c.Bool(d.k.Sign() >= 0)
	}
	return c.mk("<=", "", "Bool", a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.T:
		return c.F
	case a == c.F:
		return c.T
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", "", "Bool", a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.T || seen[t] {
			return true
		}
		if t == c.F || seen[c.Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if a.Sort != "Bool" {
			panic("And of " + a.Sort + " " + a.String())
		}
		if !add(a) {
			return c.F
		}
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", "Bool", out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = c.Not(a)
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.F || seen[t] {
			return true
		}
		if t == c.T || seen[c.Not(t)] {
			return false
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.T
		}
	}
	if len(out) == 0 {
		return c.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", "Bool", out...)
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort + " / " + b.Sort)
	}
	switch {
	case p == c.T:
		return a
	case p == c.F:
		return b
	case a == b:
		return a
	}
	if p.Op == "not" {
		return c.Ite(p.Args[0], b, a)
	}
	if a.Sort == "Bool" {
		switch {
		case a == c.T && b == c.F:
			return p
		case a == c.F && b == c.T:
			return c.Not(p)
		case a == c.T:
			return c.Or(p, b)
		case a == c.F:
			return c.And(c.Not(p), b)
		case b == c.T:
			return c.Or(c.Not(p), a)
		case b == c.F:
			return c.And(p, a)
		}
	}
	return c.mk("ite", "", a.Sort, p, a, b)
}

// +1 equal, -1 distinct, 0 unknown
func (c *Ctx) cmp(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.Sort == "Int" {
		d := c.linComb(a, 1, b, -1)
		if len(d.atoms) == 0 {
			if d.k.Sign() == 0 {
				return 1
			}
			return -1
		}
		return 0
	}
	if a.Op == "str" && b.Op == "str" {
		return -1 // hash-consed: different literals
	}
	if (a == c.T && b == c.F) || (a == c.F && b == c.T) {
		return -1
	}
	if a.Op == "mk" && b.Op == "mk" {
		r := 1
		for i := range a.Args {
			switch c.cmp(a.Args[i], b.Args[i]) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	}
	if a.Op == "app" && b.Op == "app" && strings.HasPrefix(a.Name, "box_") && strings.HasPrefix(b.Name, "box_") {
		if a.Name != b.Name {
			if tpBox(a) || tpBox(b) {
				return 0
			}
			return -1
		}
		return c.cmp(a.Args[0], b.Args[0])
	}
	if tpBox(a) || tpBox(b) {
		return 0
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "box_") && b.Op == "sym" && b.Name == "anynil" {
		return -1
	}
	if b.Op == "app" && strings.HasPrefix(b.Name, "box_") && a.Op == "sym" && a.Name == "anynil" {
		return -1
	}
	return 0
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s / %s : %s vs %s", a.Sort, b.Sort, a, b))
	}
	switch c.cmp(a, b) {
	case 1:
		return c.T
	case -1:
		return c.F
	}
	if a.Sort == "Bool" {
		switch {
		case a == c.T:
			return b
		case a == c.F:
			return c.Not(b)
		case b == c.T:
			return a
		case b == c.F:
			return c.Not(a)
		}
	}
	if a.Op == "mk" && b.Op == "mk" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Op == "app" && b.Op == "app" && strings.HasPrefix(a.Name, "box_") && a.Name == b.Name {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "ite" && b.Op != "ite" {
		if c.cmp(a.Args[1], b) != 0 || c.cmp(a.Args[2], b) != 0 {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
	}
	if b.Op == "ite" && a.Op != "ite" {
		return c.Eq2(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", "", "Bool", a, b)
}

func (c *Ctx) Eq2(a, b *Term) *Term {
	if c.cmp(a.Args[1], b) != 0 || c.cmp(a.Args[2], b) != 0 {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", "", "Bool", a, b)
}
func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// split "(Array K V)"
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func (c *Ctx) Select(a, i *Term) *Term {
	k, v := splitArr(a.Sort)
	if i.Sort != k {
		panic(fmt.Sprintf("select index sort %s, want %s", i.Sort, k))
	}
	for {
		if a.Op == "store" {
			switch c.cmp(a.Args[1], i) {
			case 1:
				return a.Args[2]
			case -1:
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "ite" {
			x, y := a.Args[1], a.Args[2]
			if x.Op == "store" || y.Op == "store" || x.Op == "constarr" || y.Op == "constarr" {
				return c.Ite(a.Args[0], c.Select(x, i), c.Select(y, i))
			}
		}
		break
	}
	return c.mk("select", "", v, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs := splitArr(a.Sort)
	if i.Sort != k || v.Sort != vs {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && c.cmp(a.Args[1], i) == 1 {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", "", a.Sort, a, i, v)
}

func (c *Ctx) ConstArr(k, vsort string, v *Term) *Term {
	n := ""
	if !literal(v) { // cvc5 only knows constant arrays of values
		n = "const_" + sanitize(arrSort(k, vsort))
		if _, ok := c.funs[n]; !ok {
			c.DeclFun(n, []string{vsort}, arrSort(k, vsort))
			x, i := c.BoundVar("v", vsort), c.BoundVar("i", k)
			sel := c.mk("select", "", vsort, c.App(n, x), i)
			c.Axiom([]string{n}, c.Forall([]BV{{"v", vsort}, {"i", k}}, c.Eq(sel, x), sel))
		}
	}
	return c.mk("constarr", n, arrSort(k, vsort), v)
}

func literal(v *Term) bool {
	switch v.Op {
	case "int", "str", "true", "false", "lit":
		return true
	case "mk":
		for _, a := range v.Args {
			if !literal(a) {
				return false
			}
		}
		return true
	}
	return v.Op == "constarr" && v.Name == ""
}

func (c *Ctx) BoundVar(name, srt string) *Term { return c.mk("bound", name, srt) }

func (c *Ctx) Quant(op string, bound []BV, body *Term, pats ...*Term) *Term {
	if body == c.T || body == c.F {
		return body
	}
	if len(bound) == 1 && !c.noSplit {
		if at := c.storeAt(body, bound[0]); at != nil {
			// Q i. P(a[at := v][i])  is  P(at) op Q i. i = at or P(a[i])
			bv := c.BoundVar(bound[0].Name, bound[0].Sort)
			m := map[*Term]*Term{}
			c.storeReads(body, bv, at, m)
			rest := c.Subst(body, m)
			here := c.Subst(body, map[*Term]*Term{bv: at})
			ps := make([]*Term, 0, len(pats))
			for _, p := range pats {
				c.storeReads(p, bv, at, m)
				ps = append(ps, c.Subst(p, m))
			}
			if op == "forall" {
				return c.And(here, c.Quant(op, bound, c.Or(c.Eq(bv, at), rest), ps...))
			}
			return c.Or(here, c.Quant(op, bound, c.And(c.Not(c.Eq(bv, at)), rest), ps...))
		}
	}
	var nm strings.Builder
	for _, b := range bound {
		fmt.Fprintf(&nm, "(%s %s)", b.Name, b.Sort)
	}
	nm.WriteString("#")
	for _, p := range pats {
		fmt.Fprintf(&nm, "%d,", p.ID)
	}
	t := c.mk(op, nm.String(), "Bool", body)
	t.Bound = bound
	t.Pats = pats
	t.fv = without(body.fv, bound)
	t.bv = len(t.fv) > 0
	return t
}

// an index at which an array read at the bound variable was stored to
func (c *Ctx) storeAt(body *Term, b BV) (at *Term) {
	bv := c.BoundVar(b.Name, b.Sort)
	out := without(body.fv, []BV{b})
	ok := func(t *Term) bool {
		for _, n := range t.fv {
			in := false
			for _, x := range out {
				in = in || x == n
			}
			if !in {
				return false
			}
		}
		return true
	}
	seen := map[*Term]bool{}
	shadow := false
	size := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || shadow {
			return
		}
		seen[t] = true
		size++
		if t.Op == "forall" || t.Op == "exists" {
			for _, x := range t.Bound {
				if x.Name == b.Name {
					shadow = true
				}
			}
		}
		if at == nil && t.Op == "select" && t.Args[1] == bv && t.Args[0].Op == "store" && ok(t.Args[0].Args[1]) {
			at = t.Args[0].Args[1]
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	if shadow || size > 400 {
		return nil
	}
	return at
}

func (c *Ctx) storeReads(t, bv, at *Term, m map[*Term]*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[1] == bv && t.Args[0].Op == "store" && t.Args[0].Args[1] == at {
			m[t] = c.Select(t.Args[0].Args[0], bv)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// free bound variables of a, without the given ones
func without(fv []string, b []BV) []string {
	var out []string
	for _, n := range fv {
		in := false
		for _, x := range b {
			in = in || x.Name == n
		}
		if !in {
			out = append(out, n)
		}
	}
	return out
}

func unionFV(a, b []string) []string {
	if len(a) == 0 {
		return b
	}
	for _, n := range b {
		in := false
		for _, x := range a {
			in = in || x == n
		}
		if !in {
			a = append(a[:len(a):len(a)], n)
		}
	}
	return a
}

func (c *Ctx) Forall(bound []BV, body *Term, pats ...*Term) *Term {
	return c.Quant("forall", bound, body, pats...)
}
func (c *Ctx) Exists(bound []BV, body *Term) *Term { return c.Quant("exists", bound, body) }

// builtin application without declaration (str.++ etc.)
func (c *Ctx) B(op, srt string, args ...*Term) *Term {
	switch op {
	case "str.len":
		if args[0].Op == "str" {
			return c.Int(int64(len(args[0].Name)))
		}
		if args[0].Op == "str.++" {
			s := c.Int(0)
			for _, a := range args[0].Args {
				s = c.Add(s, c.B("str.len", "Int", a))
			}
			return s
		}
	}
	return c.mk(op, "", srt, args...)
}

func (c *Ctx) Concat(args ...*Term) *Term {
	var out []*Term
	for _, a := range args {
		var xs []*Term
		if a.Op == "str.++" {
			xs = a.Args
		} else {
			xs = []*Term{a}
		}
		for _, x := range xs {
			if x.Op == "str" && x.Name == "" {
				continue
			}
			if x.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = c.Str(out[len(out)-1].Name + x.Name)
				continue
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("str.++", "", "String", out...)
}

// substitution of arbitrary subterms
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			pats := make([]*Term, len(t.Pats))
			for i, p := range t.Pats {
				pats[i] = rec(p)
			}
			r = c.rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args, pats []*Term) *Term {
	switch t.Op {
	case "+":
		s := args[0]
		for _, a := range args[1:] {
			s = c.Add(s, a)
		}
		return s
	case "*":
		return c.Mul(args[0], args[1])
	case "div":
		return c.Div(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "=":
		return c.Eq(args[0], args[1])
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "sel":
		return c.Sel(t.Args[0].Sort, t.Name, args[0])
	case "mk":
		return c.Mk(t.Name, args...)
	case "str.++":
		return c.Concat(args...)
	case "forall", "exists":
		return c.Quant(t.Op, t.Bound, args[0], pats...)
	case "str.len":
		return c.B("str.len", "Int", args...)
	}
	return c.mk(t.Op, t.Name, t.Sort, args...)
}

// does t mention any of the symbols
func mentions(t *Term, syms map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if syms[t] {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\' || ch < 32 || ch > 126:
			fmt.Fprintf(&b, "\\u{%x}", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil, 0)
	s := b.String()
	return s
}

func (t *Term) write(b *strings.Builder, names map[*Term]string, depth int) {
	if names != nil && depth > 0 {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.Int))
		} else {
			b.WriteString(t.Int.String())
		}
		return
	case "str":
		b.WriteString(smtStr(t.Name))
		return
	case "true", "false":
		b.WriteString(t.Op)
		return
	case "sym", "bound", "lit":
		b.WriteString(t.Name)
		return
	case "constarr":
		if t.Name != "" {
			fmt.Fprintf(b, "(%s ", t.Name)
			t.Args[0].write(b, names, depth+1)
			b.WriteByte(')')
			return
		}
		fmt.Fprintf(b, "((as const %s) ", t.Sort)
		t.Args[0].write(b, names, depth+1)
		b.WriteByte(')')
		return
	case "forall", "exists":
		fmt.Fprintf(b, "(%s (", t.Op)
		for _, v := range t.Bound {
			fmt.Fprintf(b, "(%s %s)", v.Name, v.Sort)
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(b, names, depth+1)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				if p.Op == "multi" {
					for i, q := range p.Args {
						if i > 0 {
							b.WriteByte(' ')
						}
						q.write(b, names, depth+1)
					}
				} else {
					p.write(b, names, depth+1)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteByte(')')
		return
	case "mk":
		if len(t.Args) == 0 {
			b.WriteString("mk_" + t.Name)
			return
		}
		b.WriteString("(mk_" + t.Name)
	case "sel", "app":
		b.WriteString("(" + t.Name)
	default:
		b.WriteString("(" + t.Op)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		a.write(b, names, depth+1)
	}
	b.WriteByte(')')
}

// true when t only mentions symbols that existed at the watermark
func (c *Ctx) older(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.Op == "sym" && c.birth[t.Name] > mark {
			return false
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

// a boxed value of a type parameter: its dynamic type is unknown and it may be a nil interface
func tpBox(a *Term) bool { return a.Op == "app" && strings.HasPrefix(a.Name, "box_$") }
