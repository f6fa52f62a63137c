package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

type Clause struct {
	Label string
	Src   string
	Expr  ast.Expr
	Where string
}

type InvClause struct {
	Clause
	Meta []metaVar
}
type metaVar struct{ name, typ string }

type Contract struct {
	Prop     string
	File     string
	Pkg      string
	Func     string
	Key      string // ssa key
	Params   []string
	Requires []Clause
	Ensures  []Clause
	Panics   []Clause
	Must     []Clause
	OnPanic  []Clause
	MayPanic bool
	Invs     []InvClause
	Flags    map[string]string
	Lets     []letDef
	Modular  bool
	Modifies []Clause
	TE       map[string]string
	AtCall   []Clause    // holds whenever unknown code is called
	Opaque   []string    // functions whose calls are only recorded
	Merge    []string    // functions whose paths are joined at their return
	Stubs    [][2]string // library functions replaced by ghost functions
	fn       *ssa.Function
}

type letDef struct {
	name string
	fin  bool
	Clause
}

type Macro struct {
	Params []string
	Clause
}
type FunSpec struct {
	Name string
	Args []string
	Ret  string
}
type AxiomSpec struct {
	Raw  string
	Trig []string
	Name string
}
type GuardSpec struct {
	Pkg, Type, Mutex string
	Fields           []string
}
type SMRep struct {
	Pred             *Clause // over key and val
	Pkg, Type, Field string
	Key, Val         string
}
type LemmaSpec struct {
	Name string
	Vars []metaVar
	Hyps []Clause
	Goal Clause
	Ind  string
}

type SpecFile struct {
	Prop      string
	Contracts []*Contract
	Macros    map[string]*Macro
	Funs      map[string]*FunSpec
	Axioms    []AxiomSpec
	Guards    []GuardSpec
	SMReps    []SMRep
	Lemmas    []*LemmaSpec
	TyParams  string
	TyPkg     string
	Packages  map[string]bool
	Notes     []string
	Ghosts    [][2]string // package, file
}

var clauseWords = map[string]bool{"use": true, "prop": true, "pkg": true, "func": true, "requires": true, "ensures": true, "panics": true, "mustpanic": true, "onpanic": true, "maypanic": true, "inv": true, "let": true,
	"modular": true, "opaque": true, "merge": true, "stub": true, "atcall": true, "modifies": true, "flag": true, "def": true, "fun": true, "axiom": true, "guard": true, "atomic": true, "smrep": true, "lemma": true, "hyp": true, "show": true, "note": true, "ghost": true, "inst": true, "typarams": true}

func newSpec() *SpecFile {
	return &SpecFile{Macros: map[string]*Macro{}, Funs: map[string]*FunSpec{}, Packages: map[string]bool{}}
}

func parseExpr(s, where string) ast.Expr {
	s = strings.ReplaceAll(s, "$", "__")
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("%s: cannot parse %q: %v", where, s, err))
	}
	return x
}

func (sf *SpecFile) load(path string, library bool) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	type item struct{ word, text, where string }
	var items []item
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	ln := 0
	for sc.Scan() {
		ln++
		line := sc.Text()
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := strings.Fields(t)[0]
		if clauseWords[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), fmt.Sprintf("%s:%d", filepath.Base(path), ln)})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		}
	}
	var cur *Contract
	var lem *LemmaSpec
	pkg := ""
	label := func(s string) (string, string) {
		if strings.HasPrefix(s, "@") {
			f := strings.Fields(s)
			return f[0][1:], strings.TrimSpace(s[len(f[0]):])
		}
		return "", s
	}
	clause := func(it item) Clause {
		l, s := label(it.text)
		return Clause{Label: l, Src: s, Expr: parseExpr(s, it.where), Where: it.where}
	}
	for _, it := range items {
		switch it.word {
		case "use":
			if err := sf.load(filepath.Join(filepath.Dir(path), it.text), true); err != nil {
				return err
			}
		case "prop":
			if !library {
				sf.Prop = it.text
			}
		case "pkg":
			pkg = it.text
			if !strings.Contains(pkg, ".") {
				pkg = modPath + "/" + pkg
			}
			sf.Packages[pkg] = true
		case "ghost":
			sf.Ghosts = append(sf.Ghosts, [2]string{pkg, it.text})
		case "typarams": // the type parameters of this type are known by name in functions without any
			sf.TyParams = strings.TrimSpace(it.text)
			sf.TyPkg = pkg
		case "note":
			sf.Notes = append(sf.Notes, it.text)
		case "func":
			i := strings.LastIndex(it.text, "(")
			j := strings.LastIndex(it.text, ")")
			name := strings.TrimSpace(it.text[:i])
			var ps []string
			for _, p := range strings.Split(it.text[i+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			cur = &Contract{File: it.where, Pkg: pkg, Func: name, Params: ps, Flags: map[string]string{}}
			if !library {
				cur.Prop = sf.Prop
			}
			sf.Contracts = append(sf.Contracts, cur)
			lem = nil
		case "requires":
			cur.Requires = append(cur.Requires, clause(it))
		case "ensures":
			c := clause(it)
			if c.Label == "" {
				c.Label = fmt.Sprintf("post%d", len(cur.Ensures)+1)
			}
			cur.Ensures = append(cur.Ensures, c)
		case "panics":
			cur.Panics = append(cur.Panics, clause(it))
		case "mustpanic":
			cur.Must = append(cur.Must, clause(it))
		case "onpanic":
			c := clause(it)
			if c.Label == "" {
				c.Label = fmt.Sprintf("onpanic%d", len(cur.OnPanic)+1)
			}
			cur.OnPanic = append(cur.OnPanic, c)
		case "maypanic":
			cur.MayPanic = true
		case "modular":
			cur.Modular = true
		case "atcall":
			c := clause(it)
			if c.Label == "" {
				c.Label = fmt.Sprintf("atcall%d", len(cur.AtCall)+1)
			}
			cur.AtCall = append(cur.AtCall, c)
		case "merge":
			cur.Merge = append(cur.Merge, strings.Fields(it.text)...)
		case "opaque":
			cur.Opaque = append(cur.Opaque, strings.Fields(it.text)...)
		case "stub":
			f := strings.Fields(it.text)
			if len(f) != 2 {
				return fmt.Errorf("%s: stub needs a function and a ghost function", it.where)
			}
			cur.Stubs = append(cur.Stubs, [2]string{f[0], f[1]})
		case "modifies":
			cur.Modifies = append(cur.Modifies, clause(it))
		case "flag":
			fs := strings.Fields(it.text)
			v := ""
			if len(fs) > 1 {
				v = strings.Join(fs[1:], " ")
			}
			cur.Flags[fs[0]] = v
		case "let":
			i := strings.Index(it.text, "=")
			s := strings.TrimSpace(it.text[i+1:])
			nm := strings.TrimSpace(it.text[:i])
			cur.Lets = append(cur.Lets, letDef{strings.TrimPrefix(nm, "!"), strings.HasPrefix(nm, "!"), Clause{Src: s, Expr: parseExpr(s, it.where), Where: it.where}})
		case "inv":
			s := it.text
			ic := InvClause{}
			l, s := label(s)
			if strings.HasPrefix(s, "[") {
				j := matchBr(s)
				ic.Meta = parseMeta(s[1:j])
				s = strings.TrimSpace(s[j+1:])
			}
			ic.Clause = Clause{Label: l, Src: s, Expr: parseExpr(s, it.where), Where: it.where}
			cur.Invs = append(cur.Invs, ic)
		case "def":
			i := strings.Index(it.text, "=")
			h := it.text[:i]
			s := strings.TrimSpace(it.text[i+1:])
			a, b := strings.Index(h, "("), strings.Index(h, ")")
			m := &Macro{Clause: Clause{Src: s, Expr: parseExpr(s, it.where), Where: it.where}}
			for _, p := range strings.Split(h[a+1:b], ",") {
				if p = strings.TrimSpace(p); p != "" {
					m.Params = append(m.Params, p)
				}
			}
			sf.Macros[strings.TrimSpace(h[:a])] = m
		case "fun": // fun name(Sort,Sort) Sort
			a := strings.Index(it.text, "(")
			b := matchPar(it.text[a:]) + a
			fs := &FunSpec{Name: strings.TrimSpace(it.text[:a]), Ret: strings.TrimSpace(it.text[b+1:])}
			for _, p := range splitTop(it.text[a+1 : b]) {
				fs.Args = append(fs.Args, p)
			}
			sf.Funs[fs.Name] = fs
		case "axiom": // axiom @name trig,trig : raw smt
			l, s := label(it.text)
			i := strings.Index(s, ":")
			var tr []string
			tr = strings.FieldsFunc(s[:i], func(r rune) bool { return r == ',' || r == ' ' })
			sf.Axioms = append(sf.Axioms, AxiomSpec{Raw: strings.TrimSpace(s[i+1:]), Trig: tr, Name: l})
		case "guard": // guard Type.mutexpath : f1 f2
			i := strings.Index(it.text, ":")
			tm := strings.SplitN(strings.TrimSpace(it.text[:i]), ".", 2)
			sf.Guards = append(sf.Guards, GuardSpec{Pkg: pkg, Type: tm[0], Mutex: tm[1], Fields: strings.Fields(it.text[i+1:])})
		case "atomic": // atomic Type : fields (only accessed through sync/atomic)
			i := strings.Index(it.text, ":")
			sf.Guards = append(sf.Guards, GuardSpec{Pkg: pkg, Type: strings.TrimSpace(it.text[:i]), Mutex: "@atomic", Fields: strings.Fields(it.text[i+1:])})
		case "smrep": // smrep Type.field : K , V
			i := strings.Index(it.text, ":")
			tm := strings.SplitN(strings.TrimSpace(it.text[:i]), ".", 2)
			kv := strings.SplitN(it.text[i+1:], ",", 2)
			vt, pred, ok := strings.Cut(kv[1], ":")
			sr := SMRep{Pkg: pkg, Type: tm[0], Field: tm[1], Key: strings.TrimSpace(kv[0]), Val: strings.TrimSpace(vt)}
			if ok {
				it2 := it
				it2.text = strings.TrimSpace(pred)
				cl := clause(it2)
				sr.Pred = &cl
			}
			sf.SMReps = append(sf.SMReps, sr)
		case "lemma":
			l, s := label(it.text)
			lem = &LemmaSpec{Name: l}
			if strings.HasPrefix(s, "[") {
				j := matchBr(s)
				lem.Vars = parseMeta(s[1:j])
				s = strings.TrimSpace(s[j+1:])
			}
			lem.Ind = s
			sf.Lemmas = append(sf.Lemmas, lem)
		case "hyp":
			lem.Hyps = append(lem.Hyps, clause(it))
		case "show":
			lem.Goal = clause(it)
		case "inst":
			if cur.TE == nil {
				cur.TE = map[string]string{}
			}
			for _, p := range strings.Split(it.text, ",") {
				kv := strings.SplitN(p, "=", 2)
				cur.TE[strings.TrimSpace(kv[0])] = strings.TrimSpace(kv[1])
			}
		}
	}
	return nil
}

func matchBr(s string) int {
	d := 0
	for i, r := range s {
		if r == '[' {
			d++
		}
		if r == ']' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic("unbalanced [ in " + s)
}
func matchPar(s string) int {
	d := 0
	for i, r := range s {
		if r == '(' {
			d++
		}
		if r == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic("unbalanced ( in " + s)
}
func splitTop(s string) []string {
	var out []string
	d := 0
	cur := ""
	for _, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if r == ',' && d == 0 {
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(r)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

func parseMeta(s string) []metaVar {
	var out []metaVar
	for _, p := range splitTop(s) {
		i := strings.Index(p, ":")
		out = append(out, metaVar{strings.TrimSpace(p[:i]), strings.TrimSpace(p[i+1:])})
	}
	return out
}

// ---- evaluation

type specError struct{ msg string }

func sfail(f string, a ...any) { panic(specError{fmt.Sprintf(f, a...)}) }

type sval struct {
	t   *Term
	ty  types.Type // nil: mathematical value of sort t.Sort
	v   Val        // function values, places
	pkg *types.Package
	typ types.Type // the expression denotes a type
}

type senv struct {
	e     *Exec
	st    *State
	old   *State
	pre   *State
	vars  map[string]sval
	root  *Root
	pkg   *types.Package
	lets  map[string]letDef
	trig  []*Term
	depth int
	fin   *State // final state: let !x is evaluated there, also under old
	qd    int    // enclosing binders
}

func (s *senv) with(vars map[string]sval) *senv {
	n := *s
	n.vars = map[string]sval{}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (s *senv) boolean(x ast.Expr) *Term {
	v := s.eval(x)
	if v.t == nil || v.t.Sort != "Bool" {
		sfail("not a boolean: %s", exprStr(x))
	}
	return v.t
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (s *senv) term(x ast.Expr) *Term {
	v := s.eval(x)
	return s.tm(v)
}
func (s *senv) tm(v sval) *Term {
	if v.t != nil {
		return v.t
	}
	if v.v != nil {
		return s.e.term(v.v, v.ty)
	}
	sfail("not a value")
	return nil
}

func (s *senv) resolveType(x ast.Expr) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if s.root != nil {
			if t, ok := s.root.tparams[x.Name]; ok {
				return t
			}
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if o := s.pkg.Scope().Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		if t := s.resolveType(x.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		if x.Len == nil {
			if t := s.resolveType(x.Elt); t != nil {
				return types.NewSlice(t)
			}
		}
	case *ast.MapType:
		k, v := s.resolveType(x.Key), s.resolveType(x.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.IndexExpr, *ast.IndexListExpr:
		var base ast.Expr
		var idx []ast.Expr
		if a, ok := x.(*ast.IndexExpr); ok {
			base, idx = a.X, []ast.Expr{a.Index}
		} else {
			b := x.(*ast.IndexListExpr)
			base, idx = b.X, b.Indices
		}
		b := s.resolveType(base)
		if b == nil {
			return nil
		}
		var args []types.Type
		for _, i := range idx {
			t := s.resolveType(i)
			if t == nil {
				return nil
			}
			args = append(args, t)
		}
		n, ok := b.(*types.Named)
		if !ok || n.TypeParams().Len() != len(args) {
			return nil
		}
		r, err := types.Instantiate(tctx, n.Origin(), args, false)
		if err != nil {
			return nil
		}
		return r
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := s.findPkg(id.Name); p != nil {
				if o := p.Scope().Lookup(x.Sel.Name); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "keyof":
				return s.eval(x.Args[0]).ty.Underlying().(*types.Map).Key()
			case "elemof":
				switch u := s.eval(x.Args[0]).ty.Underlying().(type) {
				case *types.Map:
					return u.Elem()
				case *types.Slice:
					return u.Elem()
				case *types.Pointer:
					return u.Elem()
				}
			case "typeof":
				return s.eval(x.Args[0]).ty
			}
		}
	case *ast.ParenExpr:
		return s.resolveType(x.X)
	}
	return nil
}

func (s *senv) findPkg(name string) *types.Package {
	for _, p := range s.pkg.Imports() {
		if p.Name() == name {
			return p
		}
	}
	for path, sp := range s.e.p.pkgs {
		if sp.Pkg.Name() == name && strings.HasPrefix(path, modPath) {
			return sp.Pkg
		}
	}
	for path, sp := range s.e.p.pkgs {
		if path == name {
			return sp.Pkg
		}
	}
	for _, sp := range s.e.p.pkgs {
		if sp.Pkg.Name() == name {
			return sp.Pkg
		}
	}
	return nil
}

func (s *senv) object(o types.Object) (sval, bool) {
	switch o := o.(type) {
	case *types.Const:
		return s.constant(o.Val(), o.Type()), true
	case *types.Var:
		sp := s.e.p.pkgs[o.Pkg().Path()]
		if g, ok := sp.Members[o.Name()].(*ssa.Global); ok {
			addr := s.e.globalAddr(g)
			t := deref(g.Type())
			if isStruct(t) {
				return sval{t: addr.(*Term), ty: types.NewPointer(t)}, true
			}
			return sval{t: s.e.term(s.e.loadPtr(s.st, addr, t), t), ty: t}, true
		}
	case *types.Func:
		fn := s.e.p.prog.FuncValue(o)
		if fn != nil {
			return sval{v: &Closure{fn: fn, te: tenv{}, key: s.e.closKey(fn, nil)}, ty: o.Type()}, true
		}
	case *types.TypeName:
		return sval{typ: o.Type()}, true
	}
	return sval{}, false
}

func (s *senv) constant(v constant.Value, t types.Type) sval {
	switch v.Kind() {
	case constant.Bool:
		return sval{t: s.e.c.Bool(constant.BoolVal(v)), ty: t}
	case constant.String:
		return sval{t: s.e.c.Str(constant.StringVal(v)), ty: t}
	case constant.Int:
		if t != nil && isFloat(t) {
			f, _ := constant.Float64Val(v)
			return sval{t: s.e.floatBits(f), ty: t}
		}
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return sval{t: s.e.c.IntBig(b), ty: t}
	case constant.Float:
		f, _ := constant.Float64Val(v)
		return sval{t: s.e.floatBits(f), ty: t}
	}
	sfail("constant")
	return sval{}
}

func (s *senv) eval(x ast.Expr) sval {
	e := s.e
	c := e.c
	switch x := x.(type) {
	case *ast.ParenExpr:
		return s.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(x.Value, 0)
			return sval{t: c.IntBig(b)}
		case token.STRING:
			v, err := strconv.Unquote(x.Value)
			if err != nil {
				sfail("string literal")
			}
			return sval{t: c.Str(v)}
		case token.CHAR:
			v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			if err != nil {
				sfail("char literal")
			}
			return sval{t: c.Int(int64(v))}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(x.Value, 64)
			return sval{t: e.floatBits(f)}
		}
	case *ast.Ident:
		if v, ok := s.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return sval{t: c.T}
		case "false":
			return sval{t: c.F}
		case "nil":
			return sval{t: nil, ty: types.Typ[types.UntypedNil]}
		}
		if l, ok := s.lets[x.Name]; ok {
			if s.depth > 50 {
				sfail("let recursion %s", x.Name)
			}
			n := *s
			n.depth++
			if l.fin && n.fin != nil {
				n.st = n.fin
			}
			return n.eval(l.Expr)
		}
		if o := s.pkg.Scope().Lookup(x.Name); o != nil {
			if v, ok := s.object(o); ok {
				return v
			}
		}
		if t := s.resolveType(x); t != nil {
			return sval{typ: t}
		}
		if p := s.findPkg(x.Name); p != nil {
			return sval{pkg: p}
		}
		sfail("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return sval{t: c.Not(s.boolean(x.X))}
		case token.SUB:
			return sval{t: c.Sub(c.Int(0), s.term(x.X))}
		case token.AND:
			return s.addr(x.X)
		}
	case *ast.StarExpr:
		v := s.eval(x.X)
		el := deref(v.ty)
		var pv Val = v.t
		if v.t == nil {
			pv = v.v
		}
		r := e.loadPtr(s.st, pv, el)
		return s.wrapv(r, el)
	case *ast.SelectorExpr:
		return s.selector(x)
	case *ast.IndexExpr:
		return s.index(x)
	case *ast.SliceExpr:
		v := s.eval(x.X)
		t := s.tm(v)
		lo := c.Int(0)
		if x.Low != nil {
			lo = s.term(x.Low)
		}
		if t.Sort == "String" {
			hi := c.B("str.len", "Int", t)
			if x.High != nil {
				hi = s.term(x.High)
			}
			return sval{t: e.substr(t, lo, c.Sub(hi, lo)), ty: v.ty}
		}
		hi := e.slLen(t)
		if x.High != nil {
			hi = s.term(x.High)
		}
		return sval{t: e.mkSlice(e.slRef(t), c.Add(e.slOff(t), lo), c.Sub(hi, lo), c.Sub(e.slCap(t), lo)), ty: v.ty}
	case *ast.BinaryExpr:
		return s.binary(x)
	case *ast.CallExpr:
		return s.call(x)
	case *ast.CompositeLit:
		t := s.resolveType(x.Type)
		if t == nil || !isStruct(t) {
			sfail("composite literal %s", exprStr(x))
		}
		d := e.structDT(t)
		st := e.structType(t)
		args := make([]*Term, len(d.Fields))
		for i := range args {
			args[i] = e.zero(st.Field(i).Type())
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						args[j] = s.coerce(s.eval(kv.Value), st.Field(j).Type())
					}
				}
				continue
			}
			args[i] = s.coerce(s.eval(el), st.Field(i).Type())
		}
		return sval{t: c.Mk(d.Name, args...), ty: t}
	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType:
		if t := s.resolveType(x); t != nil {
			return sval{typ: t}
		}
	}
	sfail("cannot evaluate %s", exprStr(x))
	return sval{}
}

// convert a spec value to a term of Go type t
func (s *senv) coerce(v sval, t types.Type) *Term {
	if v.t == nil && v.v == nil && v.ty == types.Typ[types.UntypedNil] {
		return s.e.zero(t)
	}
	x := s.tm(v)
	if isIface(t) && x.Sort != "Any" {
		if v.ty == nil {
			switch x.Sort {
			case "String":
				return s.e.box(types.Typ[types.String], x)
			case "Int":
				return s.e.box(types.Typ[types.Int], x)
			case "Bool":
				return s.e.box(types.Typ[types.Bool], x)
			}
			sfail("cannot box")
		}
		return s.e.box(v.ty, x)
	}
	return x
}

func (s *senv) wrapv(v Val, t types.Type) sval {
	if tm, ok := v.(*Term); ok {
		return sval{t: tm, ty: t}
	}
	return sval{v: v, ty: t}
}

func (s *senv) addr(x ast.Expr) sval {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return s.addr(x.X)
	case *ast.SelectorExpr:
		base := s.eval(x.X)
		path, ft := s.fieldPath(base.ty, x.Sel.Name)
		var cur Val
		T := base.ty
		if p, ok := T.Underlying().(*types.Pointer); ok {
			cur = base.t
			T = p.Elem()
		} else {
			a := s.addr(x.X)
			cur = a.v
			if a.t != nil {
				cur = a.t
			}
		}
		for n, i := range path {
			if n > 0 {
				if p, ok := T.Underlying().(*types.Pointer); ok {
					cur = s.e.loadPtr(s.st, cur, T)
					T = p.Elem()
				}
			}
			cur = s.e.fieldAddr(s.st, cur, T, i)
			T = s.e.structType(T).Field(i).Type()
		}
		_ = ft
		return s.wrapv(cur, types.NewPointer(T))
	case *ast.IndexExpr:
		base := s.eval(x.X)
		if sl, ok := base.ty.Underlying().(*types.Slice); ok {
			return sval{v: &Place{kind: pkElem, key: s.e.bkey(sl.Elem()), ref: s.e.slRef(base.t), idx: s.e.c.Add(s.e.slOff(base.t), s.term(x.Index)), base: sl.Elem()}, ty: types.NewPointer(sl.Elem())}
		}
	case *ast.Ident:
		if o, ok := s.pkg.Scope().Lookup(x.Name).(*types.Var); ok {
			sp := s.e.p.pkgs[o.Pkg().Path()]
			if g, ok := sp.Members[o.Name()].(*ssa.Global); ok {
				return s.wrapv(s.e.globalAddr(g), g.Type())
			}
		}
	}
	sfail("cannot take the address of %s", exprStr(x))
	return sval{}
}

func (s *senv) fieldPath(t types.Type, name string) ([]int, types.Type) {
	if t == nil {
		sfail("field %s of a mathematical value", name)
	}
	st := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st = p.Elem()
	}
	var pkg *types.Package
	if n, ok := types.Unalias(st).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else {
		pkg = s.pkg
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	v, ok := o.(*types.Var)
	if !ok {
		sfail("no field %s in %s", name, t)
	}
	return idx, v.Type()
}

func (s *senv) selector(x *ast.SelectorExpr) sval {
	base := s.eval(x.X)
	if base.pkg != nil {
		o := base.pkg.Scope().Lookup(x.Sel.Name)
		if o == nil {
			sfail("no %s in package %s", x.Sel.Name, base.pkg.Path())
		}
		v, ok := s.object(o)
		if !ok {
			sfail("%s.%s", base.pkg.Path(), x.Sel.Name)
		}
		return v
	}
	path, _ := s.fieldPath(base.ty, x.Sel.Name)
	cur := base
	for _, i := range path {
		T := cur.ty
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T = p.Elem()
			var pv Val = cur.t
			if cur.t == nil {
				pv = cur.v
			}
			pl := s.e.fieldAddr(s.st, pv, T, i)
			ft := s.e.structType(T).Field(i).Type()
			r := s.e.loadPtr(s.st, pl, ft)
			cur = s.wrapv(r, ft)
			continue
		}
		d := s.e.structDT(T)
		ft := s.e.structType(T).Field(i).Type()
		cur = sval{t: s.e.c.Sel(d.Name, d.Fields[i].Name, s.tm(cur)), ty: ft}
	}
	return cur
}

func (s *senv) index(x *ast.IndexExpr) sval {
	e := s.e
	c := e.c
	base := s.eval(x.X)
	if base.typ != nil || base.v != nil && base.t == nil {
		if t := s.resolveType(x); t != nil {
			return sval{typ: t}
		}
	}
	bt := s.tm(base)
	if base.ty == nil || strings.HasPrefix(bt.Sort, "(Array") && (func() bool { _, ok := base.ty.Underlying().(*types.Map); return !ok })() {
		if strings.HasPrefix(bt.Sort, "(Array") {
			i := s.eval(x.Index)
			k, _ := splitArr(bt.Sort)
			it := s.tm(i)
			if k == "Any" && it.Sort != "Any" {
				it = s.coerce(i, types.NewInterfaceType(nil, nil))
			}
			var et types.Type
			if base.ty != nil {
				if a, ok := base.ty.Underlying().(*types.Array); ok {
					et = a.Elem()
				}
			}
			return sval{t: c.Select(bt, it), ty: et}
		}
	}
	if bt.Sort == "String" {
		return sval{t: c.B("str.to_code", "Int", c.B("str.at", "String", bt, s.term(x.Index)))}
	}
	switch u := base.ty.Underlying().(type) {
	case *types.Slice:
		i := s.term(x.Index)
		return sval{t: c.Select(c.Select(s.st.get(e, e.bkey(u.Elem())), e.slRef(bt)), c.Add(e.slOff(bt), i)), ty: u.Elem()}
	case *types.Map:
		k := s.coerce(s.eval(x.Index), u.Key())
		mv, dt := e.mapVal(s.st, base.ty, bt)
		has := c.Select(c.Sel(dt, dt+".dom", mv), k)
		return sval{t: c.Ite(has, c.Select(c.Sel(dt, dt+".val", mv), k), e.zero(u.Elem())), ty: u.Elem()}
	}
	sfail("index %s", exprStr(x))
	return sval{}
}

func (s *senv) binary(x *ast.BinaryExpr) sval {
	e := s.e
	c := e.c
	switch x.Op {
	case token.LAND:
		a := s.boolean(x.X)
		if a == c.F {
			return sval{t: c.F}
		}
		return sval{t: c.And(a, s.boolean(x.Y))}
	case token.LOR:
		a := s.boolean(x.X)
		if a == c.T {
			return sval{t: c.T}
		}
		return sval{t: c.Or(a, s.boolean(x.Y))}
	}
	a, b := s.eval(x.X), s.eval(x.Y)
	isNil := func(v sval) bool { return v.t == nil && v.v == nil && v.ty == types.Typ[types.UntypedNil] }
	var at, bt *Term
	if x.Op == token.EQL || x.Op == token.NEQ {
		var r *Term
		switch {
		case isNil(a) && isNil(b):
			r = c.T
		case isNil(b) || isNil(a):
			v := a
			if isNil(a) {
				v = b
			}
			if v.v != nil && v.t == nil {
				r = c.F
			} else if v.t.Sort == "Slice" {
				r = c.Eq(e.slRef(v.t), c.Int(0))
			} else if v.t.Sort == "Any" {
				r = c.Eq(v.t, e.anynil)
			} else {
				r = c.Eq(v.t, c.Int(0))
			}
		default:
			at, bt = s.tm(a), s.tm(b)
			if at.Sort != bt.Sort {
				if at.Sort == "Any" {
					bt = s.coerce(b, types.NewInterfaceType(nil, nil))
				} else if bt.Sort == "Any" {
					at = s.coerce(a, types.NewInterfaceType(nil, nil))
				} else {
					sfail("comparison of %s with %s in %s", at.Sort, bt.Sort, exprStr(x))
				}
			}
			r = c.Eq(at, bt)
		}
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return sval{t: r}
	}
	at, bt = s.tm(a), s.tm(b)
	if at.Sort == "Float64" {
		f := map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}
		if o, ok := f[x.Op]; ok {
			return sval{t: c.B(o, "Bool", at, bt)}
		}
		if x.Op == token.ADD {
			return sval{t: c.B("fp.add", "Float64", c.mk("lit", "RNE", "RoundingMode"), at, bt), ty: a.ty}
		}
	}
	if at.Sort == "String" {
		switch x.Op {
		case token.ADD:
			return sval{t: c.Concat(at, bt), ty: a.ty}
		case token.LSS:
			return sval{t: c.B("str.<", "Bool", at, bt)}
		case token.LEQ:
			return sval{t: c.B("str.<=", "Bool", at, bt)}
		}
	}
	if at.Sort != "Int" || bt.Sort != "Int" {
		sfail("operator %s on %s in %s", x.Op, at.Sort, exprStr(x))
	}
	switch x.Op {
	case token.ADD:
		return sval{t: c.Add(at, bt)}
	case token.SUB:
		return sval{t: c.Sub(at, bt)}
	case token.MUL:
		return sval{t: c.Mul(at, bt)}
	case token.QUO:
		return sval{t: c.Div(at, bt)}
	case token.REM:
		return sval{t: c.Mod(at, bt)}
	case token.LSS:
		return sval{t: c.Lt(at, bt)}
	case token.LEQ:
		return sval{t: c.Le(at, bt)}
	case token.GTR:
		return sval{t: c.Gt(at, bt)}
	case token.GEQ:
		return sval{t: c.Ge(at, bt)}
	}
	sfail("operator %s", x.Op)
	return sval{}
}

// binders are numbered by nesting depth so that macro arguments are never captured
func (s *senv) quantVar(id string, sort string) *Term {
	return s.e.c.BoundVar(fmt.Sprintf("q_%s_%d", id, s.qd), sort)
}

// a quantified formula over an integer, with the variable shifted so that the
// array reads in it become usable triggers: equivalent to the formula as written
func (s *senv) quantInt(op string, q *Term, body *Term) *Term {
	e := s.e
	c := e.c
	pats := e.patterns(body, q)
	var offs []*Term // q = sign*(j - off)
	var signs []int
	seen := map[string]bool{}
	plain := false
	for _, p := range pats {
		var ix *Term
		if p.Op == "select" {
			ix = p.Args[1]
		}
		if ix == nil || ix == q || ix.Op != "+" && ix.Op != "*" {
			plain = true
			continue
		}
		l := c.linear(ix)
		co := l.atoms[q]
		if co == nil || !co.IsInt64() || co.Int64() != 1 && co.Int64() != -1 {
			plain = true
			continue
		}
		sg := int(co.Int64())
		rest := c.Sub(ix, c.Mul(c.Int(int64(sg)), q))
		k := fmt.Sprintf("%d/%d", sg, rest.ID)
		if seen[k] {
			continue
		}
		seen[k] = true
		offs = append(offs, rest)
		signs = append(signs, sg)
	}
	var out []*Term
	if plain || len(offs) == 0 {
		out = append(out, c.Quant(op, []BV{{q.Name, "Int"}}, body, pats...))
	}
	for i := range offs {
		if len(out) >= 3 {
			break
		}
		// j = off + sg*q   =>   q = sg*(j-off)
		b2 := c.Subst(body, map[*Term]*Term{q: c.Mul(c.Int(int64(signs[i])), c.Sub(q, offs[i]))})
		var ps []*Term
		for _, p := range e.patterns(b2, q) {
			if p.Op == "select" && p.Args[1] == q {
				ps = append(ps, p)
			}
		}
		out = append(out, c.Quant(op, []BV{{q.Name, "Int"}}, b2, ps...))
	}
	if op == "forall" {
		return c.And(out...)
	}
	return c.Or(out...)
}

func (s *senv) call(x *ast.CallExpr) sval {
	e := s.e
	c := e.c
	name := ""
	if id, ok := x.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	arg := func(i int) sval { return s.eval(x.Args[i]) }
	need := func(n int) {
		if len(x.Args) != n {
			sfail("%s takes %d arguments", name, n)
		}
	}
	inState := func(st *State) *senv { n := *s; n.st = st; return &n }
	switch name {
	case "old":
		need(1)
		if s.old == nil {
			sfail("old without an entry state")
		}
		return inState(s.old).eval(x.Args[0])
	case "acq": // when the lock was last taken
		need(1)
		if s.st.acq == nil {
			sfail("acq: no lock taken, or what it guards changed before a loop")
		}
		return inState(s.st.acq).eval(x.Args[0])
	case "pre":
		need(1)
		if s.pre == nil {
			sfail("pre outside of a loop")
		}
		return inState(s.pre).eval(x.Args[0])
	case "len":
		need(1)
		v := arg(0)
		t := s.tm(v)
		switch {
		case t.Sort == "Slice":
			return sval{t: e.slLen(t)}
		case t.Sort == "String":
			return sval{t: c.B("str.len", "Int", t)}
		case v.ty != nil:
			if _, ok := v.ty.Underlying().(*types.Map); ok {
				mv, dt := e.mapVal(s.st, v.ty, t)
				return sval{t: c.Sel(dt, dt+".n", mv)}
			}
		}
		sfail("len of %s", t.Sort)
	case "cap":
		return sval{t: e.slCap(s.tm(arg(0)))}
	case "has":
		need(2)
		m := arg(0)
		t := s.tm(m)
		if strings.HasPrefix(t.Sort, "(Array Any OptAny") {
			k := s.coerce(arg(1), types.NewInterfaceType(nil, nil))
			return sval{t: c.Sel("OptAny", "opt.some", c.Select(t, k))}
		}
		mt := m.ty.Underlying().(*types.Map)
		k := s.coerce(arg(1), mt.Key())
		mv, dt := e.mapVal(s.st, m.ty, t)
		return sval{t: c.Select(c.Sel(dt, dt+".dom", mv), k)}
	case "smval": // value of a sync.Map entry
		t := s.tm(arg(0))
		k := s.coerce(arg(1), types.NewInterfaceType(nil, nil))
		return sval{t: c.Sel("OptAny", "opt.val", c.Select(t, k)), ty: types.NewInterfaceType(nil, nil)}
	case "smput", "smdel":
		t := s.tm(arg(0))
		k := s.coerce(arg(1), types.NewInterfaceType(nil, nil))
		if name == "smdel" {
			return sval{t: c.Store(t, k, c.Mk("OptAny", c.F, e.anynil))}
		}
		return sval{t: c.Store(t, k, c.Mk("OptAny", c.T, s.coerce(arg(2), types.NewInterfaceType(nil, nil))))}
	case "dom": // characteristic array of a map
		m := arg(0)
		mv, dt := e.mapVal(s.st, m.ty, s.tm(m))
		return sval{t: c.Sel(dt, dt+".dom", mv)}
	case "content": // whole map value
		m := arg(0)
		mv, _ := e.mapVal(s.st, m.ty, s.tm(m))
		return sval{t: mv}
	case "imp":
		need(2)
		a := s.boolean(x.Args[0])
		if a == c.F {
			return sval{t: c.T}
		}
		return sval{t: c.Imp(a, s.boolean(x.Args[1]))}
	case "iff":
		return sval{t: c.Eq(s.boolean(x.Args[0]), s.boolean(x.Args[1]))}
	case "ite":
		need(3)
		p := s.boolean(x.Args[0])
		a, b := arg(1), arg(2)
		at := a.t
		if at == nil && a.v == nil {
			at = s.coerce(a, b.ty)
		} else {
			at = s.tm(a)
		}
		bt := s.coerce(b, a.ty2(b))
		ty := a.ty
		if ty == nil {
			ty = b.ty
		}
		return sval{t: c.Ite(p, at, bt), ty: ty}
	case "forall", "exists":
		// forall(i, lo, hi, body) or forall(i, body)
		id := x.Args[0].(*ast.Ident).Name
		q := s.quantVar(id, "Int")
		n := s.with(map[string]sval{id: {t: q}})
		n.depth++
		n.qd++
		var body *Term
		if len(x.Args) == 4 {
			rg := c.And(c.Le(s.term(x.Args[1]), q), c.Lt(q, s.term(x.Args[2])))
			b := n.boolean(x.Args[3])
			if name == "forall" {
				body = c.Imp(rg, b)
			} else {
				body = c.And(rg, b)
			}
		} else {
			need(2)
			body = n.boolean(x.Args[1])
		}
		return sval{t: s.quantInt(name, q, body)}
	case "forallT", "existsT":
		need(3)
		id := x.Args[0].(*ast.Ident).Name
		t := s.resolveType(x.Args[1])
		if t == nil {
			sfail("unknown type %s", exprStr(x.Args[1]))
		}
		srt := e.sortOf(t)
		q := s.quantVar(id, srt)
		n := s.with(map[string]sval{id: {t: q, ty: t}})
		n.qd++
		body := n.boolean(x.Args[2])
		op := strings.TrimSuffix(name, "T")
		if op == "forall" {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !isTP(t) {
				body = c.Imp(e.inRange(q, b), body)
			}
		}
		return sval{t: c.Quant(op, []BV{{q.Name, srt}}, body, e.patterns(body, q)...)}
	case "forallS": // forallS(x, "Sort", body)
		id := x.Args[0].(*ast.Ident).Name
		srt, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		q := s.quantVar(id, srt)
		n := s.with(map[string]sval{id: {t: q}})
		n.qd++
		body := n.boolean(x.Args[2])
		return sval{t: c.Quant("forall", []BV{{q.Name, srt}}, body, e.patterns(body, q)...)}
	case "fresh":
		v := arg(0)
		t := s.tm(v)
		if t.Sort == "Slice" {
			t = e.slRef(t)
		}
		a := s.old
		if a == nil {
			a = s.st
		}
		return sval{t: c.Ge(t, a.get(e, "A"))}
	case "freshornil":
		v := arg(0)
		t := s.tm(v)
		if t.Sort == "Slice" {
			t = e.slRef(t)
		}
		return sval{t: c.Or(c.Ge(t, s.old.get(e, "A")), c.Eq(t, c.Int(0)))}
	case "allocated": // existed at entry
		t := s.tm(arg(0))
		if t.Sort == "Slice" {
			t = e.slRef(t)
		}
		return sval{t: c.Lt(t, s.old.get(e, "A"))}
	case "made": // exists now
		t := s.tm(arg(0))
		if t.Sort == "Slice" {
			t = e.slRef(t)
		}
		return sval{t: c.Lt(t, s.st.get(e, "A"))}
	case "ref":
		return sval{t: e.slRef(s.tm(arg(0)))}
	case "off":
		return sval{t: e.slOff(s.tm(arg(0)))}
	case "box":
		return sval{t: s.coerce(arg(0), types.NewInterfaceType(nil, nil)), ty: types.NewInterfaceType(nil, nil)}
	case "typeis":
		need(2)
		t := s.resolveType(x.Args[1])
		if t == nil {
			sfail("unknown type %s", exprStr(x.Args[1]))
		}
		return sval{t: e.hasType(t, s.tm(arg(0)))}
	case "unbox":
		need(2)
		t := s.resolveType(x.Args[1])
		if t == nil {
			sfail("unknown type %s", exprStr(x.Args[1]))
		}
		return sval{t: e.unbox(t, s.tm(arg(0))), ty: t}
	case "zero":
		t := s.resolveType(x.Args[0])
		if t == nil {
			sfail("unknown type %s", exprStr(x.Args[0]))
		}
		return sval{t: e.zero(t), ty: t}
	case "calls", "arg", "ret", "at":
		return s.trace(name, x)
	case "clk":
		if _, ok := e.heapSort["T:clk"]; !ok {
			e.heapSort["T:clk"] = "Int"
		}
		return sval{t: s.st.get(e, "T:clk")}
	case "writes": // number of writes to w
		e.traceKeys("W", "Any")
		return sval{t: c.Select(s.st.get(e, "T:cnt:W"), s.tm(arg(0)))}
	case "written": // written(w, j)
		e.traceKeys("W", "Any")
		k := e.traceArg("W", "Any", 0, "String")
		return sval{t: c.Select(c.Select(s.st.get(e, k), s.tm(arg(0))), s.tm(arg(1)))}
	case "writeat": // position of write j in the order of all events
		_, at := e.traceKeys("W", "Any")
		return sval{t: c.Select(c.Select(s.st.get(e, at), s.tm(arg(0))), s.tm(arg(1)))}
	case "writeerr": // error returned by write j
		e.traceKeys("W", "Any")
		return sval{t: e.traceRet("W", s.tm(arg(0)), s.tm(arg(1)), 1, types.Universe.Lookup("error").Type()), ty: types.Universe.Lookup("error").Type()}
	case "smops": // number of atomic operations on the sync.Map field
		a := s.addr(x.Args[0])
		e.traceKeys("sm", "Int")
		return sval{t: c.Select(s.st.get(e, "T:cnt:sm"), e.smKey(a.v))}
	case "smpre", "smpost":
		a := s.addr(x.Args[0])
		e.traceKeys("sm", "Int")
		n := 2
		if name == "smpost" {
			n = 3
		}
		k := e.traceArg("sm", "Int", n, "(Array Any OptAny)")
		return sval{t: c.Select(c.Select(s.st.get(e, k), e.smKey(a.v)), s.tm(arg(1)))}
	case "smvisits": // keys handed out by Range, in order
		a := s.addr(x.Args[0])
		e.traceKeys("smv", "Int")
		return sval{t: c.Select(s.st.get(e, "T:cnt:smv"), e.smKey(a.v))}
	case "smvisit":
		a := s.addr(x.Args[0])
		e.traceKeys("smv", "Int")
		k := e.traceArg("smv", "Int", 0, "Any")
		return sval{t: c.Select(c.Select(s.st.get(e, k), e.smKey(a.v)), s.tm(arg(1))), ty: types.NewInterfaceType(nil, nil)}
	case "aops", "apre", "apost": // atomic accesses of a field
		a := s.addr(x.Args[0])
		pl, ok := e.resolve(a.v).(*Place)
		if !ok || pl.kind != pkField || len(pl.path) != 0 {
			sfail("%s of something that is not a field", name)
		}
		ch := "atomic:" + pl.key
		e.traceKeys(ch, "Int")
		if name == "aops" {
			return sval{t: c.Select(s.st.get(e, "T:cnt:"+ch), pl.ref)}
		}
		n := 0
		if name == "apost" {
			n = 1
		}
		k := e.traceArg(ch, "Int", n, "Int")
		return sval{t: c.Select(c.Select(s.st.get(e, k), pl.ref), s.tm(arg(1))), ty: types.Typ[types.Int64]}
	case "held":
		a := s.addr(x.Args[0])
		var v Val = a.v
		if a.t != nil {
			v = a.t
		}
		_, ok := s.st.held[e.lockKey(v)]
		return sval{t: c.Bool(ok)}
	case "closed":
		if _, ok := e.heapSort["C:closed"]; !ok {
			e.heapSort["C:closed"] = "(Array Int Bool)"
		}
		return sval{t: c.Select(s.st.get(e, "C:closed"), s.tm(arg(0)))}
	case "gostring":
		e.c.DeclFun("gostring", []string{"Any"}, "String")
		return sval{t: c.App("gostring", s.tm(arg(0))), ty: types.Typ[types.String]}
	case "stringer":
		e.c.DeclFun("stringer", []string{"Any"}, "String")
		return sval{t: c.App("stringer", s.tm(arg(0))), ty: types.Typ[types.String]}
	case "errmsg":
		c.DeclFun("err_msg", []string{"Any"}, "String")
		return sval{t: c.App("err_msg", s.tm(arg(0)))}
	case "fired": // a sync.Once that has run
		return sval{t: c.Neq(s.tm(arg(0)), c.Int(0)), ty: types.Typ[types.Bool]}
	case "erris":
		c.DeclFun("errors_is", []string{"Any", "Any"}, "Bool")
		iface := types.NewInterfaceType(nil, nil)
		return sval{t: c.App("errors_is", s.coerce(arg(0), iface), s.coerce(arg(1), iface)), ty: types.Typ[types.Bool]}
	case "erras", "errasval": // errors.As with a target of the type
		t := s.resolveType(x.Args[1])
		if t == nil {
			sfail("unknown type %s", exprStr(x.Args[1]))
		}
		ok, v := e.errorsAs(s.st, s.coerce(arg(0), types.NewInterfaceType(nil, nil)), t)
		if x.Fun.(*ast.Ident).Name == "erras" {
			return sval{t: ok, ty: types.Typ[types.Bool]}
		}
		return sval{t: v, ty: t}
	case "ctxvalue":
		c.DeclFun("ctx_value", []string{"Any", "Any"}, "Any")
		iface := types.NewInterfaceType(nil, nil)
		return sval{t: c.App("ctx_value", s.coerce(arg(0), iface), s.coerce(arg(1), iface)), ty: iface}
	case "errwraps":
		c.DeclFun("err_wraps", []string{"Any"}, "Any")
		return sval{t: c.App("err_wraps", s.tm(arg(0))), ty: types.Universe.Lookup("error").Type()}
	case "splitn", "split": // the pieces of strings.Split
		need(map[string]int{"splitn": 2, "split": 3}[name])
		c.DeclFun("split_n", []string{"String", "String"}, "Int")
		c.DeclFun("split_at", []string{"String", "String", "Int"}, "String")
		if name == "splitn" {
			return sval{t: c.App("split_n", s.tm(arg(0)), s.tm(arg(1))), ty: types.Typ[types.Int]}
		}
		return sval{t: c.App("split_at", s.tm(arg(0)), s.tm(arg(1)), s.tm(arg(2))), ty: types.Typ[types.String]}
	case "cutbefore", "cutafter":
		need(2)
		b, a, _ := e.strCut(s.tm(arg(0)), s.tm(arg(1)))
		if name == "cutafter" {
			b = a
		}
		return sval{t: b, ty: types.Typ[types.String]}
	case "lib": // lib("pkg:function", k, arguments): result k of a deterministic library function
		bl, ok := x.Args[0].(*ast.BasicLit)
		kv := s.term(x.Args[1])
		if !ok || kv.Op != "int" {
			sfail("lib(\"package:function\", number of the result, arguments)")
		}
		n, _ := strconv.Unquote(bl.Value)
		i := strings.Index(n, ":")
		if i < 0 {
			sfail("no package in %s", n)
		}
		fn, err := e.p.find(n[:i], n[i+1:])
		if err != nil {
			sfail("%v", err)
		}
		if !purePkgs[n[:i]] && !pureFns[funcKey(fn)] {
			sfail("%s is not known to be deterministic", n)
		}
		k := int(kv.Int.Int64())
		var ts []*Term
		var sorts []string
		for i := range x.Args[2:] {
			t := s.coerce(arg(i+2), recvParams(fn)[i])
			ts, sorts = append(ts, t), append(sorts, t.Sort)
		}
		rt := fn.Signature.Results().At(k).Type()
		f := fmt.Sprintf("ext%d_%s", k, sanitize(funcKey(fn)))
		c.DeclFun(f, sorts, e.sortOf(rt))
		return sval{t: c.App(f, ts...), ty: rt}
	case "rtype": // rtype("Method", t, arguments): a method of a reflect.Type
		n, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		rt := e.p.pkgs["reflect"].Type("Type").Type()
		m, _, _ := types.LookupFieldOrMethod(rt, true, nil, n)
		if m == nil {
			sfail("no method %s on reflect.Type", n)
		}
		sig := m.Type().(*types.Signature)
		ts, sorts := []*Term{s.coerce(arg(1), rt)}, []string{"Any"}
		for i := range x.Args[2:] {
			t := s.coerce(arg(i+2), sig.Params().At(i).Type())
			ts, sorts = append(ts, t), append(sorts, t.Sort)
		}
		r := sig.Results().At(0).Type()
		c.DeclFun("rtype_"+n, sorts, e.sortOf(r))
		return sval{t: c.App("rtype_"+n, ts...), ty: r}
	case "itoa":
		return sval{t: e.itoa(s.tm(arg(0)))}
	case "quote":
		return sval{t: e.quoteStr(s.st, s.tm(arg(0)))}
	case "fmtv":
		verb, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		return sval{t: e.fmtVal(s.st, verb[len(verb)-1], verb[:len(verb)-1], s.coerce(arg(1), types.NewInterfaceType(nil, nil)))}
	case "bytes2str":
		return sval{t: e.strOf(s.st, s.tm(arg(0)), types.Typ[types.Uint8])}
	case "contains":
		return sval{t: c.B("str.contains", "Bool", s.tm(arg(0)), s.tm(arg(1)))}
	case "prefixof":
		return sval{t: c.B("str.prefixof", "Bool", s.tm(arg(0)), s.tm(arg(1)))}
	case "indexof":
		return sval{t: c.B("str.indexof", "Int", s.tm(arg(0)), s.tm(arg(1)), c.Int(0))}
	case "i2f":
		return sval{t: e.i2f(s.tm(arg(0))), ty: types.Typ[types.Float64]}
	case "ftrunc": // the integer part of a float, as a mathematical integer
		return sval{t: e.ftrunc(s.tm(arg(0)))}
	case "fwithin": // fwithin(x, lo, hi): the integer part of x lies between the bounds
		lo, hi := s.tm(arg(1)), s.tm(arg(2))
		if lo.Op != "int" || hi.Op != "int" {
			sfail("fwithin needs literal bounds")
		}
		return sval{t: e.fpWithin(s.tm(arg(0)), lo.Int, hi.Int)}
	case "f32over": // too large for a float32
		return sval{t: e.f32over(s.tm(arg(0)))}
	case "isnan":
		return sval{t: c.B("fp.isNaN", "Bool", s.tm(arg(0)))}
	case "feq":
		return sval{t: c.B("fp.eq", "Bool", s.tm(arg(0)), s.tm(arg(1)))}
	case "now": // the last clock reading
		return sval{t: s.st.get(e, e.nowKey()), ty: types.Typ[types.Int64]}
	case "visited":
		if v, ok := s.vars["__visited"]; ok {
			k := arg(0)
			ks, _ := splitArr(v.t.Sort)
			kt := s.tm(k)
			if ks == "Any" && kt.Sort != "Any" {
				kt = s.coerce(k, types.NewInterfaceType(nil, nil))
			}
			return sval{t: c.Select(v.t, kt)}
		}
		sfail("no iterator")
	case "onlymodifies":
		return sval{t: s.onlyModifies(x.Args)}
	case "store": // functional update of a mathematical array
		return sval{t: c.Store(s.tm(arg(0)), s.tm(arg(1)), s.tm(arg(2)))}
	case "arr": // the backing array of a slice as a mathematical array
		v := arg(0)
		sl := v.ty.Underlying().(*types.Slice)
		return sval{t: c.Select(s.st.get(e, e.bkey(sl.Elem())), e.slRef(s.tm(v)))}
	case "closure": // the function a func value is bound to, by name
		v := arg(0)
		var cl *Closure
		if q, ok := e.resolve(v.v).(*Closure); ok {
			cl = q
		} else if v.t != nil {
			if q, ok := e.resolve(v.t).(*Closure); ok {
				cl = q
			}
		}
		want, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		return sval{t: c.Bool(cl != nil && cl.fn != nil && cl.fn.Name() == want)}
	case "captured": // variable captured by a closure
		v := arg(0)
		var q Val = v.t
		if v.t == nil {
			q = v.v
		}
		cl, _ := e.resolve(q).(*Closure)
		if cl == nil || cl.fn == nil {
			sfail("not a known closure")
		}
		want := x.Args[1].(*ast.Ident).Name
		for i, fv := range cl.fn.FreeVars {
			if fv.Name() == want {
				t := cl.te.subst(deref(fv.Type()))
				return s.wrapv(e.loadPtr(s.st, cl.binds[i], t), t)
			}
		}
		sfail("closure does not capture %s", want)
	}
	// typed zero-argument helpers
	if m := s.macro(name); m != nil {
		if len(m.Params) != len(x.Args) {
			sfail("%s takes %d arguments", name, len(m.Params))
		}
		if s.depth > 60 {
			sfail("macro recursion %s", name)
		}
		vars := map[string]sval{}
		for i, p := range m.Params {
			vars[p] = arg(i)
		}
		n := s.with(vars)
		n.depth++
		return n.eval(m.Expr)
	}
	if e.spec != nil {
		if f, ok := e.spec.Funs[name]; ok {
			d := c.DeclFun(f.Name, f.Args, f.Ret)
			var ts []*Term
			for i := range x.Args {
				v := arg(i)
				t := v.t
				if d.Args[i] == "Any" {
					t = s.coerce(v, types.NewInterfaceType(nil, nil))
				} else {
					t = s.tm(v)
				}
				if t.Sort != d.Args[i] {
					sfail("argument %d of %s has sort %s", i, name, t.Sort)
				}
				ts = append(ts, t)
			}
			if len(ts) != len(d.Args) {
				sfail("arity of %s", name)
			}
			return sval{t: c.App(f.Name, ts...)}
		}
	}
	// conversions T(x)
	if t := s.resolveType(x.Fun); t != nil && len(x.Args) == 1 {
		v := arg(0)
		if isIface(t) {
			return sval{t: s.coerce(v, t), ty: t}
		}
		tm := s.coerce(v, t)
		if tm.Sort != e.sortOf(t) && v.ty != nil && isStruct(v.ty) {
			tm = e.recast(tm, v.ty, t)
		}
		return sval{t: tm, ty: t}
	}
	// a call of a function of the program inside a specification: executed symbolically
	f := s.eval(x.Fun)
	if cl, ok := f.v.(*Closure); ok && cl.fn != nil {
		return s.pureCall(cl, x)
	}
	sfail("unknown specification function %s", exprStr(x.Fun))
	return sval{}
}

func (v sval) ty2(b sval) types.Type {
	if v.ty != nil && v.ty != types.Typ[types.UntypedNil] {
		return v.ty
	}
	if b.ty != nil {
		return b.ty
	}
	return types.Typ[types.Int]
}

func (s *senv) macro(name string) *Macro {
	if s.e.spec == nil {
		return nil
	}
	return s.e.spec.Macros[name]
}

// execute a (side effect free) function of the code under specification and
// merge the results of its paths
func (s *senv) pureCall(cl *Closure, x *ast.CallExpr) sval {
	e := s.e
	var args []Val
	sig := cl.fn.Signature
	for i, a := range x.Args {
		v := s.eval(a)
		args = append(args, s.coerce(v, sig.Params().At(i).Type()))
	}
	st := s.st.clone()
	n := len(st.pc)
	type oc struct {
		cond *Term
		v    *Term
	}
	var outs []oc
	e.quiet++
	rt := sig.Results().At(0).Type()
	fr := &Frame{id: -1, te: tenv{}, fn: cl.fn, li: &loopInfo{}}
	e.callFn(fr, st, cl.fn, cl.te, cl.binds, args, nil, nil, false, Kont{
		Ret: func(s2 *State, res []Val) {
			outs = append(outs, oc{e.c.And(s2.pc[n:]...), e.term(res[0], rt)})
		},
		Panic: func(s2 *State, v *Term, why string) {},
	})
	e.quiet--
	if len(outs) == 0 {
		sfail("pure call %s has no result", exprStr(x))
	}
	r := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		r = e.c.Ite(outs[i].cond, outs[i].v, r)
	}
	return sval{t: r, ty: rt}
}

func (s *senv) trace(name string, x *ast.CallExpr) sval {
	e := s.e
	c := e.c
	var ch string
	var idx *Term
	var sig *types.Signature
	if sel, ok := x.Args[0].(*ast.SelectorExpr); ok {
		base := s.eval(sel.X)
		if base.pkg == nil && base.ty != nil && isIface(base.ty) {
			o, _, _ := types.LookupFieldOrMethod(base.ty, true, s.pkg, sel.Sel.Name)
			m, ok := o.(*types.Func)
			if !ok {
				sfail("no method %s", sel.Sel.Name)
			}
			ch = "im:" + m.Name()
			idx = s.tm(base)
			sig = m.Type().(*types.Signature)
		}
	}
	if bl, ok := x.Args[0].(*ast.BasicLit); ok && bl.Kind == token.STRING {
		n, _ := strconv.Unquote(bl.Value)
		f, ok := s.root.opaque[n]
		if !ok {
			sfail("%s is not opaque", n)
		}
		return s.opaqueTrace(name, f, x)
	}
	if ch == "" {
		v := s.eval(x.Args[0])
		if v.ty == nil {
			sfail("trace of a mathematical value")
		}
		if _, ok := v.ty.Underlying().(*types.Chan); ok {
			ch = name // not used
			k := "close"
			if len(x.Args) > 1 {
				if id, ok := x.Args[1].(*ast.Ident); ok && (id.Name == "close" || id.Name == "send" || id.Name == "recv") {
					k = id.Name
				}
			}
			et := v.ty.Underlying().(*types.Chan).Elem()
			ch = chanChan(k, et)
			idx = s.tm(v)
			if len(x.Args) > 1 {
				if id, ok := x.Args[1].(*ast.Ident); ok && id.Name == k {
					y := *x
					y.Args = append([]ast.Expr{x.Args[0]}, x.Args[2:]...)
					x = &y
				}
			}
			if name == "arg" { // the value sent or received, and whether there was one
				if kv := s.term(x.Args[2]); kv.Op == "int" && kv.Int.Sign() != 0 {
					return sval{t: c.Select(c.Select(s.st.get(e, e.traceArg(ch, idx.Sort, 1, "Bool")), idx), s.term(x.Args[1]))}
				}
				return sval{t: e.unbox(et, c.Select(c.Select(s.st.get(e, e.traceArg(ch, idx.Sort, 0, "Any")), idx), s.term(x.Args[1]))), ty: et}
			}
		} else {
			sg, ok := v.ty.Underlying().(*types.Signature)
			if !ok {
				sfail("trace of a non-function")
			}
			sig = sg
			ch = cbChan(v.ty)
			idx = s.tm(v)
		}
	}
	cnt, at := e.traceKeys(ch, idx.Sort)
	switch name {
	case "calls":
		return sval{t: c.Select(s.st.get(e, cnt), idx)}
	case "at":
		return sval{t: c.Select(c.Select(s.st.get(e, at), idx), s.term(x.Args[1]))}
	}
	j := s.term(x.Args[1])
	kv := s.term(x.Args[2])
	if kv.Op != "int" {
		sfail("third argument of %s must be a literal", name)
	}
	k := int(kv.Int.Int64())
	if name == "arg" {
		t := sig.Params().At(k).Type()
		key := e.traceArg(ch, idx.Sort, k, e.sortOf(t))
		return sval{t: c.Select(c.Select(s.st.get(e, key), idx), j), ty: t}
	}
	if ch == "im:Read" && k == 2 { // the text a reader has delivered
		return sval{t: e.traceRet(ch, idx, j, k, types.Typ[types.String]), ty: types.Typ[types.String]}
	}
	t := sig.Results().At(k).Type()
	return sval{t: e.traceRet(ch, idx, j, k, t), ty: t}
}

func opaqueChan(fn *ssa.Function) string {
	return "fn:" + strings.ReplaceAll(funcKey(fn), modPath+"/", "")
}

// calls of an opaque function: one sequence, the receiver is argument 0
func (s *senv) opaqueTrace(name string, fn *ssa.Function, x *ast.CallExpr) sval {
	e := s.e
	c := e.c
	ch := opaqueChan(fn)
	idx := c.Int(0)
	cnt, at := e.traceKeys(ch, "Int")
	switch name {
	case "calls":
		return sval{t: c.Select(s.st.get(e, cnt), idx)}
	case "at":
		return sval{t: c.Select(c.Select(s.st.get(e, at), idx), s.term(x.Args[1]))}
	}
	j := s.term(x.Args[1])
	kv := s.term(x.Args[2])
	if kv.Op != "int" {
		sfail("third argument of %s must be a literal", name)
	}
	k := int(kv.Int.Int64())
	if name == "arg" {
		t := fn.Params[k].Type()
		key := e.traceArg(ch, "Int", k, e.sortOf(t))
		return sval{t: c.Select(c.Select(s.st.get(e, key), idx), j), ty: t}
	}
	t := fn.Signature.Results().At(k).Type()
	return sval{t: e.traceRet(ch, idx, j, k, t), ty: t}
}

// frame: at return, only the listed locations of objects that existed at entry may differ
func (s *senv) onlyModifies(args []ast.Expr) *Term {
	e := s.e
	c := e.c
	type allow struct {
		ref *Term
		lo  *Term
		hi  *Term
	}
	allowed := map[string][]allow{}
	all := map[string]bool{}
	for _, a := range args {
		if id, ok := a.(*ast.Ident); ok && id.Name == "nothing" {
			continue
		}
		if ca, ok := a.(*ast.CallExpr); ok {
			id, _ := ca.Fun.(*ast.Ident)
			if id != nil {
				n := *s
				n.st = s.old
				switch id.Name {
				case "elems":
					v := n.eval(ca.Args[0])
					t := n.tm(v)
					k := e.bkey(v.ty.Underlying().(*types.Slice).Elem())
					lo := e.slOff(t)
					allowed[k] = append(allowed[k], allow{e.slRef(t), lo, c.Add(lo, e.slLen(t))})
					continue
				case "spare": // between len and cap
					v := n.eval(ca.Args[0])
					t := n.tm(v)
					k := e.bkey(v.ty.Underlying().(*types.Slice).Elem())
					lo := c.Add(e.slOff(t), e.slLen(t))
					allowed[k] = append(allowed[k], allow{e.slRef(t), lo, c.Add(e.slOff(t), e.slCap(t))})
					continue
				case "entries":
					v := n.eval(ca.Args[0])
					k := e.mkey(v.ty)
					allowed[k] = append(allowed[k], allow{ref: n.tm(v)})
					continue
				case "obj":
					v := n.eval(ca.Args[0])
					T := deref(v.ty)
					for i := 0; i < e.structType(T).NumFields(); i++ {
						if isStruct(e.structType(T).Field(i).Type()) {
							continue
						}
						k := e.fkey(T, i)
						allowed[k] = append(allowed[k], allow{ref: n.tm(v)})
					}
					continue
				case "allfields":
					v := s.resolveType(ca.Args[0])
					for i := 0; i < e.structType(v).NumFields(); i++ {
						if !isStruct(e.structType(v).Field(i).Type()) {
							all[e.fkey(v, i)] = true
						}
					}
					continue
				case "allelems":
					v := s.resolveType(ca.Args[0])
					all[e.bkey(v)] = true
					continue
				}
			}
		}
		n := *s
		n.st = s.old
		ad := n.addr(a)
		p, ok := ad.v.(*Place)
		if !ok {
			if ad.t != nil { // nested struct
				T := deref(ad.ty)
				for i := 0; i < e.structType(T).NumFields(); i++ {
					k := e.fkey(T, i)
					allowed[k] = append(allowed[k], allow{ref: ad.t})
				}
				continue
			}
			sfail("modifies %s", exprStr(a))
		}
		if p.kind == pkElem {
			allowed[p.key] = append(allowed[p.key], allow{p.ref, p.idx, c.Add(p.idx, c.Int(1))})
			continue
		}
		if p.kind == pkGlobal {
			all[p.key] = true
			continue
		}
		allowed[p.key] = append(allowed[p.key], allow{ref: p.ref})
	}
	A := s.old.get(e, "A")
	out := []*Term{}
	for _, k := range sortedKeys(s.st.heap) {
		if k == "A" || strings.HasPrefix(k, "T:") || all[k] {
			continue
		}
		h1 := s.st.heap[k]
		h0 := s.old.get(e, k)
		if h1 == h0 {
			continue
		}
		if !strings.HasPrefix(h1.Sort, "(Array Int") {
			out = append(out, c.Eq(h1, h0))
			continue
		}
		r := c.BoundVar("r", "Int")
		v1, v0 := c.Select(h1, r), c.Select(h0, r)
		eq := c.Eq(v1, v0)
		var cond []*Term
		cond = append(cond, c.Lt(r, A))
		if _, ok := c.funs["subbase"]; ok && strings.HasPrefix(k, "F:") { // parts of fresh objects are fresh
			cond = append(cond, c.Or(c.Le(c.Int(-1000000), r), c.Lt(c.App("subbase", r), A)))
		}
		var ranged []allow
		for _, a := range allowed[k] {
			if a.lo == nil {
				cond = append(cond, c.Neq(r, a.ref))
			} else {
				ranged = append(ranged, a)
			}
		}
		if len(ranged) > 0 {
			i := c.BoundVar("i", "Int")
			var ic []*Term
			for _, a := range ranged {
				ic = append(ic, c.Not(c.And(c.Eq(r, a.ref), c.Le(a.lo, i), c.Lt(i, a.hi))))
			}
			x1 := c.Select(v1, i)
			out = append(out, c.Forall([]BV{{"r", "Int"}, {"i", "Int"}}, c.Imp(c.And(append(cond, ic...)...), c.Eq(x1, c.Select(v0, i))), x1))
			continue
		}
		out = append(out, c.Forall([]BV{{"r", "Int"}}, c.Imp(c.And(cond...), eq), v1))
	}
	return c.And(out...)
}

// trigger selection: smallest applications containing the bound variable
func (e *Exec) patterns(body *Term, q *Term) []*Term {
	var cands []*Term
	rmemo := map[*Term]bool{}
	var hasQ func(t *Term) bool
	memo := map[*Term]bool{}
	hasQ = func(t *Term) bool {
		if !t.bv {
			return false
		}
		if v, ok := memo[t]; ok {
			return v
		}
		r := t == q
		for _, a := range t.Args {
			if hasQ(a) {
				r = true
			}
		}
		memo[t] = r
		return r
	}
	// variables bound inside the body cannot occur in its triggers
	inner := map[string]bool{}
	iseen := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if iseen[t] {
			return
		}
		iseen[t] = true
		for _, b := range t.Bound {
			inner[b.Name] = true
		}
		for _, a := range t.Args {
			collect(a)
		}
	}
	collect(body)
	var otherBound func(t *Term) bool
	otherBound = func(t *Term) bool {
		if !t.bv {
			return false
		}
		if t.Op == "bound" {
			return t != q && inner[t.Name]
		}
		for _, a := range t.Args {
			if otherBound(a) {
				return true
			}
		}
		return false
	}
	okPat := func(t *Term) bool {
		switch t.Op {
		case "select", "app", "sel":
			return true
		}
		return false
	}
	var bad func(t *Term) bool // interpreted symbols inside make poor triggers
	bad = func(t *Term) bool {
		switch t.Op {
		case "and", "or", "not", "=", "<=", "ite", "forall", "exists":
			return true
		}
		for _, a := range t.Args {
			if a.bv && bad(a) {
				return true
			}
		}
		return false
	}
	var rec func(t *Term) bool // returns true if a candidate was found inside
	rec = func(t *Term) bool {
		if !hasQ(t) {
			return false
		}
		if r, ok := rmemo[t]; ok {
			return r
		}
		found := false
		defer func() { rmemo[t] = found }()
		for _, a := range t.Args {
			if rec(a) {
				found = true
			}
		}
		if okPat(t) && !found && !bad(t) && !otherBound(t) && t != q {
			direct := false
			for _, a := range t.Args {
				if a == q || (a.Op == "+" && hasQ(a)) || a.Op == "mk" && hasQ(a) || a.Op == "app" && hasQ(a) || a.Op == "select" && hasQ(a) {
					direct = true
				}
			}
			if direct {
				cands = append(cands, t)
				found = true
			}
		}
		return found
	}
	rec(body)
	if len(cands) > 6 {
		cands = cands[:6]
	}
	for i := range cands {
		cands[i] = e.patClean(cands[i])
	}
	return cands
}

// triggers cannot mention interpreted connectives: ground subterms with them get a name
func (e *Exec) patClean(t *Term) *Term {
	c := e.c
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if v, ok := e.patBad[t]; ok {
			return v
		}
		r := false
		switch t.Op {
		case "ite", "and", "or", "not", "=", "<=", "forall", "exists":
			r = true
		}
		for _, a := range t.Args {
			r = r || has(a)
		}
		e.patBad[t] = r
		return r
	}
	if !has(t) {
		return t
	}
	if !t.bv {
		n := fmt.Sprintf("pat!%d", t.ID)
		s := c.Sym(n, t.Sort)
		if !e.patDone[t] {
			e.patDone[t] = true
			c.Axiom([]string{n}, c.mk("=", "", "Bool", s, t))
		}
		return s
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = e.patClean(a)
	}
	return c.mk(t.Op, t.Name, t.Sort, args...)
}

// ---- user loop invariants

func (e *Exec) userCands(st0 *State, def *loopDef, obs []*observable, cells0 map[int]Val) []*cand {
	if e.root == nil {
		return nil
	}
	var out []*cand
	invs := append([]InvClause{}, e.root.ct.Invs...)
	for _, q := range e.root.ct.Ensures { // frame conditions hold inside loops as well
		if call, ok := q.Expr.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "onlymodifies" {
				invs = append(invs, InvClause{Clause: q})
			}
		}
	}
	if ct := e.root.ct; ct.Modular {
		call := &ast.CallExpr{Fun: ast.NewIdent("onlymodifies")}
		for _, m := range ct.Modifies {
			call.Args = append(call.Args, m.Expr)
		}
		invs = append(invs, InvClause{Clause: Clause{Expr: call, Src: "modifies"}})
	}
	fname, ord := "", 0
	if def.fr != nil {
		fname, ord = def.fr.fn.Name(), def.ord
	}
	for i := range invs {
		iv := &invs[i]
		// @ghost<k> clauses are for the k-th loop of a ghost function, @ghostName for those of that function; the others for the code
		if strings.HasPrefix(iv.Label, "ghost") {
			if !strings.HasPrefix(fname, "ghost") || iv.Label != "ghost" && iv.Label != fmt.Sprintf("ghost%d", ord) && iv.Label != fname {
				continue
			}
		} else if strings.HasPrefix(fname, "ghost") && len(e.root.ct.Invs) > i {
			continue
		}
		var assign func(k int, chosen []*observable)
		count := 0
		assign = func(k int, chosen []*observable) {
			if count > 60 {
				return
			}
			if k == len(iv.Meta) {
				count++
				ch := append([]*observable{}, chosen...)
				nm := iv.Src
				for j, o := range ch {
					nm += fmt.Sprintf(" [%s=%s]", iv.Meta[j].name, o.name)
				}
				out = append(out, &cand{name: nm, user: true, eval: func(st *State, vals []Val, n *Term) *Term {
					env := e.root.env(e, st)
					env.pre = st0
					vars := map[string]sval{"__n": {t: n}}
					for j, o := range ch {
						vars[iv.Meta[j].name] = sval{t: o.get(st, vals), ty: o.ty}
					}
					for id, v := range st.cells {
						if it, ok := v.(*mapIter); ok && it.vis != nil {
							if _, in := cells0[id]; in && it.vis != nil {
								if it0, ok := st0.cells[id].(*mapIter); ok && it0.n == e.c.Int(0) {
									vars["__visited"] = sval{t: it.vis}
								}
							}
						}
					}
					return env.with(vars).boolean(iv.Expr)
				}})
				return
			}
			mv := iv.Meta[k]
			for _, o := range obs {
				if !e.metaMatch(mv.typ, o) {
					continue
				}
				dup := false
				for _, c := range chosen {
					if c == o {
						dup = true
					}
				}
				if dup {
					continue
				}
				assign(k+1, append(chosen, o))
			}
		}
		assign(0, nil)
	}
	return out
}

func (e *Exec) metaMatch(typ string, o *observable) bool {
	if o.ty == nil {
		return false
	}
	if strings.HasPrefix(typ, "heap ") { // a value in memory, not a variable or a count of events
		typ = strings.TrimPrefix(typ, "heap ")
		if len(o.name) < 2 || !strings.Contains("F:P:G:", o.name[:2]) {
			return false
		}
	}
	fixed := strings.HasPrefix(typ, "fixed ")
	if fixed {
		typ = strings.TrimPrefix(typ, "fixed ")
		if o.mod {
			return false
		}
	} else if !o.mod {
		return false
	}
	env := e.root.env(e, e.root.entry)
	x, err := parser.ParseExpr(typ)
	if err != nil {
		return false
	}
	if c, is := x.(*ast.CallExpr); is { // slice(f, g): a slice of structs with these fields
		sl, is := o.ty.Underlying().(*types.Slice)
		if !is {
			return false
		}
		su, is := sl.Elem().Underlying().(*types.Struct)
		if !is {
			return false
		}
		for _, a := range c.Args {
			found := false
			for i := 0; i < su.NumFields(); i++ {
				if id, is := a.(*ast.Ident); is && su.Field(i).Name() == id.Name {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specError); !is {
					panic(r)
				}
			}
		}()
		t := env.resolveType(x)
		ok = t != nil && (types.Identical(t, o.ty) || typeKey(t) == typeKey(o.ty))
	}()
	return ok
}

func recvParams(fn *ssa.Function) (out []types.Type) {
	if r := fn.Signature.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		out = append(out, fn.Signature.Params().At(i).Type())
	}
	return out
}
