package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Aize-Public/forego"

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	Dir     string
	loopsMu sync.Mutex
	loops   map[*ssa.Function]*loopInfo
}

func loadProgram(dir string, patterns []string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")}
	cfg.Env = append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg.Overlay = overlay
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.BuilderMode(0))
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, Dir: dir, loops: map[*ssa.Function]*loopInfo{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	return p, nil
}

// make sure the body of fn is built
func (p *Program) build(fn *ssa.Function) {
	p.mu.Lock()
	defer p.mu.Unlock()
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil && !p.built[f.Pkg] {
		p.built[f.Pkg] = true
		f.Pkg.Build()
	}
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.LookupMethod(t, pkg, name)
}

// the method of a type that mentions type parameters: its generic body and what its type parameters stand for
func (p *Program) genericMethod(t types.Type, pkg *types.Package, name string) (*ssa.Function, tenv) {
	_, ptr := types.Unalias(t).(*types.Pointer)
	bt := t
	if ptr {
		bt = types.Unalias(t).(*types.Pointer).Elem()
	}
	n := namedOf(bt)
	if n == nil || n.TypeArgs() == nil {
		return nil, nil
	}
	o := n.Origin()
	for i := 0; i < o.NumMethods(); i++ {
		m := o.Method(i)
		if m.Name() != name || !m.Exported() && m.Pkg() != pkg {
			continue
		}
		if _, mp := m.Type().(*types.Signature).Recv().Type().(*types.Pointer); mp != ptr {
			return nil, nil
		}
		p.mu.Lock()
		fn := p.prog.FuncValue(m)
		p.mu.Unlock()
		if fn == nil {
			return nil, nil
		}
		te := tenv{}
		for j, tp := range fnTypeParams(fn) {
			te[tp] = n.TypeArgs().At(j)
		}
		return fn, te
	}
	return nil, nil
}

// find a function by contract name: "Name", "(T).Method", "(*T).Method", and
// the anonymous function "Name$1"
func (p *Program) find(pkg, name string) (*ssa.Function, error) {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("package %s not loaded", pkg)
	}
	p.mu.Lock()
	if !p.built[sp] {
		p.built[sp] = true
		sp.Build()
	}
	p.mu.Unlock()
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		if i < 0 {
			return nil, fmt.Errorf("bad name %s", name)
		}
		tn, mn := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		m := sp.Members[tn]
		t, ok := m.(*ssa.Type)
		if !ok {
			return nil, fmt.Errorf("no type %s in %s", tn, pkg)
		}
		nt := t.Type().(*types.Named)
		for i := 0; i < nt.NumMethods(); i++ {
			f := nt.Method(i)
			if f.Name() == mn {
				fn := p.prog.FuncValue(f)
				if fn == nil {
					return nil, fmt.Errorf("no ssa for %s", name)
				}
				_ = ptr
				return fn, nil
			}
		}
		return nil, fmt.Errorf("no method %s on %s", mn, tn)
	}
	if f := sp.Func(name); f != nil {
		return f, nil
	}
	return nil, fmt.Errorf("no function %s in %s", name, pkg)
}

// ---- natural loops

type loopInfo struct {
	header map[*ssa.BasicBlock]*natLoop
}
type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	p.loopsMu.Lock()
	defer p.loopsMu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.header[s]
				if l == nil {
					l = &natLoop{s, map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	p.loops[fn] = li
	return li
}
