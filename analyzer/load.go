package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis.
type Program struct {
	Dir    string
	Module string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package // short name -> package (ua, server, client, ...)
	Funcs  []*ssa.Function         // every function with a body in the module (incl. anonymous)
	byName map[string]*ssa.Function
	gone   map[string]bool // helpers expanded wherever they were called
}

// analysisError is panicked when the program cannot be analysed; main reports it as a violation
// of the property being decided (never as a silent pass).
type analysisError struct{ msg string }

func fail(format string, args ...interface{}) {
	panic(analysisError{fmt.Sprintf(format, args...)})
}

func Load(dir string) *Program {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	pkgs, gone := expandHelpers(func(overlay map[string][]byte) ([]*packages.Package, error) {
		c := *cfg
		c.Overlay = overlay
		return packages.Load(&c, "./ua", "./server", "./client")
	})
	p := &Program{Dir: dir, gone: gone, SSA: map[string]*ssa.Package{}, byName: map[string]*ssa.Function{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			fail("type error: %v", e)
		}
		if len(pk.Syntax) == 0 {
			fail("package %s has no source", pk.PkgPath)
		}
		if pk.Module != nil {
			p.Module = pk.Module.Path
		}
	}
	if p.Module == "" {
		fail("no module found in %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	p.Prog = prog
	p.Fset = prog.Fset
	p.Pkgs = pkgs
	for i, sp := range spkgs {
		if sp == nil {
			fail("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.SSA[filepath.Base(pkgs[i].PkgPath)] = sp
	}
	for _, want := range []string{"ua", "server", "client"} {
		if p.SSA[want] == nil {
			fail("package %s not found", want)
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if p.gone[FuncName(f)] {
			return
		}
		orient(f)
		if len(f.Blocks) > 0 && f.Synthetic == "" || f.Name() == "init" && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.SSA {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return FuncName(p.Funcs[i]) < FuncName(p.Funcs[j]) })
	for _, f := range p.Funcs {
		p.byName[FuncName(f)] = f
	}
	return p
}

// FuncName is the package-qualified name of f: "server.Server.handleRead", "ua.ValidateCertificate",
// "server.Server.handleRead$1" for closures.
func FuncName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return FuncName(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	if o, ok := f.Object().(*types.Func); ok {
		return ObjName(o)
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.Name()
}

// ObjName is the package-qualified name of a function object; pointers are not distinguished.
func ObjName(o *types.Func) string {
	if o == nil {
		return "?"
	}
	o = o.Origin()
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Name() + "."
	}
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		return TypeName(sig.Recv().Type()) + "." + o.Name()
	}
	return pkg + o.Name()
}

// TypeName names the (dereferenced) named type t, package-qualified by package name.
func TypeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// Func returns the function with the given qualified name, or fails the check: an anchor that has
// disappeared must be looked at by a human.
func (p *Program) Func(name string) *ssa.Function {
	if f := p.byName[name]; f != nil {
		return f
	}
	fail("anchor function %s not found in the current source", name)
	return nil
}

func (p *Program) FuncOpt(name string) *ssa.Function { return p.byName[name] }

// InModule reports whether f (or the function it is nested in / wraps) is module code with a body.
func (p *Program) InModule(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), p.Module)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), p.Module)
	}
	return false
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// InstrPos is the best known position of an instruction.
func (p *Program) InstrPos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return p.Pos((*op).Pos())
		}
	}
	if b := i.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.Pos(x.Pos())
			}
		}
	}
	if i.Parent() != nil {
		return p.Pos(i.Parent().Pos())
	}
	return "-"
}

// Named returns the named type pkg.name or fails.
func (p *Program) Named(pkg, name string) *types.Named {
	o := p.SSA[pkg].Pkg.Scope().Lookup(name)
	if o == nil {
		fail("anchor type %s.%s not found in the current source", pkg, name)
	}
	n, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		fail("anchor %s.%s is not a named type", pkg, name)
	}
	return n
}

// constVal is the value of the integer constant pkg.name.
func (p *Program) constVal(pkg, name string) uint64 {
	o, ok := p.SSA[pkg].Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		fail("anchor constant %s.%s not found in the current source", pkg, name)
	}
	u, ok := constUint(o.Val())
	if !ok {
		fail("anchor constant %s.%s is not an unsigned integer", pkg, name)
	}
	return u
}

// stringConst is the value of the string constant pkg.name.
func (p *Program) stringConst(pkg, name string) string {
	o, ok := p.SSA[pkg].Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || o.Val().Kind() != constant.String {
		fail("anchor constant %s.%s not found in the current source", pkg, name)
	}
	return constant.StringVal(o.Val())
}

// fieldTypeString is the type of field f of struct ua.<typ>.
func fieldTypeString(p *Program, typ, f string) string {
	s, ok := p.Named("ua", typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type().String()
		}
	}
	return ""
}

// orient gives comparisons one form, whichever way round they are written: constants stand on the right,
// and two variables are compared with < or <=.
func orient(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			_, cx := bo.X.(*ssa.Const)
			_, cy := bo.Y.(*ssa.Const)
			switch bo.Op {
			case token.EQL, token.NEQ:
				if cx && !cy {
					bo.X, bo.Y = bo.Y, bo.X
				}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if cx && !cy || !cx && !cy && (bo.Op == token.GTR || bo.Op == token.GEQ) {
					bo.X, bo.Y = bo.Y, bo.X
					bo.Op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[bo.Op]
				}
			}
		}
	}
}
