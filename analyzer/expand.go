package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Before the analysis, calls of helper functions that are not part of the program the properties were
// written against are replaced by their bodies (in an overlay; the repository is not touched), so that a
// piece of code moved into a function of its own is judged where it came from. What cannot be replaced
// is left as it is.

//go:embed oracle/functions.txt
var knownFunctionList string

var knownFunctions = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Fields(knownFunctionList) {
		m[l] = true
	}
	return m
}()

type srcEdit struct {
	from, to int
	text     string
	prio     int
}

type calleeInfo struct {
	obj  *types.Func
	decl *ast.FuncDecl
	pk   *packages.Package
	file *ast.File
	src  []byte
	leaf bool
}

type expander struct {
	fset    *token.FileSet
	pkgs    []*packages.Package
	overlay map[string][]byte
	callees map[*types.Func]*calleeInfo
	skip    map[string]bool // functions neither expanded nor expanded into, after an error
	seq     *int
}

// expandable functions: declared in the module, unexported, not among the known ones.
func (e *expander) collect() {
	e.callees = map[*types.Func]*calleeInfo{}
	for _, pk := range e.pkgs {
		for i, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Type.TypeParams != nil || fd.Name.IsExported() || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "_" {
					continue
				}
				o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok || knownFunctions[ObjName(o)] {
					continue
				}
				if sig := o.Type().(*types.Signature); sig.RecvTypeParams() != nil && sig.RecvTypeParams().Len() > 0 {
					continue
				}
				e.callees[o] = &calleeInfo{obj: o, decl: fd, pk: pk, file: f, src: e.content(pk.CompiledGoFiles[i])}
			}
		}
	}
	for _, c := range e.callees {
		c.leaf = true
		ast.Inspect(c.decl.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if g, ok := c.pk.TypesInfo.Uses[n].(*types.Func); ok && e.callees[g] != nil {
					c.leaf = false
				}
				if n.Name == "recover" {
					c.leaf = false
				}
			case *ast.DeferStmt, *ast.LabeledStmt:
				c.leaf = false
			case *ast.BranchStmt:
				if n.Label != nil {
					c.leaf = false
				}
			case *ast.GenDecl:
				if n.Tok == token.TYPE {
					c.leaf = false
				}
			}
			return true
		})
	}
}

func (e *expander) content(name string) []byte {
	if b, ok := e.overlay[name]; ok {
		return b
	}
	b, err := os.ReadFile(name)
	if err != nil {
		fail("cannot read %s: %v", name, err)
	}
	return b
}

func (e *expander) off(p token.Pos) int { return e.fset.PositionFor(p, false).Offset }

func (e *expander) line(p token.Pos) string {
	q := e.fset.Position(p)
	return fmt.Sprintf("\n//line %s:%d\n", q.Filename, q.Line)
}

// splice applies edits to src[from:to].
func splice(src []byte, from, to int, eds []srcEdit) string {
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].from != eds[j].from {
			return eds[i].from < eds[j].from
		}
		return eds[i].prio < eds[j].prio
	})
	var b strings.Builder
	at := from
	for _, d := range eds {
		if d.from < at || d.to > to {
			continue
		}
		b.Write(src[at:d.from])
		b.WriteString(d.text)
		at = d.to
	}
	b.Write(src[at:to])
	return b.String()
}

// round expands calls of leaf helpers; it reports whether anything changed.
func (e *expander) round() bool {
	e.collect()
	if len(e.callees) == 0 {
		return false
	}
	changed := false
	out := map[string][]byte{}
	for _, pk := range e.pkgs {
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			src := e.content(name)
			x := &fileExpander{e: e, pk: pk, f: f, src: src}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok && e.skip[ObjName(o)] {
						continue
					}
					x.block(fd.Body, fd.Type)
				}
			}
			if len(x.edits) > 0 {
				changed = true
				out[name] = []byte(splice(src, 0, len(src), x.edits))
			}
		}
	}
	for n, b := range out {
		e.overlay[n] = b
	}
	return changed
}

type fileExpander struct {
	e     *expander
	pk    *packages.Package
	f     *ast.File
	src   []byte
	edits []srcEdit
}

func (x *fileExpander) text(n ast.Node) string {
	return string(x.src[x.e.off(n.Pos()):x.e.off(n.End())])
}

func (x *fileExpander) add(from, to token.Pos, text string, prio int) {
	x.edits = append(x.edits, srcEdit{x.e.off(from), x.e.off(to), text, prio})
}

func (x *fileExpander) block(n ast.Node, ft *ast.FuncType) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit:
			x.block(m.Body, m.Type)
			return false
		case *ast.BlockStmt:
			x.list(m.List, ft)
		case *ast.CaseClause:
			x.list(m.Body, ft)
		case *ast.CommClause:
			x.list(m.Body, ft)
		case *ast.IfStmt:
			if ei, ok := m.Else.(*ast.IfStmt); ok {
				x.stmt(ei, ft, true)
			}
		}
		return true
	})
}

func (x *fileExpander) list(l []ast.Stmt, ft *ast.FuncType) {
	for _, s := range l {
		x.stmt(s, ft, false)
	}
}

// callee of a call that can be expanded here.
func (x *fileExpander) calleeOf(c *ast.CallExpr) *calleeInfo {
	var id *ast.Ident
	switch fn := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		id = fn
	case *ast.SelectorExpr:
		id = fn.Sel
		if sel := x.pk.TypesInfo.Selections[fn]; sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
			return nil
		}
	default:
		return nil
	}
	o, ok := x.pk.TypesInfo.Uses[id].(*types.Func)
	if !ok {
		return nil
	}
	ci := x.e.callees[o]
	if ci == nil || !ci.leaf || x.e.skip[ObjName(o)] {
		return nil
	}
	return ci
}

type found struct {
	call  *ast.CallExpr
	ci    *calleeInfo
	short []*ast.BinaryExpr // && and || whose right operand holds the call, outermost first
}

// find looks for a call to expand among what the expression evaluates first; stop is set by another call
// that is evaluated before it.
func (x *fileExpander) find(n ast.Expr) *found {
	var res *found
	stop := false
	var shorts []*ast.BinaryExpr
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		if n == nil || res != nil || stop {
			return
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return
		case *ast.BinaryExpr:
			walk(n.X)
			if n.Op == token.LAND || n.Op == token.LOR {
				was := stop
				shorts = append(shorts, n)
				// what the left operand calls is evaluated before, and stays before
				stop = false
				walk(n.Y)
				if res == nil {
					shorts = shorts[:len(shorts)-1]
					stop = true
				}
				_ = was
				return
			}
			walk(n.Y)
			return
		case *ast.CallExpr:
			if tv, ok := x.pk.TypesInfo.Types[n.Fun]; ok && tv.IsType() {
				for _, a := range n.Args {
					walk(a)
				}
				return
			}
			if ci := x.calleeOf(n); ci != nil {
				res = &found{call: n, ci: ci}
				return
			}
			walk(n.Fun)
			for _, a := range n.Args {
				walk(a)
			}
			if res == nil {
				if tv, ok := x.pk.TypesInfo.Types[n.Fun]; !(ok && tv.IsBuiltin()) {
					stop = true
				}
			}
			return
		case *ast.UnaryExpr:
			walk(n.X)
			if n.Op == token.ARROW && res == nil {
				stop = true
			}
			return
		}
		// other nodes: children in source order
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n || m == nil {
				return true
			}
			walk(m)
			return false
		})
	}
	walk(n)
	if res != nil {
		res.short = shorts
	}
	return res
}

func (x *fileExpander) stmt(s ast.Stmt, ft *ast.FuncType, elseIf bool) {
	if ex := x.direct(s, ft); ex {
		return
	}
	var heads []ast.Expr
	wrap := false
	switch s := s.(type) {
	case *ast.ExprStmt:
		heads = []ast.Expr{s.X}
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if _, ok := l.(*ast.Ident); !ok {
				heads = append(heads, l)
			}
		}
		heads = append(heads, s.Rhs...)
	case *ast.ReturnStmt:
		heads = s.Results
	case *ast.SendStmt:
		heads = []ast.Expr{s.Chan, s.Value}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR && len(g.Specs) == 1 {
			heads = g.Specs[0].(*ast.ValueSpec).Values
		}
	case *ast.RangeStmt:
		heads = []ast.Expr{s.X}
	case *ast.SwitchStmt:
		if s.Init == nil && s.Tag != nil {
			heads = []ast.Expr{s.Tag}
		}
	case *ast.IfStmt:
		if s.Init != nil {
			// the init statement moves in front of the if, within a block of its own
			if !x.hasCall(s.Init) && !x.hasCall(s.Cond) {
				return
			}
			x.add(s.Pos(), s.Cond.Pos(), "{\n"+x.text(s.Init)+x.e.line(s.Pos())+"if ", 0)
			x.add(s.End(), s.End(), "}\n", -int(s.Pos()))
			return
		}
		if elseIf {
			if !x.hasCall(s.Cond) {
				return
			}
			x.add(s.Pos(), s.Pos(), "{\n", 0)
			x.add(s.End(), s.End(), "}\n", -int(s.Pos()))
			return
		}
		heads = []ast.Expr{s.Cond}
	default:
		return
	}
	_ = wrap
	for _, h := range heads {
		f := x.find(h)
		if f == nil {
			// another call before the one sought?
			if x.otherCall(h) {
				return
			}
			continue
		}
		x.hoist(s, h, f)
		return
	}
}

// hasCall: an expandable call occurs in the node.
func (x *fileExpander) hasCall(n ast.Node) bool {
	has := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			return false
		}
		if c, ok := m.(*ast.CallExpr); ok && x.calleeOf(c) != nil {
			has = true
		}
		return !has
	})
	return has
}

func (x *fileExpander) otherCall(n ast.Node) bool {
	has := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := x.pk.TypesInfo.Types[m.Fun]; !(ok && (tv.IsType() || tv.IsBuiltin())) {
				has = true
			}
		case *ast.UnaryExpr:
			if m.Op == token.ARROW {
				has = true
			}
		}
		return !has
	})
	return has
}

// direct: a statement that is nothing but the call, or returns what the call returns.
func (x *fileExpander) direct(s ast.Stmt, ft *ast.FuncType) bool {
	switch s := s.(type) {
	case *ast.ExprStmt:
		c, ok := s.X.(*ast.CallExpr)
		if !ok {
			return false
		}
		ci := x.calleeOf(c)
		if ci == nil {
			return false
		}
		t, ok := x.expansion(c, ci, nil, false)
		if !ok {
			return true
		}
		x.add(s.Pos(), s.End(), t+x.e.line(s.End()), 1)
		return true
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			return false
		}
		c, ok := s.Results[0].(*ast.CallExpr)
		if !ok {
			return false
		}
		ci := x.calleeOf(c)
		if ci == nil {
			return false
		}
		// the results must have the types of the enclosing function's
		var have []types.Type
		if ft.Results != nil {
			for _, fl := range ft.Results.List {
				n := len(fl.Names)
				if n == 0 {
					n = 1
				}
				for ; n > 0; n-- {
					have = append(have, x.pk.TypesInfo.TypeOf(fl.Type))
				}
			}
		}
		res := ci.obj.Type().(*types.Signature).Results()
		if len(have) != res.Len() || len(have) > 0 && ci.decl.Type.Results.List[0].Names != nil {
			return false
		}
		for i := range have {
			if !types.Identical(have[i], res.At(i).Type()) {
				return false
			}
		}
		t, ok := x.expansion(c, ci, nil, true)
		if !ok {
			return true
		}
		x.add(s.Pos(), s.End(), t+x.e.line(s.End()), 1)
		return true
	}
	return false
}

func (x *fileExpander) hoist(s ast.Stmt, h ast.Expr, f *found) {
	res := f.ci.obj.Type().(*types.Signature).Results()
	if res.Len() == 0 {
		return
	}
	var temps []string
	*x.e.seq++
	for i := 0; i < res.Len(); i++ {
		temps = append(temps, fmt.Sprintf("xr%d_%d", *x.e.seq, i))
	}
	if res.Len() > 1 {
		// all the results at once
		ok := false
		if a, is := s.(*ast.AssignStmt); is && len(a.Rhs) == 1 && a.Rhs[0] == ast.Expr(f.call) {
			ok = true
		}
		if r, is := s.(*ast.ReturnStmt); is && len(r.Results) == 1 && r.Results[0] == ast.Expr(f.call) {
			ok = true
		}
		if d, is := s.(*ast.DeclStmt); is && len(d.Decl.(*ast.GenDecl).Specs[0].(*ast.ValueSpec).Values) == 1 && d.Decl.(*ast.GenDecl).Specs[0].(*ast.ValueSpec).Values[0] == ast.Expr(f.call) {
			ok = true
		}
		if !ok {
			return
		}
	}
	decl := ""
	for i, t := range temps {
		ty, ok := x.typeText(res.At(i).Type(), s.Pos())
		if !ok {
			return
		}
		decl += fmt.Sprintf("var %s %s\n", t, ty)
	}
	t, ok := x.expansion(f.call, f.ci, temps, false)
	if !ok {
		return
	}
	if len(f.short) == 0 {
		x.add(s.Pos(), s.Pos(), decl+t+x.e.line(s.Pos()), 1)
		x.add(f.call.Pos(), f.call.End(), strings.Join(temps, ", "), 1)
		return
	}
	// a right operand is only evaluated when the left one does not decide
	b := f.short[len(f.short)-1]
	if len(f.short) > 1 {
		b = f.short[0]
	}
	if bt := x.pk.TypesInfo.TypeOf(b); bt == nil || !types.Identical(bt.Underlying(), types.Typ[types.Bool]) {
		return
	}
	tv := fmt.Sprintf("xb%d", *x.e.seq)
	if len(f.short) > 1 {
		// split the outermost operator; the rest follows in the next round
		cond := tv
		if b.Op == token.LOR {
			cond = "!" + tv
		}
		pre := fmt.Sprintf("%s := bool(%s)\nif %s {\n%s = %s\n}", tv, x.text(b.X), cond, tv, x.text(b.Y))
		x.add(s.Pos(), s.Pos(), pre+x.e.line(s.Pos()), 1)
		x.add(b.Pos(), b.End(), tv, 1)
		return
	}
	cond := tv
	if b.Op == token.LOR {
		cond = "!" + tv
	}
	y := string(x.src[x.e.off(b.Y.Pos()):x.e.off(f.call.Pos())]) + temps[0] + string(x.src[x.e.off(f.call.End()):x.e.off(b.Y.End())])
	pre := fmt.Sprintf("%s := bool(%s)\nif %s {\n%s%s\n%s = %s\n}", tv, x.text(b.X), cond, decl, t, tv, y)
	x.add(s.Pos(), s.Pos(), pre+x.e.line(s.Pos()), 1)
	x.add(b.Pos(), b.End(), tv, 1)
}

func (x *fileExpander) scopeAt(at token.Pos) *types.Scope {
	scope := x.pk.Types.Scope().Innermost(at)
	for _, s := range x.pk.TypesInfo.Scopes {
		if s.Contains(at) && (scope == nil || s.Pos() >= scope.Pos() && s.End() <= scope.End()) {
			scope = s
		}
	}
	return scope
}

func (x *fileExpander) typeText(t types.Type, at token.Pos) (string, bool) {
	ok := true
	scope := x.scopeAt(at)
	// a name of the package that means something else here
	var named func(t types.Type, depth int)
	named = func(t types.Type, depth int) {
		switch t := t.(type) {
		case *types.Named:
			if o := t.Obj(); o.Pkg() == x.pk.Types || o.Pkg() == nil {
				if _, got := scope.LookupParent(o.Name(), at); got != o {
					ok = false
				}
			}
		case *types.Basic:
			if _, got := scope.LookupParent(t.Name(), at); got != nil && got.Parent() != types.Universe {
				ok = false
			}
		case *types.Pointer:
			named(t.Elem(), depth+1)
		case *types.Slice:
			named(t.Elem(), depth+1)
		case *types.Array:
			named(t.Elem(), depth+1)
		case *types.Chan:
			named(t.Elem(), depth+1)
		case *types.Map:
			named(t.Key(), depth+1)
			named(t.Elem(), depth+1)
		}
	}
	named(t, 0)
	s := types.TypeString(t, func(p *types.Package) string {
		if p == x.pk.Types {
			return ""
		}
		for _, im := range x.f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				n := p.Name()
				if im.Name != nil {
					n = im.Name.Name
				}
				if _, got := scope.LookupParent(n, at); got != nil {
					if g, is := got.(*types.PkgName); !is || g.Imported() != p {
						ok = false
					}
				}
				return n
			}
		}
		ok = false
		return "?"
	})
	return s, ok
}

// expansion is the text that does what the call does. The results go to temps; with tail, the returns of
// the callee stay returns.
func (x *fileExpander) expansion(c *ast.CallExpr, ci *calleeInfo, temps []string, tail bool) (string, bool) {
	e := x.e
	if ci.pk != x.pk {
		return "", false
	}
	*e.seq++
	k := *e.seq
	sig := ci.obj.Type().(*types.Signature)
	info := ci.pk.TypesInfo
	// what the body refers to must mean the same here
	scope := x.scopeAt(c.Pos())
	okRefs := true
	rename := map[types.Object]string{}
	pre := ""
	param := func(v *types.Var, val string) {
		ty, ok := x.typeText(v.Type(), c.Pos())
		if !ok {
			okRefs = false
			return
		}
		n := v.Name()
		if n == "" || n == "_" {
			n = "unused"
		}
		n = fmt.Sprintf("%s_x%d", n, k)
		rename[v] = n
		if val == "" {
			pre += fmt.Sprintf("var %s %s\n_ = %s\n", n, ty, n)
		} else {
			pre += fmt.Sprintf("var %s %s = %s\n_ = %s\n", n, ty, val, n)
		}
	}
	if r := sig.Recv(); r != nil {
		se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		if !ok {
			return "", false
		}
		val := x.text(se.X)
		_, wantP := r.Type().Underlying().(*types.Pointer)
		_, haveP := x.pk.TypesInfo.TypeOf(se.X).Underlying().(*types.Pointer)
		switch {
		case wantP && !haveP:
			val = "&(" + val + ")"
		case !wantP && haveP:
			val = "*(" + val + ")"
		}
		param(r, val)
	}
	np := sig.Params().Len()
	for i := 0; i < np; i++ {
		v := sig.Params().At(i)
		if sig.Variadic() && i == np-1 && !c.Ellipsis.IsValid() {
			if len(c.Args) < np {
				param(v, "")
				continue
			}
			ty, ok := x.typeText(v.Type(), c.Pos())
			if !ok {
				return "", false
			}
			var as []string
			for _, a := range c.Args[i:] {
				as = append(as, x.text(a))
			}
			param(v, ty+"{"+strings.Join(as, ", ")+"}")
			continue
		}
		if i >= len(c.Args) || !sig.Variadic() && len(c.Args) != np {
			return "", false
		}
		param(v, x.text(c.Args[i]))
	}
	named := false
	var names []string
	for i := 0; i < sig.Results().Len(); i++ {
		v := sig.Results().At(i)
		if v.Name() != "" {
			named = true
			param(v, "")
		}
		names = append(names, rename[v])
	}
	if named && tail {
		return "", false
	}
	var eds []srcEdit
	ast.Inspect(ci.decl.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := info.Uses[id]
		if o == nil {
			return true
		}
		if nn, ok := rename[o]; ok {
			eds = append(eds, srcEdit{e.off(id.Pos()), e.off(id.End()), nn, 1})
			return true
		}
		switch o := o.(type) {
		case *types.PkgName:
			if _, got := scope.LookupParent(id.Name, c.Pos()); got == nil {
				okRefs = false
			} else if g, ok := got.(*types.PkgName); !ok || g.Imported() != o.Imported() {
				okRefs = false
			}
		default:
			if o.Parent() == ci.pk.Types.Scope() || o.Parent() == types.Universe {
				if _, got := scope.LookupParent(id.Name, c.Pos()); got != o {
					okRefs = false
				}
			}
		}
		return true
	})
	if !okRefs {
		return "", false
	}
	label := fmt.Sprintf("xl%d", k)
	broke := false
	bodyList := ci.decl.Body.List
	if !tail {
		var last ast.Stmt
		if len(bodyList) > 0 {
			last = bodyList[len(bodyList)-1]
		}
		ast.Inspect(ci.decl.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				jump := ""
				if n != last {
					jump = "break " + label
					broke = true
				}
				switch {
				case temps == nil && len(n.Results) > 0:
					// the results are dropped, what computes them is not
					blanks := strings.TrimSuffix(strings.Repeat("_, ", sig.Results().Len()), ", ")
					eds = append(eds, srcEdit{e.off(n.Pos()), e.off(n.Results[0].Pos()), "{\n" + typedBlank(blanks, n) + " = ", 1})
					eds = append(eds, srcEdit{e.off(n.End()), e.off(n.End()), "\n" + jump + "\n}", 2})
				case len(n.Results) > 0:
					eds = append(eds, srcEdit{e.off(n.Pos()), e.off(n.Results[0].Pos()), "{\n" + strings.Join(temps, ", ") + " = ", 1})
					eds = append(eds, srcEdit{e.off(n.End()), e.off(n.End()), "\n" + jump + "\n}", 2})
				case temps != nil && named:
					eds = append(eds, srcEdit{e.off(n.Pos()), e.off(n.End()), "{\n" + strings.Join(temps, ", ") + " = " + strings.Join(names, ", ") + "\n" + jump + "\n}", 1})
				default:
					if jump == "" {
						jump = "{\n}"
					}
					eds = append(eds, srcEdit{e.off(n.Pos()), e.off(n.End()), jump, 1})
				}
			}
			return true
		})
	}
	body := splice(ci.src, e.off(ci.decl.Body.Lbrace)+1, e.off(ci.decl.Body.Rbrace), eds)
	lineDir := e.line(ci.decl.Body.Lbrace)
	if len(bodyList) == 0 {
		lineDir = "\n"
	}
	switch {
	case tail:
		return "{\n" + pre + "{" + lineDir + body + "\n}\n}", true
	case broke:
		return label + ":\nswitch {\ndefault:\n" + pre + "{" + lineDir + body + "\n}\n}\n", true
	}
	return "{\n" + pre + "{" + lineDir + body + "\n}\n}\n", true
}

func typedBlank(b string, _ *ast.ReturnStmt) string { return b }

func hasErrors(pkgs []*packages.Package) bool {
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return true
		}
	}
	return false
}

// blame adds the functions in which the errors are to those that are skipped; it reports whether it
// found a new one.
func (e *expander) blame(next []*packages.Package) bool {
	more := false
	for _, pk := range next {
		for _, er := range pk.Errors {
			if os.Getenv("VERIF_EXPAND") != "" {
				fmt.Fprintln(os.Stderr, "expand:", er)
			}
			l := strings.LastIndex(er.Pos, ".go:")
			if l < 0 {
				continue
			}
			file := er.Pos[:l+3]
			var line int
			fmt.Sscanf(er.Pos[l+4:], "%d", &line)
			for _, pk := range e.pkgs {
				for _, f := range pk.Syntax {
					for _, d := range f.Decls {
						fd, ok := d.(*ast.FuncDecl)
						if !ok || fd.Body == nil {
							continue
						}
						from, to := e.fset.Position(fd.Pos()), e.fset.Position(fd.End())
						if from.Filename != file || line < from.Line || line > to.Line {
							continue
						}
						if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok && !e.skip[ObjName(o)] {
							e.skip[ObjName(o)] = true
							more = true
						}
					}
				}
			}
		}
	}
	return more
}

// expandHelpers returns the overlay in which helpers are expanded, and the names of the functions no
// longer called.
func expandHelpers(load func(map[string][]byte) ([]*packages.Package, error)) ([]*packages.Package, map[string]bool) {
	overlay := map[string][]byte{}
	pkgs, err := load(nil)
	if err != nil {
		fail("cannot load the packages: %v", err)
	}
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return pkgs, nil
		}
	}
	if len(knownFunctions) == 0 {
		return pkgs, nil
	}
	if restored := restoreNames(pkgs); len(restored) > 0 {
		if next, err := load(restored); err == nil && !hasErrors(next) {
			pkgs, overlay = next, restored
		}
	}
	seq := 0
	skip := map[string]bool{}
	retries := 0
	for i := 0; i < 16; i++ {
		e := &expander{pkgs: pkgs, overlay: map[string][]byte{}, skip: skip, seq: &seq}
		for k, v := range overlay {
			e.overlay[k] = v
		}
		if len(pkgs) == 0 {
			break
		}
		e.fset = pkgs[0].Fset
		if !e.round() {
			break
		}
		next, err := load(e.overlay)
		if err != nil || hasErrors(next) {
			// without the functions the errors are in
			if retries++; retries > 6 || err != nil || !e.blame(next) {
				break
			}
			continue
		}
		pkgs, overlay = next, e.overlay
	}
	e := &expander{pkgs: pkgs, overlay: overlay, seq: &seq}
	e.fset = pkgs[0].Fset
	e.collect()
	gone := map[string]bool{}
	for o := range e.callees {
		gone[ObjName(o)] = true
	}
	// still used somewhere other than in a function that is gone itself
	for changed := true; changed; {
		changed = false
		for _, pk := range pkgs {
			for _, f := range pk.Syntax {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok && gone[ObjName(o)] {
							continue
						}
					}
					ast.Inspect(d, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							if g, ok := pk.TypesInfo.Uses[id].(*types.Func); ok && gone[ObjName(g)] {
								if os.Getenv("VERIF_EXPAND") != "" {
									fmt.Fprintln(os.Stderr, "expand: left", ObjName(g), "at", e.fset.Position(id.Pos()))
								}
								delete(gone, ObjName(g))
								changed = true
							}
						}
						return true
					})
				}
			}
		}
	}
	return pkgs, gone
}
