package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name unexported functions, fields and variables of the program. Where one of those names is
// gone and exactly one declaration of the same kind, in the same place and of the same type is new, the
// declaration was renamed, and the program is read (through an overlay) with the name the rules know.

//go:embed oracle/names.txt
var knownNameList string

type namedObj struct {
	group string // kind, place and type
	name  string
	obj   types.Object
}

func shortQual(p *types.Package) string { return p.Name() }

// unexportedNames lists the unexported functions, methods, struct fields and package variables and
// constants.
func unexportedNames(pkgs []*packages.Package) []namedObj {
	var out []namedObj
	add := func(group string, o types.Object) {
		if !o.Exported() && o.Name() != "_" && o.Name() != "init" {
			out = append(out, namedObj{group, o.Name(), o})
		}
	}
	for _, pk := range pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			switch o := o.(type) {
			case *types.Func:
				add("F "+pk.Name+" "+sigText(o), o)
			case *types.Var:
				add("V "+pk.Name+" "+types.TypeString(o.Type(), shortQual), o)
			case *types.Const:
				add("C "+pk.Name+" "+types.TypeString(o.Type(), shortQual)+" "+o.Val().ExactString(), o)
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				nt, ok := o.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add("M "+pk.Name+"."+n+" "+sigText(nt.Method(i)), nt.Method(i))
				}
				if st, ok := nt.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !f.Embedded() {
							add("S "+pk.Name+"."+n+" "+types.TypeString(f.Type(), shortQual), f)
						}
					}
				}
			}
		}
	}
	return out
}

func sigText(o *types.Func) string {
	s := o.Type().(*types.Signature)
	tup := func(t *types.Tuple) string {
		var l []string
		for i := 0; i < t.Len(); i++ {
			l = append(l, types.TypeString(t.At(i).Type(), shortQual))
		}
		return strings.Join(l, ",")
	}
	v := ""
	if s.Variadic() {
		v = "..."
	}
	return "(" + tup(s.Params()) + v + ")(" + tup(s.Results()) + ")"
}

func printNames(pkgs []*packages.Package) {
	var l []string
	for _, n := range unexportedNames(pkgs) {
		l = append(l, n.group+"\t"+n.name)
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Println(s)
	}
}

// renamed maps the declarations that were renamed to the names the rules know.
func renamed(pkgs []*packages.Package) map[types.Object]string {
	known := map[string]map[string]bool{}
	for _, l := range strings.Split(knownNameList, "\n") {
		if f := strings.Split(l, "\t"); len(f) == 2 {
			if known[f[0]] == nil {
				known[f[0]] = map[string]bool{}
			}
			known[f[0]][f[1]] = true
		}
	}
	have := map[string]map[string]types.Object{}
	for _, n := range unexportedNames(pkgs) {
		if have[n.group] == nil {
			have[n.group] = map[string]types.Object{}
		}
		have[n.group][n.name] = n.obj
	}
	out := map[types.Object]string{}
	for _, g := range sortedKeys(known) {
		var missing []string
		for _, n := range sortedKeys(known[g]) {
			if have[g][n] == nil {
				missing = append(missing, n)
			}
		}
		var fresh []types.Object
		for _, n := range sortedKeys(have[g]) {
			if !known[g][n] {
				fresh = append(fresh, have[g][n])
			}
		}
		if len(missing) != len(fresh) {
			continue
		}
		// several at once: the most similar names belong together
		for len(missing) > 0 {
			bi, bj, best := 0, 0, 1<<30
			for i, m := range missing {
				for j, o := range fresh {
					if d := editDistance(strings.ToLower(m), strings.ToLower(o.Name())); d < best {
						bi, bj, best = i, j, d
					}
				}
			}
			out[fresh[bj]] = missing[bi]
			missing = append(missing[:bi], missing[bi+1:]...)
			fresh = append(fresh[:bj], fresh[bj+1:]...)
		}
	}
	return out
}

func editDistance(a, b string) int {
	row := make([]int, len(b)+1)
	for j := range row {
		row[j] = j
	}
	for i := 1; i <= len(a); i++ {
		diag := row[0]
		row[0] = i
		for j := 1; j <= len(b); j++ {
			d := diag
			if a[i-1] != b[j-1] {
				d++
			}
			diag = row[j]
			row[j] = min(d, row[j]+1, row[j-1]+1)
		}
	}
	return row[len(b)]
}

// restoreNames is the overlay in which the renamed declarations have the names the rules know.
func restoreNames(pkgs []*packages.Package) map[string][]byte {
	ren := renamed(pkgs)
	if len(ren) == 0 {
		return nil
	}
	overlay := map[string][]byte{}
	for _, pk := range pkgs {
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			var eds []srcEdit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := pk.TypesInfo.Uses[id]
				if o == nil {
					o = pk.TypesInfo.Defs[id]
				}
				switch v := o.(type) {
				case *types.Var:
					o = v.Origin()
				case *types.Func:
					o = v.Origin()
				}
				if o == nil {
					return true
				}
				if old, ok := ren[o]; ok {
					at := pk.Fset.PositionFor(id.Pos(), false).Offset
					eds = append(eds, srcEdit{at, at + len(id.Name), old, 1})
				}
				return true
			})
			if len(eds) == 0 {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				fail("cannot read %s: %v", name, err)
			}
			overlay[name] = []byte(splice(src, 0, len(src), eds))
		}
	}
	if os.Getenv("VERIF_EXPAND") != "" {
		for o, n := range ren {
			fmt.Fprintln(os.Stderr, "renamed:", n, "is now", o.Name())
		}
	}
	return overlay
}
