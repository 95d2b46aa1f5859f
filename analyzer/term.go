package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value. Two occurrences of the same impure operation (load, call,
// phi, allocation) at different sites differ by Ident; Key() compares structure only.
type Term struct {
	id    int
	Op    string // const nil param free global func alloc load field fieldaddr index indexaddr lookup call extract bin un assert slice make phi next select opaque closure struct
	Name  string // constant text, field name, operator, qualified callee name, type name, ...
	Args  []*Term
	F     *Frame
	V     ssa.Value
	Typ   types.Type
	depth int
	key   string
}

type termKey struct {
	op, name string
	args     string
	f        *Frame
	v        ssa.Value
	typ      string
}

type Terms struct {
	tab  map[termKey]*Term
	list []*Term
}

func NewTerms() *Terms { return &Terms{tab: map[termKey]*Term{}} }

const maxTermDepth = 22

func (ts *Terms) mk(op, name string, args []*Term, f *Frame, v ssa.Value, typ types.Type) *Term {
	d := 0
	var sb strings.Builder
	for _, a := range args {
		if a == nil {
			sb.WriteString("_,")
			continue
		}
		if a.depth > d {
			d = a.depth
		}
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	if d+1 > maxTermDepth {
		op, name, args = "opaque", "deep", nil
		sb.Reset()
		d = 0
	}
	tn := ""
	if op == "assert" || op == "const" || op == "conv" || op == "make" {
		if typ != nil {
			tn = types.TypeString(typ, nil)
		}
	}
	k := termKey{op, name, sb.String(), f, v, tn}
	if t := ts.tab[k]; t != nil {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{id: len(ts.list) + 1, Op: op, Name: name, Args: args, F: f, V: v, Typ: typ, depth: d + 1}
	ts.tab[k] = t
	ts.list = append(ts.list, t)
	return t
}

// Key is the structural identity of a term, independent of the site that computed it.
func (t *Term) Key() string {
	if t == nil {
		return "_"
	}
	if t.key != "" {
		return t.key
	}
	var s string
	arg := func(i int) string {
		if i < len(t.Args) {
			return t.Args[i].Key()
		}
		return "_"
	}
	all := func(from int) string {
		var x []string
		for _, a := range t.Args[from:] {
			x = append(x, a.Key())
		}
		return strings.Join(x, ", ")
	}
	switch t.Op {
	case "const":
		s = t.Name
	case "nil":
		s = "nil"
	case "param":
		s = "$" + t.Name
	case "free":
		s = "free:" + t.Name
	case "global":
		s = t.Name
	case "func":
		s = "func " + t.Name
	case "closure":
		s = "closure " + t.Name
	case "alloc":
		s = "alloc:" + t.V.Name() + "@" + FuncName(t.V.Parent())
	case "load":
		if k := arg(0); strings.HasPrefix(k, "&") {
			s = k[1:]
		} else {
			s = "*" + k
		}
	case "field", "fieldaddr":
		s = strings.TrimPrefix(arg(0), "&") + "." + t.Name
		if t.Op == "fieldaddr" {
			s = "&" + s
		}
	case "index", "indexaddr", "lookup":
		s = strings.TrimPrefix(arg(0), "&") + "[" + arg(1) + "]"
		if t.Op == "indexaddr" {
			s = "&" + s
		}
	case "call":
		s = t.Name + "(" + all(0) + ")"
	case "dyncall":
		s = "dyn(" + arg(0) + ")(" + all(1) + ")"
	case "extract":
		s = arg(0) + "#" + t.Name
	case "bin":
		s = "(" + arg(0) + " " + t.Name + " " + arg(1) + ")"
	case "un":
		s = t.Name + arg(0)
	case "assert":
		s = arg(0) + ".(" + TypeName(t.Typ) + ")"
	case "conv":
		s = TypeName(t.Typ) + "(" + arg(0) + ")"
	case "phi":
		s = "phi:" + t.V.Name() + "@" + FuncName(t.V.Parent())
	default:
		s = t.Op + ":" + t.Name + "(" + all(0) + ")"
		if t.V != nil {
			s += "@" + t.V.Name()
		}
	}
	t.key = s
	return s
}

func (t *Term) String() string { return t.Key() }

func (t *Term) IsNil() bool { return t != nil && t.Op == "nil" }

func (t *Term) IsConst() bool { return t != nil && (t.Op == "const" || t.Op == "nil") }

func (t *Term) ConstBool() (val, ok bool) {
	if t != nil && t.Op == "const" && (t.Name == "true" || t.Name == "false") {
		return t.Name == "true", true
	}
	return false, false
}

// IsCall reports whether t is (the first result of) a call to a function with one of the names.
func (t *Term) IsCall(names ...string) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	for _, n := range names {
		if t.Name == n {
			return true
		}
	}
	return false
}

// Strip removes conversions and extractions of result idx 0.. so that provenance can be compared.
func (t *Term) Strip() *Term {
	for t != nil && (t.Op == "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// Contains reports whether pred holds on t or any subterm.
func (t *Term) Contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// FieldPath returns the sequence of field names from a base term: req.RequestHeader.RequestHandle
// gives base req and path [RequestHeader RequestHandle].
func (t *Term) FieldPath() (base *Term, path []string) {
	for t != nil {
		switch t.Op {
		case "field", "fieldaddr":
			path = append([]string{t.Name}, path...)
			t = t.Args[0]
			continue
		case "conv":
			t = t.Args[0]
			continue
		case "load":
			// a load of a pointer-typed cell: keep walking only through field addresses
			if len(t.Args) == 1 && (t.Args[0].Op == "fieldaddr") {
				t = t.Args[0]
				continue
			}
		}
		break
	}
	return t, path
}

// HasField reports whether the term is some base's field with the given last name.
func (t *Term) HasField(name string) bool {
	_, p := t.FieldPath()
	return len(p) > 0 && p[len(p)-1] == name
}

func constTerm(ts *Terms, c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			return ts.mk("const", "zero", nil, nil, nil, c.Type())
		}
		return ts.mk("nil", "", nil, nil, nil, nil)
	}
	s := c.Value.ExactString()
	if c.Value.Kind() == constant.Bool {
		return ts.mk("const", s, nil, nil, nil, types.Typ[types.Bool])
	}
	return ts.mk("const", s, nil, nil, nil, c.Type())
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func constUint(v constant.Value) (uint64, bool) {
	if v.Kind() != constant.Int {
		return 0, false
	}
	if u, ok := constant.Uint64Val(v); ok {
		return u, true
	}
	return 0, false
}

// IsMethod: a call of a method with this name, on whatever type or interface.
func (t *Term) IsMethod(name string) bool {
	return t != nil && t.Op == "call" && strings.HasSuffix(t.Name, "."+name) && len(t.Args) > 0
}
