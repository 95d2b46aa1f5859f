package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callees: the functions of the server that a call may reach.
func (c *p25) callees(ci ssa.CallInstruction, closures []*ssa.Function) []*ssa.Function {
	com := ci.Common()
	if com.IsInvoke() {
		var out []*ssa.Function
		for _, g := range c.p.Implementors(com.Method) {
			if t := RecvType(g); t != "" && c.held(com.Value.Type())[t] {
				out = append(out, g)
			}
		}
		return out
	}
	if _, g := CallName(com); g != nil {
		return []*ssa.Function{g}
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	if g := com.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	// through a variable: the function's own closures and those of the functions around it
	var out []*ssa.Function
	for _, g := range closures {
		if outer(g) == outer(ci.Parent()) && types.Identical(g.Signature, com.Signature()) {
			out = append(out, g)
		}
	}
	return out
}

// held: the types of which a value is ever made an interface of type t (or of another interface) in the module.
func (c *p25) held(t types.Type) map[string]bool {
	key := t.String()
	if m, ok := c.heldBy[key]; ok {
		return m
	}
	m := map[string]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.MakeInterface:
					if types.Identical(i.Type(), t) {
						m[TypeName(derefType(i.X.Type()))] = true
					}
				case *ssa.ChangeInterface:
					if types.Identical(i.Type(), t) {
						for k := range c.held(i.X.Type()) {
							m[k] = true
						}
					}
				case *ssa.TypeAssert:
					if types.Identical(i.AssertedType, t) {
						// out of another interface: anything that is in any interface
						for k := range c.boxed() {
							m[k] = true
						}
					}
				}
			}
		}
	}
	c.heldBy[key] = m
	return m
}

// boxed: the types of which a value is ever made an interface.
func (c *p25) boxed() map[string]bool {
	if c.all != nil {
		return c.all
	}
	c.all = map[string]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mi, ok := i.(*ssa.MakeInterface); ok {
					c.all[TypeName(derefType(mi.X.Type()))] = true
				}
			}
		}
	}
	return c.all
}

func (c *p25) recursion() {
	p, r := c.p, c.r
	var fns, closures []*ssa.Function
	in := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if outer(f).Pkg == c.srv {
			fns = append(fns, f)
			in[f] = true
			if f.Parent() != nil {
				closures = append(closures, f)
			}
		}
	}
	type edge struct {
		to *ssa.Function
		at ssa.CallInstruction
	}
	out := map[*ssa.Function][]edge{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					for _, g := range c.callees(ci, closures) {
						if in[g] {
							out[f] = append(out[f], edge{g, ci})
						}
					}
				}
			}
		}
	}
	// strongly connected components
	comp := map[*ssa.Function]int{}
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		seen[f] = true
		for _, e := range out[f] {
			if !seen[e.to] {
				dfs(e.to)
			}
		}
		order = append(order, f)
	}
	for _, f := range fns {
		if !seen[f] {
			dfs(f)
		}
	}
	rev := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		for _, e := range out[f] {
			rev[e.to] = append(rev[e.to], f)
		}
	}
	n := 0
	for k := len(order) - 1; k >= 0; k-- {
		if comp[order[k]] != 0 {
			continue
		}
		n++
		work := []*ssa.Function{order[k]}
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			if comp[f] != 0 {
				continue
			}
			comp[f] = n
			work = append(work, rev[f]...)
		}
	}
	groups := map[int][]*ssa.Function{}
	for _, f := range fns {
		groups[comp[f]] = append(groups[comp[f]], f)
	}
	var ids []int
	for k := range groups {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		g := groups[k]
		cyc := len(g) > 1
		for _, f := range g {
			for _, e := range out[f] {
				cyc = cyc || e.to == f
			}
		}
		r.Ob("recursion", "component")
		if !cyc {
			continue
		}
		var es []edge25
		for _, f := range g {
			for _, e := range out[f] {
				if comp[e.to] == k {
					es = append(es, edge25{f, e.to, e.at})
				}
			}
		}
		if why := c.descends(g, es); why != "" {
			r.Bad("recursion", FuncName(es[0].from)+" "+FuncName(es[0].to), p.InstrPos(es[0].at), FuncName(es[0].from)+" calls itself (through "+FuncName(es[0].to)+") and "+why)
		} else {
			for _, e := range es {
				r.Ob("recursion", FuncName(e.from)+" "+p.InstrPos(e.at))
			}
		}
	}
}

type edge25 struct {
	from, to *ssa.Function
	at       ssa.CallInstruction
}

// arg: what the edge passes as parameter j of the function it calls.
func (e edge25) arg(j int) ssa.Value {
	com := e.at.Common()
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	if j >= 0 && j < len(args) {
		return args[j]
	}
	return nil
}

// descends: "" if there is a measure, one parameter of each function of the group, that every call keeps or moves on, that every cycle moves on, and that has an end.
func (c *p25) descends(g []*ssa.Function, es []edge25) string {
	// a set that outlives the calls
	covered := map[int]bool{}
	for k, e := range es {
		all := map[*ssa.BasicBlock]bool{}
		for _, b := range e.from.Blocks {
			all[b] = true
		}
		for _, m := range c.marks(all) {
			if m.miss.Dominates(e.at.Block()) && (m.insert.Dominates(e.at.Block()) || m.insert == e.at.Block()) {
				covered[k] = true
			}
		}
		// marked at the beginning of the function
	}
	if acyclic(g, es, func(k int) bool { return covered[k] }) {
		return ""
	}
	// one measure per function
	kinds := []func(f *ssa.Function, q *ssa.Parameter) bool{
		func(_ *ssa.Function, q *ssa.Parameter) bool {
			b, ok := q.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		},
		func(_ *ssa.Function, q *ssa.Parameter) bool {
			_, ok := q.Type().Underlying().(*types.Slice)
			return ok
		},
		func(_ *ssa.Function, q *ssa.Parameter) bool {
			_, ok := q.Type().Underlying().(*types.Basic)
			return !ok
		},
	}
	for kind, fits := range kinds {
		pick := map[*ssa.Function]int{}
		var try func(n int) bool
		try = func(n int) bool {
			if n < len(g) {
				for j, q := range g[n].Params {
					if fits(g[n], q) {
						pick[g[n]] = j
						if try(n + 1) {
							return true
						}
					}
				}
				return false
			}
			for dir := 1; dir >= -1; dir -= 2 {
				strict := map[int]bool{}
				ok := true
				for k, e := range es {
					p, a := ssa.Value(e.from.Params[pick[e.from]]), e.arg(pick[e.to])
					switch c.moved(kind, dir, a, p, e.at) {
					case 2:
						strict[k] = true
					case 1:
					default:
						ok = false
					}
				}
				if !ok || !acyclic(g, es, func(k int) bool { return strict[k] }) {
					continue
				}
				if kind != 0 {
					return true
				}
				// the measure is tested against a bound on every cycle
				bounded := map[*ssa.Function]bool{}
				for _, f := range g {
					bounded[f] = c.bounded(f, f.Params[pick[f]], dir, es)
				}
				if acyclic(g, es, func(k int) bool { return bounded[es[k].from] }) {
					return true
				}
			}
			return false
		}
		if len(g) <= 4 && try(0) {
			return ""
		}
	}
	return "no argument is known to move towards a bound that is tested on every such call: the recursion may never end"
}

// acyclic: the group without the edges that are cut has no cycle.
func acyclic(g []*ssa.Function, es []edge25, cut func(int) bool) bool {
	next := map[*ssa.Function][]*ssa.Function{}
	for k, e := range es {
		if !cut(k) {
			next[e.from] = append(next[e.from], e.to)
		}
	}
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		state[f] = 1
		for _, n := range next[f] {
			if state[n] == 1 || state[n] == 0 && !visit(n) {
				return false
			}
		}
		state[f] = 2
		return true
	}
	for _, f := range g {
		if state[f] == 0 && !visit(f) {
			return false
		}
	}
	return true
}

// moved: 2 if a is known to have moved on from parameter p at the call, 1 if it is p, 0 otherwise.
func (c *p25) moved(kind, dir int, a, p ssa.Value, at ssa.CallInstruction) int {
	if a == nil {
		return 0
	}
	if a == p {
		return 1
	}
	switch kind {
	case 0:
		if b, ok := a.(*ssa.BinOp); ok && b.X == p {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				if b.Op == token.ADD && dir > 0 && k.Int64() > 0 || b.Op == token.SUB && dir < 0 && k.Int64() > 0 {
					return 2
				}
			}
		}
		for _, f := range dominating(at.Block()) {
			x, y, op := f.x, f.y, f.op
			if sameVal25(y, a) && x == p {
				x, y, op = y, x, flipTok(op)
			}
			if sameVal25(x, a) && y == p && (dir > 0 && op == token.GTR || dir < 0 && op == token.LSS) {
				return 2
			}
		}
	case 1:
		if s, ok := a.(*ssa.Slice); ok && s.X == p {
			if k, ok := s.Low.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 {
				return 2
			}
		}
		if m, ok := a.(*ssa.MakeSlice); ok {
			if b, ok := m.Len.(*ssa.BinOp); ok && b.Op == token.SUB {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 && isLenOf25(b.X, p) {
					return 2
				}
			}
		}
	case 2:
		switch n := below(a, p, 0); {
		case n > 0:
			return 2
		case n == 0:
			return 1
		}
	}
	return 0
}

func isLenOf25(v, p ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && call.Call.Args[0] == p
}

// below: how many elements down from p the value is, or -1.
func below(v, p ssa.Value, d int) int {
	if v == p {
		return 0
	}
	if d > 12 {
		return -1
	}
	up := func(x ssa.Value, n int) int {
		if k := below(x, p, d+1); k >= 0 {
			return k + n
		}
		return -1
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return up(v.X, 0)
	case *ssa.ChangeInterface:
		return up(v.X, 0)
	case *ssa.ChangeType:
		return up(v.X, 0)
	case *ssa.TypeAssert:
		return up(v.X, 0)
	case *ssa.Extract:
		return up(v.Tuple, 0)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						return up(s.Val, 0)
					}
				}
				return -1
			}
			return up(v.X, 0)
		}
	case *ssa.Alloc:
		for _, ref := range *v.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(v) {
				return up(s.Val, 0)
			}
		}
	case *ssa.IndexAddr:
		return up(v.X, 1)
	case *ssa.Index:
		return up(v.X, 1)
	case *ssa.Call:
		n, _ := CallName(v.Common())
		switch n {
		case "reflect.ValueOf", "reflect.Value.Interface":
			return up(v.Call.Args[0], 0)
		case "reflect.Value.Index", "reflect.Value.Field", "reflect.Value.MapIndex":
			return up(v.Call.Args[0], 1)
		}
	}
	return -1
}

// fact25: x op y holds.
type fact25 struct {
	x, y ssa.Value
	op   token.Token
}

// dominating: the comparisons known to hold in b.
func dominating(b *ssa.BasicBlock) []fact25 {
	var out []fact25
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		cmp, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				op := cmp.Op
				if (k == 1) != neg {
					op = negTok(op)
				}
				out = append(out, fact25{cmp.X, cmp.Y, op})
			}
		}
	}
	return out
}

// bounded: every recursive call of f is made only after q was found on the near side of a bound.
func (c *p25) bounded(f *ssa.Function, q *ssa.Parameter, dir int, es []edge25) bool {
	any := false
	for _, e := range es {
		if e.from != f {
			continue
		}
		any = true
		ok := false
		for _, t := range dominating(e.at.Block()) {
			x, y, op := t.x, t.y, t.op
			if y == ssa.Value(q) {
				x, y, op = y, x, flipTok(op)
			}
			if x != ssa.Value(q) {
				continue
			}
			switch y.(type) {
			case *ssa.Const, *ssa.Call, *ssa.Parameter, *ssa.UnOp:
			default:
				continue
			}
			if dir > 0 && (op == token.LSS || op == token.LEQ) || dir < 0 && (op == token.GTR || op == token.GEQ) {
				// not the very comparison that shows the argument to be larger
				arg := false
				for j := range e.to.Params {
					if a := e.arg(j); a != nil && sameVal25(a, y) {
						arg = true
					}
				}
				if !arg {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return any
}

// operands: the functions that read the operands of a filter element.
func (c *p25) operands() {
	p, r := c.p, c.r
	for _, f := range p.Funcs {
		if f.Pkg != c.srv {
			continue
		}
		reads := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.FieldAddr:
					reads = reads || fieldName(i.X.Type(), i.Field) == "FilterOperands"
				case *ssa.Field:
					reads = reads || fieldName(i.X.Type(), i.Field) == "FilterOperands"
				}
			}
		}
		if !reads {
			continue
		}
		f := f
		fn := FuncName(f)
		isOps := func(t *Term) bool {
			_, path := t.Strip().FieldPath()
			return len(path) > 0 && path[len(path)-1] == "FilterOperands"
		}
		h := Hooks{MaxDepth: 4}
		h.Inline = func(g *ssa.Function) bool { return g != f && g.Pkg == c.srv && small(g, 30) }
		h.Stable = func(a *Term) bool { return mentions(a, "FilterOperands") }
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			nc, want := NormCond(cond, taken)
			if nc.Op == "call" && nc.Name == "reflect.Value.Comparable" && want {
				if v := nc.Args[0].Strip(); v.IsCall("reflect.ValueOf") {
					st.Set("cmp:"+itoa(termID(v.Args[0].Strip())), nc)
				}
			}
			if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
				if isNilT(a) {
					a, b = b, a
				}
				if isNilT(b) {
					st.Set("cmp0:"+itoa(termID(a.Strip())), nc)
				}
			}
			if nc.Op == "bin" {
				lo := minLen(nc, want)
				if lo.of != nil && isOps(lo.of) {
					key := "min:" + itoa(termID(lo.of.Strip()))
					if o := st.Get(key); o == nil || atoi25(o.Name) < lo.n {
						st.Set(key, x.T.mk("const", itoa(lo.n), nil, nil, nil, nil))
					}
				}
			}
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				s := x.Val(st, in.X)
				if !isOps(s) {
					return
				}
				k, isC := in.Index.(*ssa.Const)
				if !isC {
					// a range over the operands
					if c.ranged(in) {
						r.Ob("operands", fn+" range")
					} else {
						r.Bad("operands", fn+" index", p.InstrPos(in), fn+" indexes the operands of a filter element with a value that is not tested against their number")
					}
					return
				}
				o := st.Get("min:" + itoa(termID(s.Strip())))
				if o != nil && atoi25(o.Name) > int(k.Int64()) {
					r.Ob("operands", fn+" operand "+k.Value.String()+" "+p.InstrPos(in))
				} else {
					r.Bad("operands", fn+" operand "+k.Value.String(), p.InstrPos(in), fn+" reads operand "+k.Value.String()+" of a filter element that may have fewer: it panics", st.Trace(10)...)
				}
			case *ssa.TypeAssert:
				if in.CommaOk {
					return
				}
				if x.Val(st, in.X).Contains(isOps) {
					r.Bad("operands", fn+" "+in.AssertedType.String(), p.InstrPos(in), fn+" takes an operand of a filter for a "+in.AssertedType.String()+" without a check: anything else panics", st.Trace(10)...)
				}
			case *ssa.BinOp:
				if in.Op != token.EQL && in.Op != token.NEQ {
					return
				}
				if !isEmptyIface(in.X.Type()) || !isEmptyIface(in.Y.Type()) {
					return
				}
				a, b := x.Val(st, in.X).Strip(), x.Val(st, in.Y).Strip()
				if isNilT(a) || isNilT(b) || a.Op == "const" || b.Op == "const" {
					return
				}
				ka, kb := itoa(termID(a)), itoa(termID(b))
				if st.Has("cmp0:"+ka) || st.Has("cmp0:"+kb) || st.Has("cmp:"+ka) && st.Has("cmp:"+kb) {
					r.Ob("operands", fn+" comparison "+p.InstrPos(in))
				} else {
					r.Bad("operands", fn+" comparison", p.InstrPos(in), fn+" compares two values of a filter that may not be comparable (arrays, structures that hold them): it panics", st.Trace(10)...)
				}
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func atoi25(s string) int {
	n := 0
	for _, ch := range s {
		if ch < '0' || ch > '9' {
			return 0
		}
		n = n*10 + int(ch-'0')
	}
	return n
}

type lenFact struct {
	of *Term
	n  int
}

// minLen: the least length of a slice that the condition tells.
func minLen(nc *Term, want bool) lenFact {
	a, b, op := nc.Args[0].Strip(), nc.Args[1].Strip(), nc.Name
	if !want {
		op = negTerm(op)
	}
	if b.IsCall("builtin.len") {
		a, b = b, a
		op = flipTerm(op)
	}
	if !a.IsCall("builtin.len") {
		return lenFact{}
	}
	n, ok := constNum(b)
	if !ok {
		return lenFact{}
	}
	k := int(n)
	switch op {
	case ">":
		k++
	case ">=", "==":
	case "!=":
		if k != 0 {
			return lenFact{}
		}
		k = 1
	default:
		return lenFact{}
	}
	return lenFact{a.Args[0], k}
}

func negTerm(op string) string {
	return map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
}

func flipTerm(op string) string {
	return map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
}

// ranged: the index is known to be below the length of what it indexes.
func (c *p25) ranged(in *ssa.IndexAddr) bool {
	for _, f := range dominating(in.Block()) {
		x, y, op := f.x, f.y, f.op
		if op == token.GTR {
			x, y, op = y, x, token.LSS
		}
		if op != token.LSS || !sameVal25(x, in.Index) {
			continue
		}
		if call, ok := y.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && sameVal25(call.Call.Args[0], in.X) {
				return true
			}
		}
	}
	return false
}
