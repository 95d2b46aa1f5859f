package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", "Typestate over every path of the functions that add nodes to and delete nodes from the registry: in each turn of the loop over a node's own references, the target that is registered either already has, or gets, the reference of the same type in the other direction that names the node; on deletion exactly those are taken out of every registered target (and nothing else), and the node leaves the registry. Every update of the registry stores a node under its own id. Every call of the deleting function for a node that was found by id or as a child is dominated by a failed protection test of that node, and the protection test is shown to hold for all four kinds of node id of namespace 0.", runP24)
}

type p24 struct {
	p   *Program
	r   *Report
	srv *ssa.Package

	linking map[*ssa.Function]bool // functions that change references of a node
}

func isNodeRegistry(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && TypeName(m.Elem()) == "server.Node" && TypeName(m.Key()) == "ua.NodeID"
}

func runP24(p *Program, r *Report) {
	r.Rule("stored: the registry holds every node under its own id")
	r.Rule("mutual: adding a node gives every registered target of its references the inverse, unless the target has it")
	r.Rule("unlinked: deleting a node takes the inverse of each of its references out of the target, takes out nothing else, and removes the node")
	r.Rule("protected: nodes of namespace 0 are not deleted by id or as children")
	r.Rule("all: a deletion with children visits every child, and one that reports success has deleted the node")
	c := &p24{p: p, r: r, srv: p.SSA["server"]}
	adds, dels := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != c.srv {
			continue
		}
		f := f
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.MapUpdate:
					if isNodeRegistry(i.Map.Type()) {
						if o, _ := mapField(i.Map); o == "server.NamespaceManager" {
							adds[f] = true
							c.stored(f, i)
						}
					}
				case ssa.CallInstruction:
					n, _ := CallName(i.Common())
					if n == "builtin.delete" && isNodeRegistry(i.Common().Args[0].Type()) {
						if o, _ := mapField(i.Common().Args[0]); o == "server.NamespaceManager" {
							dels[f] = true
						}
					}
				}
			}
		}
	}
	r.Min("stored", 1)
	linking := p.Reach(func(n string, _ ssa.CallInstruction) bool { return strings.HasSuffix(n, "Node.SetReferences") }, nil)
	c.linking = linking
	if len(adds) == 0 || len(dels) == 0 {
		r.Bad("stored", "registry", "-", "no function adds nodes to or deletes nodes from the registry of the NamespaceManager")
		return
	}
	for _, f := range sortedFns(adds) {
		root := c.rootOf(f, linking)
		c.links(root, true)
		c.before(root, adds, linking)
	}
	for _, f := range sortedFns(dels) {
		root := c.rootOf(f, linking)
		if root != f {
			dels[root] = true
		}
		c.links(root, false)
	}
	r.Min("mutual", 4)
	r.Min("unlinked", 4)
	c.callers(dels)
	r.Min("protected", 4)
	r.Min("all", 4)
}

// rootOf: the function that maintains references: f, or the caller of f that does when f only touches the map.
func (c *p24) rootOf(f *ssa.Function, linking map[*ssa.Function]bool) *ssa.Function {
	for d := 0; d < 3 && !linking[f]; d++ {
		var g *ssa.Function
		for _, h := range c.p.Funcs {
			EachCall(h, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
				if callee == f && linking[h] {
					g = h
				}
			})
		}
		if g == nil {
			return f
		}
		f = g
	}
	return f
}

// before: all the nodes are registered before the first of them is linked, so that references among them find their targets.
func (c *p24) before(f *ssa.Function, adds, linking map[*ssa.Function]bool) {
	p, r := c.p, c.r
	fn := FuncName(f)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n, g := CallName(ci.Common())
			if !strings.HasSuffix(n, "Node.SetReferences") && (g == nil || g == f || !linking[g]) {
				continue
			}
			stores := func(j ssa.Instruction) bool {
				switch j := j.(type) {
				case *ssa.MapUpdate:
					return isNodeRegistry(j.Map.Type())
				case ssa.CallInstruction:
					_, h := CallName(j.Common())
					return h != nil && h != g && adds[h]
				}
				return false
			}
			hit := false
			for _, s := range b.Succs {
				hit = hit || reachesHit(s, nil, stores)
			}
			if hit {
				r.Bad("mutual", fn+" order", p.InstrPos(i), fn+" registers nodes after it has begun to link: a reference to a node added later in the same call gets no inverse")
			} else {
				r.Ob("mutual", fn+" registers first")
			}
		}
	}
}

func (c *p24) stored(f *ssa.Function, mu *ssa.MapUpdate) {
	p, r := c.p, c.r
	fn := FuncName(f)
	h := Hooks{MaxDepth: 2}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if in != ssa.Instruction(mu) {
			return
		}
		k, v := x.Val(st, mu.Key).Strip(), x.Val(st, mu.Value).Strip()
		ok := (k.Op == "call" || k.Op == "dyncall") && strings.HasSuffix(k.Name, ".NodeID") && len(k.Args) > 0 && k.Args[0].Strip() == v
		if !ok && k.HasField("nodeID") {
			b, _ := k.FieldPath()
			ok = b != nil && b.Strip() == v
		}
		if ok {
			r.Ob("stored", fn+" "+p.InstrPos(in))
		} else {
			r.Bad("stored", fn, p.InstrPos(in), fn+" registers a node under something other than its own id")
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

// refSource: the node whose references the term is an element (or a field of one) of.
func refSource(t *Term) *Term {
	var out *Term
	t.Contains(func(u *Term) bool {
		if out == nil && (u.Op == "indexaddr" || u.Op == "index") && len(u.Args) > 0 {
			if s := u.Args[0].Strip(); isRefsCall(s) {
				out = s.Args[0].Strip()
			}
		}
		return false
	})
	return out
}

func isRefsCall(s *Term) bool {
	return (s.Op == "call" || s.Op == "dyncall") && strings.HasSuffix(s.Name, "Node.References") && len(s.Args) > 0
}

func looksUp(t *Term) bool {
	return t != nil && t.Contains(func(u *Term) bool { return u.Op == "lookup" })
}

// links checks one function that maintains references.
func (c *p24) links(f *ssa.Function, add bool) {
	p, r := c.p, c.r
	fn := FuncName(f)
	rule := "unlinked"
	if add {
		rule = "mutual"
	}
	h := Hooks{MaxDepth: 3}
	h.Inline = func(g *ssa.Function) bool {
		return g != f && g.Pkg == c.srv && g.Parent() == nil && (small(g, 12) || c.linking[g])
	}
	own := func(t *Term) bool { s := refSource(t); return s != nil && !looksUp(s) }
	tgt := func(t *Term) bool { s := refSource(t); return s != nil && looksUp(s) }
	field := func(t *Term, n string) bool {
		_, path := t.Strip().FieldPath()
		return len(path) > 0 && path[len(path)-1] == n
	}
	idOf := func(t *Term) bool { // the id of the node itself
		t = t.Strip()
		return !looksUp(t) && !field(t, "TargetID") && refSource(t) == nil && (strings.HasSuffix(t.Name, ".NodeID") && (t.Op == "call" || t.Op == "dyncall") || field(t, "nodeID"))
	}
	one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
	bad := func(st *State, key, where, msg string) {
		r.Bad(rule, fn+" "+key, where, fn+" "+msg, st.Trace(12)...)
	}
	endInner := func(st *State, where string) {
		if add || !st.Has("iopen") {
			return
		}
		matched := st.Has("m:type") && st.Has("m:inv") && st.Has("m:id")
		switch {
		case st.Has("kept") && (matched || !st.Has("differs")):
			bad(st, "dangling", where, "keeps a reference to the node it deletes")
		case !st.Has("m:id") && !st.Has("kept"):
			bad(st, "lost", where, "takes a reference out of the target that does not lead to the node it deletes")
		default:
			r.Ob(rule, fn+" keeps the right references")
		}
	}
	endOuter := func(st *State, where string) {
		if !st.Has("open") {
			return
		}
		if st.Has("excused") || st.Has("linked") {
			r.Ob(rule, fn+" reference handled")
			return
		}
		if add {
			bad(st, "one-way", where, "leaves a reference of an added node without the inverse in its target")
		} else {
			bad(st, "passed over", where, "leaves the inverse of a reference of the deleted node in its target")
		}
	}
	match := func(st *State, key string, t *Term, same bool) {
		if same {
			st.Set(key, t)
		} else {
			st.Set("differs", t)
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "bin" && nc.Name == "<" && nc.Args[1].IsCall("builtin.len") && isRefsCall(nc.Args[1].Args[0].Strip()) {
			s := nc.Args[1].Args[0].Strip()
			if looksUp(s.Args[0]) {
				endInner(st, "-")
				for _, k := range []string{"iopen", "m:type", "m:inv", "m:id", "kept", "differs"} {
					st.Del(k)
				}
				if want {
					st.Set("iopen", one(x))
				}
			} else {
				endOuter(st, "-")
				for _, k := range []string{"open", "excused", "linked", "iopen", "m:type", "m:inv", "m:id", "kept", "differs", "n:type", "n:inv", "n:id"} {
					st.Del(k)
				}
				if want {
					st.Set("open", one(x))
				}
			}
			return
		}
		if nc.Op == "extract" && nc.Name == "1" && nc.Args[0].Op == "lookup" && !want {
			st.Set("excused", nc)
		}
		if nc.Op == "un" || nc.Op != "bin" {
			return
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		for _, w := range [][2]*Term{{a, b}, {b, a}} {
			a, b := w[0].Strip(), w[1].Strip()
			switch {
			case field(a, "ReferenceTypeID") && own(a) && eq && isTypeOnly(b):
				st.Set("excused", a)
			case field(a, "ReferenceTypeID") && own(a) && field(b, "ReferenceTypeID") && tgt(b):
				match(st, "m:type", a, eq)
			case field(a, "IsInverse") && own(a) && field(b, "IsInverse") && tgt(b):
				match(st, "m:inv", a, !eq)
			case a.Op == "un" && a.Name == "!" && field(a.Args[0], "IsInverse") && field(b, "IsInverse") && own(a) != own(b):
				match(st, "m:inv", a, eq)
			case mentions(a, "TargetID") && tgt(a) && idOf(b):
				match(st, "m:id", a, eq)
			}
		}
		if add && st.Has("m:type") && st.Has("m:inv") && st.Has("m:id") {
			st.Set("excused", one(x))
		}
	}
	record := func(st *State, name string, v *Term) {
		v = v.Strip()
		switch name {
		case "ReferenceTypeID":
			st.Del("n:type")
			if field(v, "ReferenceTypeID") && own(v) {
				st.Set("n:type", v)
			}
		case "IsInverse":
			st.Del("n:inv")
			if v.Op == "un" && v.Name == "!" && field(v.Args[0], "IsInverse") && own(v) {
				st.Set("n:inv", v)
			} else if v.Op == "bin" && (v.Name == "==" || v.Name == "!=") {
				for k := 0; k < 2; k++ {
					if cb, ok := v.Args[1-k].ConstBool(); ok && field(v.Args[k], "IsInverse") && own(v.Args[k]) && cb == (v.Name == "!=") {
						st.Set("n:inv", v)
					}
				}
			}
		case "TargetID":
			st.Del("n:id")
			if v.Contains(idOf) && !v.Contains(tgt) {
				st.Set("n:id", v)
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok && TypeName(derefType(fa.X.Type())) == "ua.Reference" {
			record(st, fieldName(fa.X.Type(), fa.Field), x.Val(st, s.Val))
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case ci.Name == "ua.NewReference" && len(ci.Args) == 3:
			record(st, "ReferenceTypeID", ci.Args[0])
			record(st, "IsInverse", ci.Args[1])
			record(st, "TargetID", ci.Args[2])
		case ci.Name == "builtin.append":
			st.Set("kept", one(x))
		case strings.HasSuffix(ci.Name, "Node.SetReferences"):
			endInner(st, p.InstrPos(ci.Instr))
			st.Del("iopen")
			if !looksUp(ci.Args[0]) {
				bad(st, "target", p.InstrPos(ci.Instr), "changes the references of a node that is not the target of a reference")
				return ActDefault
			}
			if add {
				if !st.Has("n:type") || !st.Has("n:inv") || !st.Has("n:id") {
					bad(st, "inverse", p.InstrPos(ci.Instr), "gives the target a reference that is not the inverse of the one the added node has (same type, other direction, back to the node)")
				} else if !ci.Args[1].Contains(func(u *Term) bool { return isRefsCall(u) && looksUp(u) }) {
					bad(st, "replaced", p.InstrPos(ci.Instr), "replaces the references the target had")
				} else {
					r.Ob(rule, fn+" inverse")
				}
			}
			st.Set("linked", one(x))
		case ci.Name == "builtin.delete" && isNodeRegistry(ci.Instr.(ssa.CallInstruction).Common().Args[0].Type()):
			if idOf(ci.Args[1]) || ci.Args[1].Strip().Op == "param" {
				st.Set("gone", ci.Args[1])
			}
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		endInner(st, p.InstrPos(in))
		endOuter(st, p.InstrPos(in))
		if !add {
			if st.Has("gone") {
				r.Ob(rule, fn+" removes the node")
			} else {
				bad(st, "registry", p.InstrPos(in), "returns without removing the node from the registry")
			}
		}
		r.Ob(rule, fn+" return")
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

// isTypeOnly: the reference types that are kept in one direction only.
func isTypeOnly(t *Term) bool {
	n := ""
	t.Contains(func(u *Term) bool {
		if u.Op == "global" {
			n = u.Name
		}
		return false
	})
	return strings.HasSuffix(n, "ReferenceTypeIDHasTypeDefinition") || strings.HasSuffix(n, "ReferenceTypeIDHasModellingRule")
}

func (c *p24) callers(dels map[*ssa.Function]bool) {
	p, r := c.p, c.r
	prot := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != c.srv || dels[f] {
			continue
		}
		idx := map[ssa.Value]bool{}
		calls := 0
		EachCall(f, func(ci ssa.CallInstruction, _ string, callee *ssa.Function) {
			if callee == nil || !dels[callee] {
				return
			}
			calls++
			for _, a := range ci.Common().Args {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						idx[ia.Index] = true
					}
				}
			}
		})
		if calls == 0 {
			continue
		}
		c.caller(f, dels, idx, prot)
	}
	if len(prot) == 0 {
		r.Bad("protected", "test", "-", "no function decides which nodes are protected")
	}
	for _, f := range sortedFns(prot) {
		c.protection(f)
	}
}

// isProtection: a predicate on a node id of the NamespaceManager.
func (c *p24) isProtection(f *ssa.Function) bool {
	if f == nil || f.Pkg != c.srv {
		return false
	}
	res := f.Signature.Results()
	if res.Len() != 1 || res.At(0).Type().String() != "bool" {
		return false
	}
	ps := f.Signature.Params()
	return ps.Len() == 1 && TypeName(ps.At(0).Type()) == "ua.NodeID"
}

func (c *p24) caller(f *ssa.Function, dels map[*ssa.Function]bool, idx map[ssa.Value]bool, prot map[*ssa.Function]bool) {
	p, r := c.p, c.r
	fn := FuncName(f)
	one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
	byID := false
	for _, q := range f.Params {
		byID = byID || TypeName(q.Type()) == "ua.NodeID"
	}
	h := Hooks{MaxDepth: 2}
	h.Stable = func(a *Term) bool { return a.Strip().Op == "indexaddr" }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "call" && len(nc.Args) == 2 {
			if g := p.FuncOpt(nc.Name); c.isProtection(g) {
				prot[g] = true
				a := nc.Args[1].Strip()
				if !want {
					st.Set("free:"+itoa(termID(a)), a)
				} else {
					st.Set("spared", a)
				}
			}
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok && !eq {
			if isNilT(a) {
				a, b = b, a
			}
			if isNilT(b) {
				st.Set("err:"+itoa(termID(a.Strip())), a)
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Fn == nil || !dels[ci.Fn] || len(ci.Args) < 2 {
			return ActDefault
		}
		node := ci.Args[1].Strip()
		st.Set("deleted", node)
		st.Set("did", one(x))
		// a node the caller named itself
		given := node.Op == "param" || node.Op == "load" && node.Args[0].Strip().Op == "indexaddr" && node.Args[0].Strip().Args[0].Strip().Op == "param"
		free := false
		for _, k := range sortedKeys(st.A) {
			if !strings.HasPrefix(k, "free:") {
				continue
			}
			id := st.A[k].Strip()
			if (id.Op == "call" || id.Op == "dyncall") && strings.HasSuffix(id.Name, ".NodeID") && len(id.Args) > 0 && id.Args[0].Strip() == node {
				free = true
			}
			u := node
			if u.Op == "extract" {
				u = u.Args[0].Strip()
			}
			if u.Op == "lookup" && len(u.Args) > 1 && u.Args[1].Strip() == id {
				free = true
			}
		}
		if free || given && !byID {
			r.Ob("protected", fn+" "+p.InstrPos(ci.Instr))
		} else {
			r.Bad("protected", fn+" "+termKind(node), p.InstrPos(ci.Instr), fn+" deletes a node without knowing that it is not protected", st.Trace(10)...)
		}
		return ActOpaque
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS || !idx[bo.X] {
			return
		}
		key := "turn:" + bo.X.Name()
		if st.Has(key) && !st.Has("did") && !st.Has("spared") {
			r.Bad("all", fn+" passes over", p.InstrPos(iff), fn+" passes over a node it should delete", st.Trace(8)...)
		}
		st.Del(key)
		st.Del("did")
		st.Del("spared")
		if to == from.Succs[0] {
			st.Set(key, one(x))
			r.Ob("all", fn+" turn "+bo.X.Name())
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if !byID || len(res) == 0 {
			return
		}
		e := res[len(res)-1].Strip()
		if e.Op == "call" {
			if g := p.FuncOpt(e.Name); st.Has("err:"+itoa(termID(e))) || g == nil || !dels[g] {
				return
			}
		} else if !isNilT(e) {
			return
		}
		d := st.Get("deleted")
		if d != nil && looksUp(d) {
			r.Ob("all", fn+" deletes the node")
		} else {
			r.Bad("all", fn+" node", p.InstrPos(in), fn+" reports success without having deleted the node", st.Trace(8)...)
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
	// the loop is not left early, except with an error
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS || !idx[bo.X] {
			continue
		}
		for _, w := range leavesLoopAll(b) {
			okRet := false
			for _, s := range w.Succs {
				if ret, isR := s.Instrs[len(s.Instrs)-1].(*ssa.Return); isR && len(ret.Results) > 0 {
					if k, isC := ret.Results[len(ret.Results)-1].(*ssa.Const); !isC || !k.IsNil() {
						okRet = true
					}
				}
			}
			if !okRet {
				r.Bad("all", fn+" leaves", p.InstrPos(iff), fn+" leaves its loop over the nodes to delete before it has visited them all")
			}
		}
	}
}

func termKind(t *Term) string {
	if looksUp(t) {
		return "found by id"
	}
	return "child"
}

// protection: the predicate holds for namespace 0.
func (c *p24) protection(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	kinds := []string{"ua.NodeIDNumeric", "ua.NodeIDString", "ua.NodeIDGUID", "ua.NodeIDOpaque"}
	h := Hooks{MaxDepth: 3}
	h.Inline = func(g *ssa.Function) bool { return g != f && p.InModule(g) && small(g, 20) }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "extract" && nc.Name == "1" && nc.Args[0].Op == "assert" {
			if n := TypeName(nc.Args[0].Typ); want {
				st.Set("is:"+n, nc)
			} else {
				st.Set("not:"+n, nc)
			}
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.Op == "const" || isNilT(a) {
			a, b = b, a
		}
		if n, isN := constNum(b.Strip()); isN && n == 0 && mentions(a, "NamespaceIndex") && !eq {
			st.Set("other", a)
		}
		if isNilT(b) && eq && a.Strip().Op == "param" {
			st.Set("nil", a)
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		b, isC := res[0].ConstBool()
		if isC && b {
			r.Ob("protected", fn+" true")
			return
		}
		if !isC && res[0].Strip().Op == "bin" && mentions(res[0], "NamespaceIndex") {
			// return v.NamespaceIndex == 0
			t := res[0].Strip()
			n, ok := constNum(t.Args[1].Strip())
			if ok && n == 0 && t.Name == "==" {
				r.Ob("protected", fn+" tests the namespace")
				return
			}
		}
		if st.Has("other") || st.Has("nil") {
			r.Ob("protected", fn+" false")
			return
		}
		for _, k := range kinds {
			if st.Has("is:"+k) || !st.Has("not:"+k) {
				r.Bad("protected", fn+" "+k, p.InstrPos(in), fn+" can say that a node of namespace 0 with a "+k+" is not protected", st.Trace(10)...)
				return
			}
		}
		r.Ob("protected", fn+" false for unknown kinds")
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

// leavesLoopAll: the blocks of the loop with header h, other than h, that can leave it, in order.
func leavesLoopAll(h *ssa.BasicBlock) []*ssa.BasicBlock {
	in := naturalLoop(h)
	var out []*ssa.BasicBlock
	for _, b := range h.Parent().Blocks {
		if b == h || !in[b] {
			continue
		}
		for _, s := range b.Succs {
			if !in[s] {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

// naturalLoop: the blocks of the loop with header h.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	work := []*ssa.BasicBlock{}
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}
