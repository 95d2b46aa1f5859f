package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- allocation ---------------------------------------------------------------------------------

// bounded: decoder methods that fill an integer (or a list of them) and refuse what exceeds the bytes that remain.
func (c *p07) boundedReaders() map[string]bool {
	out := map[string]bool{}
	for _, fn := range c.p.Funcs {
		if RecvType(fn) != "ua.BinaryDecoder" || len(fn.Params) < 2 {
			continue
		}
		pt, ok := fn.Params[1].Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		switch pt.Elem().String() {
		case "int32", "int", "int64", "uint32":
			if c.boundsByLen(fn) {
				out[FuncName(fn)] = true
			}
		case "[]int32":
			if c.boundsByProduct(fn) {
				out[FuncName(fn)] = true
			}
		}
	}
	return out
}

// boundsByLen: success is returned only after the value was compared with Len() of the reader, on every path on
// which the reader is known to have one.
func (c *p07) boundsByLen(fn *ssa.Function) bool {
	seen, ok := false, true
	h := Hooks{MaxDepth: 2}
	h.Inline = func(f *ssa.Function) bool { return false }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		n, tk := NormCond(cond, taken)
		if n.Op == "extract" && n.Args[0].Op == "assert" {
			if tk {
				st.Set("has", n.Args[0])
			}
			return
		}
		if n.Op == "bin" && strings.Contains("< <= > >=", n.Name) {
			lenSide := -1
			for i, a := range n.Args {
				if a.Strip().Op == "call" && strings.HasSuffix(a.Strip().Name, "Len") {
					lenSide = i
				}
			}
			if lenSide < 0 {
				return
			}
			op := n.Name
			if !tk {
				op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
			}
			// value <= len
			if lenSide == 1 && (op == "<=" || op == "<") || lenSide == 0 && (op == ">=" || op == ">") {
				st.Set("cmp", x.Flag())
				seen = true
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if res[len(res)-1].IsNil() && st.Has("has") && !st.Has("cmp") {
			ok = false
		}
	}
	x := NewExec(c.p, h)
	x.Run(fn, nil)
	if !seen || !ok {
		return false
	}
	// the readers in use are covered
	var ifs []*types.Interface
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ta, isTA := in.(*ssa.TypeAssert); isTA {
				if it, isI := ta.AssertedType.Underlying().(*types.Interface); isI {
					ifs = append(ifs, it)
				}
			}
		}
	}
	for _, g := range c.p.Funcs {
		if g.Pkg == nil || g.Pkg.Pkg.Name() != "server" && g.Pkg.Pkg.Name() != "client" {
			continue
		}
		EachCall(g, func(ci ssa.CallInstruction, _ string, _ *ssa.Function) {
			n, _ := CallName(ci.Common())
			if n != "ua.NewBinaryDecoder" {
				return
			}
			var t types.Type
			switch mi := ci.Common().Args[0].(type) {
			case *ssa.MakeInterface:
				t = mi.X.Type()
			case *ssa.ChangeInterface:
				t = mi.X.Type()
			default:
				t = mi.Type()
			}
			cov := false
			for _, it := range ifs {
				if types.Implements(t, it) {
					cov = true
				}
			}
			c.r.Ob("alloc", "reader "+TypeName(derefType(t))+" in "+FuncName(g))
			if !cov {
				c.r.Bad("alloc", "reader/"+FuncName(g), c.p.InstrPos(ci.(ssa.Instruction)), "the decoder cannot tell how many bytes remain of this reader ("+t.String()+"): a declared length is not bounded")
			}
		})
	}
	return true
}

// boundsByProduct: success only when the product of the dimensions, none negative, equals the number of elements.
func (c *p07) boundsByProduct(fn *ssa.Function) bool {
	good, any := true, false
	neg, size := false, false
	h := Hooks{MaxDepth: 2}
	h.Inline = func(f *ssa.Function) bool { return false }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			for _, t := range []*Term{a, b} {
				if t.Strip().Op == "param" && t.Strip() == x.Val(st, fn.Params[len(fn.Params)-1]).Strip() {
					st.Set("eq", x.Flag())
				}
			}
		}
		n, tk := NormCond(cond, taken)
		if n.Op == "bin" {
			for i, a := range n.Args {
				if k, isK := numConst(a); isK && k == 0 && n.Args[1-i].Strip().Contains(func(t *Term) bool { return t.Op == "index" || t.Op == "indexaddr" }) {
					op := n.Name
					if !tk {
						op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
					}
					if i == 0 {
						op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
					}
					if op == "<" {
						neg = true
						st.Set("isneg", x.Flag())
					}
				}
				if a.Strip().Op == "phi" || isBinTerm(a) {
					if b := n.Args[1-i].Strip(); strings.ContainsAny(n.Name, "<>") && (b.Op == "param" || b.Op == "const" && b.Name != "0") {
						size = true
					}
				}
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if res[len(res)-1].IsNil() {
			any = true
			if !st.Has("eq") || st.Has("isneg") {
				good = false
			}
		}
	}
	x := NewExec(c.p, h)
	x.Run(fn, nil)
	return good && any && neg && size
}

func isBinTerm(t *Term) bool { return t.Strip().Op == "bin" }

func (c *p07) allocs() {
	bounded := c.boundedReaders()
	if len(bounded) == 0 {
		c.r.Bad("alloc", "bounded", "-", "no function of the decoder compares a declared length with the bytes that remain")
		return
	}
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "ua" || !c.decoding(fn) {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeSlice:
					_, k := v.Len.(*ssa.Const)
					has = has || !k
				case *ssa.Call:
					n, _ := CallName(v.Common())
					has = has || n == "reflect.MakeSlice"
				}
			}
		}
		if has {
			c.allocsIn(fn, bounded)
		}
	}
}

func (c *p07) allocsIn(fn *ssa.Function, bounded map[string]bool) {
	name := FuncName(fn)
	h := Hooks{MaxDepth: 2, SkipClosures: func(*CallInfo, *Term) bool { return true }}
	h.Inline = func(f *ssa.Function) bool { return false }
	cell := func(t *Term) *Term {
		t = t.Strip()
		if t.Op == "load" {
			a := t.Args[0]
			for a.Op == "indexaddr" || a.Op == "fieldaddr" || a.Op == "load" {
				a = a.Args[0].Strip()
			}
			if a.Op == "alloc" {
				return a
			}
		}
		if t.Op == "index" {
			return nil
		}
		return nil
	}
	check := func(x *Exec, st *State, n *Term, in ssa.Instruction) {
		c.r.Ob("alloc", name+" "+c.p.InstrPos(in))
		n = n.Strip()
		if n.Op == "const" || n.IsCall("builtin.len", "builtin.cap") {
			return
		}
		a := cell(n)
		if a == nil || !st.Has("bnd:"+a.Key()) {
			c.r.Bad("alloc", name, c.p.InstrPos(in), "the size of the allocation comes from the wire and is not compared with the bytes that remain", st.Trace(6)...)
			return
		}
		if st.Get("bnd:"+a.Key()).Name == "int" && !st.Has("pos:"+n.Key()) {
			c.r.Bad("alloc", name+"/negative", c.p.InstrPos(in), "the size of the allocation may be negative", st.Trace(6)...)
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "reflect.MakeSlice" && len(ci.Args) > 1 {
			check(x, st, ci.Args[1], ci.Instr)
		}
		for _, a := range ci.Args {
			if a != nil && a.Strip().Op == "alloc" && strings.HasPrefix(ci.Name, "ua.BinaryDecoder.") {
				k := "bnd:" + a.Strip().Key()
				if bounded[ci.Name] {
					kind := "int"
					if pt, ok := a.Strip().Typ.Underlying().(*types.Pointer); ok && strings.HasPrefix(pt.Elem().String(), "[]") {
						kind = "dims"
					}
					st.Set(k, x.T.mk("const", kind, nil, nil, nil, nil))
				} else {
					st.Del(k)
				}
				for q := range st.A {
					if strings.HasPrefix(q, "pos:") {
						st.Del(q)
					}
				}
			}
		}
		return ActDefault
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		n, tk := NormCond(cond, taken)
		if n.Op != "bin" {
			return
		}
		for i, a := range n.Args {
			k, isK := numConst(a)
			if !isK || k != 0 && k != -1 {
				continue
			}
			v := n.Args[1-i].Strip()
			op := n.Name
			if !tk {
				op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
			}
			if i == 0 {
				op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
			}
			if k == 0 && (op == ">=" || op == ">") || k == -1 && op == ">" {
				st.Set("pos:"+v.Key(), x.Flag())
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if mk, ok := in.(*ssa.MakeSlice); ok {
			check(x, st, x.Val(st, mk.Len), in)
		}
	}
	x := NewExec(c.p, h)
	x.Run(fn, nil)
	c.r.Saw(x)
}

// ---- nesting ------------------------------------------------------------------------------------

// depth: remove the functions that check and count the nesting; what remains of the decoder's call graph must
// not be recursive, apart from the per-type closures, whose nesting is that of the Go type.
func (c *p07) depth() {
	edges := map[*ssa.Function][]*ssa.Function{}
	guarded := map[*ssa.Function]bool{}
	var decs []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "ua" {
			continue
		}
		if RecvType(fn) == "ua.BinaryDecoder" || fn.Parent() != nil && len(fn.Params) > 0 && isDecoderType(fn.Params[0].Type()) || hasDecoderParam(fn) {
			decs = append(decs, fn)
		}
	}
	isDec := map[*ssa.Function]bool{}
	for _, f := range decs {
		isDec[f] = true
	}
	var closures []*ssa.Function
	for _, f := range decs {
		if f.Parent() != nil {
			closures = append(closures, f)
		}
	}
	for _, f := range decs {
		if c.countsDepth(f) {
			guarded[f] = true
			c.r.Ob("depth", "guard "+FuncName(f))
		}
		EachCall(f, func(ci ssa.CallInstruction, _ string, _ *ssa.Function) {
			cm := ci.Common()
			_, callee := CallName(cm)
			if callee != nil && isDec[callee] {
				edges[f] = append(edges[f], callee)
			}
			if callee == nil && !cm.IsInvoke() && f.Parent() == nil {
				// Decode calls the closures; closure to closure is bounded by the Go type
				if _, isB := cm.Value.(*ssa.Builtin); !isB && errIndex(cm.Signature()) >= 0 {
					edges[f] = append(edges[f], closures...)
				}
			}
		})
	}
	// cycles without guarded functions
	color := map[*ssa.Function]int{}
	var stack []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		color[f] = 1
		stack = append(stack, f)
		for _, g := range edges[f] {
			if guarded[g] {
				continue
			}
			switch color[g] {
			case 0:
				visit(g)
			case 1:
				var names []string
				on := false
				for _, s := range stack {
					if s == g {
						on = true
					}
					if on {
						names = append(names, FuncName(s))
					}
				}
				sort.Strings(names)
				c.r.Bad("depth", strings.Join(names, "+"), c.p.Pos(f.Pos()), "the decoder recurses through "+strings.Join(names, ", ")+" without passing the nesting limit", FuncName(f)+" calls "+FuncName(g))
			}
		}
		stack = stack[:len(stack)-1]
		color[f] = 2
	}
	for _, f := range decs {
		if !guarded[f] && color[f] == 0 {
			visit(f)
		}
	}
}

func hasDecoderParam(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if isDecoderType(q.Type()) {
			return true
		}
	}
	return false
}

// countsDepth: every path to a decoding call has compared the nesting counter with a constant and incremented it.
func (c *p07) countsDepth(fn *ssa.Function) bool {
	uses := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(derefType(fa.X.Type()), fa.Field) == "depth" {
				uses = true
			}
		}
	}
	if !uses {
		return false
	}
	good, any := true, false
	h := Hooks{MaxDepth: 1, SkipClosures: func(*CallInfo, *Term) bool { return true }}
	h.Inline = func(f *ssa.Function) bool { return false }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		n, tk := NormCond(cond, taken)
		if n.Op != "bin" {
			return
		}
		for i, a := range n.Args {
			if a.Strip().HasField("depth") && n.Args[1-i].Op == "const" {
				op := n.Name
				if !tk {
					op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
				}
				if i == 1 {
					op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
				}
				if op == "<" || op == "<=" {
					st.Set("checked", x.Flag())
				}
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(derefType(fa.X.Type()), fa.Field) == "depth" {
				b, isB := s.Val.(*ssa.BinOp)
				if isB && b.Op.String() == "+" {
					st.Set("inc", x.Flag())
				} else {
					st.Del("inc")
				}
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		cm := callCommon(ci.Instr)
		if cm != nil && !ci.Defer && c.decodeLike(cm) && !leafRead(ci.Name) {
			any = true
			if !st.Has("inc") || !st.Has("checked") {
				good = false
			}
		}
		return ActDefault
	}
	x := NewExec(c.p, h)
	x.Run(fn, nil)
	return good && any
}

// leafRead: reads that cannot recurse.
func leafRead(n string) bool {
	switch shortName(n) {
	case "ReadByte", "ReadInt32", "ReadUInt32", "ReadNodeID", "readLength", "ReadFull":
		return true
	}
	return false
}

// ---- assertions ---------------------------------------------------------------------------------

func (c *p07) asserts() {
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil {
			continue
		}
		switch fn.Pkg.Pkg.Name() {
		case "ua", "server", "client":
		default:
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || ta.CommaOk {
					continue
				}
				c.r.Ob("assert", FuncName(fn)+" "+ta.AssertedType.String())
				if why := c.fromPeer(ta.X, map[ssa.Value]bool{}); why != "" {
					c.r.Bad("assert", FuncName(fn)+"/"+TypeName(derefType(ta.AssertedType)), c.p.InstrPos(in), "a value from the peer ("+why+") is asserted to be "+ta.AssertedType.String()+" without checking: anything else panics")
				}
			}
		}
	}
}

// fromPeer: the value was decoded, or is part of something decoded.
func (c *p07) fromPeer(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			t := derefType(a.X.Type())
			n, ok := types.Unalias(t).(*types.Named)
			if ok && n.Obj().Pkg() != nil {
				f := fieldName(t, a.Field)
				switch {
				case n.Obj().Pkg().Name() == "ua" && types.IsInterface(v.Type()):
					return TypeName(t) + "." + f
				case n.Obj().Pkg().Path() == "crypto/x509" && f == "PublicKey":
					return "x509.Certificate.PublicKey"
				}
			}
			return ""
		case *ssa.IndexAddr:
			if w := c.fromPeer(a.X, seen); w != "" {
				return w
			}
			if sl, ok := a.X.Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) && strings.Contains(sl.Elem().String(), "ua.") {
				return sl.Elem().String() + " element"
			}
		case *ssa.Alloc:
			for _, ref := range *a.Referrers() {
				if ci, ok := ref.(ssa.CallInstruction); ok && c.decodeLike(ci.Common()) {
					return "decoded"
				}
				if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if w := c.fromPeer(s.Val, seen); w != "" {
						return w
					}
				}
			}
		}
	case *ssa.Field:
		n, ok := types.Unalias(v.X.Type()).(*types.Named)
		if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "ua" && types.IsInterface(v.Type()) {
			return TypeName(v.X.Type()) + "." + fieldName(v.X.Type(), v.Field)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if w := c.fromPeer(e, seen); w != "" {
				return w
			}
		}
	case *ssa.ChangeInterface:
		return c.fromPeer(v.X, seen)
	case *ssa.MakeInterface:
		return ""
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			n, _ := CallName(call.Common())
			if strings.HasSuffix(n, ".request") || strings.HasSuffix(n, ".Request") || strings.HasSuffix(n, ".readResponse") {
				return "result of " + n
			}
			if isErrorType(v.Type()) {
				return "error of " + n
			}
		}
	case *ssa.Call:
		if isErrorType(v.Type()) {
			n, _ := CallName(v.Common())
			return "error of " + n
		}
	}
	return ""
}
