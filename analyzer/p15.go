package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P15", "Every path of the write service to the application's write handler and to the stored value is enumerated with the facts of its type switch: the value has been found to be of one Go type, and the variable's built-in type and value rank have been found to be the ones that type has (the built-in type ids of the OPC UA standard), or nothing is written; the result of the handler or of the range write is stored only after its status was found Good. The range functions slice a value only with bounds computed for the length of that value and after their status was found not Bad, a range write that reports Good has found the written value to be of the type of the stored one and as long as the range, and the function that computes bounds is shown, by difference constraints over every path, to return 0 <= i < j <= length.", runP15)
}

// builtinIDs: the Go types of the values of the built-in types (OPC UA Part 6, 5.1.2).
var builtinIDs = map[string]int{
	"bool": 1, "int8": 2, "uint8": 3, "byte": 3, "int16": 4, "uint16": 5, "int32": 6, "uint32": 7, "int64": 8, "uint64": 9,
	"float32": 10, "float64": 11, "string": 12, "time.Time": 13, "uuid.UUID": 14, "ua.ByteString": 15, "ua.XMLElement": 16,
	"ua.NodeID": 17, "ua.ExpandedNodeID": 18, "ua.StatusCode": 19, "ua.QualifiedName": 20, "ua.LocalizedText": 21,
	"ua.ExtensionObject": 22, "ua.DataValue": 23, "ua.Variant": 24, "ua.DiagnosticInfo": 25,
}

func goName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type p15 struct {
	p      *Program
	r      *Report
	srv    *ssa.Package
	bounds map[*ssa.Function]bool
}

func runP15(p *Program, r *Report) {
	r.Rule("typed: a value reaches the write handler or the variable only when its type and rank are the declared ones")
	r.Rule("stored: only a result reported Good replaces the value")
	r.Rule("range: a value is sliced only by bounds computed for its own length")
	r.Rule("replaced: a range write that succeeds was given a value of the same type and of the range's length")
	r.Rule("bounds: a range that is accepted lies inside the value")
	c := &p15{p: p, r: r, srv: p.SSA["server"], bounds: map[*ssa.Function]bool{}}
	for _, f := range p.Funcs {
		if f.Pkg != c.srv || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if ps.Len() == 2 && rs.Len() == 3 && ps.At(0).Type().String() == "string" && ps.At(1).Type().String() == "int" && TypeName(rs.At(2).Type()) == "ua.StatusCode" {
			c.bounds[f] = true
			c.parse(f)
		}
	}
	r.Min("bounds", 2)
	writes, ranges := 0, 0
	for _, f := range p.Funcs {
		if f.Pkg != c.srv || f.Parent() != nil {
			continue
		}
		if c.isWrite(f) {
			writes++
			c.write(f)
		}
		uses := false
		EachCall(f, func(_ ssa.CallInstruction, _ string, g *ssa.Function) { uses = uses || g != nil && c.bounds[g] })
		if uses && !c.bounds[f] {
			ranges++
			c.ranges(f)
		}
	}
	if writes == 0 {
		r.Bad("typed", "write", "-", "no function writes the value of a variable")
	}
	c.tables()
	r.Min("typed", 60)
	r.Min("stored", 2)
	r.Min("range", 40)
	r.Min("replaced", 20)
}

// isWrite: takes a WriteValue and sets the value of a variable.
func (c *p15) isWrite(f *ssa.Function) bool {
	has := false
	for _, q := range f.Params {
		has = has || TypeName(q.Type()) == "ua.WriteValue"
	}
	if !has {
		return false
	}
	sets := false
	EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
		sets = sets || strings.HasSuffix(n, "VariableNode.SetValue") || strings.HasSuffix(n, "getWriteValueHandler")
	})
	return sets
}

const (
	rankScalar, rankScalarOrOne, rankAny, rankOneOrMore, rankOne = -1, -3, -2, 0, 1
)

func (c *p15) write(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
	isVT := func(t *Term) bool {
		return t.Strip().Op == "call" && strings.HasSuffix(t.Strip().Name, ".FindVariantType")
	}
	isRank := func(t *Term) bool {
		return t.Strip().Op == "call" && strings.HasSuffix(t.Strip().Name, ".ValueRank") || lastField(t.Strip()) == "valueRank"
	}
	isKind := func(t *Term) bool { return t.Strip().Op == "call" && strings.HasSuffix(t.Strip().Name, ".Kind") }
	h := Hooks{MaxDepth: 4}
	h.Inline = func(g *ssa.Function) bool {
		if g == f || g.Pkg != c.srv || g.Signature.Results().Len() == 0 {
			return false
		}
		if strings.HasSuffix(FuncName(g), ".SetValue") || c.isWrite(g) || strings.HasSuffix(FuncName(g), ".FindVariantType") || strings.HasSuffix(FuncName(g), ".ValueRank") {
			return false
		}
		takes := false
		for _, q := range g.Params {
			n := goName(q.Type())
			takes = takes || n == "ua.Variant" || n == "any" || n == "interface{}" || n == "ua.WriteValue" || n == "int32" || n == "uint8" || n == "byte"
		}
		res := goName(g.Signature.Results().At(g.Signature.Results().Len() - 1).Type())
		return takes && (res == "ua.StatusCode" || res == "bool" || res == "error")
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "extract" && nc.Name == "1" && nc.Args[0].Op == "assert" {
			v := nc.Args[0].Args[0].Strip()
			if !isWritten(v) {
				return
			}
			k := itoa(termID(v))
			n := goName(nc.Args[0].Typ)
			st.Set("last", v)
			if want {
				st.Set("is:"+k, x.T.mk("const", n, nil, nil, nil, nc.Args[0].Typ))
			} else {
				st.Set("not:"+k+":"+n, nc)
			}
			return
		}
		if nc.Op != "bin" {
			if nc.Op == "call" && strings.HasSuffix(nc.Name, "StatusCode.IsGood") && want {
				st.Set("good:"+itoa(termID(nc.Args[0].Strip())), nc)
			}
			return
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		for k := 0; k < 2; k++ {
			switch {
			case isNilT(b) && eq && isWritten(a.Strip()):
				st.Set("last", a.Strip())
				st.Set("nil:"+itoa(termID(a.Strip())), a)
			case isVT(a) && eq:
				st.Set("dt", b.Strip())
			case isRank(a) && eq:
				st.Set("rk", b.Strip())
			case isKind(a) && eq:
				st.Set("kind", b.Strip())
			case b.Strip().Op == "const" && eq && a.Strip().Op == "extract" && !isNilT(b):
				if n, isN := constNum(b.Strip()); isN && n == 0 {
					st.Set("good:"+itoa(termID(a.Strip())), a)
				}
				st.Set("num:"+itoa(termID(a.Strip())), b.Strip())
			}
			a, b = b, a
		}
	}
	sink := func(x *Exec, st *State, where, what string) {
		v := st.Get("last")
		if v == nil {
			r.Bad("typed", fn+" "+what, where, fn+" "+what+" without looking at the type of the value", st.Trace(10)...)
			return
		}
		k := itoa(termID(v))
		if st.Has("nil:" + k) {
			r.Ob("typed", fn+" null "+what)
			return
		}
		dt, rk := st.Get("dt"), st.Get("rk")
		dn, dOK := constNum(dt)
		rn, rOK := constNum(rk)
		is := st.Get("is:" + k)
		name := "another type"
		var okT, okR bool
		switch {
		case is != nil:
			name = is.Name
			t := is.Typ
			dims := 0
			for {
				s, isS := t.(*types.Slice)
				if !isS {
					break
				}
				t, dims = s.Elem(), dims+1
			}
			id, known := builtinIDs[goName(t)]
			if !known {
				id = 22
			}
			okT = dOK && (int(dn) == id || int(dn) == 24)
			if dims == 0 {
				okR = rOK && (rn == rankScalar || rn == rankScalarOrOne || rn == rankAny)
			} else {
				okR = rOK && (int(rn) == dims || rn == rankOneOrMore || rn == rankAny || dims == 1 && rn == rankScalarOrOne)
			}
		default:
			kn, _ := constNum(st.Get("kind"))
			switch int(kn) {
			case 25: // a structure
				name = "a structure"
				okT = dOK && (dn == 22 || dn == 24)
				okR = rOK && (rn == rankScalar || rn == rankScalarOrOne || rn == rankAny)
				for _, n := range []string{"time.Time", "ua.DataValue", "ua.DiagnosticInfo", "ua.ExpandedNodeID", "ua.QualifiedName", "ua.LocalizedText"} {
					if !st.Has("not:"+k+":"+n) && dn != 24 {
						okT, name = false, n
					}
				}
			case 23, 17:
				name = "an array of another type"
				call := func(t *Term) *Term {
					if t != nil && t.Op == "extract" && t.Args[0].Op == "call" {
						return t.Args[0]
					}
					return nil
				}
				elem := call(dt)
				okT = dOK && dn == 24 || elem != nil
				switch {
				case rOK && (rn == rankOneOrMore || rn == rankAny):
					okR = true
				case rOK && rn == rankScalarOrOne:
					for _, q := range sortedKeys(st.A) {
						if strings.HasPrefix(q, "num:") && st.A[q].Name == "1" {
							okR = true
						}
					}
				default:
					okR = call(rk) != nil
				}
			}
		}
		switch {
		case !okT:
			r.Bad("typed", fn+" type "+name, where, fn+" "+what+" although it has not found the variable's type to be that of the value ("+name+")", st.Trace(12)...)
		case !okR:
			r.Bad("typed", fn+" rank "+name, where, fn+" "+what+" although it has not found the variable's rank to be that of the value ("+name+")", st.Trace(12)...)
		default:
			r.Ob("typed", fn+" "+name+" "+what)
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		where := p.InstrPos(ci.Instr)
		switch {
		case strings.HasSuffix(ci.Name, "VariableNode.SetValue"):
			if len(ci.Args) < 2 {
				return ActDefault
			}
			v := ci.Args[1].Strip()
			if v.Op == "extract" && v.Name == "0" {
				ok := false
				for _, q := range sortedKeys(st.A) {
					if strings.HasPrefix(q, "good:") {
						for _, s := range []*Term{st.A[q], st.A[q].Strip()} {
							s.Contains(func(u *Term) bool {
								ok = ok || u.Op == "extract" && u.Name == "1" && u.Args[0] == v.Args[0]
								return false
							})
						}
					}
				}
				if ok {
					r.Ob("stored", fn+" "+where)
				} else {
					r.Bad("stored", fn, where, fn+" stores the result of a write whose status it has not found to be Good", st.Trace(8)...)
				}
			}
			sink(x, st, where, "stores a value")
		case ci.Callee != nil || ci.Fn == nil && ci.Name == "":
			fallthrough
		default:
			if ci.Fn == nil && !ci.Invoke && !strings.HasPrefix(ci.Name, "builtin.") {
				com := ci.Instr.(ssa.CallInstruction).Common()
				for _, a := range com.Args {
					if TypeName(a.Type()) == "ua.WriteValue" {
						sink(x, st, where, "calls the write handler")
						break
					}
				}
			}
		}
		return ActDefault
	}
	_ = one
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

// isWritten: (part of) the value of the request.
func isWritten(t *Term) bool {
	return t.Contains(func(u *Term) bool {
		_, path := u.FieldPath()
		n := len(path)
		return n >= 2 && path[n-1] == "Value" && path[n-2] == "Value" || u.Op == "param" && (goName(u.Typ) == "ua.Variant" || goName(u.Typ) == "any")
	})
}

// tables: maps from Go types to built-in type ids.
func (c *p15) tables() {
	p, r := c.p, c.r
	for _, f := range c.srv.Members {
		ini, ok := f.(*ssa.Function)
		if !ok || !strings.HasPrefix(ini.Name(), "init") {
			continue
		}
		for _, b := range ini.Blocks {
			for _, i := range b.Instrs {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				m := mu.Map.Type().Underlying().(*types.Map)
				if m.Key().String() != "reflect.Type" {
					continue
				}
				k, isC := mu.Value.(*ssa.Const)
				t := reflectedType(mu.Key)
				if !isC || t == nil {
					r.Bad("typed", "table", p.InstrPos(i), "an entry of the table of built-in types cannot be read")
					continue
				}
				id, known := builtinIDs[goName(t)]
				if known && int64(id) == k.Int64() {
					r.Ob("typed", "table "+goName(t))
				} else {
					r.Bad("typed", "table "+goName(t), p.InstrPos(i), "the table of built-in types gives "+goName(t)+" the wrong type id")
				}
			}
		}
	}
}

// reflectedType: the type of reflect.TypeOf(v), reflect.TypeOf((*T)(nil)).Elem() or reflect.TypeFor[T]().
func reflectedType(v ssa.Value) types.Type {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if call.Call.IsInvoke() {
		if call.Call.Method.Name() == "Elem" {
			if t := reflectedType(call.Call.Value); t != nil {
				switch u := t.Underlying().(type) {
				case *types.Pointer:
					return u.Elem()
				case *types.Slice:
					return u.Elem()
				}
			}
		}
		return nil
	}
	n, g := CallName(call.Common())
	if n == "reflect.TypeOf" {
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	if strings.HasPrefix(n, "reflect.TypeFor") && g != nil && len(g.TypeArgs()) == 1 {
		return g.TypeArgs()[0]
	}
	return nil
}

// ranges: a function that slices values by bounds it has computed.
func (c *p15) ranges(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	isB := func(t *Term) bool {
		if t.Op != "call" {
			return false
		}
		g := p.FuncOpt(t.Name)
		return g != nil && c.bounds[g]
	}
	part := func(t *Term, n string) *Term {
		t = t.Strip()
		if t.Op == "extract" && t.Name == n && isB(t.Args[0].Strip()) {
			return t.Args[0].Strip()
		}
		return nil
	}
	res := f.Signature.Results()
	writes := res.Len() == 2 && TypeName(res.At(1).Type()) == "ua.StatusCode"
	h := Hooks{MaxDepth: 2}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "call" && strings.HasSuffix(nc.Name, "StatusCode.IsBad") && !want || nc.Op == "call" && strings.HasSuffix(nc.Name, "StatusCode.IsGood") && want {
			if b := part(nc.Args[0], "2"); b != nil {
				st.Set("fine:"+itoa(termID(b)), b)
			}
		}
		if nc.Op == "extract" && nc.Name == "1" && nc.Args[0].Op == "assert" && want {
			v := nc.Args[0].Args[0].Strip()
			base, _ := v.FieldPath()
			if base != nil && base.Strip().Op == "param" {
				st.Set("is:"+base.Strip().Name, x.T.mk("const", goName(nc.Args[0].Typ), nil, nil, nil, nc.Args[0].Typ))
			}
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			for k := 0; k < 2; k++ {
				a, b = b, a
				as := a.Strip()
				if bb := part(a, "2"); bb != nil {
					if n, isN := constNum(b.Strip()); isN && n == 0 {
						st.Set("fine:"+itoa(termID(bb)), bb)
					}
				}
				if as.Op == "bin" && as.Name == "-" && part(as.Args[0], "1") != nil && part(as.Args[0], "1") == part(as.Args[1], "0") && b.Strip().IsCall("builtin.len") {
					st.Set("fits", b.Strip())
				}
				if as.Op == "param" && b.Strip().Op == "const" && (b.Strip().Name == `""` || b.Strip().Name == "") {
					st.Set("whole", as)
				}
				if as.IsCall("builtin.len") && as.Args[0].Strip().Op == "param" {
					if n, isN := constNum(b.Strip()); isN && n == 0 {
						st.Set("whole", as)
					}
				}
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Slice)
		if !ok || s.Low == nil && s.High == nil {
			return
		}
		where := p.InstrPos(in)
		bad := func(msg string) { r.Bad("range", fn+" "+goName(s.X.Type()), where, fn+" "+msg, st.Trace(8)...) }
		if s.Low == nil || s.High == nil {
			bad("slices a value by something other than the bounds of the range")
			return
		}
		lo, hi := part(x.Val(st, s.Low), "0"), part(x.Val(st, s.High), "1")
		if lo == nil || lo != hi {
			bad("slices a value by something other than the bounds of the range")
			return
		}
		if !st.Has("fine:" + itoa(termID(lo))) {
			bad("slices a value by bounds that may have been refused")
			return
		}
		if n := lo.Args[len(lo.Args)-1].Strip(); !sameLength(n, x.Val(st, s.X)) || !sameUnits(s) {
			bad("slices a value by bounds that were computed for the length of another")
			return
		}
		r.Ob("range", fn+" "+where)
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if !writes {
			return
		}
		if n, ok := constNum(res[1].Strip()); !ok || n != 0 {
			return
		}
		where := p.InstrPos(in)
		if st.Has("whole") {
			r.Ob("replaced", fn+" whole")
			return
		}
		var ts []*Term
		for _, k := range sortedKeys(st.A) {
			if strings.HasPrefix(k, "is:") {
				ts = append(ts, st.A[k])
			}
		}
		switch {
		case len(ts) < 2 || !types.Identical(ts[0].Typ, ts[1].Typ):
			r.Bad("replaced", fn+" type", where, fn+" writes a range although the written value was not found to be of the type of the stored one", st.Trace(10)...)
		case !st.Has("fits"):
			r.Bad("replaced", fn+" length "+ts[0].Name, where, fn+" writes a range although the written value was not found to be as long as the range", st.Trace(10)...)
		default:
			r.Ob("replaced", fn+" "+ts[0].Name)
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

// sameLength: n is known to be the length of v.
func sameLength(n, v *Term) bool {
	if !n.IsCall("builtin.len") {
		return false
	}
	y := sized(n.Args[0])
	v = sized(v)
	for d := 0; d < 4; d++ {
		if v == y || v.Op == "load" && y.Op == "load" && v.String() == y.String() {
			return true
		}
		if v.Op != "make" || len(v.Args) == 0 {
			return false
		}
		// made with that length
		l := v.Args[0].Strip()
		if l == n {
			return true
		}
		if !l.IsCall("builtin.len") {
			return false
		}
		v = sized(l.Args[0])
	}
	return false
}

// sized strips conversions.
func sized(t *Term) *Term { return t.Strip() }

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32 && types.Identical(s.Elem(), types.Typ[types.Int32])
}

// sameUnits: the length was taken in the units the slice is cut in (a string and its runes differ).
func sameUnits(s *ssa.Slice) bool {
	e, ok := s.Low.(*ssa.Extract)
	if !ok {
		return true
	}
	call, ok := e.Tuple.(*ssa.Call)
	if !ok || len(call.Call.Args) == 0 {
		return true
	}
	l, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.Call)
	if !ok || len(l.Call.Args) != 1 {
		return true
	}
	if _, isB := l.Call.Value.(*ssa.Builtin); !isB {
		return true
	}
	str := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	return !(isRunes(s.X.Type()) && str(l.Call.Args[0].Type()) || str(s.X.Type()) && isRunes(l.Call.Args[0].Type()))
}

// parse: the function that computes bounds.
func (c *p15) parse(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	h := Hooks{MaxDepth: 3}
	h.Inline = func(g *ssa.Function) bool { return g != f && g.Pkg == c.srv && small(g, 12) }
	add := func(x *Exec, st *State, a, b *Term, k int64) { // a - b <= k
		st.Set("d:"+itoa(termID(a))+":"+itoa(termID(b))+":"+i64(k), x.T.mk("tuple", i64(k), []*Term{a, b}, nil, nil, nil))
	}
	var n *Term // the length
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if n == nil && in.Parent() == f {
			n = x.Val(st, f.Params[1]).Strip()
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op != "bin" {
			return
		}
		op := nc.Name
		if !want {
			op = negTerm(op)
		}
		zero := x.T.mk("const", "0", nil, nil, nil, nil)
		a, ka := linear15(nc.Args[0], zero)
		b, kb := linear15(nc.Args[1], zero)
		if a == nil || b == nil {
			return
		}
		// a+ka op b+kb
		switch op {
		case "<":
			add(x, st, a, b, kb-ka-1)
		case "<=":
			add(x, st, a, b, kb-ka)
		case ">":
			add(x, st, b, a, ka-kb-1)
		case ">=":
			add(x, st, b, a, ka-kb)
		case "==":
			add(x, st, a, b, kb-ka)
			add(x, st, b, a, ka-kb)
		case "!=":
			// the length is never negative: if it is not 0, it is 1 or more
			if a == zero {
				a, b, ka, kb = b, a, kb, ka
			}
			if b == zero && ka == kb && a == n {
				add(x, st, zero, a, -1)
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if n, ok := constNum(res[2].Strip()); ok && n >= float64(0x80000000) {
			return
		}
		zero := x.T.mk("const", "0", nil, nil, nil, nil)
		i, ki := linear15(res[0], zero)
		j, kj := linear15(res[1], zero)
		if n == nil {
			return
		}
		add(x, st, zero, n, 0)                    // the length of a value is never negative
		prove := func(a, b *Term, k int64) bool { // a - b <= k
			d, ok := shortest(st, a, b)
			return ok && d <= k || a == b && k >= 0
		}
		where := p.InstrPos(in)
		switch {
		case i == nil || j == nil:
			r.Bad("bounds", fn+" value", where, fn+" accepts a range with bounds that cannot be followed", st.Trace(10)...)
		case !prove(zero, i, ki):
			r.Bad("bounds", fn+" lower", where, fn+" accepts a range that may begin before the value", st.Trace(10)...)
		case !prove(i, j, kj-ki-1):
			r.Bad("bounds", fn+" order", where, fn+" accepts a range that may end before it begins", st.Trace(10)...)
		case !prove(j, n, -kj):
			r.Bad("bounds", fn+" upper", where, fn+" accepts a range that may end after the value", st.Trace(10)...)
		default:
			r.Ob("bounds", fn+" "+where+" "+itoa(termID(i))+" "+itoa(termID(j)))
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

func i64(k int64) string {
	if k < 0 {
		return "-" + itoa(int(-k))
	}
	return itoa(int(k))
}

// linear15: t = base + k.
func linear15(t, zero *Term) (*Term, int64) {
	t = t.Strip()
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0].Strip()
	}
	if n, ok := constNum(t); ok {
		return zero, int64(n)
	}
	if t.Op == "bin" && (t.Name == "+" || t.Name == "-") {
		a, ka := linear15(t.Args[0], zero)
		if n, ok := constNum(t.Args[1].Strip()); ok && a != nil {
			if t.Name == "-" {
				n = -n
			}
			return a, ka + int64(n)
		}
		if n, ok := constNum(t.Args[0].Strip()); ok && t.Name == "+" {
			b, kb := linear15(t.Args[1], zero)
			if b != nil {
				return b, kb + int64(n)
			}
		}
		return nil, 0
	}
	switch t.Op {
	case "param", "extract", "call":
		return t, 0
	}
	return nil, 0
}

// shortest: the least k for which a - b <= k follows.
func shortest(st *State, a, b *Term) (int64, bool) {
	type con struct {
		a, b *Term
		k    int64
	}
	var cs []con
	keys := sortedKeys(st.A)
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "d:") {
			t := st.A[k]
			n, _ := constNum(&Term{Op: "const", Name: t.Name})
			cs = append(cs, con{t.Args[0], t.Args[1], int64(n)})
		}
	}
	dist := map[*Term]int64{a: 0} // a - x <= dist[x]
	for n := 0; n <= len(cs)+1; n++ {
		done := true
		for _, q := range cs {
			if d, ok := dist[q.a]; ok {
				if o, ok := dist[q.b]; !ok || d+q.k < o {
					dist[q.b] = d + q.k
					done = false
				}
			}
		}
		if done {
			break
		}
	}
	d, ok := dist[b]
	return d, ok
}
