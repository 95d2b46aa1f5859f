package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P06", "Registration audit: every RegisterBinaryEncodingID call of package ua is read off the initialisers (type and encoding id), compared with the standard id of the type's name and required to be a bijection; the registry functions are explored path by path (both directions stored under the right key, found by the parameter); the fields of every registered structure are compared in order with the standard's; the reflective struct encoder and decoder must visit the fields 0..NumField-1 in order, each once, at its own offset with the codec of its own type.", runP06)
}

func runP06(p *Program, r *Report) {
	r.Rule("register: a type is registered under the standard encoding id of its name; ids and types are unique")
	r.Rule("registry: registering stores id->type and type->id; finding loads the map keyed by the parameter")
	r.Rule("fields: the declared fields are the standard ones in the standard order with the standard types")
	r.Rule("order: structs are encoded and decoded field by field in declaration order")
	oracle := encodingOracle()
	vars := p.EncodingVars()

	// registrations
	byType := map[string]uint64{}
	byID := map[uint64]string{}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg != p.SSA["ua"] {
			continue
		}
		EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
			if name != "ua.RegisterBinaryEncodingID" {
				return
			}
			where := p.InstrPos(in)
			args := in.Common().Args
			t := reflectTypeArg(args[0])
			if t == nil {
				r.Bad("register", "untyped", where, "the type registered here is not fixed by the source")
				return
			}
			tn := strings.TrimPrefix(TypeName(t), "ua.")
			id, ok := encodingIDArg(args[1], vars)
			r.Ob("register", tn)
			r.SawFn(f)
			if !ok {
				r.Bad("register", tn, where, tn+" is registered under an id that is not fixed by the source")
				return
			}
			want, known := oracle[tn]
			if known && id != want {
				r.Bad("register", tn, where, fmt.Sprintf("%s is registered under encoding id %d, its standard id is %d", tn, id, want))
			}
			if o, dup := byType[tn]; dup && o != id {
				r.Bad("register", tn+"/two ids", where, fmt.Sprintf("%s is registered under the ids %d and %d", tn, o, id))
			}
			if o, dup := byID[id]; dup && o != tn {
				r.Bad("register", tn+"/shared id", where, fmt.Sprintf("%s and %s are registered under the same encoding id %d", o, tn, id))
			}
			byType[tn], byID[id] = id, tn
		})
	}
	structs := structOracle()
	for _, tn := range sortedKeys(structs) {
		if _, ok := oracle[tn]; !ok {
			continue
		}
		if _, ok := byType[tn]; !ok {
			r.Bad("register", tn+"/missing", "ua", tn+" is not registered with the codec")
		}
	}
	r.Min("register", len(structs))

	// fields
	for _, tn := range sortedKeys(structs) {
		n := p.Named("ua", tn)
		r.Ob("fields", tn)
		if n == nil {
			r.Bad("fields", tn, "ua", "the structure "+tn+" is not declared")
			continue
		}
		have := fieldTypes(p, n)
		want := structs[tn]
		where := p.Pos(n.Obj().Pos())
		if len(have) != len(want) {
			r.Bad("fields", tn, where, fmt.Sprintf("%s has %d fields, the standard %d", tn, len(have), len(want)))
			continue
		}
		for i := range want {
			if have[i] != want[i] {
				r.Bad("fields", tn+"."+want[i][0], where, fmt.Sprintf("field %d of %s is %s %s, the standard has %s %s", i, tn, have[i][0], have[i][1], want[i][0], want[i][1]))
				break
			}
		}
	}
	p06Registry(p, r)
	for _, n := range []string{"ua.getStructEncoder", "ua.getStructPtrEncoder", "ua.getStructDecoder", "ua.getStructPtrDecoder"} {
		p06Order(p, r, n)
	}
	r.Min("order", 8)
	r.Min("registry", 6)
}

// reflectTypeArg: the type a reflect.TypeOf/TypeFor expression denotes.
func reflectTypeArg(v ssa.Value) types.Type {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	n, _ := CallName(call.Common())
	switch {
	case n == "reflect.TypeOf":
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	case strings.HasSuffix(n, "reflect.Type.Elem"):
		x := call.Call.Value
		if !call.Call.IsInvoke() && len(call.Call.Args) > 0 {
			x = call.Call.Args[0]
		}
		if t := reflectTypeArg(x); t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	case strings.HasPrefix(n, "reflect.TypeFor"):
		if f, _ := call.Call.Value.(*ssa.Function); f != nil && len(f.TypeArgs()) == 1 {
			return f.TypeArgs()[0]
		}
	}
	return nil
}

// encodingIDArg: NewExpandedNodeID(ObjectIDXEncodingDefaultBinary), or the node id itself.
func encodingIDArg(v ssa.Value, vars map[string]uint64) (uint64, bool) {
	switch t := v.(type) {
	case *ssa.Call:
		n, _ := CallName(t.Common())
		if n == "ua.NewExpandedNodeID" && len(t.Call.Args) == 1 {
			return encodingIDArg(t.Call.Args[0], vars)
		}
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok {
			id, ok := vars[g.Name()]
			return id, ok
		}
	case *ssa.MakeInterface:
		return encodingIDArg(t.X, vars)
	case *ssa.ChangeInterface:
		return encodingIDArg(t.X, vars)
	}
	return numericNodeID(v)
}

func p06Registry(p *Program, r *Report) {
	mapOf := func(t *Term) string {
		for t != nil && (t.Op == "load" || t.Op == "fieldaddr") {
			t = t.Args[0]
		}
		if t != nil && t.Op == "global" {
			return t.Name[strings.LastIndex(t.Name, ".")+1:]
		}
		return ""
	}
	// register: which map is keyed by which parameter
	keyed := map[string]string{} // map -> "type" or "id"
	reg := p.Func("ua.RegisterBinaryEncodingID")
	kindOf := func(t *Term) string {
		if t.Op == "param" {
			if TypeName(t.Typ) == "ua.ExpandedNodeID" {
				return "id"
			}
			return "type"
		}
		return ""
	}
	h := Hooks{MaxDepth: 3, Inline: func(f *ssa.Function) bool { return f.Pkg == p.SSA["ua"] }}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "sync.Map.LoadOrStore" || ci.Name == "sync.Map.Store" {
			m, k, v := mapOf(ci.Args[0]), kindOf(ci.Args[1]), kindOf(ci.Args[2])
			if m == "" || k == "" || v == "" || k == v {
				r.Bad("registry", "ua.RegisterBinaryEncodingID", p.InstrPos(ci.Instr), "an entry of the registry is not one of the registered type and id")
				return ActOpaque
			}
			keyed[m] = k
			st.Set("stored:"+k, x.Flag())
			return ActOpaque
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		r.Ob("registry", "register")
		for _, k := range []string{"type", "id"} {
			r.Ob("registry", "register by "+k)
			if !st.Has("stored:" + k) {
				r.Bad("registry", "ua.RegisterBinaryEncodingID/"+k, p.InstrPos(in), "registering a type does not record it under its "+k, st.Trace(4)...)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(reg, nil)
	r.Saw(x)
	for fn, k := range map[string]string{"ua.FindBinaryEncodingIDForType": "type", "ua.FindTypeForBinaryEncodingID": "id"} {
		fn, k := fn, k
		h := Hooks{MaxDepth: 3, Inline: func(f *ssa.Function) bool { return f.Pkg == p.SSA["ua"] }}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == "sync.Map.Load" {
				st.Set("loaded", ci.Args[1])
				r.Ob("registry", fn)
				if m := mapOf(ci.Args[0]); keyed[m] != k || kindOf(ci.Args[1]) != k {
					r.Bad("registry", fn, p.InstrPos(ci.Instr), fn+" does not look its "+k+" up in the map keyed by it", st.Trace(4)...)
				}
				return ActOpaque
			}
			return ActDefault
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			r.Ob("registry", fn+" result")
			ok := res[len(res)-1]
			if b, isC := ok.ConstBool(); isC && !b {
				return
			}
			found := res[0].Contains(func(t *Term) bool { return t.IsCall("sync.Map.Load") })
			if !found {
				r.Bad("registry", fn+"/result", p.InstrPos(in), fn+" reports something found that did not come from the registry", st.Trace(4)...)
			}
		}
		x := NewExec(p, h)
		x.Run(p.Func(fn), nil)
		r.Saw(x)
	}
}

// p06Order: the struct codec visits all fields in order.
func p06Order(p *Program, r *Report, name string) {
	fn := p.Func(name)
	r.Ob("order", name)
	get := "ua.getEncoder"
	if strings.Contains(name, "Decoder") {
		get = "ua.getDecoder"
	}
	good := false
	perIter := ""
	var result *Term
	h := Hooks{MaxDepth: 4}
	h.Inline = func(f *ssa.Function) bool {
		return f.Pkg == p.SSA["ua"] && FuncName(f) != get
	}
	h.SkipClosures = func(ci *CallInfo, cl *Term) bool { return true }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if c.Op != "bin" {
			return
		}
		a, b, op := c.Args[0], c.Args[1], c.Name
		if !tk {
			op = negate(op)
		}
		if strings.HasSuffix(a.Strip().Name, "reflect.Type.NumField") {
			a, b, op = b, a, flip(op)
		}
		if !strings.HasSuffix(b.Strip().Name, "reflect.Type.NumField") {
			return
		}
		if !inductive(a) && loopFromZero(a) != "" {
			r.Bad("order", name+"/index", p.Pos(fn.Pos()), name+" does not count the fields one by one", st.Trace(3)...)
		}
		if a.Op == "const" && loopFromZero(a) != "" {
			r.Bad("order", name+"/index", p.Pos(fn.Pos()), name+" does not start with field 0", st.Trace(3)...)
		}
		// end of an iteration: exactly one codec was added
		if st.Has("iter") {
			if st.Count("added") != 1 {
				perIter = fmt.Sprintf("%d codecs are added for one field", st.Count("added"))
				r.Bad("order", name+"/each", p.Pos(fn.Pos()), name+": "+perIter, st.Trace(4)...)
			}
		}
		st.Del("added")
		st.Del("got")
		if op == "<" || op == "!=" {
			st.Set("iter", x.Flag())
		} else {
			st.Del("iter")
			st.Set("all", x.Flag())
		}
	}
	fieldAt := func(t *Term) (idx *Term, ok bool) {
		// typ.Field(i).Type or .Offset
		t.Contains(func(s *Term) bool {
			if s.Op == "call" && strings.HasSuffix(s.Name, "reflect.Type.Field") {
				idx, ok = s.Args[1], true
			}
			return false
		})
		return
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case ci.Name == get:
			if idx, ok := fieldAt(ci.Args[0]); !ok || !ci.Args[0].HasField("Type") || !inductive(idx) && loopFromZero(idx) != "" {
				if ok || strings.Contains(ci.Args[0].Key(), "Field") {
					r.Bad("order", name+"/type", p.InstrPos(ci.Instr), name+" does not use the codec of the field's type", st.Trace(3)...)
				}
			}
			st.Set("got", x.Flag())
			return ActOpaque
		case ci.Name == "builtin.append":
			n := st.Count("added")
			if n < 3 {
				st.Set("added", x.Int(n+1))
			}
			if !st.Has("got") {
				r.Bad("order", name+"/codec", p.InstrPos(ci.Instr), name+" adds something that is not the codec of the field", st.Trace(3)...)
			}
			return ActOpaque
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if res[0].IsNil() {
			return
		}
		if !st.Has("all") {
			r.Bad("order", name+"/all", p.InstrPos(in), name+" returns before all fields were visited", st.Trace(3)...)
			return
		}
		good = true
		result = res[0]
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
	if !good || result == nil || result.Op != "closure" {
		r.Bad("order", name, p.Pos(fn.Pos()), name+" does not return a codec that works through the fields of the struct")
		return
	}
	// the codec itself: calls every element of the collected list in order
	cl := p.FuncOpt(result.Name)
	r.Ob("order", name+" codec")
	calls := 0
	h2 := Hooks{MaxDepth: 3, Inline: func(f *ssa.Function) bool { return f.Pkg == p.SSA["ua"] }}
	h2.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if a, b, eq, ok := CmpOf(cond, taken); ok && b.IsNil() && a.Op == "dyncall" && !eq {
			st.Set("failed", x.Flag())
		}
		if c.Op == "bin" && c.Args[1].Strip().IsCall("builtin.len") && (inductive(c.Args[0]) || loopFromZero(c.Args[0]) == "") {
			op := c.Name
			if !tk {
				op = negate(op)
			}
			if op == ">=" {
				st.Set("all", x.Flag())
			}
		}
	}
	h2.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name != "dyn" {
			return ActDefault
		}
		calls++
		t := ci.Callee.Strip()
		if t.Op == "load" {
			t = t.Args[0]
		}
		if (t.Op == "indexaddr" || t.Op == "index") && t.Args[0].Contains(func(s *Term) bool { return s.Op == "slice" && len(s.Args) > 1 }) {
			r.Bad("order", name+"/visit", p.InstrPos(ci.Instr), name+": the field codecs called are only a part of those collected", st.Trace(3)...)
		}
		if t.Op != "indexaddr" && t.Op != "index" || !inductive(t.Args[1]) && loopFromZero(t.Args[1]) != "" {
			r.Bad("order", name+"/visit", p.InstrPos(ci.Instr), name+": the field codecs are not called in ascending order", st.Trace(3)...)
		}
		return ActOpaque
	}
	h2.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if st.Has("failed") {
			if res[0].IsNil() {
				r.Bad("order", name+"/swallowed", p.InstrPos(in), name+": the failure of a field's codec is not reported", st.Trace(3)...)
			}
			return
		}
		if res[0].IsNil() && !st.Has("all") {
			r.Bad("order", name+"/visit all", p.InstrPos(in), name+": the codec succeeds before all fields were visited", st.Trace(3)...)
		}
	}
	x2 := NewExec(p, h2)
	x2.Run(cl, nil)
	r.Saw(x2)
	if calls == 0 {
		r.Bad("order", name+"/visit", p.Pos(cl.Pos()), name+": the codec calls no field codec")
	}
	// each field codec works at its own field's offset
	for _, a := range fn.AnonFuncs {
		if a == cl {
			continue
		}
		r.Ob("order", FuncName(a))
		off := false
		for _, b := range a.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && bo.Op.String() == "+" {
					off = true
				}
				if c, ok := in.(*ssa.Call); ok {
					if n, _ := CallName(c.Common()); n == "builtin.Add" || n == "unsafe.Add" {
						off = true
					}
				}
			}
		}
		if !off {
			r.Bad("order", FuncName(a)+"/offset", p.Pos(a.Pos()), name+": a field's codec does not work at the offset of its field")
		}
	}
}
