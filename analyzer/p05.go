package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "Wire-form extraction by path-sensitive exploration of every Write* and Read* method of the binary codec: on each path the sequence of primitive operations, the constant tags and presence masks, the conditions under which a field is present, the narrowing conversions and the cells the results land in are collected and compared with the OPC UA binary encoding (Part 6) for primitives, masks, node ids, arrays, extension objects and all 25 variant kinds in ranks 0 to 3, encoder and decoder alike; the reflective element tables of encoder and decoder must select the same operation for the same kind.", runP05)
}

const encPre, decPre = "ua.BinaryEncoder.Write", "ua.BinaryDecoder.Read"

// variant kinds of OPC UA in order of their codes 1..25
var builtinOps = []string{"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "GUID", "ByteString", "XMLElement", "NodeID", "ExpandedNodeID", "StatusCode", "QualifiedName", "LocalizedText", "ExtensionObject", "DataValue", "Variant", "DiagnosticInfo"}

func isBuiltinOp(s string) bool {
	s = strings.TrimSuffix(s, "Array")
	for _, o := range builtinOps {
		if o == s {
			return true
		}
	}
	return false
}

func wireEvent(name string) (string, bool) {
	switch {
	case strings.HasPrefix(name, encPre) && isBuiltinOp(name[len(encPre):]):
		return name[len(encPre):], true
	case strings.HasPrefix(name, decPre) && isBuiltinOp(name[len(decPre):]):
		return name[len(decPre):], true
	case name == "ua.BinaryEncoder.Encode" || name == "ua.BinaryDecoder.Decode":
		return "value", true
	case strings.HasSuffix(name, "io.Writer.Write"):
		return "raw", true
	case name == "io.ReadFull":
		return "full", true
	case strings.HasPrefix(name, "binary.littleEndian.Put") || strings.HasPrefix(name, "binary.bigEndian.Put"):
		return strings.TrimPrefix(name, "binary."), true
	}
	return "", false
}

type p05 struct {
	p *Program
	r *Report
}

func runP05(p *Program, r *Report) {
	r.Rule("primitive: width and byte order of each primitive, and the conversion between value and bytes")
	r.Rule("mask: a field is written exactly when its presence bit is set, the bit is set exactly when the field is present, in standard order; read under the same bit into the same field")
	r.Rule("sequence: strings, arrays, node ids, extension objects are written and read as the standard sequence of operations")
	r.Rule("narrow: a value is converted to a narrower type only where a test on the path bounds it")
	r.Rule("variant: type <-> code <-> operation, for every built-in type in ranks 0 to 3, both directions")
	r.Rule("element: the reflective encoder and decoder choose the operation of the element's kind")
	c := &p05{p, r}
	c.primitives()
	c.strings()
	c.dateTime()
	c.guid()
	c.simple()
	c.masks()
	c.nodeIDs()
	c.arrays()
	c.extObj()
	c.flatten()
	c.variantWrite()
	c.variantRead()
	c.elements()
	r.Min("primitive", 22)
	r.Min("mask", 6)
	r.Min("sequence", 60)
	r.Min("variant", 190)
	r.Min("element", 40)
}

func (c *p05) helperInline(fn *ssa.Function) bool {
	if fn.Pkg != c.p.SSA["ua"] {
		return false
	}
	n := FuncName(fn)
	if _, ok := wireEvent(n); ok {
		return false
	}
	return !strings.HasPrefix(n, "ua.Find") && !strings.HasPrefix(n, "ua.To") && n != "ua.NewWriter" && n != "ua.NewBinaryEncoder" && !strings.HasPrefix(n, "ua.flatten") && !strings.HasPrefix(n, "ua.dims")
}

// run explores a codec method; out assignments to *value are recorded as "out" / "out:<field>".
func (c *p05) run(name string, branch func(x *Exec, st *State, cond *Term, taken bool), each func(w *wirePath)) *ssa.Function {
	fn := c.p.Func(name)
	o := wireOpts{event: wireEvent, inline: c.helperInline, branch: branch, each: each, depth: 6}
	o.onFail = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if len(res) == 1 && res[0].IsNil() {
			c.r.Bad("sequence", name+"/swallowed", c.p.InstrPos(in), name+" reports success although an operation it consists of failed", st.Trace(4)...)
		}
	}
	x := c.wireExec(fn, o)
	c.r.Saw(x)
	return fn
}

func (c *p05) wireExec(fn *ssa.Function, o wireOpts) *Exec {
	var val *Term
	return c.p.wireRunI(fn, o, func(x *Exec, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if val == nil && len(fn.Params) > 1 {
			val = x.T.mk("param", fn.Params[1].Name(), nil, nil, nil, fn.Params[1].Type())
		}
		a, v := x.Val(st, s.Addr), x.Val(st, s.Val)
		recordOut(x, st, a, v)
	})
}

// recordOut notes stores through the pointer parameter and constant-index byte stores.
func recordOut(x *Exec, st *State, a, v *Term) {
	switch {
	case a.Op == "param":
		st.Set("out", v)
	case a.Op == "fieldaddr" && a.Args[0].Op == "param":
		st.Set("out:"+a.Name, v)
	case a.Op == "indexaddr" && a.Args[1].Op == "const":
		b := a.Args[0]
		if b.Typ != nil && strings.Contains(b.Typ.String(), "byte") || isByteAddr(a) {
			st.Set("bs:"+a.Args[1].Name, v)
		}
	}
}

func isByteAddr(a *Term) bool {
	if p, ok := a.Typ.(*types.Pointer); ok {
		b, ok := p.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (c *p05) bad(rule, key string, w *wirePath, format string, a ...interface{}) {
	c.r.Bad(rule, key, c.p.InstrPos(w.in), key+": "+fmt.Sprintf(format, a...)+" (operations: "+evString(w.ev)+")", w.st.Trace(4)...)
}

func evString(ev []*Term) string {
	var s []string
	for _, e := range ev {
		var as []string
		for _, a := range e.Args {
			k := a.Key()
			if len(k) > 60 {
				k = k[:60] + "…"
			}
			as = append(as, k)
		}
		s = append(s, e.Name+"("+strings.Join(as, ", ")+")")
	}
	return strings.Join(s, " ")
}

func evNames(ev []*Term) string {
	var s []string
	for _, e := range ev {
		s = append(s, e.Name)
	}
	return strings.Join(s, " ")
}

func isErrConst(res []*Term) bool {
	return len(res) == 1 && !res[0].IsNil() && res[0].Op != "call" && res[0].Op != "dyncall" && res[0].Op != "extract"
}

// sliceLen: number of bytes of a slice expression with constant bounds.
func sliceLen(t *Term) int {
	if t == nil {
		return -1
	}
	if t.Op != "slice" {
		return -1
	}
	lo, hi := 0, -1
	if k, ok := numConst(t.Args[1]); ok {
		lo = int(k)
	} else if t.Args[1].Name != "none" {
		return -1
	}
	if k, ok := numConst(t.Args[2]); ok {
		hi = int(k)
	} else if t.Args[2].Name == "none" {
		b := t.Args[0]
		if b.Typ != nil {
			if a, ok := derefType(b.Typ).Underlying().(*types.Array); ok {
				hi = int(a.Len())
			}
		}
	}
	if hi < 0 {
		return -1
	}
	return hi - lo
}

func numConst(t *Term) (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	if t.Name == "zero" {
		return 0, true
	}
	var n int64
	if _, err := fmt.Sscanf(t.Name, "%d", &n); err != nil {
		return 0, false
	}
	return n, true
}

func isParam(t *Term, i int, fn *ssa.Function) bool {
	t = t.Strip()
	return t.Op == "param" && len(fn.Params) > i && t.V == ssa.Value(fn.Params[i])
}

// isValue: the value parameter, possibly spilled or converted.
func isValue(t *Term) bool {
	t = t.Strip()
	if t.Op == "slice" && t.Args[1].Name == "none" && t.Args[2].Name == "none" {
		t = t.Args[0]
	}
	return t.Op == "param" && t.Name != "enc" && t.Name != "dec"
}

func (c *p05) primitives() {
	type prim struct {
		op    string
		n     int
		float string
	}
	for _, pr := range []prim{{"Boolean", 1, ""}, {"SByte", 1, ""}, {"Byte", 1, ""}, {"Int16", 2, ""}, {"UInt16", 2, ""}, {"Int32", 4, ""}, {"UInt32", 4, ""}, {"Int64", 8, ""}, {"UInt64", 8, ""}, {"Float", 4, "Float32"}, {"Double", 8, "Float64"}} {
		pr := pr
		bits := fmt.Sprint(pr.n * 8)
		name := encPre + pr.op
		var fn *ssa.Function
		fn = c.run(name, func(x *Exec, st *State, cond *Term, taken bool) {
			cn, tk := NormCond(cond, taken)
			if cn.Op == "param" {
				st.Set("cond", x.boolT(tk))
			}
		}, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("primitive", name)
			ok := false
			if pr.n == 1 {
				b := w.st.Get("bs:0")
				ok = evNames(w.ev) == "raw" && sliceLen(w.ev[0].Args[0]) == 1 && b != nil
				if ok && pr.op == "Boolean" {
					t := w.st.Get("cond")
					k, isC := numConst(b)
					tv, _ := t.ConstBool()
					ok = t != nil && isC && (tv && k == 1 || !tv && k == 0)
				} else if ok {
					ok = isValue(b)
				}
			} else {
				ok = len(w.ev) == 2 && w.ev[0].Name == "littleEndian.PutUint"+bits && w.ev[1].Name == "raw" && sliceLen(w.ev[0].Args[0]) == pr.n && sliceLen(w.ev[1].Args[0]) == pr.n && w.ev[0].Args[0].Args[0].Key() == w.ev[1].Args[0].Args[0].Key()
				if ok {
					v := w.ev[0].Args[1].Strip()
					if pr.float != "" {
						ok = v.IsCall("math."+pr.float+"bits") && isValue(v.Args[0])
					} else {
						ok = isValue(v)
					}
				}
			}
			if !ok {
				c.bad("primitive", name, w, "does not write its value as %d little-endian bytes", pr.n)
			}
		})
		_ = fn
		rd := decPre + pr.op
		c.run(rd, nil, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("primitive", rd)
			out := w.st.Get("out")
			ok := evNames(w.ev) == "full" && out != nil && sliceLen(w.ev[0].Args[0]) == pr.n
			if ok {
				out = out.Strip()
				if pr.op == "Boolean" {
					// bs[0] != 0
					a, b := out, (*Term)(nil)
					if out.Op == "bin" {
						a, b = out.Args[0], out.Args[1]
					}
					k, _ := numConst(b)
					ok = out.Op == "bin" && (out.Name == "!=" && k == 0 || out.Name == ">" && k == 0) && isByteZero(a)
				} else if pr.n == 1 {
					ok = isByteZero(out)
				} else {
					if pr.float != "" {
						ok = out.IsCall("math." + pr.float + "frombits")
						if ok {
							out = out.Args[0].Strip()
						}
					}
					ok = ok && out.IsCall("binary.littleEndian.Uint"+bits) && sliceLen(out.Args[len(out.Args)-1]) == pr.n
				}
			}
			if !ok {
				c.bad("primitive", rd, w, "does not read its value from %d little-endian bytes: %s", pr.n, dbgOut(w))
			}
		})
	}
}

func isByteZero(t *Term) bool {
	t = t.Strip()
	if t.Op == "load" && t.Args[0].Op == "indexaddr" {
		k, ok := numConst(t.Args[0].Args[1])
		return ok && k == 0
	}
	return false
}

func isLenValue(t *Term) bool {
	t = t.Strip()
	return t.IsCall("builtin.len") && isValue(t.Args[0])
}

func (c *p05) strings() {
	for _, op := range []string{"String", "ByteString"} {
		name := encPre + op
		c.run(name, nil, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", name)
			if len(w.ev) == 1 && w.ev[0].Name == "Int32" {
				// null string: only for an empty one
				k, ok := numConst(w.ev[0].Args[0])
				if !ok || k != -1 && k != 0 {
					c.bad("sequence", name, w, "an empty value is not written as length -1 or 0")
				}
				if !lenIsZero(w.st) {
					c.bad("sequence", name+"/dropped", w, "the content of a value not known to be empty is not written")
				}
				return
			}
			if evNames(w.ev) != "Int32 raw" || !isLenValue(w.ev[0].Args[0]) {
				c.bad("sequence", name, w, "is not written as Int32 length followed by the bytes")
				return
			}
			if msg := rawIsValue(w); msg != "" {
				c.bad("sequence", name+"/bytes", w, "%s", msg)
			}
		})
		rd := decPre + op
		c.run(rd, nil, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", rd)
			out := w.st.Get("out")
			switch evNames(w.ev) {
			case "Int32":
				cell := w.ev[0].Args[0]
				ub := w.st.Get("ub:" + loadKey(w, cell))
				if ub == nil || ub.Name != "-1" && ub.Name != "0" {
					c.bad("sequence", rd+"/empty", w, "returns without reading the bytes although the length may be positive")
				} else if out == nil || out.Name != `""` && out.Name != "zero" {
					c.bad("sequence", rd+"/empty", w, "does not deliver an empty value for a length below one")
				}
			case "Int32 full":
				buf := w.ev[1].Args[0]
				ok := buf.Op == "make" && cellOf(buf.Args[0]) == w.ev[0].Args[0]
				if !ok {
					c.bad("sequence", rd, w, "does not read exactly as many bytes as the length says")
				} else if out == nil || !out.Contains(func(t *Term) bool { return t == buf || t.Op == "alloc" }) {
					c.bad("sequence", rd, w, "does not deliver the bytes read")
				}
			default:
				c.bad("sequence", rd, w, "is not read as Int32 length followed by the bytes")
			}
		})
	}
}

// loadKey is the structural key under which bounds on the content of a cell are recorded.
func loadKey(w *wirePath, cell *Term) string {
	for k := range w.st.A {
		if strings.HasPrefix(k, "ub:") || strings.HasPrefix(k, "lb:") || strings.HasPrefix(k, "ne:") {
			key := k[3:]
			if key == w.x.T.mk("load", "", []*Term{cell}, nil, nil, nil).Key() {
				return key
			}
		}
	}
	return w.x.T.mk("load", "", []*Term{cell}, nil, nil, nil).Key()
}

// lenIsZero: the path tested that the value is empty or nil.
func lenIsZero(st *State) bool {
	for k, v := range st.A {
		if strings.HasPrefix(k, "ub:builtin.len(") && (v.Name == "0" || v.Name == "-1") {
			return true
		}
		if strings.HasPrefix(k, "isempty") {
			return true
		}
	}
	return false
}

func rawIsValue(w *wirePath) string {
	arg := w.ev[len(w.ev)-1].Args[0]
	if isValue(arg) {
		return ""
	}
	// a slice header built over the value: data of the value, length of the value
	root := arg
	for root != nil && (root.Op == "load" || root.Op == "conv") {
		root = root.Args[0]
	}
	if arg.Op == "struct" && strings.HasSuffix(arg.Name, "sliceHeader") {
		if len(arg.Args) > 1 && !isLenValue(arg.Args[1]) {
			return "the bytes written are not as many as the length announced"
		}
		return ""
	}
	if root != nil && root.Op == "alloc" {
		l := w.x.Load(w.st, w.x.T.mk("fieldaddr", "len", []*Term{root}, nil, nil, nil), types.Typ[types.Int])
		if l != nil && !isLenValue(l) {
			return "the bytes written are not as many as the length announced"
		}
		return ""
	}
	if arg.Contains(isValue) {
		return ""
	}
	return "the bytes written are not those of the value"
}

func (c *p05) dateTime() {
	const maxTicks, inf = "2650467743990000000", "9223372036854775807"
	name := encPre + "DateTime"
	c.run(name, nil, func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		c.r.Ob("sequence", name)
		if evNames(w.ev) != "Int64" {
			c.bad("sequence", name, w, "is not written as one Int64")
			return
		}
		a := w.ev[0].Args[0].Strip()
		want := ""
		get := func(pre, val string) bool {
			for k, v := range w.st.A {
				if strings.HasPrefix(k, pre) && v.Name == val {
					return true
				}
			}
			return false
		}
		if k := a; k.Op == "const" {
			switch {
			case k.Name == "0" && get("ub:", "-1"), k.Name == "0" && get("ub:", "0"):
			case k.Name == inf && get("lb:", maxTicks):
			default:
				c.bad("sequence", name+"/clamp", w, "writes %s outside the range limits of the standard", k.Name)
			}
			return
		}
		l := linOf(a)
		var unix, nano string
		for k := range l.coef {
			switch {
			case strings.Contains(k, "time.Time.Unix("):
				unix = l.coef[k].String()
			case strings.Contains(k, "time.Time.Nanosecond(") && strings.HasSuffix(k, "/(100)"):
				nano = l.coef[k].String()
			default:
				want = k
			}
		}
		if want != "" || unix != "10000000" || nano != "1" || l.c.String() != "116444736000000000" {
			c.bad("sequence", name, w, "ticks are not 100 ns since 1601-01-01: %s", l)
		}
		if !get("lb:", "0") || !get("ub:", "2650467743989999999") {
			c.bad("sequence", name+"/range", w, "ticks are written without the range limits 0 and %s", maxTicks)
		}
	})
	rd := decPre + "DateTime"
	c.run(rd, nil, func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		c.r.Ob("sequence", rd)
		out := w.st.Get("out")
		if out.IsCall("time.Time.UTC") {
			out = out.Args[0]
		}
		if evNames(w.ev) != "Int64" || !out.IsCall("time.Unix") {
			c.bad("sequence", rd, w, "is not read as one Int64 converted by time.Unix")
			return
		}
		s, n := linOf(out.Args[0]), linOf(out.Args[1])
		cell := w.ev[0].Args[0]
		lk := w.x.T.mk("load", "", []*Term{cell}, nil, nil, nil).Key()
		okTick := func(t string) bool {
			if t == "1*"+lk+" + 0" {
				return true
			}
			has := func(pre, val string) bool { b := w.st.Get(pre + lk); return b != nil && b.Name == val }
			return t == "0" && has("ub:", "-1") || t == maxTicks && has("lb:", inf)
		}
		okS, okN := false, false
		for k, v := range s.coef {
			if strings.HasSuffix(k, ")/(10000000)") && v.String() == "1" && okTick(k[1:len(k)-len(")/(10000000)")]) {
				okS = len(s.coef) == 1 && s.c.String() == "-11644473600"
			}
		}
		for k, v := range n.coef {
			if strings.HasSuffix(k, ")%(10000000)") && v.String() == "100" && okTick(k[1:len(k)-len(")%(10000000)")]) {
				okN = len(n.coef) == 1 && n.c.Sign() == 0
			}
		}
		if !okS || !okN {
			c.bad("sequence", rd, w, "the time is not computed from 100 ns ticks since 1601-01-01: seconds %s, nanoseconds %s", s, n)
		}
	})
}

func (c *p05) guid() {
	perm := []int{3, 2, 1, 0, 5, 4, 7, 6}
	byteOf := func(t *Term) int {
		t = t.Strip()
		if t.Op == "load" && t.Args[0].Op == "indexaddr" {
			if k, ok := numConst(t.Args[0].Args[1]); ok {
				return int(k)
			}
		}
		if t.Op == "index" {
			if k, ok := numConst(t.Args[1]); ok {
				return int(k)
			}
		}
		return -1
	}
	name := encPre + "GUID"
	c.run(name, nil, func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		c.r.Ob("sequence", name)
		ok := evNames(w.ev) == "raw raw" && sliceLen(w.ev[0].Args[0]) == 8 && tailFrom8(w.ev[1].Args[0])
		for i, s := range perm {
			b := w.st.Get(fmt.Sprint("bs:", i))
			ok = ok && b != nil && byteOf(b) == s
		}
		if !ok {
			c.bad("sequence", name, w, "bytes are not in the standard order (Data1-3 little endian, Data4 as is)")
		}
	})
	rd := decPre + "GUID"
	c.run(rd, nil, func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		c.r.Ob("sequence", rd)
		ok := evNames(w.ev) == "full full" && sliceLen(w.ev[0].Args[0]) == 8 && tailFrom8(w.ev[1].Args[0])
		for i, s := range perm {
			b := w.st.Get(fmt.Sprint("bs:", i))
			ok = ok && b != nil && byteOf(b) == s
		}
		if !ok {
			c.bad("sequence", rd, w, "bytes are not in the standard order (Data1-3 little endian, Data4 as is)")
		}
	})
}

func tailFrom8(t *Term) bool {
	if t.Op != "slice" {
		return false
	}
	lo, ok := numConst(t.Args[1])
	hi, ok2 := numConst(t.Args[2])
	return ok && lo == 8 && (t.Args[2].Name == "none" || ok2 && hi == 16)
}

// valField: the term is field f of the value parameter (possibly dereferenced or asserted).
func valField(t *Term) string {
	t = t.Strip()
	if t.Op == "load" && t.Args[0].Op != "fieldaddr" {
		t = t.Args[0].Strip()
	}
	base, path := t.FieldPath()
	for base != nil && (base.Op == "assert" || base.Op == "extract") {
		base = base.Args[0]
		b2, p2 := base.FieldPath()
		base, path = b2, append(p2, path...)
	}
	if base == nil || base.Op != "param" || len(path) == 0 {
		return ""
	}
	return strings.Join(path, ".")
}

func (c *p05) simple() {
	type step struct{ op, field string }
	for op, steps := range map[string][]step{
		"XMLElement":    {{"String", ""}},
		"StatusCode":    {{"UInt32", ""}},
		"QualifiedName": {{"UInt16", "NamespaceIndex"}, {"String", "Name"}},
	} {
		op, steps := op, steps
		name := encPre + op
		c.run(name, nil, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", name)
			ok := len(w.ev) == len(steps)
			for i := range steps {
				if !ok {
					break
				}
				a := w.ev[i].Args[0]
				ok = w.ev[i].Name == steps[i].op && (steps[i].field == "" && isValue(a) || steps[i].field != "" && valField(a) == steps[i].field)
			}
			if !ok {
				c.bad("sequence", name, w, "is not written as %v", steps)
			}
		})
		rd := decPre + op
		c.run(rd, nil, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", rd)
			ok := len(w.ev) == len(steps)
			for i := range steps {
				if !ok {
					break
				}
				ok = w.ev[i].Name == steps[i].op && outIs(w, steps[i].field, w.ev[i].Args[0])
			}
			if !ok {
				c.bad("sequence", rd, w, "is not read as %v into the fields of that name", steps)
			}
		})
	}
}

// outTerm is what the path assigned to *value (or a field of it).
func outTerm(w *wirePath, field string) *Term {
	if field == "" {
		return w.st.Get("out")
	}
	if t := w.st.Get("out:" + field); t != nil {
		return t
	}
	if o := w.st.Get("out"); o != nil {
		f := w.x.fieldOf(o, field, nil)
		return f
	}
	return nil
}

// outIs: the content of the cell ended up in the field (value or pointer to it).
func outIs(w *wirePath, field string, cell *Term) bool {
	if cell.Op == "fieldaddr" && cell.Args[0].Op == "param" {
		return cell.Name == field
	}
	if cell.Op == "param" {
		return field == ""
	}
	o := outTerm(w, field)
	if o == nil {
		return false
	}
	o = o.Strip()
	return o == cell || cellOf(o) == cell || o.Op == "load" && o.Args[0].Key() == cell.Key() && o.Args[0].Op != "alloc"
}

type maskField struct {
	field string
	bit   int
	ops   string
}

var maskTypes = map[string][]maskField{
	"LocalizedText":  {{"Locale", 1, "String"}, {"Text", 2, "String"}},
	"DataValue":      {{"Value", 1, "Variant"}, {"StatusCode", 2, "StatusCode UInt32"}, {"SourceTimestamp", 4, "DateTime"}, {"SourcePicoseconds", 16, "UInt16"}, {"ServerTimestamp", 8, "DateTime"}, {"ServerPicoseconds", 32, "UInt16"}},
	"DiagnosticInfo": {{"SymbolicID", 1, "Int32"}, {"NamespaceURI", 2, "Int32"}, {"Locale", 8, "Int32"}, {"LocalizedText", 4, "Int32"}, {"AdditionalInfo", 16, "String"}, {"InnerStatusCode", 32, "StatusCode UInt32"}, {"InnerDiagnosticInfo", 64, "DiagnosticInfo"}},
}

// presence interprets a branch as "field f of the value is present".
func presence(cond *Term, taken bool) (field string, present, ok bool) {
	c, tk := NormCond(cond, taken)
	if c.IsCall("time.Time.IsZero") {
		if f := valField(c.Args[0]); f != "" {
			return f, !tk, true
		}
	}
	if c.Op != "bin" {
		return "", false, false
	}
	a, b, op := c.Args[0], c.Args[1], c.Name
	if !tk {
		op = negate(op)
	}
	if a.IsConst() {
		a, b, op = b, a, flip(op)
	}
	a = a.Strip()
	if a.IsCall("builtin.len") {
		a = a.Args[0]
	}
	f := valField(a)
	zero := b.IsNil() || b.Op == "const" && (b.Name == "0" || b.Name == `""` || b.Name == "zero")
	one := b.Op == "const" && b.Name == "1"
	switch {
	case f == "":
	case zero && (op == "!=" || op == ">"):
		return f, true, true
	case zero && (op == "==" || op == "<="):
		return f, false, true
	case one && op == ">=":
		return f, true, true
	case one && op == "<":
		return f, false, true
	}
	return "", false, false
}

func presenceBranch(x *Exec, st *State, cond *Term, taken bool) {
	if f, pr, ok := presence(cond, taken); ok {
		if old := st.Get("has:" + f); old != nil {
			if v, _ := old.ConstBool(); v != pr {
				st.dead = true
				return
			}
		}
		st.Set("has:"+f, x.boolT(pr))
	}
}

func (c *p05) masks() {
	for _, typ := range []string{"LocalizedText", "DataValue", "DiagnosticInfo"} {
		fields := maskTypes[typ]
		name := encPre + typ
		c.run(name, presenceBranch, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("mask", name)
			if len(w.ev) == 0 || w.ev[0].Name != "Byte" {
				c.bad("mask", name, w, "does not start with the presence mask")
				return
			}
			m, ok := numConst(w.ev[0].Args[0])
			if !ok {
				c.bad("mask", name, w, "the presence mask is not determined by the value's fields")
				return
			}
			known := 0
			i := 1
			for _, f := range fields {
				known |= f.bit
				has := w.st.Get("has:" + f.field)
				set := int(m)&f.bit != 0
				if set {
					if i >= len(w.ev) || !contains(strings.Fields(f.ops), w.ev[i].Name) || valField(w.ev[i].Args[0]) != f.field {
						c.bad("mask", name+"."+f.field, w, "bit %#x is set but %s is not written next as %s", f.bit, f.field, f.ops)
						return
					}
					i++
				} else {
					hv, isC := has.ConstBool()
					if has == nil || !isC || hv {
						c.bad("mask", name+"."+f.field, w, "bit %#x is clear although %s may be present", f.bit, f.field)
						return
					}
				}
				if hv, isC := has.ConstBool(); isC && hv && !set {
					c.bad("mask", name+"."+f.field, w, "%s is present but bit %#x is clear", f.field, f.bit)
					return
				}
			}
			if i != len(w.ev) || int(m)&^known != 0 {
				c.bad("mask", name, w, "writes fields or mask bits %#x beyond the standard ones", m)
			}
		})
		rd := decPre + typ
		c.run(rd, nil, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("mask", rd)
			if len(w.ev) == 0 || w.ev[0].Name != "Byte" {
				c.bad("mask", rd, w, "does not start with the presence mask")
				return
			}
			cell := w.ev[0].Args[0]
			i := 1
			for _, f := range fields {
				v, known := pathBits(w.st, cell, fmt.Sprint(f.bit))
				if !known {
					c.bad("mask", rd+"."+f.field, w, "bit %#x is not tested", f.bit)
					return
				}
				if v == "0" {
					continue
				}
				if i >= len(w.ev) || !contains(strings.Fields(f.ops), w.ev[i].Name) {
					c.bad("mask", rd+"."+f.field, w, "bit %#x is set but %s is not read next as %s", f.bit, f.field, f.ops)
					return
				}
				if !outIs(w, f.field, w.ev[i].Args[0]) {
					c.bad("mask", rd+"."+f.field, w, "what is read under bit %#x is not delivered as %s: %s", f.bit, f.field, dbgOut(w))
					return
				}
				i++
			}
			if i != len(w.ev) {
				c.bad("mask", rd, w, "reads more fields than the mask announces")
			}
		})
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// ---- node ids

func assertBranch(x *Exec, st *State, cond *Term, taken bool) {
	c, tk := NormCond(cond, taken)
	if c.Op == "extract" && c.Name == "1" && c.Args[0].Op == "assert" {
		n := types.TypeString(c.Args[0].Typ, func(p *types.Package) string { return p.Name() })
		if tk {
			st.Set("is", x.T.mk("const", n, nil, nil, nil, c.Args[0].Typ))
		}
	}
}

func (c *p05) nodeIDs() {
	narrow := func(w *wirePath, name string, e *Term, bits int) {
		a := e.Args[0]
		if a.Op != "conv" {
			return
		}
		src := a.Strip()
		if src.Typ == nil || intWidth(src.Typ) <= bits {
			return
		}
		ub, ok := pathUB(w.st, src)
		if !ok || ub >= 1<<uint(bits) {
			c.bad("narrow", name, w, "%s is cut to %d bits without a test that it fits", valField(src), bits)
		}
	}
	for _, typ := range []string{"NodeID", "ExpandedNodeID"} {
		exp := typ == "ExpandedNodeID"
		name := encPre + typ
		pfx := ""
		if exp {
			pfx = "NodeID."
		}
		seen := map[string]bool{}
		c.run(name, func(x *Exec, st *State, cond *Term, taken bool) {
			assertBranch(x, st, cond, taken)
			presenceBranch(x, st, cond, taken)
		}, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			is := ""
			if t := w.st.Get("is"); t != nil {
				is = t.Name
			}
			c.r.Ob("sequence", name+" "+is)
			ev := w.ev
			fl := 0
			if exp {
				// flags follow the presence of URI and server index
				for f, bit := range map[string]int{"NamespaceURI": 0x80, "ServerIndex": 0x40} {
					hv, ok := w.st.Get("has:" + f).ConstBool()
					if !ok {
						c.bad("sequence", name+"/"+f, w, "%s is not examined", f)
						return
					}
					if hv {
						fl |= bit
					}
				}
				if fl&0x40 != 0 {
					n := len(ev) - 1
					if n < 0 || ev[n].Name != "UInt32" || valField(ev[n].Args[0]) != "ServerIndex" {
						c.bad("sequence", name+"/ServerIndex", w, "a server index is not written last as UInt32")
						return
					}
					ev = ev[:n]
				}
				if fl&0x80 != 0 {
					n := len(ev) - 1
					if n < 0 || ev[n].Name != "String" || valField(ev[n].Args[0]) != "NamespaceURI" {
						c.bad("sequence", name+"/NamespaceURI", w, "a namespace URI is not written after the identifier as String")
						return
					}
					ev = ev[:n]
				}
			}
			if len(ev) == 0 {
				c.bad("sequence", name, w, "nothing is written for the node id")
				return
			}
			tag := -1
			if k, ok := numConst(ev[0].Args[0]); ok && ev[0].Name == "Byte" {
				tag = int(k)
				if tag&0xC0 != fl {
					c.bad("sequence", name+"/flags", w, "the encoding byte %#x does not carry the flags %#x", tag, fl)
					return
				}
				tag &^= 0xC0
			}
			fieldOK := func(t *Term, f string) bool { return valField(t) == pfx+f }
			nsOK := func(t *Term) bool {
				if fl&0x80 != 0 {
					k, ok := numConst(t.Strip())
					return ok && k == 0
				}
				return fieldOK(t, "NamespaceIndex")
			}
			ok := false
			switch is {
			case "":
				// null node id: two zero bytes
				if evNames(ev) == "UInt16" {
					k, isC := numConst(ev[0].Args[0])
					ok = isC && k == 0 && fl == 0
				} else {
					k, isC := numConst(lastArg(ev))
					ok = evNames(ev) == "Byte Byte" && tag == 0 && isC && k == 0
				}
			case "ua.NodeIDNumeric":
				switch {
				case tag == 0 && evNames(ev) == "Byte Byte":
					ok = fieldOK(ev[1].Args[0], "ID")
					narrow(w, name, ev[1], 8)
					ub, has := pathUBField(w.st, pfx+"NamespaceIndex")
					if fl&0x80 == 0 && !(has && ub == 0) {
						c.bad("narrow", name+"/ns", w, "the two-byte form is used although the namespace index may not be zero")
					}
				case tag == 1 && evNames(ev) == "Byte Byte UInt16":
					ok = nsOK(ev[1].Args[0]) && fieldOK(ev[2].Args[0], "ID")
					narrow(w, name, ev[1], 8)
					narrow(w, name, ev[2], 16)
				case tag == 2 && evNames(ev) == "Byte UInt16 UInt32":
					ok = nsOK(ev[1].Args[0]) && fieldOK(ev[2].Args[0], "ID")
				}
			case "ua.NodeIDString", "ua.NodeIDGUID", "ua.NodeIDOpaque":
				k := map[string][2]string{"ua.NodeIDString": {"3", "String"}, "ua.NodeIDGUID": {"4", "GUID"}, "ua.NodeIDOpaque": {"5", "ByteString"}}[is]
				ok = fmt.Sprint(tag) == k[0] && evNames(ev) == "Byte UInt16 "+k[1] && nsOK(ev[1].Args[0]) && fieldOK(ev[2].Args[0], "ID")
			}
			if !ok {
				c.bad("sequence", name+"/"+is, w, "%q is not written in a standard form", is)
				return
			}
			seen[fmt.Sprint(is, tag)] = true
		})
		for _, k := range []string{"ua.NodeIDNumeric0", "ua.NodeIDNumeric1", "ua.NodeIDNumeric2", "ua.NodeIDString3", "ua.NodeIDGUID4", "ua.NodeIDOpaque5"} {
			c.r.Ob("sequence", name+" form "+k)
			if !seen[k] {
				c.r.Bad("sequence", name+"/form "+k, c.p.Pos(c.p.Func(name).Pos()), name+" has no path that writes the form "+k)
			}
		}
		rd := decPre + typ
		rseen := map[string]bool{}
		c.run(rd, func(x *Exec, st *State, cond *Term, taken bool) {
			if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if cl := cellOf(p[0]); cl.Op == "alloc" {
						st.Set("eq:"+fmt.Sprint(cl.id), p[1])
					}
				}
			}
		}, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			if len(w.ev) == 0 || w.ev[0].Name != "Byte" {
				c.bad("sequence", rd, w, "does not start with the encoding byte")
				return
			}
			cell := w.ev[0].Args[0]
			tag := ""
			masks := []string{""}
			if exp {
				masks = []string{"7", "15", "31", "63"}
			}
			for _, m := range masks {
				if v, ok := pathBits(w.st, cell, m); ok {
					tag = v
				}
			}
			if tag == "" {
				c.bad("sequence", rd, w, "a node id is delivered for an encoding byte that was not recognised")
				return
			}
			c.r.Ob("sequence", rd+" "+tag)
			ev := w.ev[1:]
			want := map[string]string{"0": "Byte", "1": "Byte UInt16", "2": "UInt16 UInt32", "3": "UInt16 String", "4": "UInt16 GUID", "5": "UInt16 ByteString"}[tag]
			if want == "" {
				c.bad("sequence", rd+"/"+tag, w, "accepts the encoding %s, which is none of the standard", tag)
				return
			}
			nw := len(strings.Fields(want))
			if len(ev) < nw || evNames(ev[:nw]) != want {
				c.bad("sequence", rd+"/"+tag, w, "encoding %s is not read as %s", tag, want)
				return
			}
			rest := ev[nw:]
			if exp {
				for _, f := range []struct {
					bit, op, field string
				}{{"128", "String", "NamespaceURI"}, {"64", "UInt32", "ServerIndex"}} {
					v, known := pathBits(w.st, cell, f.bit)
					if !known {
						c.bad("sequence", rd+"/"+f.field, w, "flag %s is not tested", f.bit)
						return
					}
					if v == "0" {
						continue
					}
					if len(rest) == 0 || rest[0].Name != f.op || !outIs(w, f.field, rest[0].Args[0]) {
						c.bad("sequence", rd+"/"+f.field, w, "under flag %s no %s is read into %s", f.bit, f.op, f.field)
						return
					}
					rest = rest[1:]
				}
			}
			if len(rest) != 0 {
				c.bad("sequence", rd+"/"+tag, w, "reads beyond the standard form")
				return
			}
			var out *Term
			if exp {
				out = outTerm(w, "NodeID")
			} else {
				out = outTerm(w, "")
			}
			if out != nil && out.IsNil() {
				// null node id
				z := func(t *Term) bool {
					e := w.st.Get("eq:" + fmt.Sprint(t.id))
					return e != nil && (e.Name == "0" || e.Name == `""` || e.Name == "zero" || globalOf(e) != "")
				}
				if !z(ev[nw-1].Args[0]) || tag != "0" && !z(ev[0].Args[0]) {
					c.bad("sequence", rd+"/null", w, "a node id that is not known to be null is delivered as nil")
				}
				return
			}
			kind := map[string]string{"0": "NodeIDNumeric", "1": "NodeIDNumeric", "2": "NodeIDNumeric", "3": "NodeIDString", "4": "NodeIDGUID", "5": "NodeIDOpaque"}[tag]
			if out == nil || out.Typ == nil || !strings.HasSuffix(TypeName(out.Typ), kind) {
				c.bad("sequence", rd+"/"+tag, w, "encoding %s is not delivered as %s", tag, kind)
				return
			}
			ns, id := w.x.fieldOf(out, "NamespaceIndex", nil), w.x.fieldOf(out, "ID", nil)
			if cellOf(id) != ev[nw-1].Args[0] {
				c.bad("sequence", rd+"/"+tag, w, "the identifier delivered is not the one read")
			}
			if tag == "0" {
				if k, ok := numConst(ns.Strip()); !ok || k != 0 {
					c.bad("sequence", rd+"/"+tag, w, "the two-byte form does not imply namespace 0")
				}
			} else if cellOf(ns) != ev[0].Args[0] {
				c.bad("sequence", rd+"/"+tag, w, "the namespace index delivered is not the one read")
			}
			rseen[tag] = true
		})
		for i := 0; i <= 5; i++ {
			c.r.Ob("sequence", fmt.Sprintf("%s form %d", rd, i))
			if !rseen[fmt.Sprint(i)] {
				c.r.Bad("sequence", fmt.Sprintf("%s/form %d", rd, i), c.p.Pos(c.p.Func(rd).Pos()), fmt.Sprintf("%s does not accept the encoding %d", rd, i))
			}
		}
	}
}

func lastArg(ev []*Term) *Term {
	if len(ev) == 0 || len(ev[len(ev)-1].Args) == 0 {
		return nil
	}
	return ev[len(ev)-1].Args[0]
}

func pathUBField(st *State, f string) (int64, bool) {
	for k, v := range st.A {
		if strings.HasPrefix(k, "ub:") && strings.HasSuffix(k, "."+f[strings.LastIndex(f, ".")+1:]) || strings.HasPrefix(k, "ub:") && strings.Contains(k, f[strings.LastIndex(f, ".")+1:]) {
			if n, ok := numConst(v); ok {
				return n, true
			}
		}
	}
	if v := st.Get("has:" + f); v != nil {
		if b, ok := v.ConstBool(); ok && !b {
			return 0, true
		}
	}
	return 0, false
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// ---- arrays

func (c *p05) arrays() {
	for _, op := range builtinOps {
		op := op
		name := encPre + op + "Array"
		c.run(name, func(x *Exec, st *State, cond *Term, taken bool) {
			arrayBranch(x, st, cond, taken)
		}, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", name)
			ev := w.ev
			if len(ev) == 0 || ev[0].Name != "Int32" {
				c.bad("sequence", name, w, "does not start with the Int32 length")
				return
			}
			if k, ok := numConst(ev[0].Args[0]); ok {
				if len(ev) != 1 || k > 0 || !w.st.Has("isempty") && !lenIsZero(w.st) {
					c.bad("sequence", name, w, "a constant length is written for an array not known to be empty")
				}
				return
			}
			if !isLenValue(ev[0].Args[0]) {
				c.bad("sequence", name, w, "the length written is not the length of the array")
				return
			}
			if op == "Byte" && evNames(ev) == "Int32 raw" && isValue(ev[1].Args[0]) {
				return
			}
			if !w.st.Has("done") {
				c.bad("sequence", name, w, "returns before all elements were written")
				return
			}
			if len(ev) == 1 {
				return // empty
			}
			if evNames(ev) != "Int32 "+op || !elemFromZero(ev[1].Args[0], isValue) || w.st.Has("badrep") {
				c.bad("sequence", name, w, "the elements are not written one by one in order as %s", op)
			}
		})
		rd := decPre + op + "Array"
		c.run(rd, func(x *Exec, st *State, cond *Term, taken bool) {
			arrayBranch(x, st, cond, taken)
		}, func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", rd)
			ev := w.ev
			if len(ev) == 0 || ev[0].Name != "Int32" {
				c.bad("sequence", rd, w, "does not start with the Int32 length")
				return
			}
			cell := ev[0].Args[0]
			out := outTerm(w, "")
			if out != nil && out.IsNil() {
				ub := w.st.Get("ub:" + loadKey(w, cell))
				if n, ok := numConst(ub); ub == nil || !ok || n > 0 || len(ev) != 1 {
					c.bad("sequence", rd, w, "delivers no array although the length may be positive")
				}
				return
			}
			isOut := func(t *Term) bool { return t == out }
			if out == nil || out.Op != "make" || cellOf(out.Args[0]) != cell {
				c.bad("sequence", rd, w, "the array delivered does not have the length read")
				return
			}
			if op == "Byte" && evNames(ev) == "Int32 full" && isOut(ev[1].Args[0]) {
				return
			}
			if !w.st.Has("done") {
				c.bad("sequence", rd, w, "returns before all elements were read")
				return
			}
			if len(ev) == 1 {
				return
			}
			if evNames(ev) != "Int32 "+op || !elemFromZero(ev[1].Args[0], isOut) || w.st.Has("badrep") {
				c.bad("sequence", rd, w, "the elements are not read one by one in order as %s", op)
			}
		})
	}
}

// elemFromZero: element 0 of the array (its first iteration).
func elemFromZero(t *Term, base func(*Term) bool) bool {
	t = t.Strip()
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op != "indexaddr" && t.Op != "index" || !base(t.Args[0]) {
		return false
	}
	return loopFromZero(t.Args[1]) == "" || inductive(t.Args[1])
}

// arrayBranch notes the end of an element loop and tests for nil.
func arrayBranch(x *Exec, st *State, cond *Term, taken bool) {
	c, tk := NormCond(cond, taken)
	if a, b, eq, ok := CmpOf(cond, taken); ok && b.IsNil() && isValue(a) && eq {
		st.Set("isempty", x.Flag())
	}
	if c.Op != "bin" {
		return
	}
	a, b, op := c.Args[0], c.Args[1], c.Name
	if !tk {
		op = negate(op)
	}
	// idx >= len
	if op == "<=" {
		a, b, op = b, a, ">="
	}
	if op == ">=" && (inductive(a) || loopFromZero(a) == "") {
		bs := b.Strip()
		if bs.IsCall("builtin.len") && (isValue(bs.Args[0]) || bs.Args[0].Op == "make") || bs.Op == "load" && bs.Args[0].Op == "alloc" {
			st.Set("done", x.Flag())
		}
	}
	_ = token.ADD
}

// ---- extension objects

func (c *p05) extObj() {
	name := encPre + "ExtensionObject"
	base := wireEvent
	ext := func(n string) (string, bool) {
		if s, ok := base(n); ok {
			return s, ok
		}
		if strings.HasSuffix(n, "Buffer.Len") || strings.HasSuffix(n, "BufferAt.Len") {
			return "Len", true
		}
		if strings.HasSuffix(n, "BufferAt.Write") || strings.HasSuffix(n, "Buffer.Write") {
			return "raw", true
		}
		if strings.HasSuffix(n, "BufferAt.WriteAt") || strings.HasSuffix(n, "WriterAt.WriteAt") {
			return "WriteAt", true
		}
		return "", false
	}
	fn := c.p.Func(name)
	seen := map[string]bool{}
	x := c.wireExec(fn, wireOpts{event: ext, inline: c.helperInline, depth: 6,
		branch: func(x *Exec, st *State, cond *Term, taken bool) {
			if a, b, eq, ok := CmpOf(cond, taken); ok && b.IsNil() && isValue(a) {
				st.Set("null", x.boolT(eq))
			}
			cn, tk := NormCond(cond, taken)
			if cn.Op == "extract" && cn.Name == "1" && cn.Args[0].IsCall("ua.FindBinaryEncodingIDForType") {
				st.Set("found", x.boolT(tk))
			}
		},
		each: func(w *wirePath) {
			if isErrConst(w.res) {
				return
			}
			c.r.Ob("sequence", name)
			if null, _ := w.st.Get("null").ConstBool(); null {
				k, ok := numConst(lastArg(w.ev))
				if evNames(w.ev) != "NodeID Byte" || !w.ev[0].Args[0].IsNil() || !ok || k != 0 {
					c.bad("sequence", name+"/null", w, "no object is not written as null node id and encoding byte 0")
				}
				seen["null"] = true
				return
			}
			fnd, _ := w.st.Get("found").ConstBool()
			if !fnd {
				c.bad("sequence", name, w, "an object is written although its encoding id was not found")
				return
			}
			id := w.ev[0].Args[0]
			okID := w.ev[0].Name == "NodeID" && id.Contains(func(t *Term) bool {
				return t.Op == "extract" && t.Name == "0" && t.Args[0].IsCall("ua.FindBinaryEncodingIDForType")
			})
			k, okT := int64(-1), false
			if len(w.ev) > 1 {
				k, okT = numConst(w.ev[1].Args[0])
			}
			if !okID || !okT || k != 1 || w.ev[1].Name != "Byte" {
				c.bad("sequence", name, w, "is not written as encoding id and encoding byte 1")
				return
			}
			ev := w.ev[2:]
			switch evNames(ev) {
			case "Len raw Len value Len littleEndian.PutUint32 WriteAt":
				seen["at"] = true
				put, wa := ev[5], ev[6]
				l := linOf(put.Args[1])
				want := linOf(w.x.T.mk("bin", "-", []*Term{callTermOf(w, ev[4]), callTermOf(w, ev[2])}, nil, nil, nil))
				if l.String() != want.String() && !lenDiff(put.Args[1], ev[4], ev[2]) {
					c.bad("sequence", name+"/length", w, "the length written is not the number of bytes the body takes")
				}
				if !isResultOf(wa.Args[1], ev[0]) {
					c.bad("sequence", name+"/mark", w, "the length is not written where room was left for it")
				}
				if !sameBuf(wa.Args[0], put.Args[0]) || sliceLen(put.Args[0]) != 4 && !isMake4(put.Args[0]) {
					c.bad("sequence", name+"/length", w, "the length is not written as four bytes")
				}
				if !isValue(ev[3].Args[0]) {
					c.bad("sequence", name, w, "the body is not the encoding of the value")
				}
			case "value ByteArray", "value ByteString":
				seen["buf"] = true
				if !isValue(ev[0].Args[0]) {
					c.bad("sequence", name, w, "the body is not the encoding of the value")
				}
			default:
				c.bad("sequence", name, w, "the body is not written as length and encoded value")
			}
		}})
	c.r.Saw(x)
	for _, k := range []string{"null", "at"} {
		if !seen[k] {
			c.r.Bad("sequence", name+"/"+k, c.p.Pos(fn.Pos()), name+" has no path that writes the form "+k)
		}
	}
	rd := decPre + "ExtensionObject"
	c.run(rd, func(x *Exec, st *State, cond *Term, taken bool) {
		cn, tk := NormCond(cond, taken)
		if cn.Op == "extract" && cn.Name == "1" && cn.Args[0].IsCall("ua.FindTypeForBinaryEncodingID") {
			st.Set("found", x.boolT(tk))
		}
	}, func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		c.r.Ob("sequence", rd)
		if len(w.ev) < 2 || w.ev[0].Name != "NodeID" || w.ev[1].Name != "Byte" {
			c.bad("sequence", rd, w, "does not start with encoding id and encoding byte")
			return
		}
		tag, _ := pathBits(w.st, w.ev[1].Args[0], "")
		rest := evNames(w.ev[2:])
		fnd, known := w.st.Get("found").ConstBool()
		out := outTerm(w, "")
		switch {
		case tag == "0" && rest == "":
		case tag == "1" && known && fnd && rest == "Int32 value":
			obj := w.ev[3].Args[0]
			okT := obj.Contains(func(t *Term) bool {
				return t.Op == "extract" && t.Name == "0" && t.Args[0].IsCall("ua.FindTypeForBinaryEncodingID") && t.Args[0].Contains(func(s *Term) bool { return s.Op == "load" && s.Args[0] == w.ev[0].Args[0] })
			})
			if !okT {
				c.bad("sequence", rd+"/type", w, "the object is not of the type registered for the encoding id read")
			}
			if out == nil || !out.Contains(func(t *Term) bool { return t == obj }) && !obj.Contains(func(t *Term) bool { return t == out }) {
				if out == nil || cellOf(out) == nil || !shareNew(out, obj) {
					c.bad("sequence", rd+"/out", w, "the object decoded is not the one delivered")
				}
			}
		case tag == "1" && known && !fnd && (rest == "ByteArray" || rest == "ByteString"):
			if out != nil && !out.IsNil() {
				_ = out // raw body may be delivered
			}
		case tag == "2" && rest == "XMLElement":
		default:
			c.bad("sequence", rd+"/"+tag, w, "encoding byte %q is not read in the standard form", tag)
		}
	})
}

func shareNew(a, b *Term) bool {
	is := func(t *Term) *Term {
		var n *Term
		t.Contains(func(s *Term) bool {
			if s.IsCall("reflect.New") {
				n = s
			}
			return false
		})
		return n
	}
	return is(a) != nil && is(a) == is(b)
}

func callTermOf(w *wirePath, e *Term) *Term {
	return w.x.T.mk("call", "ev", nil, e.F, e.V, nil)
}

func isResultOf(t, e *Term) bool {
	t = t.Strip()
	return t.Op == "call" && t.V == e.V && t.F == e.F
}

// lenDiff: t is result(a) - result(b).
func lenDiff(t, a, b *Term) bool {
	t = t.Strip()
	return t.Op == "bin" && t.Name == "-" && isResultOf(t.Args[0], a) && isResultOf(t.Args[1], b)
}

func sameBuf(a, b *Term) bool {
	base := func(t *Term) *Term {
		for t.Op == "slice" {
			t = t.Args[0]
		}
		return t
	}
	return base(a) == base(b)
}

func isMake4(t *Term) bool {
	for t.Op == "slice" {
		if n := sliceLen(t); n == 4 {
			return true
		}
		t = t.Args[0]
	}
	if t.Op == "make" {
		k, ok := numConst(t.Args[0])
		return ok && k == 4
	}
	return false
}

// ---- variants

// elemTypes maps each built-in operation to the Go type its writer takes.
func (c *p05) elemTypes() map[string]types.Type {
	m := map[string]types.Type{}
	for _, op := range builtinOps {
		m[op] = c.p.Func(encPre + op).Signature.Params().At(0).Type()
	}
	return m
}

func (c *p05) classify(t types.Type) (op string, code, rank int) {
	et := c.elemTypes()
	for rank = 0; rank <= 3; rank++ {
		for i, o := range builtinOps {
			w := et[o]
			for k := 0; k < rank; k++ {
				w = types.NewSlice(w)
			}
			if types.Identical(w, t) {
				return o, i + 1, rank
			}
		}
	}
	return "", 0, 0
}

func (c *p05) variantWrite() {
	name := encPre + "Variant"
	fn := c.p.Func(name)
	seen := map[string]bool{}
	c.run(name, func(x *Exec, st *State, cond *Term, taken bool) {
		cn, tk := NormCond(cond, taken)
		if cn.Op == "extract" && cn.Name == "1" && cn.Args[0].Op == "assert" && tk {
			st.Set("is", x.T.mk("assert", "", nil, nil, nil, cn.Args[0].Typ))
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok {
			if b.IsNil() && isValue(a) && eq {
				st.Set("null", x.Flag())
			}
			if a.IsCall("reflect.Value.Kind") && eq && b.Name == "25" {
				st.Set("struct", x.Flag())
			}
		}
	}, func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		if len(w.ev) == 0 || w.ev[0].Name != "Byte" {
			c.bad("variant", name, w, "does not start with the type code")
			return
		}
		k, ok := numConst(w.ev[0].Args[0])
		if !ok {
			c.bad("variant", name, w, "the type code is not fixed by the kind of value")
			return
		}
		if w.st.Has("null") {
			c.r.Ob("variant", name+" null")
			if k != 0 || len(w.ev) != 1 {
				c.bad("variant", name+"/null", w, "nil is not written as type code 0")
			}
			return
		}
		is := w.st.Get("is")
		if is == nil {
			c.r.Ob("variant", name+" structure")
			if !w.st.Has("struct") || k != 22 || evNames(w.ev) != "Byte ExtensionObject" || !isValue(w.ev[1].Args[0]) {
				c.bad("variant", name+"/other", w, "a value of no built-in type is not written as an extension object")
			}
			seen["ExtensionObject0"] = true
			return
		}
		op, code, rank := c.classify(is.Typ)
		if op == "" {
			c.bad("variant", name+"/unknown", w, "accepts a type that is none of the built-in ones: %s", is.Typ)
			return
		}
		key := fmt.Sprintf("%s%d", op, rank)
		c.r.Ob("variant", name+" "+key)
		want := int64(code)
		if rank > 0 {
			want |= 0x80
		}
		if rank > 1 {
			want |= 0x40
		}
		if k != want {
			c.bad("variant", name+"/"+key, w, "a %s of rank %d is written under code %#x instead of %#x", op, rank, k, want)
			return
		}
		isV := func(t *Term) bool {
			t = t.Strip()
			for t.Op == "extract" && t.Name == "0" {
				t = t.Args[0]
			}
			return t.Op == "assert" && types.Identical(t.Typ, is.Typ) || isValue(t)
		}
		good := false
		switch rank {
		case 0:
			good = evNames(w.ev) == "Byte "+op && isV(w.ev[1].Args[0])
		case 1:
			good = evNames(w.ev) == "Byte "+op+"Array" && isV(w.ev[1].Args[0])
		default:
			good = evNames(w.ev) == "Byte "+op+"Array Int32Array" && isGeneric(w.ev[1].Args[0], fmt.Sprintf("ua.flatten%dD", rank), isV) && isGeneric(w.ev[2].Args[0], fmt.Sprintf("ua.dims%dD", rank), isV)
		}
		if !good {
			c.bad("variant", name+"/"+key, w, "a %s of rank %d is not written as such", op, rank)
			return
		}
		seen[key] = true
	})
	for _, op := range builtinOps {
		for rank := 0; rank <= 3; rank++ {
			if op == "Variant" && rank == 0 {
				continue
			}
			key := fmt.Sprintf("%s%d", op, rank)
			if !seen[key] {
				c.r.Bad("variant", name+"/"+key+" missing", c.p.Pos(fn.Pos()), fmt.Sprintf("%s has no path that writes a %s of rank %d, which the decoder accepts", name, op, rank))
			}
		}
	}
}

func isGeneric(t *Term, name string, arg func(*Term) bool) bool {
	return t.Op == "call" && (t.Name == name || strings.HasPrefix(t.Name, name+"[")) && len(t.Args) == 1 && arg(t.Args[0])
}

func (c *p05) variantRead() {
	rd := decPre + "Variant"
	fn := c.p.Func(rd)
	et := c.elemTypes()
	seen := map[string]bool{}
	o := wireOpts{event: wireEvent, inline: c.helperInline, depth: 6, light: true}
	o.onFail = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if len(res) == 1 && res[0].IsNil() {
			c.r.Bad("sequence", rd+"/swallowed", c.p.InstrPos(in), rd+" reports success although an operation it consists of failed", st.Trace(4)...)
		}
	}
	dimIdx := func(t *Term) int {
		t = t.Strip()
		if t.Op == "load" && t.Args[0].Op == "indexaddr" {
			if k, ok := numConst(t.Args[0].Args[1]); ok {
				return int(k)
			}
		}
		return -1
	}
	o.each = func(w *wirePath) {
		if isErrConst(w.res) {
			return
		}
		if len(w.ev) == 0 || w.ev[0].Name != "Byte" {
			c.bad("variant", rd, w, "does not start with the type code")
			return
		}
		cell := w.ev[0].Args[0]
		code, ok1 := pathBits(w.st, cell, "63")
		arr, ok2 := pathBits(w.st, cell, "128")
		multi, ok3 := pathBits(w.st, cell, "64")
		if !ok1 || !ok2 || !ok3 && arr != "0" {
			c.bad("variant", rd, w, "type code, array or dimensions bit was not examined")
			return
		}
		if code == "0" {
			c.r.Ob("variant", rd+" null")
			o := outTerm(w, "")
			if len(w.ev) != 1 || o != nil && !o.IsNil() {
				c.bad("variant", rd+"/null", w, "type code 0 is not delivered as nil")
			}
			return
		}
		n, _ := numConst(w.x.T.mk("const", code, nil, nil, nil, nil))
		if n < 1 || n > 25 {
			c.bad("variant", rd+"/"+code, w, "accepts the type code %s, which is none of the standard", code)
			return
		}
		op := builtinOps[n-1]
		rank := 0
		if arr != "0" {
			rank = 1
			if multi != "0" {
				rank = 2
				if w.st.Has("dims3") {
					rank = 3
				}
			}
		}
		key := fmt.Sprintf("%s%d", op, rank)
		c.r.Ob("variant", rd+" "+key)
		out := outTerm(w, "")
		typ := et[op]
		for k := 0; k < rank; k++ {
			typ = types.NewSlice(typ)
		}
		good := false
		switch rank {
		case 0, 1:
			suffix := ""
			if rank == 1 {
				suffix = "Array"
			}
			good = evNames(w.ev) == "Byte "+op+suffix
			if good {
				cellT := w.ev[1].Args[0]
				good = out != nil && cellOf(out) == cellT || cellT.Op == "param"
				if good && cellT.Typ != nil && !types.Identical(derefType2(cellT.Typ), typ) {
					good = false
				}
			}
		default:
			good = evNames(w.ev) == "Byte "+op+"Array Int32Array" && out != nil && out.Op == "make" && types.Identical(out.Typ, typ)
			if good {
				for _, d := range [][2]string{{"mk2", "mk3"}, {"mk1", "mk2"}} {
					_ = d
				}
				// outer length is dims[0]; for rank 3 the inner is dims[1]; the pieces have dims[rank-1] elements
				if dimIdx(out.Args[0]) != 0 {
					good = false
				}
				if w.st.Has("piece") {
					if pc, _ := numConst(w.st.Get("piece")); int(pc) != rank-1 {
						good = false
					}
				}
				if w.st.Has("rest") {
					if pc, _ := numConst(w.st.Get("rest")); int(pc) != rank-1 {
						good = false
					}
				}
				if rank == 3 && w.st.Has("inner") {
					if pc, _ := numConst(w.st.Get("inner")); pc != 1 {
						good = false
					}
				}
			}
		}
		if !good {
			c.bad("variant", rd+"/"+key, w, "a %s of rank %d is not read and delivered as such", op, rank)
			return
		}
		seen[key] = true
	}
	o.branch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok && a.IsCall("builtin.len") && b.Op == "const" {
			if eq && b.Name == "3" {
				st.Set("dims3", x.Flag())
			}
		}
	}
	x := c.p.wireRunI(fn, o, func(x *Exec, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			recordOut(x, st, x.Val(st, in.Addr), x.Val(st, in.Val))
		case *ssa.MakeSlice:
			// inner slices of a rank 3 array
			if in.Parent() == fn {
				k := dimIdx(x.Val(st, in.Len))
				if k >= 0 && st.Has("outer") && rankOf(in.Type()) >= 2 {
					st.Set("inner", x.Int(k))
				}
				st.Set("outer", x.Flag())
			}
		case *ssa.Slice:
			if in.Parent() == fn {
				if in.High != nil {
					if k := dimIdx(x.Val(st, in.High)); k >= 0 {
						st.Set("piece", x.Int(k))
					}
				}
				if in.Low != nil {
					if k := dimIdx(x.Val(st, in.Low)); k >= 0 {
						st.Set("rest", x.Int(k))
					}
				}
			}
		}
	})
	c.r.Saw(x)
	for _, op := range builtinOps {
		for rank := 0; rank <= 3; rank++ {
			key := fmt.Sprintf("%s%d", op, rank)
			if !seen[key] {
				c.r.Bad("variant", rd+"/"+key+" missing", c.p.Pos(fn.Pos()), fmt.Sprintf("%s has no path that delivers a %s of rank %d", rd, op, rank))
			}
		}
	}
}

func rankOf(t types.Type) int {
	n := 0
	for {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return n
		}
		n++
		t = s.Elem()
	}
}

// ---- element tables

var kindOps = map[string]string{"1": "Boolean", "3": "SByte", "8": "Byte", "4": "Int16", "9": "UInt16", "5": "Int32", "10": "UInt32", "6": "Int64", "11": "UInt64", "13": "Float", "14": "Double", "24": "String"}
var typeOps = map[string]string{"time.Time": "DateTime", "uuid.UUID": "GUID", "ua.ExpandedNodeID": "ExpandedNodeID", "ua.QualifiedName": "QualifiedName", "ua.LocalizedText": "LocalizedText", "ua.DataValue": "DataValue", "ua.DiagnosticInfo": "DiagnosticInfo", "ua.NodeID": "NodeID", "ua.ExtensionObject": "ExtensionObject", "ua.Variant": "Variant"}

// reflectTypeVars maps package variables initialised with reflect.TypeOf to the type's name.
func (c *p05) reflectTypeVars() map[string]string {
	out := map[string]string{}
	init := c.p.SSA["ua"].Func("init")
	qual := func(p *types.Package) string { return p.Name() }
	var typeOf func(v ssa.Value) types.Type
	typeOf = func(v ssa.Value) types.Type {
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		n, _ := CallName(call.Common())
		switch {
		case n == "reflect.TypeOf":
			if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
				return mi.X.Type()
			}
		case strings.HasSuffix(n, "reflect.Type.Elem"):
			x := call.Call.Value
			if !call.Call.IsInvoke() && len(call.Call.Args) > 0 {
				x = call.Call.Args[0]
			}
			if t := typeOf(x); t != nil {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					return p.Elem()
				}
			}
		case strings.HasPrefix(n, "reflect.TypeFor"):
			if f, _ := call.Call.Value.(*ssa.Function); f != nil && len(f.TypeArgs()) == 1 {
				return f.TypeArgs()[0]
			}
		}
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			if t := typeOf(s.Val); t != nil {
				out[g.Name()] = types.TypeString(t, qual)
			}
		}
	}
	return out
}

func (c *p05) elements() {
	vars := c.reflectTypeVars()
	for _, side := range []struct{ get, pre, what string }{{"ua.getEncoder", encPre, "Encoder"}, {"ua.getDecoder", decPre, "Decoder"}} {
		side := side
		fn := c.p.Func(side.get)
		seen := map[string]string{}
		h := Hooks{MaxDepth: 4}
		h.Inline = func(f *ssa.Function) bool {
			return f.Pkg == c.p.SSA["ua"] && f.Signature.Params().Len() == 0
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok || !eq {
				return
			}
			if strings.HasSuffix(a.Name, "reflect.Type.Kind") && b.Op == "const" {
				if strings.HasSuffix(a.Args[0].Name, "reflect.Type.Elem") {
					st.Set("elemkind", b)
				} else {
					st.Set("kind", b)
				}
			}
			for _, t := range []*Term{a, b} {
				if g := globalOf(t); g != "" && vars[g] != "" {
					st.Set("type", x.T.mk("const", vars[g], nil, nil, nil, nil))
				}
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if res[0].IsNil() {
				return
			}
			kind, typ, ek := "", "", ""
			if t := st.Get("kind"); t != nil {
				kind = t.Name
			}
			if t := st.Get("type"); t != nil {
				typ = t.Name
			}
			if t := st.Get("elemkind"); t != nil {
				ek = t.Name
			}
			ops := opsOf(c.p, res[0], side.pre)
			key := side.get + " kind " + kind + " " + typ
			c.r.Ob("element", key)
			want := ""
			switch {
			case typ != "":
				want = typeOps[typ]
			case kind == "25":
				want = "getStruct" + side.what
			case kind == "22":
				want = "getStructPtr" + side.what
			case kind == "23" && ek == "8":
				want = "ByteArray"
			case kind == "23":
				want = "getSlice" + side.what
			default:
				want = kindOps[kind]
			}
			if want == "ByteArray" && ops == "ByteString" {
				ops = want
			}
			if want == "" || ops != want {
				c.r.Bad("element", key, c.p.InstrPos(in), fmt.Sprintf("%s selects %q for kind %s %s, expected %q", side.get, ops, kind, typ, want), st.Trace(3)...)
				return
			}
			seen[kind+"/"+typ] = want
		}
		x := NewExec(c.p, h)
		x.Run(fn, nil)
		c.r.Saw(x)
		need := map[string]bool{"25/": true, "22/": true, "23/": true}
		for k := range kindOps {
			need[k+"/"] = true
		}
		for _, t := range sortedKeys(typeOps) {
			k := "25/"
			if strings.HasSuffix(t, "NodeID") && t == "ua.NodeID" || t == "ua.ExtensionObject" || t == "ua.Variant" {
				k = "20/"
			}
			if t == "uuid.UUID" {
				continue // an array type: handled by its kind or by comparison
			}
			need[k+t] = true
		}
		for _, k := range sortedKeys(need) {
			c.r.Ob("element", side.get+" has "+k)
			if seen[k] == "" {
				c.r.Bad("element", side.get+"/"+k+" missing", c.p.Pos(fn.Pos()), fmt.Sprintf("%s has no encoding for kind/type %s", side.get, k))
			}
		}
		c.sliceElement(side.what)
	}
}

// opsOf: what the element function does: the single codec operation it calls, or the constructor it comes from.
func opsOf(p *Program, t *Term, pre string) string {
	for t.Op == "extract" {
		t = t.Args[0]
	}
	if t.Op == "call" {
		return strings.TrimPrefix(t.Name, "ua.")
	}
	if t.Op != "closure" && t.Op != "func" {
		return t.Op
	}
	f := p.FuncOpt(t.Name)
	if f == nil {
		return "?"
	}
	var ops []string
	EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
		if strings.HasPrefix(name, pre) {
			ops = append(ops, name[len(pre):])
		}
	})
	return strings.Join(ops, " ")
}

func (c *p05) sliceElement(what string) {
	fn := c.p.Func("ua.getSlice" + what)
	if len(fn.AnonFuncs) == 0 {
		c.r.Bad("element", FuncName(fn), c.p.Pos(fn.Pos()), FuncName(fn)+" returns no element function")
		return
	}
	cl := fn.AnonFuncs[len(fn.AnonFuncs)-1]
	isElem := func(ci *CallInfo) bool {
		return ci.Name == "dyn" && ci.Callee != nil
	}
	h := Hooks{MaxDepth: 4, Inline: c.helperInline}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if _, ok := wireEvent(ci.Name); ok {
			st.Set("ops", x.T.mk("const", strings.TrimSpace(constName(st.Get("ops"))+" "+ci.Name[strings.LastIndex(ci.Name, ".")+1:]), nil, nil, nil, nil))
			st.Set("lenarg", ci.Args[1])
			return ActOpaque
		}
		if isElem(ci) {
			st.Set("elem", x.Flag())
			if !st.Has("ops") {
				c.r.Bad("element", FuncName(fn), c.p.InstrPos(ci.Instr), FuncName(fn)+": an element is coded before the length", st.Trace(3)...)
			}
			return ActOpaque
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if isErrConst(res) {
			return
		}
		c.r.Ob("element", FuncName(fn))
		ops := constName(st.Get("ops"))
		if ops != "WriteInt32" && ops != "ReadInt32" {
			c.r.Bad("element", FuncName(fn), c.p.InstrPos(in), fmt.Sprintf("%s: an array does not start with one Int32 length (%s)", FuncName(fn), ops), st.Trace(3)...)
		}
	}
	x := NewExec(c.p, h)
	x.Run(cl, nil)
	c.r.Saw(x)
	// every element is visited: a loop whose bound is the length
	bound := false
	for _, b := range cl.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ || bo.Op == token.GTR || bo.Op == token.GEQ) {
				if ph, ok := bo.X.(*ssa.Phi); ok && stepsByOne(ph) && startsAt(ph, 0, 1) && bo.Op == token.LSS && !isBin(bo.Y) {
					bound = true
				}
				if ad, ok := bo.X.(*ssa.BinOp); ok && ad.Op == token.ADD && bo.Op == token.LSS {
					if ph, ok := ad.X.(*ssa.Phi); ok && stepsByOne(ph) {
						bound = true
					}
				}
			}
		}
	}
	c.r.Ob("element", FuncName(fn)+" loop")
	if !bound {
		c.r.Bad("element", FuncName(fn)+"/loop", c.p.Pos(cl.Pos()), FuncName(fn)+": no loop visits the elements one by one up to the length")
	}
}

func constName(t *Term) string {
	if t == nil {
		return ""
	}
	return t.Name
}

func startsAt(ph *ssa.Phi, vals ...int64) bool {
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			continue
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		found := false
		for _, v := range vals {
			if k.Int64() == v {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func dbgOut(w *wirePath) string {
	s := ""
	for _, k := range sortedKeys(w.st.A) {
		if strings.HasPrefix(k, "out") {
			s += k + "=" + w.st.A[k].Key() + " "
		}
	}
	return s
}

func isBin(v ssa.Value) bool { _, ok := v.(*ssa.BinOp); return ok }

// flatten: the helpers that turn nested slices into elements and dimensions.
func (c *p05) flatten() {
	for _, fn := range c.p.Funcs {
		n := FuncName(fn)
		var rank int
		base := n
		if i := strings.Index(n, "["); i > 0 {
			base = n[:i]
		}
		switch base {
		case "ua.flatten2D", "ua.dims2D":
			rank = 2
		case "ua.flatten3D", "ua.dims3D":
			rank = 3
		default:
			continue
		}
		if len(fn.Blocks) == 0 {
			continue
		}
		c.r.Ob("sequence", base)
		c.r.SawFn(fn)
		if strings.HasPrefix(base, "ua.flatten") {
			n := 0
			EachCall(fn, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
				if name != "builtin.append" {
					return
				}
				n++
				// the accumulator comes first, the next piece is appended behind it
				if _, ok := in.Common().Args[0].(*ssa.Phi); !ok {
					c.r.Bad("sequence", base, c.p.InstrPos(in), base+" does not append the pieces behind one another")
				}
				for _, ld := range nestedIndex(in.Common().Args[1]) {
					if !indexAscends(ld) {
						c.r.Bad("sequence", base, c.p.InstrPos(in), base+" does not visit the pieces in ascending order")
					}
				}
			})
			if n != 1 {
				c.r.Bad("sequence", base, c.p.Pos(fn.Pos()), base+" is not one append per piece")
			}
			continue
		}
		h := Hooks{}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			t := res[0]
			for t.Op == "slice" {
				t = t.Args[0]
			}
			for k := 0; k < rank; k++ {
				e := x.Load(st, x.T.mk("indexaddr", "", []*Term{t, constInt(x, k)}, nil, nil, nil), types.Typ[types.Int32])
				if e == nil {
					c.r.Bad("sequence", base, c.p.InstrPos(in), fmt.Sprintf("%s: dimension %d is not set", base, k))
					return
				}
				if z, ok := numConst(e); ok && z == 0 {
					continue // empty
				}
				e = e.Strip()
				depth := 0
				if e.IsCall("builtin.len") {
					a := e.Args[0]
					for a.Op == "load" && a.Args[0].Op == "indexaddr" || a.Op == "index" {
						if a.Op == "load" {
							a = a.Args[0]
						}
						a = a.Args[0]
						depth++
					}
				} else {
					depth = -1
				}
				if depth != k {
					c.r.Bad("sequence", base, c.p.InstrPos(in), fmt.Sprintf("%s: dimension %d is not the length of the slices nested %d deep", base, k, k))
				}
			}
		}
		x := NewExec(c.p, h)
		x.Run(fn, nil)
		c.r.Saw(x)
	}
}

func constInt(x *Exec, k int) *Term {
	return x.T.mk("const", fmt.Sprint(k), nil, nil, nil, types.Typ[types.Int])
}

// nestedIndex: the element accesses a value is reached by.
func nestedIndex(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for v != nil {
		switch t := v.(type) {
		case *ssa.UnOp:
			v = t.X
		case *ssa.IndexAddr:
			out = append(out, t.Index)
			v = t.X
		case *ssa.ChangeType:
			v = t.X
		default:
			return out
		}
	}
	return out
}

func indexAscends(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	return ok && stepsByOne(ph) && startsAt(ph, 0, -1)
}
