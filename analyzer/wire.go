package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sequences of codec operations along the paths of a function.

// wirePath is one path from entry to a return with no failed codec operation.
type wirePath struct {
	x   *Exec
	st  *State
	ev  []*Term // tuples, Name = operation, Args = arguments without the codec
	res []*Term
	in  ssa.Instruction
}

type wireOpts struct {
	event  func(name string) (string, bool) // codec operation name of a callee
	inline func(fn *ssa.Function) bool      // further helpers to expand
	branch func(x *Exec, st *State, cond *Term, taken bool)
	params []*Term
	each   func(w *wirePath)
	// onFail is called when a path on which an operation failed returns.
	onFail func(x *Exec, st *State, res []*Term, in ssa.Instruction)
	call   func(x *Exec, st *State, ci *CallInfo) Action
	depth  int
	light  bool // no bounds, no facts
}

func wireEvents(st *State) []*Term {
	var out []*Term
	for i := 0; ; i++ {
		t := st.Get(fmt.Sprintf("ev%03d", i))
		if t == nil {
			return out
		}
		out = append(out, t)
	}
}

// errOf: the term is the error result of a codec operation.
func errOf(t *Term, ev []*Term) bool {
	if t == nil {
		return false
	}
	for t.Op == "extract" {
		t = t.Args[0]
	}
	if t.Op != "call" && t.Op != "dyncall" {
		return false
	}
	for _, e := range ev {
		if e.V == t.V && e.F == t.F {
			return true
		}
	}
	return false
}

func (p *Program) wireRun(fn *ssa.Function, o wireOpts) *Exec { return p.wireRunI(fn, o, nil) }

func (p *Program) wireRunI(fn *ssa.Function, o wireOpts, instr func(x *Exec, st *State, in ssa.Instruction)) *Exec {
	if o.depth == 0 {
		o.depth = 5
	}
	h := Hooks{MaxDepth: o.depth, OnInstr: instr, NoFacts: o.light}
	h.Inline = func(f *ssa.Function) bool { return o.inline != nil && o.inline(f) }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if name, ok := o.event(ci.Name); ok && !(ci.Frame.parent == nil && ci.Fn == fn && false) {
			ev := wireEvents(st)
			var v ssa.Value
			if c, ok := ci.Instr.(*ssa.Call); ok {
				v = c
			}
			for _, e := range ev {
				if e.V == v && e.F == ci.Frame {
					st.Set("loop:"+e.Name, x.Flag())
					if len(ci.Args) > 1 && !repIndexed(ci.Args[1]) {
						st.Set("badrep", x.Flag())
					}
					return ActOpaque // repeated by a loop
				}
			}
			args := ci.Args
			if len(args) > 0 {
				args = args[1:]
			}
			st.Set(fmt.Sprintf("ev%03d", len(ev)), x.T.mk("tuple", name, args, ci.Frame, v, nil))
			return ActOpaque
		}
		if o.call != nil {
			return o.call(x, st, ci)
		}
		return ActDefault
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok && b.IsNil() {
			if errOf(a, wireEvents(st)) && !eq {
				st.Set("failed", x.Flag())
			}
		}
		if !o.light {
			boundBranch(x, st, cond, taken)
		}
		bitBranch(x, st, cond, taken)
		if o.branch != nil && !st.dead {
			o.branch(x, st, cond, taken)
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if st.Has("failed") {
			if o.onFail != nil {
				o.onFail(x, st, res, in)
			}
			return
		}
		if o.each != nil {
			o.each(&wirePath{x, st, wireEvents(st), res, in})
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	return x
}

// repIndexed: on a later iteration the operation works on the next element.
func repIndexed(t *Term) bool {
	t = t.Strip()
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op == "indexaddr" || t.Op == "index" {
		return inductive(t.Args[1])
	}
	return false
}

// boundBranch records upper and lower bounds that hold on the path: "ub:<term>" and "lb:<term>".
func boundBranch(x *Exec, st *State, cond *Term, taken bool) {
	c, tk := NormCond(cond, taken)
	if c.Op != "bin" {
		return
	}
	a, b, op := c.Args[0], c.Args[1], c.Name
	if !tk {
		op = negate(op)
	}
	if a.Op == "const" && b.Op != "const" {
		a, b, op = b, a, flip(op)
	}
	k := parseConst(b)
	if k == nil || k.Kind() != constant.Int {
		return
	}
	key := a.Strip().Key()
	set := func(pre string, v constant.Value) {
		st.Set(pre+key, x.T.mk("const", v.ExactString(), nil, nil, nil, types.Typ[types.Int64]))
	}
	switch op {
	case "<=":
		set("ub:", k)
	case "<":
		set("ub:", subOne(k))
	case ">=":
		set("lb:", k)
	case ">":
		set("lb:", addOne(k))
	case "==":
		set("ub:", k)
		set("lb:", k)
	case "!=":
		set("ne:", k)
	}
}

func subOne(k constant.Value) constant.Value {
	i, _ := new(big.Int).SetString(k.ExactString(), 10)
	return constant.Make(i.Sub(i, big.NewInt(1)))
}

func addOne(k constant.Value) constant.Value {
	i, _ := new(big.Int).SetString(k.ExactString(), 10)
	return constant.Make(i.Add(i, big.NewInt(1)))
}

// bitBranch records the outcome of tests of the form m&k ==/!= c: "bit:<root>:<k>" holds the value
// of m&k (or "~c" when it is only known to differ). A contradicting test ends the path.
func bitBranch(x *Exec, st *State, cond *Term, taken bool) {
	a, b, eq, ok := CmpOf(cond, taken)
	if !ok {
		return
	}
	if a.Op == "const" {
		a, b = b, a
	}
	kc := parseConst(b)
	if kc == nil || kc.Kind() != constant.Int {
		return
	}
	m, mask := a.Strip(), ""
	if m.Op == "bin" && m.Name == "&" {
		y := m.Args[1]
		m2 := m.Args[0]
		if m2.Op == "const" {
			m2, y = y, m2
		}
		if y.Op != "const" {
			return
		}
		mask = y.Name
		m = m2.Strip()
	}
	if m.Op != "load" && m.Op != "param" {
		return
	}
	key := "bit:" + cellKey(m) + ":" + mask
	val := kc.ExactString()
	if old := st.Get(key); old != nil {
		if eq && !strings.HasPrefix(old.Name, "~") && old.Name != val || !eq && old.Name == val {
			st.dead = true
			return
		}
		if eq && strings.Contains(old.Name+"~", "~"+val+"~") {
			st.dead = true
			return
		}
	}
	if eq {
		st.Set(key, x.T.mk("const", val, nil, nil, nil, nil))
		return
	}
	// single-bit masks have only two values
	if mask != "" && val == "0" && isPow2(mask) {
		st.Set(key, x.T.mk("const", mask, nil, nil, nil, nil))
		return
	}
	prev := ""
	if old := st.Get(key); old != nil {
		if !strings.HasPrefix(old.Name, "~") {
			return
		}
		prev = old.Name
	}
	if !strings.Contains(prev+"~", "~"+val+"~") {
		st.Set(key, x.T.mk("const", prev+"~"+val, nil, nil, nil, nil))
	}
}

func isPow2(s string) bool {
	i, ok := new(big.Int).SetString(s, 10)
	return ok && i.Sign() > 0 && new(big.Int).And(i, new(big.Int).Sub(i, big.NewInt(1))).Sign() == 0
}

// cellOf is the address a loaded value comes from, through conversions.
func cellOf(t *Term) *Term {
	if t == nil {
		return nil
	}
	t = t.Strip()
	if t.Op == "load" {
		return t.Args[0]
	}
	return t
}

func cellKey(t *Term) string {
	c := cellOf(t)
	if c.Op == "alloc" {
		return fmt.Sprintf("a%d", c.id)
	}
	return c.Key()
}

// bits gives the path's knowledge of cell&mask as a number, if known.
func pathBits(st *State, cell *Term, mask string) (string, bool) {
	k := fmt.Sprintf("a%d", cell.id)
	if cell.Op != "alloc" {
		k = cell.Key()
	}
	t := st.Get("bit:" + k + ":" + mask)
	if t == nil || strings.HasPrefix(t.Name, "~") {
		return "", false
	}
	return t.Name, true
}

func pathUB(st *State, t *Term) (int64, bool) {
	b := st.Get("ub:" + t.Strip().Key())
	if b == nil {
		return 0, false
	}
	v := parseConst(b)
	if v == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(v)
	return n, ok
}

// ---- linear forms

type linear struct {
	c    *big.Int
	coef map[string]*big.Int
}

func linOf(t *Term) *linear {
	t = t.Strip()
	l := &linear{new(big.Int), map[string]*big.Int{}}
	if t.Op == "const" {
		if i, ok := new(big.Int).SetString(t.Name, 0); ok {
			l.c = i
			return l
		}
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		a, b := linOf(t.Args[0]), linOf(t.Args[1])
		switch t.Name {
		case "+", "-":
			sg := big.NewInt(1)
			if t.Name == "-" {
				sg = big.NewInt(-1)
			}
			l.c.Add(a.c, new(big.Int).Mul(sg, b.c))
			for k, v := range a.coef {
				l.add(k, v)
			}
			for k, v := range b.coef {
				l.add(k, new(big.Int).Mul(sg, v))
			}
			return l
		case "*":
			if len(a.coef) == 0 {
				a, b = b, a
			}
			if len(b.coef) == 0 {
				l.c.Mul(a.c, b.c)
				for k, v := range a.coef {
					l.add(k, new(big.Int).Mul(v, b.c))
				}
				return l
			}
			sa, sb := a.String(), b.String()
			if sa > sb {
				sa, sb = sb, sa
			}
			l.add("("+sa+")*("+sb+")", big.NewInt(1))
			return l
		case "/", "%":
			l.add("("+a.String()+")"+t.Name+"("+b.String()+")", big.NewInt(1))
			return l
		}
	}
	l.add(t.Key(), big.NewInt(1))
	return l
}

func (l *linear) add(k string, v *big.Int) {
	o := l.coef[k]
	if o == nil {
		o = new(big.Int)
	}
	s := new(big.Int).Add(o, v)
	if s.Sign() == 0 {
		delete(l.coef, k)
		return
	}
	l.coef[k] = s
}

func (l *linear) String() string {
	var sb strings.Builder
	for _, k := range sortedKeys(l.coef) {
		fmt.Fprintf(&sb, "%s*%s + ", l.coef[k], k)
	}
	sb.WriteString(l.c.String())
	return sb.String()
}
