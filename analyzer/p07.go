package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", "Path-sensitive error-propagation analysis of every function that reads from a decoder or the connection; bounds of every slice and index into a received chunk proved from path conditions by linear entailment; every allocation sized by the wire proved bounded by the bytes that remain; every cycle of the decoder's call graph proved to pass the nesting counter; no unchecked type assertion on data from the peer.", runP07)
}

func runP07(p *Program, r *Report) {
	r.Rule("propagate: no path returns success, or uses what was decoded, after a failed or unchecked read or decode")
	r.Rule("range: every slice or index into a received chunk is within bounds on every path")
	r.Rule("blocks: a chunk is deciphered only when its length is a multiple of the cipher's block size")
	r.Rule("token: keys are used only for a token the server has issued")
	r.Rule("alloc: an allocation sized by the wire is bounded by the bytes that remain")
	r.Rule("depth: every recursion of the decoder passes the nesting limit")
	r.Rule("assert: data from the peer is never the operand of an unchecked type assertion")
	c := &p07{p: p, r: r}
	c.propagate()
	c.ranges()
	c.allocs()
	c.depth()
	c.asserts()
	r.Min("propagate", 70)
	r.Min("range", 12)
	r.Min("blocks", 2)
	r.Min("alloc", 20)
	r.Min("depth", 3)
	r.Min("token", 2)
}

type p07 struct {
	p    *Program
	r    *Report
	done map[string]bool
}

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if sig.Results().At(n-1).Type().String() == "error" {
		return n - 1
	}
	return -1
}

func isDecoderType(t types.Type) bool { return TypeName(derefType(t)) == "ua.BinaryDecoder" }

// decodeLike: the call reads from the wire and reports failure by an error.
func (c *p07) decodeLike(cm *ssa.CallCommon) bool {
	sig := cm.Signature()
	if errIndex(sig) < 0 {
		return false
	}
	n, fn := CallName(cm)
	if strings.HasPrefix(n, "ua.BinaryDecoder.") || n == "io.ReadFull" || n == "io.ReadAtLeast" || strings.HasSuffix(n, "SecureChannel.read") || strings.HasSuffix(n, "SecureChannel.Read") || strings.HasSuffix(n, "SecureChannel.readRequest") || strings.HasSuffix(n, "SecureChannel.readResponse") || n == "net.Conn.Read" {
		return true
	}
	if fn == nil && !cm.IsInvoke() || fn != nil && c.p.InModule(fn) {
		// a decoder passed along
		for i := 0; i < sig.Params().Len(); i++ {
			if isDecoderType(sig.Params().At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (c *p07) decoding(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && c.decodeLike(call.Common()) {
				return true
			}
		}
	}
	return false
}

func (c *p07) propagate() {
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil {
			continue
		}
		switch fn.Pkg.Pkg.Name() {
		case "ua", "server", "client":
		default:
			continue
		}
		if !c.decoding(fn) {
			continue
		}
		c.propagateIn(fn)
	}
}

func (c *p07) propagateIn(fn *ssa.Function) {
	name := FuncName(fn)
	c.r.Ob("propagate", name)
	c.r.SawFn(fn)
	raw := strings.HasSuffix(name, "SecureChannel.read") || strings.HasSuffix(name, "SecureChannel.Read")
	ei := errIndex(fn.Signature)
	h := Hooks{MaxDepth: 1, SkipClosures: func(*CallInfo, *Term) bool { return true }}
	h.Inline = func(f *ssa.Function) bool { return f.Parent() == fn && false }
	bad := func(st *State, in ssa.Instruction, key, msg string) {
		c.r.Bad("propagate", name+"/"+key, c.p.InstrPos(in), msg, st.Trace(6)...)
	}
	isErr := func(t, call *Term) bool {
		t = t.Strip()
		return t == call || t.Op == "extract" && t.Args[0] == call
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		for k, t := range st.A {
			if !strings.HasPrefix(k, "pend:") && k != "failed" {
				continue
			}
			call := t
			for _, a := range ci.Args {
				if a == nil {
					continue
				}
				s := a.Strip()
				if s.Op == "extract" && s.Args[0] == call && !isErrorType(s.Typ) && strings.HasPrefix(ci.Name, "server.") || s.Op == "extract" && s.Args[0] == call && !isErrorType(s.Typ) && strings.HasPrefix(ci.Name, "client.") {
					bad(st, ci.Instr, "use/"+shortName(ci.Name), "what "+call.Name+" returned is passed to "+ci.Name+" although it failed or its error was not checked")
				}
			}
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		cm := callCommon(ci.Instr)
		if cm == nil || ci.Go || ci.Defer || !c.decodeLike(cm) || res == nil {
			return
		}
		k := "pend:" + res.Key()
		if st.Has(k) {
			bad(st, ci.Instr, "unchecked/"+shortName(ci.Name), "the error of "+ci.Name+" is not checked before the next one")
		}
		st.Set(k, res)
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsNil() {
			a, b = b, a
		}
		if !b.IsNil() {
			if eq { // err == io.EOF and the like
				for k, t := range st.A {
					if strings.HasPrefix(k, "pend:") && isErr(a, t) {
						st.Del(k)
						st.Set("failed", t)
						return
					}
				}
			}
			return
		}
		for k, t := range st.A {
			if strings.HasPrefix(k, "pend:") && isErr(a, t) {
				st.Del(k)
				if !eq {
					st.Set("failed", t)
				}
				return
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if ei < 0 {
			return
		}
		e := res[ei]
		if t := st.Get("failed"); t != nil && e.IsNil() {
			bad(st, in, "swallowed/"+shortName(t.Name), "success is returned although "+t.Name+" failed")
		}
		for k, t := range st.A {
			if strings.HasPrefix(k, "pend:") && !isErr(e, t) && (e.IsNil() || !neverNilErr(e)) {
				if raw {
					continue
				}
				bad(st, in, "unchecked/"+shortName(t.Name), "success is returned without checking the error of "+t.Name)
			}
		}
	}
	x := NewExec(c.p, h)
	x.Run(fn, nil)
	c.r.Paths += x.States
}

// neverNilErr: an error constant.
func neverNilErr(t *Term) bool {
	t = t.Strip()
	return t.Op == "const" || t.Op == "global" || t.Op == "load" || t.Op == "call"
}

func isErrorType(t types.Type) bool { return t != nil && t.String() == "error" }

func shortName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func callCommon(in ssa.Instruction) *ssa.CallCommon {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return ci.Common()
	}
	return nil
}

// ---- bounds -------------------------------------------------------------------------------------

func (c *p07) ranges() {
	for _, s := range recvSides {
		c.rangeSide(s)
		c.rangeRead(c.p.Func(s.read))
	}
}

func (c *p07) factsOf(st *State, phiV map[string]ssa.Value) *linFacts {
	f := &linFacts{}
	for k, t := range st.A {
		if strings.HasPrefix(k, "lf:") {
			f.facts = append(f.facts, linCmp(t, true)...)
		} else if strings.HasPrefix(k, "lF:") {
			f.facts = append(f.facts, linCmp(t, false)...)
		}
	}
	f.nonneg = func(a string) bool {
		v, ok := phiV[a]
		return ok && (v == nil || growing(v, map[ssa.Value]bool{}))
	}
	return f
}

// collectPhis remembers which ssa value an atom of the terms stands for.
func collectPhis(ts []*Term, m map[string]ssa.Value) {
	for _, t := range ts {
		if t == nil {
			continue
		}
		t.Contains(func(s *Term) bool {
			if s.Op == "phi" && s.V != nil {
				m[s.Key()] = s.V
			}
			if s.Typ != nil {
				if b, ok := s.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					m[s.Key()] = nil
				}
			}
			return false
		})
	}
}

func (c *p07) rangeSide(s recvSide) {
	ev := recvEvents{}
	side := s.side
	phis := map[string]ssa.Value{}
	ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
		n, tk := NormCond(cond, taken)
		if n.Op != "bin" {
			return
		}
		// divisibility
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			if k, isK := numConst(b); isK && k == 0 && a.Strip().Op == "bin" && a.Strip().Name == "%" {
				st.Set("mod", a.Strip())
			}
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok && !eq {
			if k, isK := numConst(b); isK && k == 0 && strings.HasPrefix(kindOf(st)+"x", "") {
				if a.Strip().HasField("tokenID") {
					st.Set("issued", x.Flag())
				} else if a.Strip().Op == "load" && a.Strip().Args[0].Op == "alloc" {
					st.Set("nz:"+a.Strip().Key(), x.Flag())
				}
			}
		}
		ls := linCmp(cond, taken)
		if len(ls) == 0 {
			return
		}
		rel := false
		n.Contains(func(t *Term) bool {
			if t.Op == "call" && t.Name == s.read {
				rel = true
			}
			return false
		})
		for _, a := range n.Args {
			if t := st.Get("mlenAtom"); t != nil {
				if _, ok := linOf(a).coef[t.Key()]; ok {
					rel = true
				}
			}
			if a.Strip().Op == "phi" {
				rel = true
			}
		}
		if !rel {
			return
		}
		// messageLength compared with the count becomes the tracked length
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq && isCountOf(a, s.read) != isCountOf(b, s.read) {
			if isCountOf(a, s.read) {
				a = b
			}
			if a.Op != "const" {
				st.Set("mlenAtom", a.Strip())
			}
		}
		collectPhis(n.Args, phis)
		k := "lf:"
		if !tk {
			k = "lF:"
		}
		st.Set(k+n.Key(), n)
	}
	ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
		switch k {
		case "read":
			for key := range st.A {
				if strings.HasPrefix(key, "lf:") || strings.HasPrefix(key, "lF:") || strings.HasPrefix(key, "nz:") || key == "mod" || key == "mlenAtom" || key == "issued" {
					st.Del(key)
				}
			}
		case "decrypt":
			c.r.Ob("blocks", side)
			m := st.Get("mod")
			if m == nil {
				c.r.Bad("blocks", side, c.p.InstrPos(ci.Instr), "a chunk is deciphered although its length may not be a multiple of the block size", st.Trace(6)...)
			}
		case "join":
			if kd := kindOf(st); kd == "Chunk" || kd == "Final" || kd == "CloseFinal" {
				c.r.Ob("token", side)
				nz := false
				for key := range st.A {
					if strings.HasPrefix(key, "nz:") {
						nz = true
					}
				}
				if !nz || side == "client" && !st.Has("issued") {
					c.r.Bad("token", side, c.p.InstrPos(ci.Instr), "a message is processed although its token id may be zero or no token has been issued: the keys may not exist", st.Trace(6)...)
				}
			}
		}
	}
	ev.instr = func(x *Exec, st *State, in ssa.Instruction) {
		if !st.Has("buffer") {
			return
		}
		var base ssa.Value
		var lo, hi *Term
		idx := false
		switch v := in.(type) {
		case *ssa.Slice:
			base = v.X
			if v.Low != nil {
				lo = x.Val(st, v.Low)
			}
			if v.High != nil {
				hi = x.Val(st, v.High)
			}
		case *ssa.IndexAddr:
			base = v.X
			lo = x.Val(st, v.Index)
			idx = true
		default:
			return
		}
		sl, ok := base.Type().Underlying().(*types.Slice)
		if !ok || sl.Elem().String() != "byte" && sl.Elem().String() != "uint8" {
			return
		}
		if bufRoot(x.Val(st, base)) != bufRoot(st.Get("buffer")) {
			return
		}
		c.rangeOb(x, st, in, side, lo, hi, idx, s.read, phis)
	}
	x := c.p.recvExplore(s, ev)
	c.r.Saw(x)
}

func (c *p07) rangeOb(x *Exec, st *State, in ssa.Instruction, side string, lo, hi *Term, idx bool, read string, phis map[string]ssa.Value) {
	var sb strings.Builder
	fmt.Fprint(&sb, c.p.InstrPos(in), idx, kindOf(st), termID(lo), ".", termID(hi), ".", termID(st.Get("mlenAtom")))
	for _, k := range sortedKeys(st.A) {
		if strings.HasPrefix(k, "lf:") || strings.HasPrefix(k, "lF:") {
			fmt.Fprint(&sb, k[:3], st.A[k].id, ",")
		}
	}
	if c.done == nil {
		c.done = map[string]bool{}
	}
	if c.done[sb.String()] {
		return
	}
	c.done[sb.String()] = true
	collectPhis([]*Term{lo, hi}, phis)
	f := c.factsOf(st, phis)
	zero := x.Int(0)
	if lo == nil {
		lo = zero
	}
	l := linOf(lo)
	key := fmt.Sprintf("%s %s", side, c.p.InstrPos(in))
	c.r.Ob("range", key)
	construct := side + "/" + kindOf(st) + "/" + rangeName(in)
	var count *Term
	addAxioms := func(t *Term) {
		t.Contains(func(s *Term) bool {
			if s.Op == "extract" && s.Args[0].IsCall(read) && count == nil {
				count = s
			}
			if s.Op == "call" && strings.HasSuffix(s.Name, ".Len") && len(s.Args) == 1 {
				// bytes that remain of what was read
				r := s.Args[0]
				r.Contains(func(q *Term) bool {
					if q.Op == "slice" && !noTerm(q.Args[2]) && isZeroOrNone(q.Args[1]) {
						f.facts = append(f.facts, linSub(linOf(q.Args[2]), linOf(s)))
						return true
					}
					return false
				})
			}
			return false
		})
	}
	addAxioms(lo)
	if hi != nil {
		addAxioms(hi)
	}
	for k, t := range st.A {
		if strings.HasPrefix(k, "lf:") || strings.HasPrefix(k, "lF:") {
			addAxioms(t)
		}
	}
	if os.Getenv("DBG07") != "" {
		fmt.Println("RANGE", c.p.InstrPos(in), "lo", l, "hi", hi)
		for _, q := range f.facts {
			fmt.Println("    fact", q)
		}
	}
	if !f.holds(l) {
		c.r.Bad("range", construct+"/low", c.p.InstrPos(in), "the lower bound may be negative: "+l.String(), st.Trace(8)...)
	}
	// upper bounds
	within := func(t *Term, strict bool) bool {
		g := linOf(t)
		var tops []*linear
		if count != nil {
			tops = append(tops, linOf(count))
		}
		for k, v := range phis {
			if v != nil && filled(v) {
				for a := range g.coef {
					if a == k {
						tops = append(tops, oneAtom(k))
					}
				}
			}
		}
		// the tracked message length
		if m := st.Get("mlenAtom"); m != nil {
			tops = append(tops, linOf(m))
		}
		for _, u := range tops {
			d := linSub(u, g)
			if strict {
				d.c.Sub(d.c, bigOne)
			}
			if f.holds(d) {
				return true
			}
		}
		if k, ok := numConst(t); ok && k <= 8 {
			return true
		}
		return false
	}
	if hi != nil {
		if !f.holds(linSub(linOf(hi), l)) {
			c.r.Bad("range", construct+"/order", c.p.InstrPos(in), "the upper bound may be less than the lower one", st.Trace(8)...)
		}
		if !within(hi, false) && !isCountOf(hi, read) {
			c.r.Bad("range", construct+"/high", c.p.InstrPos(in), "the upper bound may exceed what was received", st.Trace(8)...)
		}
	} else if !within(lo, idx) {
		c.r.Bad("range", construct+"/high", c.p.InstrPos(in), "the index may exceed what was received", st.Trace(8)...)
	}
}

func termID(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func rangeName(in ssa.Instruction) string {
	if _, ok := in.(*ssa.Slice); ok {
		return "slice"
	}
	return "index"
}

// rangeRead judges the raw read of a chunk.
func (c *p07) rangeRead(fn *ssa.Function) {
	name := FuncName(fn)
	phis := map[string]ssa.Value{}
	h := Hooks{MaxDepth: 3}
	h.Inline = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		n, tk := NormCond(cond, taken)
		if n.Op != "bin" || len(linCmp(cond, taken)) == 0 {
			return
		}
		for _, a := range n.Args {
			if _, isK := numConst(a); !isK && !isBasicNumeric(a.Typ) {
				return
			}
		}
		collectPhis(n.Args, phis)
		k := "lf:"
		if !tk {
			k = "lF:"
		}
		st.Set(k+n.Key(), n)
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		// facts about a phi do not survive the next iteration
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, t := range st.A {
				if (strings.HasPrefix(k, "lf:") || strings.HasPrefix(k, "lF:")) && t.Contains(func(s *Term) bool { return s.Op == "phi" && s.V == ssa.Value(ph) }) {
					st.Del(k)
				}
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		v, ok := in.(*ssa.Slice)
		if !ok || len(fn.Params) < 2 || x.Val(st, v.X).Strip() != x.Val(st, fn.Params[1]).Strip() {
			return
		}
		var lo, hi *Term = x.Int(0), nil
		if v.Low != nil {
			lo = x.Val(st, v.Low)
		}
		if v.High == nil {
			return
		}
		hi = x.Val(st, v.High)
		collectPhis([]*Term{lo, hi}, phis)
		f := c.factsOf(st, phis)
		c.r.Ob("range", name+" "+c.p.InstrPos(in))
		if !f.holds(linOf(lo)) || !f.holds(linSub(linOf(hi), linOf(lo))) {
			c.r.Bad("range", name+"/order", c.p.InstrPos(in), "the bounds of the part of the buffer to be read may be out of order", st.Trace(8)...)
		}
		if k, isK := numConst(hi); isK && k <= 8 {
			return
		}
		okHi := false
		for _, fn := range []string{"builtin.cap", "builtin.len"} {
			for _, q := range f.facts {
				for a := range q.coef {
					if strings.HasPrefix(a, fn+"(") && f.holds(linSub(oneAtom(a), linOf(hi))) {
						okHi = true
					}
				}
			}
		}
		if !okHi {
			c.r.Bad("range", name+"/high", c.p.InstrPos(in), "the length announced by the peer is not compared with the size of the buffer before reading", st.Trace(8)...)
		}
	}
	x := NewExec(c.p, h)
	x.Run(fn, nil)
	c.r.Saw(x)
}
