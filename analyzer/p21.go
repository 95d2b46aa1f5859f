package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P21", "Typestate over every path of every function that writes to a channel's connection (helpers expanded): each chunk carries the next sequence number taken for it alone, taken and written within one hold of the channel's sending lock that lasts for the whole message; every path that reports success has sent the last chunk. Each function that hands out numbers is explored on its own: what it returns is what it atomically put in place of the value it read, one more than it, and never zero; the ids and handles in use come from such functions.", runP21)
}

func runP21(p *Program, r *Report) {
	r.Rule("number: a chunk carries the next sequence number, taken once for this chunk alone")
	r.Rule("held: the sequence number is taken and the chunk written while the channel's sending lock is held, once for the whole message")
	r.Rule("whole: success is reported only after the final chunk was sent; chunks of one message carry its request id and the channel's id")
	r.Rule("next: what is handed out is one more than what was handed out before, never zero, and no other caller can get it")
	r.Rule("source: sequence numbers, request handles, channel and token ids come from such a counter")
	for _, s := range sendSides {
		s := s
		side := s.side
		bad := func(rule, what string, where ssa.Instruction, msg string, st *State) {
			r.Bad(rule, side+"/"+what, p.InstrPos(where), msg, st.Trace(8)...)
		}
		ev := sendEvents{}
		isSem := func(ci *CallInfo) bool { return len(ci.Args) > 0 && lastField(ci.Args[0]) == "sendingSemaphore" }
		ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
			switch {
			case k == "seq":
				r.Ob("held", side+" number taken in "+FuncName(ci.Instr.Parent()))
				if !st.Has("keep:sem") {
					bad("held", "number", ci.Instr, "a sequence number is taken without holding the channel's sending lock", st)
				}
				if st.Has("seqval") {
					bad("number", "gap", ci.Instr, "two sequence numbers are taken for one chunk", st)
				}
			case strings.HasSuffix(ci.Name, "Mutex.Lock") && isSem(ci):
				if st.Has("keep:open") {
					bad("held", "released", ci.Instr, "the sending lock is released between the chunks of a message", st)
				}
				st.Set("keep:sem", x.Flag())
			case strings.HasSuffix(ci.Name, "Mutex.Unlock") && isSem(ci):
				st.Del("keep:sem")
				if st.Has("seqval") && !ci.Defer {
					bad("held", "unlocked", ci.Instr, "the sending lock is released between taking a sequence number and writing the chunk", st)
				}
			}
		}
		ev.branch = func(x *Exec, st *State, cond *Term, taken bool) { sendRest(x, st, cond, taken) }
		ev.block = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
			sendBack(x, st, from, to, func(msg string) {
				bad("whole", "rest", from.Instrs[len(from.Instrs)-1], msg, st)
			})
		}
		ev.emit = func(x *Exec, st *State, ci *CallInfo, kind, content string, buf *Term) {
			switch kind {
			case "Chunk", "Final", "CloseFinal", "OpenFinal":
			default:
				return
			}
			r.Ob("held", side+" "+kind)
			if !st.Has("keep:sem") {
				bad("held", kind, ci.Instr, "a chunk is written without holding the channel's sending lock", st)
			}
			r.Ob("number", side+" "+kind)
			n := len(headerItems(kind))
			seq := st.Get(fmt.Sprintf("it%d", n))
			if !strings.HasPrefix(sentOf(st), headerItems(kind)+"uuB") {
				bad("number", kind+" layout", ci.Instr, "the chunk does not consist of header, sequence number, request id and body", st)
			} else if sv := st.Get("seqval"); sv == nil || seq == nil || seq.Strip() != sv {
				bad("number", kind, ci.Instr, "the chunk does not carry the sequence number taken for it", st)
			}
			r.Ob("whole", side+" "+kind)
			id := st.Get(fmt.Sprintf("it%d", n+1))
			okID := false
			if id != nil {
				if side == "server" {
					okID = id.Strip().Op == "param" && id.Strip().Name == p.Func("server.serverSecureChannel.Write").Params[2].Name()
				} else {
					okID = lastField(id) == "RequestHandle"
				}
			}
			if !okID {
				bad("whole", kind+" id", ci.Instr, "the chunk does not carry the id of the request it belongs to", st)
			}
			if c := st.Get("it2"); c == nil || lastField(c) != "channelID" {
				bad("whole", kind+" channel", ci.Instr, "the chunk does not carry the id of its channel", st)
			}
			rem, n2 := st.Get("keep:rem"), st.Get("copied")
			f := sendFacts(st)
			switch {
			case rem == nil || n2 == nil:
				bad("whole", kind+" count", ci.Instr, "it is not known what remains of the message when the chunk is sent", st)
			case kind == "Chunk":
				g := linSub(linOf(rem), linOf(n2))
				g.c.Sub(g.c, big.NewInt(1))
				if !f.holds(g) {
					bad("whole", kind+" kind", ci.Instr, "a chunk is marked as intermediate although nothing of the message may remain", st)
				}
			default:
				if !f.holds(linSub(linOf(n2), linOf(rem))) {
					bad("whole", kind+" kind", ci.Instr, "a chunk is marked as final although some of the message may remain", st)
				}
			}
			if kind == "Chunk" {
				st.Set("keep:open", x.Flag())
			} else {
				if st.Has("keep:closed") {
					bad("whole", kind+" twice", ci.Instr, "another chunk follows the final chunk of a message", st)
				}
				st.Del("keep:open")
				st.Set("keep:closed", x.Flag())
			}
			if t := st.Get("copied"); t != nil {
				st.Set("keep:n", t)
			}
		}
		ev.ret = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			r.Ob("whole", side+" return of "+FuncName(in.Parent()))
			if st.Has("keep:open") && len(res) > 0 && !isFailure(x, st, res[len(res)-1]) {
				bad("whole", "incomplete", in, "success may be reported although the final chunk of the message was not sent", st)
			}
		}
		for _, root := range s.roots {
			p.sendExplore(s, root, ev)
			r.SawFn(p.Func(root))
		}
	}
	gens := p21Generators(p, r)
	p21Sources(p, r, gens)
	r.Min("number", 6)
	r.Min("held", 8)
	r.Min("whole", 8)
	r.Min("next", 5)
	r.Min("source", 4)
}

// sendRest follows the count of what remains to be sent: keep:rem is the value found positive when a
// chunk is begun.
func sendRest(x *Exec, st *State, cond *Term, taken bool) {
	c, tk := NormCond(cond, taken)
	if c.Op != "bin" || len(c.Args) != 2 {
		return
	}
	if linSub(linOf(c.Args[0]), linOf(c.Args[1])).isZero() {
		op := c.Name
		if !tk {
			op = negate(op)
		}
		if op == "<" || op == ">" || op == "!=" {
			st.dead = true
			return
		}
	}
	if rem := st.Get("keep:rem"); rem != nil && c.Contains(func(t *Term) bool { return t == rem }) {
		if tk {
			st.Set("lf:"+c.Key(), c)
		} else {
			st.Set("lF:"+c.Key(), c)
		}
	}
	a, b, op := c.Args[0], c.Args[1], c.Name
	if k, ok := numConst(a); ok && k == 0 {
		a, b = b, a
		op = flip(op)
	}
	k, ok := numConst(b)
	if !ok || k != 0 {
		return
	}
	if !tk {
		op = negate(op)
	}
	t := a.Strip()
	isRem := func() bool {
		if o := st.Get("keep:rem"); o != nil && o.Strip() == t {
			return true
		}
		if t.Op == "phi" {
			return true
		}
		is := false
		t.Contains(func(u *Term) bool {
			if u.Op == "call" && strings.HasSuffix(u.Name, ".Len") {
				is = true
			}
			return false
		})
		return is
	}
	if sendKind(st) != "" && st.Has("copied") || !isRem() {
		return
	}
	switch op {
	case ">", "!=":
		// nothing remains after a final chunk
		if st.Has("keep:closed") && st.Has("keep:back") {
			st.dead = true
			return
		}
		st.Set("keep:rem", a.Strip())
	case "<=", "==":
		// what remains after an intermediate chunk is more than nothing (rules rest and kind)
		if st.Has("keep:open") && st.Has("keep:back") {
			st.dead = true
		}
	}
}

func sendFacts(st *State) *linFacts {
	f := &linFacts{}
	for _, k := range sortedKeys(st.A) {
		if strings.HasPrefix(k, "lf:") {
			f.facts = append(f.facts, linCmp(st.A[k], true)...)
		} else if strings.HasPrefix(k, "lF:") {
			f.facts = append(f.facts, linCmp(st.A[k], false)...)
		}
	}
	return f
}

// sendBack: when the loop over the chunks goes round, what remains is less by what was copied.
func sendBack(x *Exec, st *State, from, to *ssa.BasicBlock, bad func(string)) {
	if !to.Dominates(from) || !st.Has("keep:n") || st.Get("keep:rem") == nil {
		return
	}
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			pi = i
		}
	}
	if pi < 0 {
		return
	}
	rem, n := st.Get("keep:rem"), st.Get("keep:n")
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isBasicNumeric(ph.Type()) {
			continue
		}
		was := rem.V == ssa.Value(ph)
		for i, e := range ph.Edges {
			if i != pi && !to.Dominates(to.Preds[i]) {
				if v := x.Val(st, e); v.Strip() == rem {
					was = true
				}
			}
		}
		if !was {
			continue
		}
		now := x.Val(st, ph.Edges[pi])
		if !linSub(linSub(linOf(rem), linOf(n)), linOf(now)).isZero() {
			bad("after a chunk what remains to be sent is not less by what the chunk holds")
		}
		st.Set("keep:back", x.Flag())
		st.Del("keep:rem")
		st.Del("keep:n")
		return
	}
}

// counters

var counterFields = map[string]bool{"lastSequenceNumber": true, "sequenceNumber": true, "lastTokenID": true, "lastChannelID": true, "requestHandle": true, "lastRequestHandle": true}

// p21Generators explores every function that hands out numbers from a counter.
func p21Generators(p *Program, r *Report) map[*ssa.Function]string {
	gens := map[*ssa.Function]string{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Signature.Results().Len() != 1 || len(fn.Params) > 1 || !p.InModule(fn) {
			continue
		}
		if pk := fn.Pkg.Pkg.Name(); pk != "server" && pk != "client" {
			continue
		}
		if fn.Signature.Results().At(0).Type().String() != "uint32" {
			continue
		}
		f := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := fieldName(derefType(fa.X.Type()), fa.Field)
				if counterFields[n] && p21Modifies(fa) {
					f = n
				}
			}
		}
		if f == "" {
			continue
		}
		gens[fn] = f
		p21Explore(p, r, fn, f)
	}
	return gens
}

func p21Modifies(fa *ssa.FieldAddr) bool {
	for _, ref := range *fa.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == ssa.Value(fa) {
				return true
			}
		case ssa.CallInstruction:
			n, _ := CallName(ref.Common())
			if strings.HasPrefix(n, "atomic.") && !strings.Contains(n, "Load") {
				return true
			}
			if helperModifies(ref, fa, 3) {
				return true
			}
		}
	}
	return false
}

// helperModifies: a function of the module gets the address v and changes what is there.
func helperModifies(call ssa.CallInstruction, v ssa.Value, depth int) bool {
	g := call.Common().StaticCallee()
	if g == nil || g.Blocks == nil || depth == 0 {
		return false
	}
	for i, a := range call.Common().Args {
		if a != v || i >= len(g.Params) {
			continue
		}
		pa := g.Params[i]
		for _, ref := range *pa.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == ssa.Value(pa) {
					return true
				}
			case ssa.CallInstruction:
				n, _ := CallName(ref.Common())
				if strings.HasPrefix(n, "atomic.") && !strings.Contains(n, "Load") || helperModifies(ref, pa, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func p21Explore(p *Program, r *Report, fn *ssa.Function, field string) {
	name := FuncName(fn)
	isCounter := func(t *Term) bool { return lastField(t) == field }
	bad := func(what string, where ssa.Instruction, msg string, st *State) {
		r.Bad("next", name+"/"+what, p.InstrPos(where), msg, st.Trace(6)...)
	}
	max := new(big.Int).SetUint64(math.MaxUint32)
	h := Hooks{MaxDepth: 3}
	h.Inline = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case strings.Contains(ci.Name, "atomic.") && strings.Contains(ci.Name, "Load") && isCounter(ci.Args[0]):
			st.Set("read", x.Flag())
			for _, k := range []string{"wrap", "nowrap", "put"} {
				st.Del(k)
			}
			return ActOpaque
		case strings.Contains(ci.Name, "atomic.") && strings.Contains(ci.Name, "CompareAndSwap") && isCounter(ci.Args[0]):
			st.Set("casold", ci.Args[1])
			st.Set("casnew", ci.Args[2])
			return ActOpaque
		case strings.Contains(ci.Name, "atomic.") && strings.Contains(ci.Name, "Add") && isCounter(ci.Args[0]):
			if k, ok := numConst(ci.Args[1]); !ok || k != 1 {
				bad("step", ci.Instr, "the counter does not advance by one", st)
			}
			return ActOpaque
		case strings.Contains(ci.Name, "atomic.") && len(ci.Args) > 0 && isCounter(ci.Args[0]):
			bad("put", ci.Instr, "the counter is changed without regard to other callers", st)
			return ActOpaque
		case strings.HasSuffix(ci.Name, "Mutex.Lock"):
			st.Set("lock", x.Flag())
		case strings.HasSuffix(ci.Name, "Mutex.Unlock"):
			st.Del("lock")
			st.Del("read")
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		switch {
		case strings.Contains(ci.Name, "atomic.") && strings.Contains(ci.Name, "Load") && isCounter(ci.Args[0]):
			st.Set("old", res.Strip())
		case strings.Contains(ci.Name, "atomic.") && strings.Contains(ci.Name, "CompareAndSwap") && isCounter(ci.Args[0]):
			st.Set("cas", res.Strip())
		case strings.Contains(ci.Name, "atomic.") && strings.Contains(ci.Name, "Add") && isCounter(ci.Args[0]):
			st.Set("added", res.Strip())
			st.Del("nonzero")
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.UnOp:
			if fa, ok := in.X.(*ssa.FieldAddr); ok && fieldName(derefType(fa.X.Type()), fa.Field) == field {
				if st.Has("lock") {
					st.Set("read", x.Flag())
				}
			}
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldName(derefType(fa.X.Type()), fa.Field) == field {
				if !st.Has("lock") {
					bad("put", in, "the counter is changed without regard to other callers", st)
				} else {
					st.Set("stored", x.Val(st, in.Val).Strip())
				}
			}
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if cas := st.Get("cas"); cas != nil && c.Strip() == cas {
			if tk {
				st.Set("put", st.Get("casnew"))
				st.Set("from", st.Get("casold"))
			} else {
				st.Del("put")
			}
			return
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.Op == "const" {
			a, b = b, a
		}
		bk := new(big.Int)
		if _, ok := bk.SetString(b.Name, 0); b.Op != "const" || !ok {
			return
		}
		at := a.Strip()
		if bk.Cmp(max) == 0 {
			if eq {
				st.Set("wrap", at)
			} else {
				st.Set("nowrap", at)
			}
		}
		if bk.Sign() == 0 && !eq {
			st.Set("nonzero", at)
		}
		if old := st.Get("old"); bk.Sign() == 0 && eq && old != nil {
			// the successor of the maximum
			if d := linSub(linOf(at), linOf(old)); len(d.coef) == 0 && d.c.Cmp(big.NewInt(1)) == 0 {
				st.Set("wrap", at)
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		r.Ob("next", name)
		v := res[0].Strip()
		if ad := st.Get("added"); ad != nil && v == ad {
			if nz := st.Get("nonzero"); nz == nil || nz != v {
				bad("zero", in, "zero may be handed out", st)
			}
			return
		}
		var put, from *Term
		switch {
		case st.Get("put") != nil:
			put, from = st.Get("put"), st.Get("from")
			if old := st.Get("old"); old == nil || from == nil || from.Strip() != old {
				bad("race", in, "the number is not put in place of the value it was computed from", st)
				return
			}
		case st.Get("stored") != nil:
			put = st.Get("stored")
		default:
			bad("race", in, "a number is handed out that was not put into the counter", st)
			return
		}
		if put.Strip() != v && !linSub(linOf(put), linOf(v)).isZero() {
			bad("other", in, "what is handed out is not what was put into the counter", st)
			return
		}
		if from == nil {
			// under a lock
			if l := linOf(v); !(len(l.coef) == 0 && l.c.Sign() != 0) && st.Get("nowrap") == nil && st.Get("nonzero") == nil {
				bad("zero", in, "zero may be handed out", st)
			}
			return
		}
		d := linSub(linOf(v), linOf(from))
		switch {
		case len(d.coef) == 0 && d.c.Cmp(big.NewInt(1)) == 0:
			nw, nz := st.Get("nowrap"), st.Get("nonzero")
			if !(nw != nil && nw == from.Strip()) && !(nz != nil && nz == v) {
				bad("zero", in, "zero may be handed out", st)
			}
		case len(linOf(v).coef) == 0:
			k := linOf(v).c.Int64()
			w := st.Get("wrap")
			if w == nil {
				bad("step", in, "what is handed out does not follow what was handed out before", st)
			} else if k < 1 || k > 1023 {
				bad("zero", in, "after the maximum the counter does not start again below 1024, without zero", st)
			}
		default:
			bad("step", in, "what is handed out is not one more than what was handed out before", st)
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.SawFn(fn)
}

// p21Sources: where ids and handles are assigned, they come from a counter.
func p21Sources(p *Program, r *Report, gens map[*ssa.Function]string) {
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" && fn.Pkg.Pkg.Name() != "client" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sto, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := sto.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				tn, f := TypeName(derefType(fa.X.Type())), fieldName(derefType(fa.X.Type()), fa.Field)
				var want string
				switch {
				case tn == "server.serverSecureChannel" && f == "channelID":
					want = "lastChannelID"
				case tn == "server.serverSecureChannel" && f == "pendingTokenID":
					want = "lastTokenID"
				case tn == "ua.RequestHeader" && f == "RequestHandle" && fn.Pkg.Pkg.Name() == "client":
					want = "lastRequestHandle"
				case counterFields[f] && (tn == "server.Server" || strings.HasSuffix(tn, "SecureChannel")):
					if isFreshObj(fa.X) {
						continue
					}
					r.Ob("source", FuncName(fn)+" "+f)
					if gens[fn] != f {
						r.Bad("source", FuncName(fn)+"/"+f, p.InstrPos(in), "the counter is changed outside the function that hands out its numbers")
					}
					continue
				default:
					continue
				}
				r.Ob("source", FuncName(fn)+" "+f)
				v := sto.Val
				good := false
				if c, ok := v.(*ssa.Call); ok {
					if g := c.Common().StaticCallee(); g != nil && (gens[g] == want || want == "lastRequestHandle" && gens[g] == "requestHandle") {
						good = true
					}
				}
				if !good {
					r.Bad("source", FuncName(fn)+"/"+f, p.InstrPos(in), "the "+f+" does not come from the counter "+want)
				}
			}
		}
	}
}

// isFreshObj: the object was allocated in this function.
func isFreshObj(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}
