package main

import (
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P22", "Typestate with linear arithmetic over every path of the senders and receivers of both channels (helpers expanded): each chunk sent is shown to fit the negotiated send buffer and to be as long as its header says; no chunk of a message is sent before its size and the number of chunks it needs were found within the peer's limits. A received chunk is joined only after the count of chunks was found within the own limit, the joined size is compared with the own limit before another chunk is read or the message is decoded, and only message chunks are joined. The limits are those exchanged in Hello and Acknowledge.", runP22)
}

func runP22(p *Program, r *Report) {
	r.Rule("fits: a chunk sent is not longer than the negotiated send buffer")
	r.Rule("declared: the length in the header of a chunk is its length")
	r.Rule("size: no chunk is sent before the message was found not to exceed the size the peer accepts")
	r.Rule("count: no chunk is sent before the message was found not to need more chunks than the peer accepts")
	r.Rule("recvcount: a received chunk is joined only if the count of chunks was found within the own limit")
	r.Rule("recvsize: the size joined so far is compared with the own limit before the next chunk is read or the message decoded")
	r.Rule("recvkind: an abort or error chunk ends the message instead of being joined")
	r.Rule("recvid: chunks are joined only if they carry the same request id")
	r.Rule("agreed: the limits are those exchanged when the connection was made")
	for _, s := range sendSides {
		p22Send(p, r, s)
	}
	for _, s := range recvSides {
		p22Recv(p, r, s)
	}
	p22Agreed(p, r)
	r.Min("fits", 6)
	r.Min("declared", 4)
	r.Min("size", 6)
	r.Min("count", 6)
	r.Min("recvcount", 4)
	r.Min("recvsize", 4)
	r.Min("recvkind", 4)
	r.Min("recvid", 4)
	r.Min("agreed", 10)
}

// limitFact: the fact (f >= 0) says that the limit is not set, or bounds from above what rest returns.
func limitFact(f *linear, limit string) (unset bool, rest *linear) {
	rest = &linear{new(big.Int).Set(f.c), map[string]*big.Int{}}
	k := 0
	for a, c := range f.coef {
		if strings.HasSuffix(a, "."+limit) {
			k = int(c.Int64())
			continue
		}
		rest.coef[a] = c
	}
	switch k {
	case -1:
		if len(rest.coef) == 0 && rest.c.Sign() <= 0 {
			return true, nil
		}
	case 1:
		return false, rest
	}
	return false, nil
}

func p22Send(p *Program, r *Report, s sendSide) {
	side := s.side
	bad := func(rule, what string, where ssa.Instruction, msg string, st *State) {
		r.Bad(rule, side+"/"+what, p.InstrPos(where), msg, st.Trace(8)...)
	}
	ev := sendEvents{}
	ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
		sendRest(x, st, cond, taken)
		if st.dead {
			return
		}
		c, _ := NormCond(cond, taken)
		for _, f := range linCmp(cond, taken) {
			if unset, rest := limitFact(f, s.msgLimit); unset {
				st.Set("keep:size", x.Flag())
			} else if rest != nil && rest.c.Sign() <= 0 && len(rest.coef) == 1 {
				for a, k := range rest.coef {
					if k.Int64() == -1 && strings.Contains(a, ".Len(") && strings.Contains(a, "bufferPool") {
						st.Set("keep:size", x.Flag())
					}
				}
			}
			if unset, rest := limitFact(f, s.chunkLimit); unset {
				st.Set("keep:count", x.T.mk("const", "unset", nil, nil, nil, nil))
			} else if rest != nil {
				// limit - X >= 0 with X = c + count of the chunks still needed
				var div *Term
				c.Contains(func(t *Term) bool {
					if t.Op == "bin" && t.Name == "/" {
						if div == nil || t.Contains(func(u *Term) bool { return u == div }) {
							div = t
						}
					}
					return false
				})
				if div == nil {
					if rest.c.Sign() < 0 && len(rest.coef) == 0 || len(rest.coef) == 1 {
						if st.Get("keep:count") == nil {
							st.Set("keep:count", x.T.mk("const", "one", nil, nil, nil, nil))
						}
					}
				} else {
					st.Set("keep:count", x.T.mk("tuple", rest.c.String(), []*Term{div}, nil, nil, nil))
				}
			}
		}
		// the bound of the loop that pads
		if c.Op == "bin" && c.Name == "<" && len(c.Args) == 2 && sendKind(st) != "" && st.Has("copied") && st.Get("padbound") == nil {
			if k, ok := numConst(c.Args[0]); ok && k == 0 {
				st.Set("padbound", c.Args[1])
			}
		}
	}
	ev.block = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		sendBack(x, st, from, to, func(string) {})
		// a loop that counts down from the number of bytes it pads
		if !to.Dominates(from) && sendKind(st) != "" && st.Has("copied") && st.Get("padbound") == nil {
			if n := countdown(x, st, from, to); n != nil {
				st.Set("padbound", n)
			}
		}
	}
	ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
		if k == "write" && strings.HasSuffix(ci.Name, ".WriteByte") {
			if padLoop(ci.Instr) {
				st.Set("padloop", x.Flag())
			} else {
				n := st.Count("padbytes")
				if n < 8 {
					st.Set("padbytes", x.Int(n+1))
				}
			}
		}
	}
	ev.emit = func(x *Exec, st *State, ci *CallInfo, kind, content string, buf *Term) {
		switch kind {
		case "Chunk", "Final", "CloseFinal", "OpenFinal":
		default:
			return
		}
		r.Ob("size", side+" "+kind)
		if !st.Has("keep:size") {
			bad("size", kind, ci.Instr, "a chunk is sent although the size of the message was not found within the limit of the peer ("+s.msgLimit+")", st)
		}
		rem, n := st.Get("keep:rem"), st.Get("copied")
		declared := st.Get("it1")
		if rem == nil || n == nil || declared == nil {
			bad("declared", kind+" layout", ci.Instr, "the parts of the chunk cannot be told", st)
			return
		}
		r.Ob("count", side+" "+kind)
		if !st.Has("keep:some") {
			c := st.Get("keep:count")
			switch {
			case c == nil:
				bad("count", kind, ci.Instr, "a chunk is sent although the number of chunks was not found within the limit of the peer ("+s.chunkLimit+")", st)
			case c.Op == "const" && c.Name == "unset":
			case kind != "Chunk":
				// a single chunk: any limit admits it
			case c.Op == "const":
				bad("count", kind+" partial", ci.Instr, "the first chunk is sent before the message was found not to need more chunks than the peer accepts", st)
			default:
				num, den := linOf(c.Args[0].Args[0]), linOf(c.Args[0].Args[1])
				add, _ := new(big.Int).SetString(c.Name, 10)
				over := linSub(num, linOf(rem)) // num = rem + over
				// -add is what is added to the quotient
				oneMore := add.Cmp(big.NewInt(-1)) <= 0 && len(over.coef) == 0 && over.c.Cmp(big.NewInt(-1)) >= 0
				up := linSub(over, den)
				up.c.Add(up.c, big.NewInt(1))
				if !(oneMore || up.isZero() && add.Sign() <= 0) || !isMinOf(n, den) {
					bad("count", kind+" total", ci.Instr, "what is compared with the number of chunks the peer accepts is not the number of chunks the message needs", st)
				}
			}
		}
		st.Set("keep:some", x.Flag())
		// fits
		r.Ob("fits", side+" "+kind+" modes "+modesOf(st))
		f := sendFacts(st)
		d := linOf(declared)
		p22Axioms(f, []*Term{declared, n}, st)
		var sb *Term
		find := func(t *Term) bool {
			if t.Op == "load" && lastField(t) == "sendBufferSize" {
				sb = t
			}
			return false
		}
		declared.Contains(find)
		for _, k := range sortedKeys(st.A) {
			if strings.HasPrefix(k, "lf:") || strings.HasPrefix(k, "lF:") {
				st.A[k].Contains(find)
			}
		}
		if sb == nil || !f.holds(linSub(linOf(sb), d)) {
			bad("fits", kind, ci.Instr, "the chunk may be longer than the negotiated send buffer (sendBufferSize)", st)
		}
		// declared
		if kind == "OpenFinal" && modesOf(st) != "1" {
			if content == "" {
				r.Ob("declared", side+" "+kind)
				_, lo, hi, ok := sliceParts(buf)
				if !ok || !isZeroOrNone(lo) || noTerm(hi) || !linSub(linOf(hi), d).isZero() {
					bad("declared", kind, ci.Instr, "the number of bytes sent is not the length in the header of the chunk", st)
				}
			}
			return
		}
		if strings.Contains(sentOf(st), "?") {
			return
		}
		l := linOf(n)
		l.c.Add(l.c, big.NewInt(8))
		if kind == "OpenFinal" {
			// the header's length is compared by the sender itself
			h := st.Get("hdrlen")
			if h == nil {
				return
			}
			l = linSub(l, linSub(&linear{new(big.Int), map[string]*big.Int{}}, linOf(h)))
		} else {
			l.c.Add(l.c, big.NewInt(16))
		}
		l.c.Add(l.c, big.NewInt(int64(st.Count("padbytes"))))
		if strings.Contains(sentOf(st), "y") {
			pb := st.Get("padbound")
			if pb == nil && st.Has("padloop") {
				return
			}
			if pb != nil {
				l = linSub(l, linSub(&linear{new(big.Int), map[string]*big.Int{}}, linOf(pb)))
			}
		}
		r.Ob("declared", side+" "+kind)
		diff := linSub(d, l)
		good := diff.isZero() && !strings.HasSuffix(sentOf(st), "S")
		if len(diff.coef) == 1 && diff.c.Sign() == 0 && (strings.HasSuffix(sentOf(st), "S") || modesOf(st) == "1") {
			for a, k := range diff.coef {
				if k.Cmp(big.NewInt(1)) == 0 && strings.Contains(a, ".SymSignatureSize(") {
					good = true
				}
			}
		}
		if !good {
			bad("declared", kind, ci.Instr, "the length in the header is not the length of the chunk; they differ by "+diff.String(), st)
		}
	}
	ev2 := ev.branch
	ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
		ev2(x, st, cond, taken)
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			if _, is := snapshot(b, "len"); is {
				a, b = b, a
			}
			if c, is := snapshot(a, "len"); is && c == headerItems(sendKind(st)) {
				st.Set("hdrlen", b)
			}
		}
	}
	for _, root := range s.roots {
		p.sendExplore(s, root, ev)
		r.SawFn(p.Func(root))
	}
}

// isMinOf: the value is what the linear form says, or the lesser of it and something else.
func isMinOf(n *Term, l *linear) bool {
	if linSub(l, linOf(n)).isZero() {
		return true
	}
	n = n.Strip()
	if n.IsCall("builtin.min") {
		for _, a := range n.Args {
			if linSub(l, linOf(a)).isZero() {
				return true
			}
		}
	}
	return false
}

// padLoop: the instruction is in a loop that does not make a chunk of its own.
// countdown: entering a loop that writes a byte each time around and runs its variable down from the
// value returned until 0.
func countdown(x *Exec, st *State, from, to *ssa.BasicBlock) *Term {
	iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	ph, ok := cmp.X.(*ssa.Phi)
	k, isK := cmp.Y.(*ssa.Const)
	if !ok || !isK || ph.Block() != to || len(ph.Edges) != 2 || k.Value == nil {
		return nil
	}
	c := k.Int64()
	if !(c == 0 && (cmp.Op == token.GTR || cmp.Op == token.NEQ) || c == 1 && cmp.Op == token.GEQ) {
		return nil
	}
	var init *Term
	for i, q := range to.Preds {
		if q == from {
			init = x.Val(st, ph.Edges[i])
			continue
		}
		step, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || step.X != ssa.Value(ph) {
			return nil
		}
		one, ok := step.Y.(*ssa.Const)
		if !ok || one.Value == nil || !(step.Op == token.SUB && one.Int64() == 1 || step.Op == token.ADD && one.Int64() == -1) {
			return nil
		}
		writes := false
		for b := range loopBody(to, q) {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if n, _ := CallName(ci.Common()); strings.HasSuffix(n, ".WriteByte") {
						writes = true
					}
				}
			}
		}
		if !writes {
			return nil
		}
	}
	return init
}

func padLoop(in ssa.Instruction) bool {
	b := in.Block()
	for _, h := range in.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, q := range h.Preds {
			if !h.Dominates(q) {
				continue
			}
			body := loopBody(h, q)
			if !body[b] {
				continue
			}
			makes := false
			for bb := range body {
				for _, i := range bb.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if n, _ := CallName(c.Common()); n == "ua.NewWriter" {
							makes = true
						}
					}
				}
			}
			if !makes {
				return true
			}
		}
	}
	return false
}

// p22Axioms adds what holds of rounded quantities in the terms and facts at hand.
func p22Axioms(f *linFacts, ts []*Term, st *State) {
	var all []*Term
	seen := map[int]bool{}
	collect := func(t *Term) {
		t.Contains(func(u *Term) bool {
			if !seen[u.id] {
				seen[u.id] = true
				all = append(all, u)
			}
			return false
		})
	}
	for _, t := range ts {
		collect(t)
	}
	for _, k := range sortedKeys(st.A) {
		if strings.HasPrefix(k, "lf:") || strings.HasPrefix(k, "lF:") {
			collect(st.A[k])
		}
	}
	same := func(a, b *Term) bool { return linSub(linOf(a), linOf(b)).isZero() }
	bin := func(t *Term, op string) (*Term, *Term, bool) {
		t = t.Strip()
		if t.Op == "bin" && t.Name == op && len(t.Args) == 2 {
			return t.Args[0], t.Args[1], true
		}
		return nil, nil, false
	}
	// products of a quotient: (X / k) * m
	type prod struct {
		t, x, k, m *Term
	}
	var prods []prod
	for _, t := range all {
		a, b, ok := bin(t, "*")
		if !ok {
			continue
		}
		for _, o := range [][2]*Term{{a, b}, {b, a}} {
			if x, k, ok := bin(o[0], "/"); ok {
				prods = append(prods, prod{t, x, k, o[1]})
			}
		}
	}
	for _, q := range prods {
		if same(q.k, q.m) {
			f.facts = append(f.facts, linSub(linOf(q.x), linOf(q.t)))
		}
	}
	for _, t := range all {
		if t.IsCall("builtin.min") {
			for _, a := range t.Args {
				f.facts = append(f.facts, linSub(linOf(a), linOf(t)))
			}
		}
	}
	// padding P of E to a multiple of k; A = (..) * k, E <= A: E + P <= A
	for _, t := range all {
		pad, k, ok := bin(t, "%")
		var e *Term
		if ok {
			k2, r, ok2 := bin(pad, "-")
			if !ok2 || !same(k2, k) {
				continue
			}
			e0, k3, ok3 := bin(r, "%")
			if !ok3 || !same(k3, k) {
				continue
			}
			e = e0
		} else if k2, r, ok2 := bin(t, "-"); ok2 {
			e0, k3, ok3 := bin(r, "%")
			if !ok3 || !same(k3, k2) {
				continue
			}
			e, k = e0, k2
		} else {
			continue
		}
		for _, q := range prods {
			if same(q.m, k) && f.holds(linSub(linOf(q.t), linOf(e))) {
				f.facts = append(f.facts, linSub(linSub(linOf(q.t), linOf(e)), linOf(t)))
			}
		}
	}
	// R = (Y / pt) * ct and A = (X / ct) * pt with Y <= A: R <= X
	for _, q := range prods {
		for _, a := range prods {
			if same(q.m, a.k) && same(q.k, a.m) && !same(q.k, q.m) && f.holds(linSub(linOf(a.t), linOf(q.x))) {
				f.facts = append(f.facts, linSub(linOf(a.x), linOf(q.t)))
			}
		}
	}
}

func p22Recv(p *Program, r *Report, s recvSide) {
	side := s.side
	msgLimit, chunkLimit := "maxRequestMessageSize", "maxRequestChunkCount"
	if side == "client" {
		msgLimit, chunkLimit = "maxResponseMessageSize", "maxResponseChunkCount"
	}
	bad := func(rule, what string, where ssa.Instruction, msg string, st *State) {
		r.Bad(rule, side+"/"+what, p.InstrPos(where), msg, st.Trace(8)...)
	}
	ev := recvEvents{}
	ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
		// a count of one at most is the first chunk
		if st.Has("unsized") {
			if c, tk := NormCond(cond, taken); c.Op == "bin" && len(c.Args) == 2 {
				if k, ok := numConst(c.Args[1]); ok && counterTerm(c.Args[0]) {
					op := c.Name
					if !tk {
						op = negate(op)
					}
					if op == "<=" && k <= 1 || op == "<" && k <= 2 || op == "==" && k <= 1 {
						st.dead = true
						return
					}
				}
			}
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			for _, t := range []*Term{a, b} {
				if d := st.Get("d1"); d != nil && t.Strip().Op == "load" && t.Strip().Args[0] == d {
					st.Set("sameid", x.Flag())
				}
			}
		}
		for _, f := range linCmp(cond, taken) {
			if unset, rest := limitFact(f, msgLimit); unset {
				st.Set("sizeok", x.Flag())
			} else if rest != nil && rest.c.Sign() <= 0 && len(rest.coef) == 1 {
				for a, k := range rest.coef {
					if k.Int64() == -1 && strings.Contains(a, ".Len(") {
						st.Set("sizeok", x.Flag())
					}
				}
			}
			if unset, rest := limitFact(f, chunkLimit); unset {
				st.Set("countok", x.Flag())
			} else if rest != nil && len(rest.coef) <= 1 {
				// limit >= c + counter, where the counter counts this chunk: checked below
				for _, k := range rest.coef {
					if k.Int64() == -1 {
						st.Set("countok", x.Flag())
					}
				}
				if len(rest.coef) == 0 && rest.c.Sign() < 0 && !st.Has("unsized") {
					// the first chunk
					st.Set("countok", x.Flag())
				}
			}
		}
	}
	ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
		switch k {
		case "read":
			if st.Has("unsized") && !st.Has("sizeok") {
				bad("recvsize", "read", ci.Instr, "another chunk is read before the size joined so far was compared with the limit ("+msgLimit+")", st)
			}
			st.Del("sameid")
			st.Del("d1")
			// a count checked before the chunk is read counts for it
			st.Del("sizeok")
		case "join":
			kind := kindOf(st)
			if kind == "" {
				kind = "other"
			}
			r.Ob("recvcount", side+" "+kind)
			if !st.Has("countok") {
				bad("recvcount", kind, ci.Instr, "a chunk is joined although the count of chunks was not found within the limit ("+chunkLimit+")", st)
			}
			r.Ob("recvkind", side+" "+kind)
			switch kind {
			case "Chunk", "Final", "OpenFinal", "CloseFinal":
			default:
				bad("recvkind", kind, ci.Instr, "a chunk that is not part of a message is joined to it", st)
			}
			if kind == "Chunk" || kind == "Final" {
				r.Ob("recvid", side+" "+kind)
				if st.Has("unsized") && !st.Has("sameid") {
					bad("recvid", kind, ci.Instr, "a chunk is joined to those before although it was not found to carry the same request id", st)
				}
			}
			st.Del("countok")
			st.Del("sizeok")
			st.Set("unsized", x.Flag())
		case "decode":
			if ci.Name == "ua.BinaryDecoder.ReadUInt32" {
				st.Set("d1", ci.Args[1].Strip())
				st.Del("sameid")
			}
		case "deliver":
			if ci.Name == "ua.BinaryDecoder.ReadNodeID" {
				r.Ob("recvsize", side+" deliver "+kindOf(st))
				if st.Has("unsized") && !st.Has("sizeok") {
					bad("recvsize", "deliver", ci.Instr, "a message is decoded before its size was compared with the limit ("+msgLimit+")", st)
				}
			}
		}
	}
	p.recvExplore(s, ev)
	r.SawFn(p.Func(s.fn))
	p22Counter(p, r, side, p.Func(s.fn), chunkLimit)
}

// p22Counter: what is compared with the chunk limit counts the chunks read.
func p22Counter(p *Program, r *Report, side string, fn *ssa.Function, limit string) {
	fns := map[*ssa.Function]bool{fn: true}
	for _, f := range p.Funcs {
		if f.Pkg == fn.Pkg && isChannelFn(f) && RecvType(f) == RecvType(fn) {
			fns[f] = true
		}
	}
	isLimit := func(v ssa.Value) bool {
		for {
			switch w := v.(type) {
			case *ssa.Convert:
				v = w.X
				continue
			case *ssa.UnOp:
				fa, ok := w.X.(*ssa.FieldAddr)
				return ok && fieldName(derefType(fa.X.Type()), fa.Field) == limit
			}
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			var c ssa.Value
			switch {
			case isLimit(bo.X):
				c = bo.Y
			case isLimit(bo.Y):
				c = bo.X
			default:
				continue
			}
			if _, k := c.(*ssa.Const); k {
				continue
			}
			r.Ob("recvcount", side+" counter")
			if !countsUp(c) {
				r.Bad("recvcount", side+"/counter", p.InstrPos(in), "what is compared with "+limit+" does not count the chunks read")
			}
		}
	}
}

// counterTerm: a count of turns, possibly plus a constant.
func counterTerm(t *Term) bool {
	t = t.Strip()
	if t.Op == "bin" && t.Name == "+" {
		if _, ok := numConst(t.Args[1]); ok {
			t = t.Args[0].Strip()
		}
	}
	ph, ok := t.V.(*ssa.Phi)
	return t.Op == "phi" && ok && phiCounts(ph)
}

// countsUp: the value is one more per turn of its loop, starting from a constant.
func countsUp(v ssa.Value) bool {
	for {
		switch w := v.(type) {
		case *ssa.Convert:
			v = w.X
			continue
		case *ssa.BinOp:
			if w.Op.String() == "+" {
				if ph, ok := w.X.(*ssa.Phi); ok {
					if k, ok := w.Y.(*ssa.Const); ok && k.Int64() == 1 {
						return phiCounts(ph)
					}
				}
			}
			return false
		case *ssa.Phi:
			return phiCounts(w)
		}
		return false
	}
}

func phiCounts(ph *ssa.Phi) bool {
	back := 0
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			if !plusOneOnAll(e, ph, map[ssa.Value]bool{}) {
				return false
			}
			back++
			continue
		}
		if k, ok := e.(*ssa.Const); !ok || k.Int64() < 0 {
			return false
		}
	}
	return back > 0
}

// plusOneOnAll: the value is the phi plus one, or a merge of such values.
func plusOneOnAll(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch w := v.(type) {
	case *ssa.BinOp:
		k, ok := w.Y.(*ssa.Const)
		return w.Op.String() == "+" && w.X == ssa.Value(ph) && ok && k.Int64() == 1
	case *ssa.Phi:
		for _, e := range w.Edges {
			if !plusOneOnAll(e, ph, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// p22Agreed: the limits exchanged in Hello and Acknowledge are the ones kept and sent.
func p22Agreed(p *Program, r *Report) {
	type spec struct {
		side, fn string
		limits   [2]string // kept from the peer: message size, chunk count
		own      [2]string // sent to the peer
		sent     string
	}
	for _, sp := range []spec{
		{"server", "server.serverSecureChannel.Open", [2]string{"maxResponseMessageSize", "maxResponseChunkCount"}, [2]string{"maxRequestMessageSize", "maxRequestChunkCount"}, "Ack"},
		{"client", "client.clientSecureChannel.connect", [2]string{"maxRequestMessageSize", "maxRequestChunkCount"}, [2]string{"maxResponseMessageSize", "maxResponseChunkCount"}, "Hello"},
	} {
		sp := sp
		var side sendSide
		for _, s := range sendSides {
			if s.side == sp.side {
				side = s
			}
		}
		bad := func(what string, where ssa.Instruction, msg string, st *State) {
			r.Bad("agreed", sp.side+"/"+what, p.InstrPos(where), msg, st.Trace(8)...)
		}
		cell := func(t *Term) int { // which number of the message the value was decoded as
			i := 0
			t.Strip().Contains(func(u *Term) bool {
				if u.Op == "alloc" {
					if n := cells[u]; n > 0 && i == 0 {
						i = n
					}
				}
				return false
			})
			return i
		}
		cells = map[*Term]int{}
		ev := sendEvents{}
		ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
			if ci.Name == "ua.NewBinaryDecoder" {
				st.Del("keep:reads")
			}
			if ci.Name == "ua.BinaryDecoder.ReadUInt32" {
				n := st.Count("keep:reads") + 1
				if n > 9 {
					return
				}
				st.Set("keep:reads", x.Int(n))
				a := ci.Args[1].Strip()
				if a.Op == "fieldaddr" {
					f := a.Name
					for i, l := range sp.limits {
						if f == l {
							st.Set("keep:"+l, x.Flag())
							if n != 6+i {
								bad(l, ci.Instr, "the "+l+" is not taken from its place in the peer's message", st)
							}
						}
					}
				} else if a.Op == "alloc" {
					cells[a] = n
				}
			}
		}
		ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
			c, tk := NormCond(cond, taken)
			if c.Op != "bin" || len(c.Args) != 2 {
				return
			}
			a, b, op := c.Args[0], c.Args[1], c.Name
			if !tk {
				op = negate(op)
			}
			for _, f := range []string{"sendBufferSize", "receiveBufferSize"} {
				a, b, op := a, b, op
				if lastField(b) == f {
					a, b, op = b, a, flip(op)
				}
				if lastField(a) != f {
					continue
				}
				if op == "<=" || op == "<" {
					st.Set("keep:"+f, x.Int(cell(b)))
				}
			}
		}
		ev.instr = func(x *Exec, st *State, in ssa.Instruction) {
			sto, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := sto.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
				return
			}
			f := fieldName(derefType(fa.X.Type()), fa.Field)
			v := x.Val(st, sto.Val)
			switch f {
			case "sendBufferSize", "receiveBufferSize":
				st.Set("keep:"+f, x.Int(cell(v)))
				if v.Strip().Op == "call" && v.Strip().Name == "builtin.min" {
					for _, a := range v.Strip().Args {
						if c := cell(a); c > 0 {
							st.Set("keep:"+f, x.Int(c))
						}
					}
				}
			case sp.limits[0], sp.limits[1]:
				st.Set("keep:"+f, x.Flag())
				want := 6
				if f == sp.limits[1] {
					want = 7
				}
				r.Ob("agreed", sp.side+" "+f)
				if cell(v) != want {
					bad(f, in, "the "+f+" is not taken from its place in the peer's message", st)
				}
			}
		}
		ev.emit = func(x *Exec, st *State, ci *CallInfo, kind, content string, buf *Term) {
			if kind != sp.sent {
				return
			}
			want := []string{"", "", "", "receiveBufferSize", "sendBufferSize", sp.own[0], sp.own[1]}
			for i := 3; i < 7; i++ {
				r.Ob("agreed", sp.side+" sends "+want[i])
				t := st.Get("it" + itoa(i))
				ok := t != nil && lastField(t) == want[i]
				if !ok && t != nil && (i == 3 || i == 4) {
					// the value just agreed on
					ok = st.Get("keep:"+want[i]) != nil && cell(t) > 0
				}
				if !ok {
					bad("sent "+want[i], ci.Instr, "the message that opens the connection does not carry the own "+want[i]+" in its place", st)
				}
			}
		}
		ev.ret = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if len(res) == 0 || isFailure(x, st, res[len(res)-1]) {
				return
			}
			if sp.side == "server" && !st.Has("keep:reads") {
				return
			}
			for f, want := range map[string]int{"sendBufferSize": 4, "receiveBufferSize": 5} {
				r.Ob("agreed", sp.side+" "+f)
				t := st.Get("keep:" + f)
				if t == nil || t.Name != itoa(want) {
					bad(f, in, "the "+f+" may exceed what the peer can "+map[string]string{"sendBufferSize": "receive", "receiveBufferSize": "send"}[f], st)
				}
			}
			for _, f := range sp.limits {
				r.Ob("agreed", sp.side+" "+f)
				if !st.Has("keep:" + f) {
					bad(f, in, "the connection is used without the peer's "+f, st)
				}
			}
		}
		p.sendExplore(side, sp.fn, ev)
		r.SawFn(p.Func(sp.fn))
	}
}

var cells map[*Term]int
