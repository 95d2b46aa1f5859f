package main

import (
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P30", "Typestate over every path of readRequest and readResponse (helpers expanded): a chunk is joined to a message only on paths on which the sequence number decoded from that chunk was found to be the successor of the one remembered (or a permitted wrap-around, or the first of the channel) and was then remembered; a chunk that failed the comparison ends the read.", runP30)
}

func runP30(p *Program, r *Report) {
	r.Rule("follows: a chunk is joined only if the number in its sequence header follows the last one received, wraps around near the maximum, or is the first of the channel")
	r.Rule("recorded: the number of an accepted chunk is remembered before the next chunk is read")
	r.Rule("ends: a chunk whose number does not follow ends the read with an error")
	r.Rule("reset: the memory of received numbers is changed only by the comparison itself and when a client connects anew")
	const last, flag = "lastReceivedSequenceNumber", "receivedSequenceNumber"
	// helpers that take part in the receiving
	recvFns := map[*ssa.Function]bool{}
	for _, s := range recvSides {
		s := s
		side := s.side
		bad := func(rule, what string, where ssa.Instruction, msg string, st *State) {
			r.Bad(rule, side+"/"+what, p.InstrPos(where), msg, st.Trace(8)...)
		}
		isLast := func(t *Term) bool { return lastField(t.Strip()) == last }
		cell := func(t *Term) *Term { // the variable a number was decoded into
			var c *Term
			t.Contains(func(u *Term) bool {
				if u.Op == "alloc" && c == nil {
					c = u
				}
				return false
			})
			return c
		}
		ev := recvEvents{}
		ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
			switch k {
			case "read":
				if st.Has("mismatch") {
					bad("ends", "continue", ci.Instr, "after a chunk whose sequence number does not follow, the next chunk is read instead of ending with an error", st)
				}
				for _, k := range []string{"follows", "whi", "wlo", "firstnum", "mismatch", "value", "recorded", "flagged", "d1", "d2"} {
					st.Del(k)
				}
			case "decode":
				if ci.Name == "ua.BinaryDecoder.ReadUInt32" {
					if d := st.Get("d1"); d != nil {
						st.Set("d2", d)
					}
					st.Set("d1", ci.Args[1].Strip())
				}
			case "join":
				key := kindOf(st)
				if key == "" {
					key = "other"
				}
				r.Ob("follows", side+" "+key)
				ok := st.Has("follows") || st.Has("whi") && st.Has("wlo") || st.Has("firstnum")
				v := st.Get("value")
				if !ok {
					bad("follows", key, ci.Instr, "a chunk is joined although its sequence number was not found to follow the last one received", st)
				} else if v != nil && !st.Has("firstnum") {
					if c := cell(v); c == nil || st.Get("d2") == nil || c != st.Get("d2") {
						bad("follows", key+"/number", ci.Instr, "the number compared with the last one is not the one in the sequence header of the chunk", st)
					}
				}
				r.Ob("recorded", side+" "+key)
				rec := st.Get("recorded")
				if rec == nil {
					bad("recorded", key, ci.Instr, "the sequence number of an accepted chunk is not remembered", st)
				} else if c := cell(rec); c == nil || c != st.Get("d2") {
					bad("recorded", key+"/number", ci.Instr, "what is remembered is not the sequence number of the chunk", st)
				}
				if st.Has("firstnum") && !st.Has("flagged") {
					bad("recorded", key+"/flag", ci.Instr, "after the first chunk the channel does not remember that a number was received", st)
				}
			}
		}
		ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
			c, tk := NormCond(cond, taken)
			c = c.Strip()
			if lastField(c) == flag && (c.Op == "load" || c.Op == "field") && !tk {
				st.Set("firstnum", x.Flag())
			}
			if c.Op != "bin" || len(c.Args) != 2 {
				return
			}
			op, a, b := c.Name, c.Args[0].Strip(), c.Args[1].Strip()
			if !tk {
				op = negate(op)
			}
			succ := func(t *Term) bool {
				if t.Op != "bin" || t.Name != "+" {
					return false
				}
				for i := 0; i < 2; i++ {
					if n, ok := numConst(t.Args[1-i]); ok && n == 1 && isLast(t.Args[i]) {
						return true
					}
				}
				return false
			}
			// value - last == 1
			diff := func(t, k *Term) *Term {
				if t.Op == "bin" && t.Name == "-" && isLast(t.Args[1]) {
					if n, ok := numConst(k); ok && n == 1 {
						return t.Args[0].Strip()
					}
				}
				return nil
			}
			var v *Term
			switch {
			case succ(b):
				v = a
			case succ(a):
				v = b
			default:
				if v = diff(a, b); v == nil {
					v = diff(b, a)
				}
			}
			if v != nil {
				switch op {
				case "==":
					st.Set("follows", x.Flag())
					st.Set("value", v)
				case "!=":
					st.Set("mismatch", x.Flag())
				}
				return
			}
			if a.IsConst() {
				op, a, b = flip(op), b, a
			}
			n, ok := numConst(b)
			if !ok {
				return
			}
			if isLast(a) && (op == ">" && n >= math.MaxUint32-1024 || op == ">=" && n >= math.MaxUint32-1023) {
				st.Set("whi", x.Flag())
			}
			if !isLast(a) && (op == "<" && n <= 1024 || op == "<=" && n < 1024) && cell(a) != nil && (cell(a) == st.Get("d1") || cell(a) == st.Get("d2")) {
				st.Set("wlo", x.Flag())
				st.Set("value", a)
			}
			if st.Has("whi") && st.Has("wlo") {
				st.Del("mismatch")
			}
		}
		ev.instr = func(x *Exec, st *State, in ssa.Instruction) {
			recvFns[in.Parent()] = true
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
				return
			}
			switch fieldName(derefType(fa.X.Type()), fa.Field) {
			case last:
				v := x.Val(st, s.Val).Strip()
				st.Set("recorded", v)
				if !(st.Has("follows") || st.Has("whi") && st.Has("wlo") || st.Has("firstnum")) {
					bad("recorded", "unchecked", in, "a sequence number is remembered that was not found to follow", st)
				}
			case flag:
				if b, ok := x.Val(st, s.Val).ConstBool(); ok && b {
					st.Set("flagged", x.Flag())
				} else {
					bad("reset", "receive", in, "receiving a chunk makes the channel forget the sequence number", st)
				}
			}
		}
		r.Saw(p.recvExplore(s, ev))
		r.Min("follows", 2)
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
					continue
				}
				n := fieldName(derefType(fa.X.Type()), fa.Field)
				if n != last && n != flag || recvFns[f] {
					continue
				}
				r.Ob("reset", FuncName(f))
				if FuncName(f) != "client.clientSecureChannel.connect" && !strings.HasPrefix(f.Name(), "new") && !strings.HasPrefix(f.Name(), "New") {
					r.Bad("reset", FuncName(f), p.InstrPos(in), "the memory of received sequence numbers is changed outside the comparison")
				}
			}
		}
	}
}
