package main

import (
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P17", "Typestate over every path of every function that reads or writes a subscription's next sequence number, its retransmission queue, or builds a notification message (helpers expanded): a message with data carries the number in force, is appended to the retransmission queue before it is sent, and the number moves to its successor (never zero) exactly once per such message; a keep-alive carries the number in force and moves nothing; the queue loses an element only when it is full (its oldest), when the element's number was acknowledged, or with the subscription; the list of available numbers is a complete walk of the queue after the append; acknowledge and republish answer truthfully; the publish handler maps each acknowledgement to its own result and passes results, request id and handle on together.", runP17)
}

const (
	seqField = "nextSequenceNumber"
	rqField  = "retransmissionQueue"
	nmT      = "ua.NotificationMessage"
)

// p17Roots: the outermost functions around the numbering and the retransmission queue, and everything below them that has to be expanded.
func (p *Program) p17Roots() (roots []*ssa.Function, in map[*ssa.Function]bool) {
	direct := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "server" || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.FieldAddr:
					if TypeName(i.X.Type()) == subT {
						n := fieldName(i.X.Type(), i.Field)
						if n == seqField || n == rqField {
							direct[f] = true
						}
					}
					if TypeName(i.X.Type()) == nmT {
						direct[f] = true
					}
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && TypeName(fa.X.Type()) == "ua.PublishResponse" && fieldName(fa.X.Type(), fa.Field) == "NotificationMessage" {
						direct[f] = true
					}
				}
			}
		}
	}
	in = map[*ssa.Function]bool{}
	for f := range direct {
		in[f] = true
	}
	owned := ownedBy
	called := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			EachCall(f, func(_ ssa.CallInstruction, _ string, g *ssa.Function) {
				if g == nil || !in[g] {
					return
				}
				if owned(f) && f != g {
					called[g] = true
					if !in[f] {
						in[f], ch = true, true
					}
				}
			})
		}
	}
	// what those functions call to move the number or to touch the queue
	for f := range in {
		if !called[f] && f.Parent() == nil {
			roots = append(roots, f)
		}
		if f.Parent() != nil {
			// the enclosing function is the root
			q := f
			for q.Parent() != nil {
				q = q.Parent()
			}
			if !in[q] {
				roots = append(roots, f)
			}
		}
	}
	set := map[*ssa.Function]bool{}
	for _, f := range roots {
		set[f] = true
	}
	return sortedFns(set), in
}

// ownedBy: a method of a subscription, or a function that works on one.
func ownedBy(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil || f.Pkg.Pkg.Name() != "server" {
		return false
	}
	return len(f.Params) > 0 && isPtrTo(f.Params[0].Type(), subT)
}

func runP17(p *Program, r *Report) {
	r.Rule("number: a notification message carries the subscription's current number")
	r.Rule("advance: the number moves to its successor, never zero, once for each message that carries data and never otherwise")
	r.Rule("kept: a message with data is appended to the retransmission queue before it is sent")
	r.Rule("dropped: an element leaves the retransmission queue only when it is the oldest of a full queue, when its number was acknowledged, or with the subscription; the queue never exceeds its maximum")
	r.Rule("available: the available sequence numbers are those of all messages in the queue, read after the new one was appended")
	r.Rule("found: acknowledge and republish succeed for exactly the message with the given number")
	r.Rule("acks: each acknowledgement gets the result of its own subscription and number; results travel with their request")
	r.Rule("expired: a queued publish request is given up only after the timeout its client set has passed")
	roots, in := p.p17Roots()
	maxN := int64(p.constVal("server", "maxRetransmissionQueueLength"))
	for _, root := range roots {
		r.SawFn(root)
		p.p17Explore(r, root, in, maxN)
	}
	r.Min("number", 4)
	r.Min("advance", 4)
	r.Min("kept", 2)
	r.Min("dropped", 3)
	r.Min("available", 4)
	r.Min("found", 2)
	p.p17Acks(r)
	r.Min("acks", 6)
}

// rqOf: t is the retransmission queue of a subscription.
func rqOf(t *Term) bool {
	_, f := loadField(t)
	return f == rqField
}

// msgOf: the notification message value a term stands for (an element of the queue included).
func msgElem(t *Term) *Term {
	// assert(field Value of elem) -> elem
	t = t.Strip()
	if t != nil && t.Op == "extract" {
		t = t.Args[0].Strip()
	}
	if t != nil && t.Op == "assert" {
		t = t.Args[0].Strip()
	}
	if t == nil {
		return nil
	}
	b, f := loadField(t)
	if f == "Value" && b != nil {
		return b
	}
	return nil
}

func (p *Program) p17Explore(r *Report, root *ssa.Function, in map[*ssa.Function]bool, maxN int64) {
	name := FuncName(root)
	bad := func(rule, what string, at ssa.Instruction, msg string, st *State) {
		r.Bad(rule, name+"/"+what, p.InstrPos(at), msg, st.Trace(8)...)
	}
	h := Hooks{MaxDepth: 8}
	h.Inline = func(f *ssa.Function) bool {
		if f.Parent() != nil {
			return true
		}
		return in[f] && ownedBy(f) == ownedBy(root) || f != root && p.leafHelper(f, root.Pkg, nil, 0)
	}
	h.Stable = func(a *Term) bool {
		return a.Op == "fieldaddr" && (a.Name == seqField || a.Name == rqField) && a.Args[0].Typ != nil && isPtrTo(a.Args[0].Typ, subT)
	}
	cur := func(x *Exec, st *State) *Term {
		// the value of the number now, on the subscription seen on this path
		a := st.Get("seqaddr")
		if a == nil {
			return nil
		}
		t := a.Typ.Underlying().(*types.Pointer).Elem()
		if v := x.Load(st, a, t); v != nil {
			return v
		}
		return x.T.mk("load", "", []*Term{a}, nil, nil, t)
	}
	first := func(x *Exec, st *State) *Term {
		a := st.Get("seqaddr")
		if a == nil {
			return nil
		}
		return x.T.mk("load", "", []*Term{a}, nil, nil, a.Typ.Underlying().(*types.Pointer).Elem())
	}
	key := func(t *Term) string { return strconv.Itoa(termID(t)) }
	ne := func(st *State, t *Term, n uint64) bool {
		return st.Has("ne:" + key(t) + ":" + strconv.FormatUint(n, 10))
	}
	eq := func(st *State, t *Term, n uint64) bool {
		return st.Has("eq:" + key(t) + ":" + strconv.FormatUint(n, 10))
	}
	// succ: b is the number after a
	succ := func(st *State, a, b *Term) bool {
		if a == nil || b == nil {
			return false
		}
		if n, ok := numConst(b); ok {
			return n == 1 && (eq(st, a, math.MaxUint32) || wrapped(st, a))
		}
		return isPlusOne(b, a) && (ne(st, a, math.MaxUint32) || ne(st, b, 0))
	}
	nsucc := func(x *Exec, st *State, a, b *Term) int {
		if a == b {
			return 0
		}
		if succ(st, a, b) {
			return 1
		}
		return -1
	}
	subject := func(x *Exec, st *State, a *Term) {
		if a != nil && a.Op == "fieldaddr" && a.Name == seqField && !st.Has("seqaddr") {
			st.Set("seqaddr", a)
		}
	}
	dataKind := func(m *Term) string {
		d := structField(m, "NotificationData")
		if d == nil {
			return "unknown"
		}
		if isNilT(d) {
			return "none"
		}
		return "data"
	}
	use := func(x *Exec, st *State, at ssa.Instruction, m *Term) {
		// a message with data is numbered
		id := m
		if u := st.Get("usedmsg"); u != nil {
			if u == id {
				return
			}
			bad("number", "second", at, "two messages are numbered on one path", st)
			return
		}
		st.Set("usedmsg", id)
		r.Ob("number", name+" at "+p.InstrPos(at))
		n := structField(m, "SequenceNumber")
		if n == nil || n.Strip() != first(x, st) {
			bad("number", "data", at, "the message does not carry the number in force", st)
		}
	}
	h.OnInstr = func(x *Exec, st *State, i ssa.Instruction) {
		switch i := i.(type) {
		case *ssa.UnOp:
			if i.Op == token.MUL {
				subject(x, st, x.Val(st, i.X))
			}
		case *ssa.Store:
			a := x.Val(st, i.Addr)
			if a == nil || a.Op != "fieldaddr" {
				return
			}
			if a.Name == seqField {
				subject(x, st, a)
				v := x.Val(st, i.Val)
				if memRoot(a) != nil {
					r.Ob("advance", name+" initial value")
					if n, ok := numConst(v); !ok || n == 0 {
						bad("advance", "initial", i, "a new subscription does not start with a number other than zero", st)
					}
					st.Del("seqaddr")
				} else {
					st.Set("moved", x.T.mk("opaque", "at", nil, nil, i.Val, nil))
				}
			}
			if a.Name == rqField && isPtrTo(a.Args[0].Typ, subT) && memRoot(a) == nil {
				if v := x.Val(st, i.Val); v == nil || !isNilT(v) {
					bad("dropped", "replaced", i, "the retransmission queue of an existing subscription is replaced", st)
				} else {
					st.Set("gone", x.Flag())
					st.Del("removedAny")
				}
			}
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if a, b, e, ok := CmpOf(c, tk); ok {
			for _, pr := range [][2]*Term{{a, b}, {b, a}} {
				n, isC := numConst(pr[1])
				if !isC || pr[0] == nil {
					continue
				}
				if _, f := loadField(pr[0].Strip()); f == seqField || plusBase(pr[0].Strip()) != nil {
					k := "ne:"
					if e {
						k = "eq:"
					}
					st.Set(k+key(pr[0].Strip())+":"+strconv.FormatUint(uint64(n), 10), pr[0].Strip())
				}
			}
			// the walk has reached its end, or an element is the one looked for
			if w := st.Get("cursor"); w != nil && e {
				if a.Strip() == w && isNilT(b) || b.Strip() == w && isNilT(a) {
					st.Set("walked", x.Flag())
					if st.Has("isfront") {
						st.Set("emptied", x.Flag())
					}
				}
			}
			if e {
				for _, pr := range [][2]*Term{{a, b}, {b, a}} {
					if pr[0] != nil && pr[1] != nil && pr[1].Strip().Op == "param" {
						if base, f := loadField(pr[0]); f == "SequenceNumber" && base != nil {
							if el := msgElem(base); el != nil {
								st.Set("match", el)
							}
						}
					}
				}
			}
			if e && (rqOf(a) && isNilT(b) || rqOf(b) && isNilT(a)) {
				st.Set("walked", x.Flag())
			}
		}
		// queue length facts
		if c != nil && c.Op == "bin" && len(c.Args) == 2 {
			l, rr, op := c.Args[0].Strip(), c.Args[1].Strip(), c.Name
			if rr.IsCall("list.List.Len") {
				l, rr, op = rr, l, flip(op)
			}
			if l.IsCall("list.List.Len") && rqOf(l.Args[0]) {
				if n, ok := numConst(rr); ok {
					if !tk {
						op = negate(op)
					}
					switch op {
					case "<":
						st.Set("below", x.Int(int(n)))
					case "<=":
						st.Set("below", x.Int(int(n)+1))
					case ">=":
						st.Set("atleast", x.Int(int(n)))
					case ">":
						st.Set("atleast", x.Int(int(n)+1))
					case "==":
						st.Set("atleast", x.Int(int(n)))
						st.Set("below", x.Int(int(n)+1))
					}
				}
			}
		}
		// an element whose content is not a message may be skipped
		if c != nil && c.Op == "extract" && c.Name == "1" && !tk {
			if el := msgElem(c); el != nil && el == st.Get("cursor") {
				st.Set("taken", x.Flag())
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case "list.List.PushBack", "list.List.PushFront", "list.List.InsertBefore", "list.List.InsertAfter", "list.List.MoveToFront", "list.List.MoveToBack", "list.List.Init", "list.List.PushBackList", "list.List.PushFrontList":
			if len(ci.Args) == 0 || !rqOf(ci.Args[0]) {
				break
			}
			r.Ob("kept", name+" at "+p.InstrPos(ci.Instr))
			if ci.Name != "list.List.PushBack" {
				bad("kept", "order", ci.Instr, "a message is not appended at the end of the retransmission queue", st)
				break
			}
			m := ci.Args[1].Strip()
			if m.Typ == nil || TypeName(m.Typ) != nmT {
				bad("kept", "type", ci.Instr, "something other than a notification message is put into the retransmission queue", st)
				break
			}
			if _, isP := m.Typ.Underlying().(*types.Pointer); isP {
				bad("kept", "type", ci.Instr, "something other than a notification message value is put into the retransmission queue", st)
			}
			if dataKind(m) == "none" {
				bad("kept", "keepalive", ci.Instr, "a message without data is put into the retransmission queue", st)
			}
			use(x, st, ci.Instr, m)
			st.Set("pushed", m)
			st.Del("walked")
			st.Del("cursor")
			r.Ob("dropped", name+" bounded at "+p.InstrPos(ci.Instr))
			b := st.Get("below")
			room := b != nil && atoiT(b) <= maxN || st.Has("removedOld") || st.Has("emptied")
			if !room {
				bad("dropped", "bound", ci.Instr, "a message is appended although the queue may already hold its maximum", st)
			}
			st.Del("below")
			st.Del("atleast")
			st.Del("removedOld")
			st.Del("emptied")
		case "list.List.Remove":
			if len(ci.Args) < 2 || !rqOf(ci.Args[0]) {
				break
			}
			el := ci.Args[1].Strip()
			r.Ob("dropped", name+" removed at "+p.InstrPos(ci.Instr))
			if el == st.Get("cursor") {
				st.Set("removedCursor", x.Flag())
			}
			switch {
			case st.Get("match") == el && !st.Has("removed"):
				st.Set("removed", el)
			case el == st.Get("cursor") && st.Has("isfront") && st.Get("atleast") != nil && atoiT(st.Get("atleast")) >= maxN:
				st.Set("removedOld", x.Flag())
				st.Del("below")
				st.Del("atleast")
			default:
				st.Set("removedAny", x.T.mk("opaque", "at", nil, nil, nil, nil))
				st.Set("removedAt", el)
			}
		case "list.List.Front":
			if len(ci.Args) > 0 && rqOf(ci.Args[0]) {
				st.Del("walked")
				st.Del("skipped")
				st.Del("taken")
				st.Del("removedCursor")
				st.Del("list")
				st.Set("isfront", x.Flag())
			}
		case "list.Element.Next":
			if c := st.Get("cursor"); c != nil && len(ci.Args) > 0 && ci.Args[0].Strip() == c {
				if !st.Has("taken") {
					st.Set("skipped", x.Flag())
				}
				st.Del("taken")
				st.Del("isfront")
				if st.Has("removedCursor") {
					// a removed element has no successor
					ci.Result = x.T.mk("nil", "", nil, nil, nil, ci.Instr.(ssa.Value).Type())
				}
			}
		case "list.List.Back", "list.Element.Prev":
			st.Del("cursor")
		case "builtin.append":
			if c := st.Get("cursor"); c != nil && len(ci.Args) > 1 {
				for _, e := range appended(x, st, ci.Args[1]) {
					if base, f := loadField(e); f == "SequenceNumber" && base != nil && msgElem(base) == c {
						st.Set("taken", x.Flag())
						st.Set("list", x.T.mk("opaque", "appends", nil, nil, ci.Instr.(ssa.Value), nil))
					}
				}
			}
		case "server.serverSecureChannel.Write":
			p.p17Write(r, name, bad, x, st, ci, cur, use, dataKind)
		case "server.Session.addStateChange":
			for _, a := range ci.Args[1:] {
				if m := opMessage(x, st, a); m != nil {
					use(x, st, ci.Instr, m)
				} else {
					bad("number", "status", ci.Instr, "the message of a status change cannot be determined", st)
				}
			}
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if res == nil {
			return
		}
		switch ci.Name {
		case "list.List.Front":
			if len(ci.Args) > 0 && rqOf(ci.Args[0]) {
				st.Set("cursor", res.Strip())
			}
		case "list.Element.Next":
			if c := st.Get("cursor"); c != nil && len(ci.Args) > 0 && ci.Args[0].Strip() == c {
				st.Set("nextres", res.Strip())
			}
		}
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		// the cursor of a walk follows the loop variable
		nx, c := st.Get("nextres"), st.Get("cursor")
		if c == nil {
			return
		}
		for k, pr := range to.Preds {
			if pr != from {
				continue
			}
			for _, i := range to.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if TypeName(ph.Type()) != "list.Element" {
					continue
				}
				e := x.Val(st, ph.Edges[k])
				switch {
				case e == nil:
				case nx != nil && e.Strip() == nx:
					st.Set("cursor", x.Val(st, ph))
					st.Del("nextres")
				case e.Strip() == c:
					st.Set("cursor", x.Val(st, ph))
				}
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, ret ssa.Instruction) {
		pos := ret
		a, c := first(x, st), cur(x, st)
		if a != nil && (st.Has("usedmsg") || st.Has("moved") || st.Has("keepalive")) {
			r.Ob("advance", name+" at "+p.InstrPos(ret))
			n := nsucc(x, st, a, c)
			switch {
			case n < 0:
				bad("advance", "value", pos, "the number does not move to its successor (one more, and one after the largest)", st)
			case st.Has("usedmsg") && n == 0:
				bad("advance", "reused", pos, "a message with data was numbered, but the number stays in force and will be used again", st)
			case !st.Has("usedmsg") && n == 1 && FuncName(root) != "":
				bad("advance", "gap", pos, "the number moves although no message with data used it", st)
			}
		}
		if st.Has("removedAny") && !st.Has("gone") {
			bad("dropped", "lost", pos, "an element is removed from the retransmission queue that is neither the oldest of a full queue nor the one acknowledged", st)
		}
		// lookups by number
		if np := numberParam(root); np >= 0 && len(res) > 0 && isBoolT(res[len(res)-1]) {
			r.Ob("found", name+" at "+p.InstrPos(ret))
			v, known := res[len(res)-1].ConstBool()
			switch {
			case !known:
				bad("found", "result", pos, "the result does not follow from the search", st)
			case v && !st.Has("match"):
				bad("found", "true", pos, "success is reported without having found the message with the given number", st)
			case v && len(res) > 1 && msgElem(res[0]) != st.Get("match"):
				bad("found", "other", pos, "a message other than the one with the given number is returned", st)
			case v && len(res) == 1 && !st.Has("removed"):
				bad("found", "kept", pos, "the acknowledged message is not removed from the queue", st)
			case v && len(res) > 1 && st.Has("removed"):
				bad("found", "removed", pos, "the message is removed from the queue by being republished", st)
			case !v && st.Has("removed"):
				bad("found", "false", pos, "failure is reported although the message was found and removed", st)
			case !v && !st.Has("walked"):
				bad("found", "partial", pos, "failure is reported before the whole queue was searched", st)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
}

func isNilT(t *Term) bool { return t != nil && t.Strip().IsNil() }

func isBoolT(t *Term) bool {
	if t == nil || t.Typ == nil {
		return t != nil && (t.Name == "true" || t.Name == "false")
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func atoiT(t *Term) int64 {
	n, _ := numConst(t)
	return n
}

// plusBase: t is base+1.
func plusBase(t *Term) *Term {
	if t == nil || t.Op != "bin" || t.Name != "+" || len(t.Args) != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		if n, ok := numConst(t.Args[i]); ok && n == 1 {
			return t.Args[1-i].Strip()
		}
	}
	return nil
}

func isPlusOne(b, a *Term) bool { return plusBase(b.Strip()) == a.Strip() }

// wrapped: one more than a is known to be zero.
func wrapped(st *State, a *Term) bool {
	for k, v := range st.A {
		if strings.HasPrefix(k, "eq:") && strings.HasSuffix(k, ":0") && isPlusOne(v, a) {
			return true
		}
	}
	return false
}

// structField: a field of a struct value that was put together on the path.
func structField(m *Term, name string) *Term {
	if m == nil || m.Op != "struct" || m.Typ == nil {
		return nil
	}
	s, ok := derefType(m.Typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields() && i < len(m.Args); i++ {
		if s.Field(i).Name() == name {
			return m.Args[i]
		}
	}
	return nil
}

// appended: the elements of the variable part of an append call.
func appended(x *Exec, st *State, s *Term) (out []*Term) {
	s = s.Strip()
	if s.Op != "slice" {
		return nil
	}
	b := s.Args[0].Strip()
	for a, v := range st.Mem {
		if a.Op == "indexaddr" && a.Args[0] == b {
			out = append(out, v)
		}
	}
	return
}

// numberParam: the index of the (only) uint32 parameter of a lookup by sequence number, or -1.
func numberParam(f *ssa.Function) int {
	if RecvType(f) != subT || f.Signature.Params().Len() != 1 {
		return -1
	}
	if b, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
		return 1
	}
	return -1
}

// opMessage: the notification message of a status change.
func opMessage(x *Exec, st *State, a *Term) *Term {
	if a == nil || a.Typ == nil {
		return nil
	}
	m := faultField(x, st, a.Strip(), "message")
	if m == nil || m.Op != "struct" {
		return nil
	}
	return m
}

// p17Write: a response on its way out.
func (p *Program) p17Write(r *Report, name string, bad func(rule, what string, at ssa.Instruction, msg string, st *State), x *Exec, st *State, ci *CallInfo,
	cur func(x *Exec, st *State) *Term, use func(x *Exec, st *State, at ssa.Instruction, m *Term), dataKind func(m *Term) string) {
	if len(ci.Args) < 2 || respType(ci.Args[1].Strip()) != "ua.PublishResponse" {
		return
	}
	resp := ci.Args[1].Strip()
	at := p.InstrPos(ci.Instr)
	m := faultField(x, st, resp, "NotificationMessage")
	if m == nil {
		bad("number", "message", ci.Instr, "the notification message of the response cannot be determined", st)
		return
	}
	// results travel with their request
	res := faultField(x, st, resp, "Results")
	r.Ob("acks", name+" response at "+at)
	if msg := p.sameRequest(x, st, ci, res); msg != "" {
		bad("acks", "results", ci.Instr, msg, st)
	}
	if b, f := loadField(m); f == "message" && b != nil {
		// a status change, numbered when it was queued
		r.Ob("number", name+" status change at "+at)
		if !(b.Op == "recv" || b.Op == "extract" && b.Args[0].Op == "select") {
			bad("number", "status", ci.Instr, "the message is not that of a queued status change", st)
		}
		id := faultField(x, st, resp, "SubscriptionID")
		if bi, fi := loadField(id); fi != "subscriptionId" || bi != b {
			bad("number", "status id", ci.Instr, "the status change is reported for another subscription", st)
		}
		return
	}
	if m.Op != "struct" {
		bad("number", "origin", ci.Instr, "the response carries a message that was not numbered on this path", st)
		return
	}
	id := faultField(x, st, resp, "SubscriptionID")
	a := st.Get("seqaddr")
	r.Ob("number", name+" at "+at)
	if bi, fi := loadField(id); fi != "id" || a == nil || bi != a.Args[0] {
		bad("number", "id", ci.Instr, "the response names another subscription than the one whose number it carries", st)
	}
	if dataKind(m) == "none" {
		n := structField(m, "SequenceNumber")
		if n == nil || cur(x, st) == nil || n.Strip() != cur(x, st).Strip() {
			bad("number", "keepalive", ci.Instr, "a keep-alive does not announce the next number", st)
		}
		st.Set("keepalive", x.Flag())
	} else {
		use(x, st, ci.Instr, m)
		r.Ob("kept", name+" sent at "+at)
		if st.Get("pushed") != m {
			bad("kept", "sent", ci.Instr, "a message with data is sent without having been put into the retransmission queue", st)
		}
	}
	// available numbers
	r.Ob("available", name+" at "+at)
	av := faultField(x, st, resp, "AvailableSequenceNumbers")
	l := st.Get("list")
	switch {
	case !st.Has("walked"):
		bad("available", "partial", ci.Instr, "the available sequence numbers are not those of the whole queue after the message was appended", st)
	case st.Has("skipped"):
		bad("available", "skipped", ci.Instr, "a message in the queue is left out of the available sequence numbers", st)
	case av == nil || isNilT(av) && l != nil:
		bad("available", "missing", ci.Instr, "the available sequence numbers are not reported", st)
	case l != nil && !isNilT(av) && !flowsInto(l.V, av):
		bad("available", "other", ci.Instr, "the available sequence numbers reported are not the ones collected from the queue", st)
	}
}

// flowsInto: the value of the term is built by the append call.
func flowsInto(call ssa.Value, t *Term) bool {
	t = t.Strip()
	if t.Contains(func(u *Term) bool { return u.V == call }) {
		return true
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == call {
			return true
		}
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Call:
			if n, _ := CallName(v.Common()); n == "builtin.append" {
				return walk(v.Call.Args[0])
			}
		case *ssa.Slice:
			return walk(v.X)
		}
		return false
	}
	found := false
	t.Contains(func(u *Term) bool {
		if u.V != nil && walk(u.V) {
			found = true
		}
		return found
	})
	if !found && t.Op == "make" {
		// nothing collected on this path
		ph := call.(*ssa.Call).Call.Args[0]
		if v, ok := ph.(*ssa.Phi); ok {
			for _, e := range v.Edges {
				if e == t.V {
					return true
				}
			}
		}
		return ph == t.V
	}
	return found
}

// sameRequest: the results are those kept with the request that is answered.
func (p *Program) sameRequest(x *Exec, st *State, ci *CallInfo, res *Term) string {
	ch, id := ci.Args[0].Strip(), ci.Args[len(ci.Args)-1].Strip()
	if res == nil {
		return "the results of the acknowledgements are not reported"
	}
	res = res.Strip()
	const none = "the results reported are not those of the answered request's acknowledgements"
	if ch.Op == "extract" {
		if res.Op != "extract" || id.Op != "extract" || res.Args[0] != ch.Args[0] || id.Args[0] != ch.Args[0] {
			return none
		}
		if t, ok := res.Typ.Underlying().(*types.Slice); !ok || TypeName(t.Elem()) != "ua.StatusCode" {
			return none
		}
		return ""
	}
	if ch.Op == "param" {
		if res.Op == "param" || res.Op == "make" && !ownedBy(ci.Instr.Parent()) {
			return ""
		}
	}
	if b, f := loadField(ch); f != "" && b != nil {
		if b2, _ := loadField(res); b2 == b {
			return ""
		}
	}
	return none
}

// p17Acks: the publish and republish handlers, and the queue of publish requests.
func (p *Program) p17Acks(r *Report) {
	const ackFn, repFn = "server.Subscription.acknowledge", "server.Subscription.republish"
	const getFn = "server.SubscriptionManager.Get"
	p.Func(ackFn)
	p.Func(repFn)
	good := p.constVal("ua", "Good")
	unknown := p.constVal("ua", "BadSequenceNumberUnknown")
	invalid := p.constVal("ua", "BadSubscriptionIDInvalid")
	reach := p.Reach(func(n string, _ ssa.CallInstruction) bool { return n == ackFn || n == repFn }, nil)
	for _, rn := range []string{"server.Server.handlePublish", "server.Server.handleRepublish"} {
		root := p.Func(rn)
		r.SawFn(root)
		bad := func(rule, what string, at ssa.Instruction, msg string, st *State) {
			r.Bad(rule, rn+"/"+what, p.InstrPos(at), msg, st.Trace(8)...)
		}
		h := Hooks{MaxDepth: 6}
		h.Inline = func(f *ssa.Function) bool {
			if RecvType(f) == subT || RecvType(f) == "server.SubscriptionManager" {
				return false
			}
			return reach[f] || f.Parent() != nil
		}
		// sub was looked up with the id that stands beside the number
		paired := func(sub, num *Term) *Term {
			sub, num = sub.Strip(), num.Strip()
			b, f := loadField(num)
			if b == nil || f != "SequenceNumber" && f != "RetransmitSequenceNumber" {
				return nil
			}
			if sub.Op != "extract" || !sub.Args[0].IsCall(getFn) {
				return nil
			}
			args := sub.Args[0].Args
			b2, f2 := loadField(args[len(args)-1])
			if f2 != "SubscriptionID" || b2 != b {
				return nil
			}
			return b
		}
		result := func(x *Exec, st *State, at ssa.Instruction, v, idx *Term) {
			n, ok := numConst(v.Strip())
			if !ok {
				return // e.g. a helper's joined result: judged where the constant was chosen
			}
			r.Ob("acks", rn+" result at "+p.InstrPos(at))
			elem := st.Get("elem")
			if idx != nil && elem != nil {
				e := elem
				if e.Op == "load" {
					e = e.Args[0]
				}
				if (e.Op == "indexaddr" || e.Op == "index") && e.Args[1].Strip() != idx.Strip() {
					bad("acks", "index", at, "the result of an acknowledgement is put in another's place", st)
				}
			}
			switch uint64(n) {
			case good:
				if !st.Has("acked") {
					bad("acks", "good", at, "an acknowledgement is reported as Good that was not carried out", st)
				}
			case unknown:
				if !st.Has("refused") {
					bad("acks", "unknown", at, "BadSequenceNumberUnknown is reported without the subscription having been asked, or after it found the message", st)
				}
			case invalid:
				if elem != nil {
					bad("acks", "invalid", at, "BadSubscriptionIdInvalid is reported for a subscription that was found and asked", st)
				}
			default:
				if st.Has("acked") {
					bad("acks", "code", at, "a successful acknowledgement is reported as Bad", st)
				}
			}
			st.Del("acked")
			st.Del("refused")
			st.Del("elem")
			st.Del("ackres")
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch ci.Name {
			case ackFn, repFn:
				r.Ob("acks", rn+" lookup at "+p.InstrPos(ci.Instr))
				if len(ci.Args) < 2 {
					break
				}
				e := paired(ci.Args[0], ci.Args[1])
				if e == nil {
					bad("acks", "pair", ci.Instr, "the message is not looked up in the subscription named beside its number", st)
					break
				}
				if ci.Name == ackFn {
					if st.Has("acked") || st.Has("ackres") {
						bad("acks", "twice", ci.Instr, "a second acknowledgement is carried out before the first got its result", st)
					}
					st.Set("elem", e)
				}
			case chWrite:
				if len(ci.Args) < 2 || respType(ci.Args[1].Strip()) != "ua.RepublishResponse" {
					break
				}
				r.Ob("acks", rn+" response at "+p.InstrPos(ci.Instr))
				m := faultField(x, st, ci.Args[1].Strip(), "NotificationMessage")
				if m == nil || m.Strip().Op != "extract" || !m.Strip().Args[0].IsCall(repFn) || st.Get("found") != m.Strip().Args[0] {
					bad("acks", "republish", ci.Instr, "the response does not carry the message found in the retransmission queue", st)
				}
			case "builtin.append":
				if len(ci.Args) > 1 && strings.HasSuffix(ci.Instr.(ssa.Value).Type().String(), "ua.StatusCode") {
					for _, v := range appended(x, st, ci.Args[1]) {
						result(x, st, ci.Instr, v, nil)
					}
				}
			}
			return ActDefault
		}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Name == ackFn && res != nil {
				st.Set("ackres", res.Strip())
			}
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			c, tk := NormCond(cond, taken)
			if c == nil {
				return
			}
			if a := st.Get("ackres"); a != nil && c.Strip() == a {
				if tk {
					st.Set("acked", x.Flag())
				} else {
					st.Set("refused", x.Flag())
				}
				st.Del("ackres")
			}
			if c.Op == "extract" && c.Name == "1" && c.Args[0].IsCall(repFn) && tk {
				st.Set("found", c.Args[0])
			}
		}
		h.OnInstr = func(x *Exec, st *State, i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || TypeName(derefType(s.Addr.Type())) != "ua.StatusCode" {
				return
			}
			if _, isArr := derefType(ia.X.Type()).Underlying().(*types.Array); isArr {
				return // the variable part of a call
			}
			if v := x.Val(st, s.Val).Strip(); st.Has("val") && st.Get("validx") != x.Val(st, ia.Index).Strip() {
				result(x, st, i, st.Get("val"), st.Get("validx"))
				st.Set("val", v)
			} else {
				st.Set("val", v)
			}
			st.Set("validx", x.Val(st, ia.Index).Strip())
		}
		// the last value of an iteration counts
		h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
			if !to.Dominates(from) {
				return
			}
			at := from.Instrs[len(from.Instrs)-1]
			if v := st.Get("val"); v != nil {
				result(x, st, at, v, st.Get("validx"))
				st.Del("val")
				st.Del("validx")
			} else if st.Has("elem") {
				bad("acks", "none", at, "an acknowledgement is carried out but gets no result", st)
			}
		}
		x := NewExec(p, h)
		x.Run(root, nil)
		r.Saw(x)
	}
	// a queued request is given up only after the timeout its client set
	root := p.Func("server.Session.removePublishRequest")
	r.SawFn(root)
	timeout := p.constVal("ua", "BadTimeout")
	h := Hooks{MaxDepth: 3}
	h.Inline = func(f *ssa.Function) bool {
		return f.Pkg == root.Pkg && f != root && FuncName(f) != chWrite && small(f, 8)
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if c == nil {
			return
		}
		if c.Op == "bin" && len(c.Args) == 2 {
			for i := 0; i < 2; i++ {
				if _, f := loadField(c.Args[i]); f == "TimeoutHint" {
					n, ok := numConst(c.Args[1-i].Strip())
					op := c.Name
					if i == 1 {
						op = flip(op)
					}
					if !tk {
						op = negate(op)
					}
					if ok && (op == ">" && n >= 0 || op == "!=" && n == 0 || op == ">=" && n >= 1) {
						st.Set("hinted", x.Flag())
					}
				}
			}
		}
		// or its session is closed
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			for _, w := range [][2]*Term{{a, b}, {b, a}} {
				if isNilT(w[1]) && (mentions(w[0], "authenticationToken") || w[0].Strip().IsCall("server.Session.AuthenticationToken")) {
					st.Set("sessclosed", x.Flag())
				}
			}
		}
		timed := c.Contains(func(u *Term) bool { _, f := loadField(u); return f == "TimeoutHint" })
		if timed && (c.IsCall("time.Time.After") || c.IsCall("time.Time.Before")) && tk || timed && c.Op == "bin" && c.Contains(func(u *Term) bool { return u.IsCall("time.Now") || u.IsCall("time.Since") }) {
			st.Set("late", x.Flag())
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name != chWrite || len(ci.Args) < 2 {
			return ActDefault
		}
		s := faultField(x, st, ci.Args[1].Strip(), "ResponseHeader", "ServiceResult")
		n, ok := numConst(s)
		r.Ob("expired", p.InstrPos(ci.Instr))
		if st.Has("sessclosed") && ok && uint64(n) == p.constVal("ua", "BadSessionClosed") {
			return ActDefault
		}
		if !ok || uint64(n) != timeout {
			r.Bad("expired", "code", p.InstrPos(ci.Instr), "a queued publish request is answered here with something other than BadTimeout", st.Trace(6)...)
		}
		if !st.Has("hinted") || !st.Has("late") {
			r.Bad("expired", "early", p.InstrPos(ci.Instr), "a queued publish request is given up although its client set no timeout or it has not passed", st.Trace(6)...)
		}
		return ActDefault
	}
	h.OnInstr = func(x *Exec, st *State, i ssa.Instruction) {
		switch i := i.(type) {
		case *ssa.Select:
			st.Del("hinted")
			st.Del("sessclosed")
			st.Del("late")
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				st.Del("hinted")
				st.Del("late")
			}
		}
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
	r.Min("expired", 1)
}
