package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P23", "Typestate over every path of the client's request function (helpers and deferred calls expanded): the operation is entered in the table of pending responses, under the handle put in the request's header, before the request is sent, and is out of the table again on every return; the only waits are selects that also end with the response, with a context derived from the caller's that carries a deadline, and with the channel; a response is returned without error only when it came from the operation's own channel and its service result is Good. Deliveries: a response is handed only to the operation found under its own handle, which is taken out of the table, without blocking; the receive loop never ends without closing the channel the callers wait for; the service methods return a response only when the request succeeded and the response has the type of the service.", runP23)
}

const reqOp = "*github.com/awcullen/opcua/ua.ServiceOperation"

func isOpTable(t types.Type) bool {
	m, ok := derefType(t).Underlying().(*types.Map)
	return ok && strings.HasSuffix(m.Elem().String(), "ua.ServiceOperation")
}

func opTableField(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, isF := u.X.(*ssa.FieldAddr)
	return isF && isOpTable(v.Type())
}

// touchesOpTable: f reads or changes the table of pending responses.
func touchesOpTable(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.MapUpdate:
				if opTableField(i.Map) {
					return true
				}
			case *ssa.Lookup:
				if opTableField(i.X) {
					return true
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && opTableField(i.Call.Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// respChan: t is the response channel of an operation; the operation.
func respChan(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.IsCall("ua.ServiceOperation.ResponseCh") && len(t.Args) == 1 {
		return t.Args[0]
	}
	if b, ok := fieldOrGetter(t, "ua.ServiceOperation.ResponseCh", "responseCh"); ok {
		return b
	}
	return nil
}

func selCase(cond *Term, taken bool) (sel *Term, idx int, ok bool) {
	a, b, eq, isCmp := CmpOf(cond, taken)
	if !isCmp || !eq || a.Op != "extract" || a.Name != "0" || a.Args[0].Op != "select" {
		return nil, 0, false
	}
	n, isN := constNum(b)
	if !isN {
		return nil, 0, false
	}
	return a.Args[0], int(n), true
}

func recvIndex(sel *ssa.Select, idx int) int {
	n := 2
	for i := 0; i < idx && i < len(sel.States); i++ {
		if sel.States[i].Dir == types.RecvOnly {
			n++
		}
	}
	return n
}

func runP23(p *Program, r *Report) {
	r.Rule("registered: the operation is entered in the table under the handle of its request before the request is sent")
	r.Rule("forgotten: on every return the operation is out of the table")
	r.Rule("waits: the request function waits only in selects that end with the response, with the caller's context under a deadline, and with the channel")
	r.Rule("result: a response without error came from the operation's own channel with the service result Good; every other return carries an error")
	r.Rule("delivered: a response goes only to the operation found under its own handle, which leaves the table, and the delivery does not block")
	r.Rule("guarded: the table is touched only while its lock is held")
	r.Rule("handles: request handles come from an atomic counter that nothing else sets")
	r.Rule("woken: the receive loop ends only by closing the channel that callers wait for, once")
	r.Rule("typed: a service method returns without error only a response of its own type to a request that succeeded")
	cp := p.SSA["client"]
	var reqFn *ssa.Function
	touch := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		if touchesOpTable(f) {
			touch[f] = true
		}
	}
	var makers []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		mk := false
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "ua.NewServiceOperation" {
				mk = true
			}
		})
		if mk {
			makers = append(makers, f)
		}
	}
	if len(makers) == 0 {
		fail("the function that sends a request and waits for its response is not recognised")
	}
	callersOf := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, g := range p.Funcs {
			EachCall(g, func(_ ssa.CallInstruction, _ string, c *ssa.Function) {
				if c == f {
					out = append(out, g)
				}
			})
		}
		return out
	}
	roots := map[*ssa.Function]bool{}
	helper := map[*ssa.Function]bool{}
	for _, m := range makers {
		f := m
		for i := 0; i < 3; i++ {
			rs := f.Signature.Results()
			if rs.Len() == 2 && strings.HasSuffix(rs.At(0).Type().String(), "ua.ServiceResponse") {
				break
			}
			cs := callersOf(f)
			if len(cs) == 0 {
				break
			}
			helper[f] = true
			f = cs[0]
		}
		roots[f] = true
		reqFn = f
	}
	for f := range touch {
		helper[f] = true
	}
	var field string
	for _, f := range sortedFns(roots) {
		if w := p.p23Request(r, f, helper); w != "" {
			field = w
		}
	}
	r.Min("registered", 1)
	r.Min("forgotten", 3)
	r.Min("waits", 1)
	r.Min("result", 3)
	p.p23Deliver(r, touch, roots)
	r.Min("delivered", 2)
	r.Min("guarded", 3)
	p.p23Handles(r)
	r.Min("handles", 1)
	p.p23Worker(r, field)
	r.Min("woken", 1)
	p.p23Typed(r, reqFn)
	r.Min("typed", 25)
}

// p23Request returns the name of the field holding the channel whose closing ends the wait.
func (p *Program) p23Request(r *Report, f *ssa.Function, helper map[*ssa.Function]bool) string {
	fn := FuncName(f)
	closedField := ""
	// the functions that put bytes on the wire
	sends := p.Reach(func(n string, _ ssa.CallInstruction) bool {
		return n == "client.clientSecureChannel.Write" || n == "net.Conn.Write"
	}, nil)
	waits := map[*ssa.Function]bool{}
	for _, g := range p.Funcs {
		if g.Pkg != f.Pkg || g == f {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Select:
					for _, s := range i.States {
						if strings.HasSuffix(s.Chan.Type().String(), "ua.ServiceResponse") && s.Dir == types.RecvOnly {
							waits[g] = true
						}
					}
				case *ssa.UnOp:
					if i.Op == token.ARROW && strings.HasSuffix(i.X.Type().String(), "ua.ServiceResponse") {
						waits[g] = true
					}
				}
			}
		}
	}
	h := Hooks{MaxDepth: 6}
	h.Inline = func(g *ssa.Function) bool {
		return g.Pkg == f.Pkg && g != f && g.Blocks != nil && !sends[g] && (helper[g] || waits[g] || small(g, 6))
	}
	hsrc := p.handleSource()
	handle := func(t *Term) bool { // the handle of the request
		t = t.Strip()
		if t == nil {
			return false
		}
		if t.Contains(func(x *Term) bool { return x.Op == "call" && hsrc != nil && x.Name == FuncName(hsrc) }) {
			return true
		}
		return t.HasField("RequestHandle") && !t.Contains(func(x *Term) bool { return x.Op == "recv" || x.Op == "select" })
	}
	ownDone := func(x *Exec, st *State, t *Term) string {
		if !t.IsMethod("Done") || len(t.Args) == 0 {
			return ""
		}
		c := t.Args[0]
		dl := false
		for i := 0; i < 4; i++ {
			c = c.Strip()
			if c.Op == "extract" && c.Name == "0" {
				c = c.Args[0]
			}
			if c.IsCall("context.WithDeadline") || c.IsCall("context.WithTimeout") {
				dl = true
				c = c.Args[0]
				continue
			}
			if c.IsCall("context.WithCancel") || c.IsCall("context.WithValue") {
				c = c.Args[0]
				continue
			}
			break
		}
		if c.Op != "param" {
			return "the wait does not end with the caller's context"
		}
		if !dl {
			return "the wait ends with a context that need not have a deadline"
		}
		return "ok"
	}
	bad := func(rule, what, where, msg string, st *State) {
		r.Bad(rule, fn+" "+what, where, fn+": "+msg, st.Trace(20)...)
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.MapUpdate:
			if !opTableField(i.Map) {
				return
			}
			op := x.Val(st, i.Value)
			if !op.IsCall("ua.NewServiceOperation") && op.Op != "alloc" {
				bad("registered", "op", p.InstrPos(in), "what is entered in the table is not the operation of this request", st)
			}
			k := x.Val(st, i.Key)
			if !handle(k) {
				bad("registered", "key", p.InstrPos(in), "the operation is entered under "+k.Key()+", not under the handle of its request", st)
			}
			st.Set("reg", op)
			st.Set("key", k)
			r.Ob("registered", fn+" at "+p.InstrPos(in))
		case *ssa.Send:
			bad("waits", "send", p.InstrPos(in), "a send that only another goroutine can complete is not bounded by the caller's context", st)
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				bad("waits", "receive", p.InstrPos(in), "a receive is not bounded by the caller's context", st)
			}
		case *ssa.Select:
			if !i.Blocking {
				return
			}
			var resp, done, closed bool
			msg := ""
			for _, s := range i.States {
				t := x.Val(st, s.Chan)
				if s.Dir != types.RecvOnly {
					continue
				}
				if op := respChan(t); op != nil {
					if reg := st.Get("reg"); reg != nil && op != reg {
						msg = "the wait is for the response of another operation"
					}
					resp = true
				} else if w := ownDone(x, st, t); w != "" {
					if w == "ok" {
						done = true
					} else if msg == "" {
						msg = w
					}
				} else if t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "fieldaddr" {
					closed = true
					closedField = t.Args[0].Name
				}
			}
			if msg == "" && !done {
				msg = "the wait does not end with the caller's context"
			}
			if msg == "" && !closed {
				msg = "the wait does not end when the channel closes"
			}
			if msg == "" && !resp {
				msg = "the wait is not for the response"
			}
			if msg != "" {
				bad("waits", "select", p.InstrPos(in), msg, st)
			} else {
				r.Ob("waits", fn+" select at "+p.InstrPos(in))
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "builtin.delete" && len(ci.Args) == 2 && isOpTable(ci.Args[0].Typ) {
			if k := st.Get("key"); k != nil && (ci.Args[1] == k || handle(ci.Args[1])) {
				st.Del("reg")
				st.Set("gone", k)
			}
			return ActDefault
		}
		if ci.Fn != nil && sends[ci.Fn] && ci.Fn.Pkg == f.Pkg && !ci.Defer {
			if !st.Has("reg") {
				bad("registered", "order", p.InstrPos(ci.Instr), "the request is sent before the operation waits in the table", st)
			} else {
				r.Ob("registered", fn+" sends at "+p.InstrPos(ci.Instr))
			}
		}
		return ActDefault
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok || !eq {
			return
		}
		if n, isN := constNum(b.Strip()); isN && n == 0 && a.Strip().HasField("ServiceResult") {
			st.Set("good", a)
		}
		if n, isN := constNum(a.Strip()); isN && n == 0 && b.Strip().HasField("ServiceResult") {
			st.Set("good", b)
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if st.Has("reg") {
			bad("forgotten", "leak", p.InstrPos(in), "returns with the operation still in the table", st)
		} else {
			r.Ob("forgotten", fn+" return at "+p.InstrPos(in)+" "+res[len(res)-1].Key())
		}
		if len(res) < 2 {
			return
		}
		e := res[1]
		if !isNilT(e) {
			if b := neverNil(e) || e.Op == "const"; b || p.knownNonNil(x, st, e) {
				r.Ob("result", fn+" fails with "+e.Key())
			} else if g := e.Strip(); g.HasField("ServiceResult") {
				r.Ob("result", fn+" fails with the service result")
			} else {
				bad("result", "error", p.InstrPos(in), "the error returned may be nil", st)
			}
			return
		}
		v := res[0].Strip()
		op := (*Term)(nil)
		if v.Op == "extract" && v.Args[0].Op == "select" {
			if sel, ok := v.Args[0].V.(*ssa.Select); ok {
				for i, s := range sel.States {
					if s.Dir == types.RecvOnly && strconv.Itoa(recvIndex(sel, i)) == v.Name {
						op = respChan(v.Args[0].Args[i])
					}
				}
			}
		} else if v.Op == "recv" {
			op = respChan(v.Args[0])
		}
		if op == nil {
			bad("result", "response", p.InstrPos(in), "the value returned without error did not come from the operation's own channel", st)
			return
		}
		g := st.Get("good")
		if g == nil || !g.Contains(func(t *Term) bool { return t == v }) {
			bad("result", "good", p.InstrPos(in), "a response is returned without error although its service result need not be Good", st)
			return
		}
		r.Ob("result", fn+" succeeds")
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
	return closedField
}

func (p *Program) knownNonNil(x *Exec, st *State, e *Term) bool {
	eq, known := x.equal(st, e, x.T.mk("nil", "", nil, nil, nil, nil))
	return known && !eq
}

// respHandleOf: t is the request handle in the header of a response; the response.
func respHandleOf(t *Term) *Term {
	t = t.Strip()
	if !t.HasField("RequestHandle") {
		return nil
	}
	b, _ := t.FieldPath()
	for b != nil {
		b = b.Strip()
		if b.Op == "call" && strings.HasSuffix(b.Name, ".Header") && len(b.Args) > 0 {
			return b.Args[0].Strip()
		}
		if b.Op == "load" && len(b.Args) == 1 {
			b = b.Args[0]
			continue
		}
		return b
	}
	return nil
}

func (p *Program) p23Deliver(r *Report, touch, reqRoots map[*ssa.Function]bool) {
	cp := p.SSA["client"]
	isRespChan := func(v ssa.Value) bool {
		c, ok := v.Type().Underlying().(*types.Chan)
		return ok && strings.HasSuffix(c.Elem().String(), "ua.ServiceResponse")
	}
	hasLock := func(f *ssa.Function) bool {
		ok := false
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if isLockCall(n) {
				ok = true
			}
		})
		return ok
	}
	sender := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Send:
					if isRespChan(i.Chan) {
						sender[f] = true
					}
				case *ssa.Select:
					for _, s := range i.States {
						if s.Dir == types.SendOnly && isRespChan(s.Chan) {
							sender[f] = true
						}
					}
				}
			}
		}
	}
	if len(sender) == 0 {
		r.Bad("delivered", "senders", "-", "nothing delivers responses to the waiting operations")
	}
	// the operations' channels hold a response although nobody waits yet
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				m, ok := i.(*ssa.MakeChan)
				if !ok || !isRespChan(m) {
					continue
				}
				if k, isC := m.Size.(*ssa.Const); isC && k.Int64() >= 1 {
					r.Ob("delivered", FuncName(f)+" makes a buffered response channel")
				} else {
					r.Bad("delivered", FuncName(f)+" buffer", p.InstrPos(i), FuncName(f)+" makes a response channel without buffer: a response that arrives before the caller waits is dropped")
				}
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	onWay := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range sortedFns(touch) {
		todo = append(todo, f)
	}
	for _, f := range sortedFns(sender) {
		todo = append(todo, f)
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if roots[f] || onWay[f] {
			continue
		}
		if sender[f] || hasLock(f) {
			roots[f] = true
			continue
		}
		n := 0
		for _, g := range p.Funcs {
			EachCall(g, func(_ ssa.CallInstruction, _ string, c *ssa.Function) {
				if c == f {
					n++
					todo = append(todo, g)
				}
			})
		}
		if n == 0 {
			roots[f] = true
		} else {
			onWay[f] = true
		}
	}
	guards := map[string]map[string]bool{}
	for _, f := range sortedFns(roots) {
		if reqRoots[f] {
			continue
		}
		f := f
		fn := FuncName(f)
		h := Hooks{MaxDepth: 5}
		h.Inline = func(g *ssa.Function) bool {
			return g.Pkg == cp && g != f && g.Blocks != nil && !sender[g] && (onWay[g] || touch[g])
		}
		site := func(st *State, in ssa.Instruction, write bool) {
			held := map[string]bool{}
			for _, k := range sortedKeys(st.A) {
				if strings.HasPrefix(k, "held:") || !write && strings.HasPrefix(k, "rheld:") {
					held[k[strings.IndexByte(k, ':')+1:]] = true
				}
			}
			w := p.InstrPos(in)
			if guards[w] == nil {
				guards[w] = held
				return
			}
			for m := range guards[w] {
				if !held[m] {
					delete(guards[w], m)
				}
			}
		}
		send := func(x *Exec, st *State, in ssa.Instruction, ch, val *Term, blocking bool) {
			op := respChan(ch)
			where := p.InstrPos(in)
			if op == nil {
				r.Bad("delivered", fn+" channel", where, fn+": a response is sent to "+ch.Key()+", which is not the channel of a known operation", st.Trace(12)...)
				return
			}
			val = val.Strip()
			o := op.Strip()
			if o.Op == "extract" && o.Args[0].Op == "lookup" {
				lk := o.Args[0]
				if respHandleOf(lk.Args[1]) != val {
					r.Bad("delivered", fn+" handle", where, fn+": the response is delivered to the operation found under "+lk.Args[1].Key()+", not under the response's own handle", st.Trace(12)...)
					return
				}
				if !st.Has("found:" + itoa(termID(lk))) {
					r.Bad("delivered", fn+" missing", where, fn+": the response is delivered although no operation may have been found", st.Trace(12)...)
					return
				}
			} else if o.Op == "lookup" {
				if respHandleOf(o.Args[1]) != val || !st.Has("found:"+itoa(termID(o))) {
					r.Bad("delivered", fn+" handle", where, fn+": the response is not delivered to the operation found under its own handle", st.Trace(12)...)
					return
				}
			} else if o.Op == "param" && val.Op == "alloc" {
				hd := faultField(x, st, val, "ResponseHeader", "RequestHandle")
				if hd == nil || !hd.HasField("RequestHandle") {
					r.Bad("delivered", fn+" own", where, fn+": a response made up for an operation does not carry the handle of its request", st.Trace(12)...)
					return
				}
				if blocking {
					r.Bad("delivered", fn+" blocks", where, fn+": the delivery of a response can block", st.Trace(12)...)
					return
				}
				r.Ob("delivered", fn+" answers its own operation")
				return
			} else {
				r.Bad("delivered", fn+" operation", where, fn+": a response is delivered to "+op.Key()+", which was not found under the response's handle", st.Trace(12)...)
				return
			}
			if blocking && !st.Has("gone") {
				r.Bad("delivered", fn+" blocks", where, fn+": the delivery of a response can block the receive loop", st.Trace(12)...)
				return
			}
			st.Set("sent", op)
			r.Ob("delivered", fn+" delivers")
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.MapUpdate:
				if opTableField(i.Map) {
					site(st, in, true)
				}
			case *ssa.Lookup:
				if opTableField(i.X) {
					site(st, in, false)
				}
			case *ssa.Send:
				if isRespChan(i.Chan) {
					send(x, st, in, x.Val(st, i.Chan), x.Val(st, i.X), true)
				}
			case *ssa.Select:
				for _, s := range i.States {
					if s.Dir == types.SendOnly && isRespChan(s.Chan) {
						send(x, st, in, x.Val(st, s.Chan), x.Val(st, s.Send), i.Blocking)
					}
				}
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasPrefix(ci.Name, "sync.") && len(ci.Args) > 0 {
				m := ci.Args[0].Key()
				if _, path := ci.Args[0].FieldPath(); len(path) > 0 {
					m = strings.Join(path, ".")
				}
				switch {
				case strings.HasSuffix(ci.Name, ".RLock"):
					st.Set("rheld:"+m, ci.Args[0])
				case strings.HasSuffix(ci.Name, ".RUnlock"):
					st.Del("rheld:" + m)
				case strings.HasSuffix(ci.Name, ".Unlock"):
					st.Del("held:" + m)
				case strings.HasSuffix(ci.Name, ".Lock"):
					st.Set("held:"+m, ci.Args[0])
				}
				return ActDefault
			}
			if ci.Name == "builtin.delete" && len(ci.Args) == 2 && isOpTable(ci.Args[0].Typ) {
				site(st, ci.Instr, true)
				st.Set("gone", ci.Args[1])
			}
			return ActDefault
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			if cond.Op == "extract" && cond.Name == "1" && cond.Args[0].Op == "lookup" && taken {
				st.Set("found:"+itoa(termID(cond.Args[0])), cond)
			}
			if a, b, eq, ok := CmpOf(cond, taken); ok && !eq {
				if isNilT(a) {
					a, b = b, a
				}
				if isNilT(b) {
					a = a.Strip()
					if a.Op == "lookup" {
						st.Set("found:"+itoa(termID(a)), a)
					} else if a.Op == "extract" && a.Args[0].Op == "lookup" {
						st.Set("found:"+itoa(termID(a.Args[0])), a)
					}
				}
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if st.Has("sent") && !st.Has("gone") {
				r.Bad("delivered", fn+" twice", p.InstrPos(in), fn+": the operation stays in the table after its response was delivered", st.Trace(12)...)
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
	// one lock guards them all
	var common map[string]bool
	for _, w := range sortedKeys(guards) {
		if common == nil {
			common = map[string]bool{}
			for m := range guards[w] {
				common[m] = true
			}
			continue
		}
		for m := range common {
			if !guards[w][m] {
				delete(common, m)
			}
		}
	}
	for _, w := range sortedKeys(guards) {
		if len(common) == 0 {
			if len(guards[w]) == 0 {
				r.Bad("guarded", "table at "+w, w, "the table of pending responses is touched without a lock")
			}
		} else {
			r.Ob("guarded", "table at "+w)
		}
	}
	if len(common) == 0 && len(guards) > 0 {
		r.Bad("guarded", "table", "-", "no lock is held at every access to the table of pending responses")
	}
}

// handleSource is the function that hands out request handles: it advances the channel's counter of them.
func (p *Program) handleSource() *ssa.Function {
	for _, f := range p.Funcs {
		if f.Pkg != p.SSA["client"] || f.Signature.Results().Len() != 1 || f.Signature.Results().At(0).Type().String() != "uint32" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && strings.Contains(strings.ToLower(fieldName(derefType(fa.X.Type()), fa.Field)), "requesthandle") && p21Modifies(fa) {
					return f
				}
			}
		}
	}
	return nil
}

func (p *Program) p23Handles(r *Report) {
	cp := p.SSA["client"]
	g := p.handleSource()
	if g == nil {
		fail("the source of request handles is not recognised")
	}
	// the counter it advances atomically
	counter := ""
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && p21Modifies(fa) {
				for _, ref := range *fa.Referrers() {
					if c, ok := ref.(ssa.CallInstruction); ok && helperModifies(c, fa, 3) {
						counter = fieldName(derefType(fa.X.Type()), fa.Field)
					}
				}
			}
		}
	}
	EachCall(g, func(c ssa.CallInstruction, n string, _ *ssa.Function) {
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "atomic.") {
			if strings.Contains(n, "Add") || strings.Contains(n, "CompareAndSwap") {
				if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
					counter = fieldName(fa.X.Type(), fa.Field)
				}
			}
		}
	})
	if counter == "" {
		r.Bad("handles", FuncName(g), p.Pos(g.Pos()), FuncName(g)+" does not advance a counter atomically: two requests can get the same handle")
		return
	}
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != counter || TypeName(derefType(fa.X.Type())) != "client.clientSecureChannel" {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if c, ok := ref.(ssa.CallInstruction); ok {
						n, _ := CallName(c.Common())
						if strings.Contains(n, "atomic.") && (f == g || strings.Contains(n, "Load")) || f == g && helperModifies(c, fa, 3) {
							r.Ob("handles", FuncName(f)+" "+n)
							continue
						}
					}
					if _, ok := ref.(*ssa.DebugRef); ok {
						continue
					}
					r.Bad("handles", FuncName(f)+" "+counter, p.InstrPos(ref), FuncName(f)+" touches the handle counter other than by advancing it atomically")
				}
			}
		}
	}
	// what CompareAndSwap installed is what is returned
	h := Hooks{MaxDepth: 3}
	h.Inline = func(f *ssa.Function) bool { return f.Pkg == cp && f != g }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if cond.Op == "call" && strings.Contains(cond.Name, "CompareAndSwap") && taken && len(cond.Args) == 3 {
			st.Set("new", cond.Args[2])
			if cond.Args[1] == cond.Args[2] {
				st.Set("same", cond)
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		v := res[0].Strip()
		if v.Op == "call" && strings.Contains(v.Name, "atomic.Add") {
			r.Ob("handles", FuncName(g)+" returns the advanced counter")
			return
		}
		if n := st.Get("new"); n != nil && n.Strip() == v && !st.Has("same") {
			if !(v.Op == "bin" && v.Name == "+") {
				if k, ok := constNum(v); !ok || k == 0 {
					r.Bad("handles", FuncName(g)+" advance", p.InstrPos(in), FuncName(g)+" returns a handle that is not the successor of the last", st.Trace(8)...)
					return
				}
			}
			r.Ob("handles", FuncName(g)+" returns what it installed")
			return
		}
		r.Bad("handles", FuncName(g)+" result", p.InstrPos(in), FuncName(g)+" returns a handle other than the one it reserved", st.Trace(8)...)
	}
	x := NewExec(p, h)
	x.Run(g, nil)
	r.Saw(x)
}

// p23Worker: the receive loop hands on every response and never ends without waking the callers.
func (p *Program) p23Worker(r *Report, field string) {
	cp := p.SSA["client"]
	if field == "" {
		r.Bad("woken", "field", "-", "the channel that ends the wait of a request is not known")
		return
	}
	closes := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		EachCall(f, func(c ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "builtin.close" {
				if u, ok := c.Common().Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
						closes[f] = true
					}
				}
			}
		})
	}
	if len(closes) == 0 {
		r.Bad("woken", field, "-", "nothing closes "+field+": callers are not woken when the connection is lost")
		return
	}
	// the goroutines started
	n := 0
	for _, f := range p.Funcs {
		if f.Pkg != cp {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				_, w := CallName(g.Common())
				if w == nil || !p.reads(w, 0) {
					continue
				}
				n++
				p.p23Loop(r, w, closes, field)
			}
		}
	}
	if n == 0 {
		r.Bad("woken", "worker", "-", "no goroutine receives the responses")
	}
}

func (p *Program) reads(f *ssa.Function, d int) bool {
	if d > 2 {
		return false
	}
	hit := false
	EachCall(f, func(_ ssa.CallInstruction, n string, g *ssa.Function) {
		if strings.HasSuffix(n, ".readResponse") || g != nil && g.Pkg == f.Pkg && g != f && p.reads(g, d+1) {
			hit = true
		}
	})
	return hit
}

func (p *Program) p23Loop(r *Report, w *ssa.Function, closes map[*ssa.Function]bool, field string) {
	fn := FuncName(w)
	h := Hooks{MaxDepth: 4}
	h.Inline = func(g *ssa.Function) bool {
		return g.Pkg == w.Pkg && g != w && g.Blocks != nil && (closes[g] || small(g, 5) && p.reads(g, 0) && g.Name() != "readResponse")
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case ci.Name == "builtin.close":
			if len(ci.Args) == 1 && ci.Args[0].HasField(field) {
				if st.Has("closed") {
					r.Bad("woken", fn+" twice", p.InstrPos(ci.Instr), fn+" closes "+field+" twice", st.Trace(10)...)
				}
				st.Set("closed", ci.Args[0])
			}
		case strings.HasSuffix(ci.Name, ".readResponse"):
			if st.Has("pending") {
				r.Bad("woken", fn+" lost", p.InstrPos(ci.Instr), fn+" reads the next response without handing on the last", st.Trace(10)...)
			}
			st.Del("pending")
			st.Del("read")
		case strings.HasSuffix(ci.Name, ".handleResponse"):
			st.Del("pending")
			r.Ob("woken", fn+" hands on responses")
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if strings.HasSuffix(ci.Name, ".readResponse") {
			st.Set("read", res)
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if n, isN := constNum(b.Strip()); (isN && n == 0 || isNilT(b)) && a.Op == "extract" && a.Args[0] == st.Get("read") && a.Name == "1" && eq {
			st.Set("pending", a)
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if !st.Has("closed") {
			r.Bad("woken", fn+" silent", p.InstrPos(in), fn+" ends without closing "+field+": callers wait until their deadline, and later ones are not told", st.Trace(10)...)
		} else {
			r.Ob("woken", fn+" return at "+p.InstrPos(in))
		}
		if st.Has("pending") {
			r.Bad("woken", fn+" dropped", p.InstrPos(in), fn+" ends without handing on a response it read", st.Trace(10)...)
		}
	}
	x := NewExec(p, h)
	x.Run(w, nil)
	r.Saw(x)
}

// p23Typed: the methods built on the request function.
func (p *Program) p23Typed(r *Report, reqFn *ssa.Function) {
	cp := p.SSA["client"]
	isReq := func(g *ssa.Function) bool {
		if g == nil || g.Pkg != cp {
			return false
		}
		if g == reqFn {
			return true
		}
		// a method that only forwards to it
		if len(g.Blocks) != 1 {
			return false
		}
		fw := false
		EachCall(g, func(_ ssa.CallInstruction, _ string, c *ssa.Function) {
			if c == reqFn {
				fw = true
			}
		})
		return fw && types.Identical(g.Signature.Results(), reqFn.Signature.Results())
	}
	for _, f := range p.Funcs {
		if f.Pkg != cp || f == reqFn || isReq(f) {
			continue
		}
		direct := false
		EachCall(f, func(_ ssa.CallInstruction, _ string, g *ssa.Function) {
			if isReq(g) {
				direct = true
			}
		})
		rs := f.Signature.Results()
		if !direct || rs.Len() != 2 || !strings.Contains(rs.At(0).Type().String(), "Response") || rs.At(1).Type().String() != "error" {
			continue
		}
		f := f
		fn := FuncName(f)
		h := Hooks{MaxDepth: 2}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if isReq(ci.Fn) {
				st.Set("resp", res)
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if isReq(ci.Fn) {
				okReq := false
				for _, a := range ci.Args {
					if a.Strip().Op == "param" && a.Strip().V != nil && strings.HasSuffix(a.Strip().V.Type().String(), "Request") {
						okReq = true
					}
				}
				if !okReq {
					r.Bad("typed", fn+" request", p.InstrPos(ci.Instr), fn+" does not send the request it was given", st.Trace(8)...)
				}
			}
			return ActDefault
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if !isNilT(res[1]) {
				if res[1].Op == "const" || p.knownNonNil(x, st, res[1]) {
					return
				}
				if rp := st.Get("resp"); rp != nil && res[1].Op == "extract" && res[1].Args[0] == rp && isNilT(res[0]) {
					return
				}
				r.Bad("typed", fn+" error", p.InstrPos(in), fn+": returns an error that may be nil", st.Trace(8)...)
				return
			}
			rp := st.Get("resp")
			v := res[0].Strip()
			okv := false
			if rp != nil {
				if v.Op == "extract" && v.Name == "0" {
					v = v.Args[0]
				}
				if v.Op == "assert" && v.Args[0].Strip().Op == "extract" && v.Args[0].Strip().Args[0] == rp {
					okv = true
				}
			}
			if !okv {
				r.Bad("typed", fn+" value", p.InstrPos(in), fn+": what is returned without error is not the response to its request", st.Trace(8)...)
				return
			}
			e := x.T.mk("extract", "1", []*Term{rp}, nil, nil, nil)
			eq, known := x.equal(st, e, x.T.mk("nil", "", nil, nil, nil, nil))
			if !known || !eq {
				// tolerate terms with another identity: look at the branches taken
				if !st.Has("noerr") {
					r.Bad("typed", fn+" unchecked", p.InstrPos(in), fn+": returns without error although the request may have failed", st.Trace(8)...)
					return
				}
			}
			if res[0].Strip().Op == "extract" && !st.Has("isType") {
				r.Bad("typed", fn+" type", p.InstrPos(in), fn+": returns without error although the response may be of another type", st.Trace(8)...)
				return
			}
			r.Ob("typed", fn)
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			if cond.Op == "extract" && cond.Name == "1" && cond.Args[0].Op == "assert" && taken {
				st.Set("isType", cond)
			}
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok || !eq {
				return
			}
			if isNilT(a) {
				a, b = b, a
			}
			if isNilT(b) && a.Op == "extract" && a.Name == "1" && a.Args[0] == st.Get("resp") {
				st.Set("noerr", a)
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}
