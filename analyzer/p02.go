package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", "Path-sensitive counting of responses: the dispatcher with every handler, helper and deferred call virtually inlined is explored on all paths; a path that returns normally must have written exactly one response for its own request, or queued it, or aborted the channel; a path that returns an error must not have written two. The request id passed to every write is the id of the request being answered and the response header's handle is that request's handle (value provenance). The queue of pending publish requests is analysed the same way: whatever is taken out is answered exactly once or handed back, whatever is put in is this request. Loss of the connection while writing is outside the property.", runP02)
}

const chWrite = "server.serverSecureChannel.Write"

// handleOf reports whether t is the request handle of the request reqBase.
func handleOf(t *Term, isReq func(*Term) bool) bool {
	if t == nil {
		return false
	}
	base, path := t.FieldPath()
	if len(path) == 0 || path[len(path)-1] != "RequestHandle" || base == nil {
		return false
	}
	if base.Op == "call" && strings.HasSuffix(base.Name, ".Header") && len(base.Args) > 0 {
		return isReq(base.Args[0])
	}
	return isReq(base)
}

func respHandle(x *Exec, st *State, resp *Term) *Term {
	return faultField(x, st, resp, "ResponseHeader", "RequestHandle")
}

func runP02(p *Program, r *Report) {
	r.Rule("one-response: every path of every service ends with exactly one of {response written, request queued, channel aborted, error returned}")
	r.Rule("addressed: each write carries the id and the header handle of the request it answers")
	r.Rule("queue: a dequeued publish request is answered exactly once or handed back; an enqueued one is the caller's own")
	r.Rule("worker: each request read from the channel is dispatched exactly once with its own id")

	root := p.Func("server.Server.handleRequest")
	reach := p.Reach(func(n string, in ssa.CallInstruction) bool {
		return n == chWrite || n == "server.serverSecureChannel.Abort" || n == "server.Session.addPublishRequest"
	}, nil)
	services := map[string]bool{}
	h := Hooks{MaxDepth: 10}
	h.Inline = func(fn *ssa.Function) bool {
		switch FuncName(fn) {
		case chWrite, "server.serverSecureChannel.Abort", "server.Session.addPublishRequest", "server.Session.removePublishRequest":
			return false
		}
		if rt := RecvType(fn); rt == "server.SessionManager" || rt == "server.SubscriptionManager" || rt == "server.NamespaceManager" {
			return false
		}
		return reach[fn] || fn.Pkg == p.SSA["server"] && small(fn, 6) && !isLoopy(fn)
	}
	h.SkipClosures = func(ci *CallInfo, cl *Term) bool {
		// worker closures that cannot write responses do not matter here
		if cl != nil && ci.Fn != nil {
			return !reach[ci.Fn]
		}
		for _, a := range ci.Args {
			if a != nil && a.Op == "closure" {
				if mk, ok := a.V.(*ssa.MakeClosure); ok && reach[mk.Fn.(*ssa.Function)] {
					return false
				}
			}
		}
		return true
	}
	svc := func(st *State) string {
		if t := st.Get("svc"); t != nil {
			return t.Name
		}
		return "(other)"
	}
	param := func(x *Exec, i int) *Term {
		return x.T.mk("param", root.Params[i].Name(), nil, nil, root.Params[i], root.Params[i].Type())
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if s := svcOfBranch(cond, taken); s != "" && !st.Has("svc") {
			st.Set("svc", x.T.mk("const", s, nil, nil, nil, nil))
			services[s] = true
		}
	}
	bump := func(x *Exec, st *State, k string) { st.Set(k, x.Int(min(st.Count(k)+1, 2))) }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case chWrite:
			if fromDequeue(ci.Args[2]) {
				return ActOpaque // answers a queued publish request: rule "publish"
			}
			s := svc(st)
			where := p.InstrPos(ci.Instr)
			r.Ob("addressed", s+"/"+respType(ci.Args[1])+"/"+faultStatus(x, st, ci.Args[1]))
			if ci.Args[0] != param(x, 1) {
				r.Bad("addressed", s+"/channel", where, "the response is written to "+ci.Args[0].Key()+", not to the channel the request came from", st.Trace(6)...)
			}
			if ci.Args[2] != param(x, 3) {
				r.Bad("addressed", s+"/id", where, "the response carries request id "+ci.Args[2].Key()+" instead of the id of the request being answered", st.Trace(6)...)
			}
			hd := respHandle(x, st, ci.Args[1])
			if !handleOf(hd, func(b *Term) bool { return rootedAt(b, param(x, 2)) }) {
				hk := "unknown"
				if hd != nil {
					hk = hd.Key()
				}
				r.Bad("addressed", s+"/handle/"+respType(ci.Args[1])+"/"+faultStatus(x, st, ci.Args[1]), where, "the response header's request handle is "+hk+", not the handle of the request being answered", st.Trace(6)...)
			}
			bump(x, st, "n")
			if st.Count("n") > 1 {
				r.Bad("one-response", s+"/twice", where, s+": a second response is written for the same request on this path", st.Trace(10)...)
				st.dead = true
			}
			return ActOpaque
		case "server.serverSecureChannel.Abort":
			bump(x, st, "abort")
			return ActOpaque
		case "server.Session.addPublishRequest":
			if ci.Args[1] != param(x, 1) || ci.Args[2] != param(x, 3) || !rootedAt(ci.Args[3], param(x, 2)) {
				r.Bad("addressed", "queue", p.InstrPos(ci.Instr), "a publish request is queued with another request's channel, id or body")
			}
			bump(x, st, "queued")
			return ActOpaque
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		s := svc(st)
		n, q, a := st.Count("n"), st.Count("queued"), st.Count("abort")
		isErr := false
		if len(res) == 1 {
			if res[0].Op == "const" {
				isErr = true
			} else if f, ok := st.Facts[res[0]]; ok {
				for _, ne := range f.Neq {
					if ne.IsNil() {
						isErr = true
					}
				}
			}
		}
		r.Ob("one-response", s+" n="+x.Int(n).Name+" queued="+x.Int(q).Name+" abort="+x.Int(a).Name+" err="+map[bool]string{true: "yes", false: "no/unknown"}[isErr])
		tot := n + q
		if isErr {
			if tot > 1 {
				r.Bad("one-response", s+"/twice", p.InstrPos(in), s+": two responses before an error return", st.Trace(10)...)
			}
			return
		}
		if a > 0 && tot == 0 {
			return
		}
		if tot == 0 {
			r.Bad("one-response", s+"/none", p.InstrPos(in), s+": returns normally without having written a response, queued the request or aborted the channel", st.Trace(10)...)
		} else if tot > 1 {
			r.Bad("one-response", s+"/twice", p.InstrPos(in), s+": the request is answered (or queued) twice on this path", st.Trace(10)...)
		}
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
	for s := range services {
		r.Ob("service", s)
	}
	r.Min("service", 27)
	r.Min("addressed", 60)

	p02Queue(p, r)
	p02Worker(p, r)
}

func isLoopy(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// p02Queue: every function of the server package that takes publish requests out of the session's
// queue (directly or through the dequeue function) answers each exactly once or hands it back.
func p02Queue(p *Program, r *Report) {
	// functions that receive from a channel of *publishOp
	isOpChan := func(v ssa.Value) bool { return strings.Contains(v.Type().String(), "publishOp") }
	var direct []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.SSA["server"] {
			continue
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op.String() == "<-" && isOpChan(in.X) {
						hit = true
					}
				case *ssa.Select:
					for _, s := range in.States {
						if isOpChan(s.Chan) {
							hit = true
						}
					}
				case *ssa.Send:
					if isOpChan(in.Chan) {
						hit = true
					}
				}
			}
		}
		if hit {
			direct = append(direct, f)
		}
	}
	// op: the dequeued operation; its fields identify channel, id, request
	for _, f := range direct {
		f := f
		h := Hooks{MaxDepth: 4}
		h.Inline = func(fn *ssa.Function) bool {
			return fn.Pkg == p.SSA["server"] && FuncName(fn) != chWrite && RecvType(fn) != "server.serverSecureChannel"
		}
		name := FuncName(f)
		fld := func(t *Term, names ...string) *Term { // base of .name
			if t == nil {
				return nil
			}
			b, path := t.FieldPath()
			if b != nil && len(path) == 1 {
				for _, n := range names {
					if path[0] == n {
						return b
					}
				}
			}
			return nil
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok || !eq || a.Op != "extract" || a.Name != "0" || a.Args[0].Op != "select" || b.Op != "const" {
				return
			}
			sel := a.Args[0].V.(*ssa.Select)
			idx := 0
			if v := parseConst(b); v != nil {
				u, _ := constUint(v)
				idx = int(u)
			}
			if idx >= len(sel.States) {
				return
			}
			s := sel.States[idx]
			if !isOpChan(s.Chan) {
				return
			}
			if s.Send != nil {
				p02Sent(p, r, x, st, f, x.Val(st, s.Send))
			} else {
				// result index: 2 + number of earlier receive states
				n := 2
				for i := 0; i < idx; i++ {
					if sel.States[i].Send == nil {
						n++
					}
				}
				p02Took(p, r, x, st, name, x.T.mk("extract", itoa(n), []*Term{a.Args[0]}, nil, nil, nil))
			}
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Send:
				if isOpChan(in.Chan) {
					p02Sent(p, r, x, st, f, x.Val(st, in.X))
				}
			case *ssa.UnOp:
				if in.Op.String() == "<-" && isOpChan(in.X) {
					p02Took(p, r, x, st, name, x.T.mk("recv", "", []*Term{x.Val(st, in.X)}, st.C.F, in, in.Type()))
				}
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name != chWrite {
				return ActDefault
			}
			op := st.Get("op")
			where := p.InstrPos(ci.Instr)
			r.Ob("queue", name+" answers dequeued request with "+faultStatus(x, st, ci.Args[1]))
			if op == nil {
				r.Bad("queue", name+"/extra", where, name+": a response is written for no dequeued request (or a second time)", st.Trace(6)...)
				return ActOpaque
			}
			hd := respHandle(x, st, ci.Args[1])
			okH := handleOf(hd, func(b *Term) bool { return baseIs(b, op) })
			if !okH || fld(ci.Args[2], "requestId") != op || fld(ci.Args[0], "ch") != op {
				r.Bad("queue", name+"/addressed", where, name+": the response to a dequeued publish request does not carry that request's channel, id and handle", st.Trace(6)...)
			}
			st.Del("op")
			return ActOpaque
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			op := st.Get("op")
			if op == nil {
				return
			}
			// handed back: id and request of this op among the results
			hasID, hasReq, hasCh := false, false, false
			for _, t := range res {
				if fld(t, "requestId") == op {
					hasID = true
				}
				if fld(t, "req") == op {
					hasReq = true
				}
				if fld(t, "ch") == op {
					hasCh = true
				}
				if t == op {
					hasID, hasReq, hasCh = true, true, true
				}
			}
			r.Ob("queue", name+" hands back a dequeued request")
			if !hasID || !hasReq || !hasCh {
				r.Bad("queue", name+"/dropped", p.InstrPos(in), name+": a dequeued publish request is neither answered nor handed back on this path", st.Trace(6)...)
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
	r.Min("queue", 3)

	// callers of the dequeue function answer what they got
	for _, f := range p.Funcs {
		calls := false
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "server.Session.removePublishRequest" {
				calls = true
			}
		})
		if !calls {
			continue
		}
		name := FuncName(f)
		h := Hooks{MaxDepth: 6}
		reachW := p.Reach(func(n string, _ ssa.CallInstruction) bool {
			return n == chWrite || n == "server.Session.removePublishRequest"
		}, nil)
		h.Inline = func(fn *ssa.Function) bool {
			return fn.Pkg == p.SSA["server"] && reachW[fn] && RecvType(fn) != "server.serverSecureChannel" && RecvType(fn) != "server.Session" && RecvType(fn) != "server.SubscriptionManager"
		}
		isOk := func(t *Term) bool {
			return t.Op == "extract" && t.Name == "4" && t.Args[0].IsCall("server.Session.removePublishRequest")
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			if isOk(cond) && taken {
				st.Set("op", cond.Args[0])
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == "server.Session.removePublishRequest" {
				if st.Get("op") != nil {
					r.Bad("queue", name+"/dropped", p.InstrPos(ci.Instr), name+": another publish request is taken before the previous one was answered", st.Trace(6)...)
				}
				return ActOpaque
			}
			if ci.Name != chWrite {
				return ActDefault
			}
			op := st.Get("op")
			where := p.InstrPos(ci.Instr)
			if !fromDequeue(ci.Args[2]) && !fromDequeue(ci.Args[0]) {
				if ci.Args[2].Op == "param" {
					return ActOpaque // the caller's own request: rule "one-response"
				}
			}
			r.Ob("publish", name+" answers with "+respType(ci.Args[1]))
			if op == nil {
				r.Bad("publish", name+"/extra", where, name+": a response is written for no dequeued publish request (or a second time)", st.Trace(8)...)
				return ActOpaque
			}
			ex := func(i string) *Term { return x.T.mk("extract", i, []*Term{op}, nil, nil, nil) }
			is := func(t *Term, i string) bool {
				return t != nil && t.Op == "extract" && t.Name == i && t.Args[0] == op
			}
			_ = ex
			hd := respHandle(x, st, ci.Args[1])
			if !is(ci.Args[0], "0") || !is(ci.Args[2], "1") || !handleOf(hd, func(b *Term) bool { return is(b, "2") }) {
				r.Bad("publish", name+"/addressed", where, name+": the publish response does not carry the channel, id and handle of the dequeued request", st.Trace(8)...)
			}
			st.Del("op")
			return ActOpaque
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if st.Get("op") != nil {
				r.Bad("publish", name+"/dropped", p.InstrPos(in), name+": a dequeued publish request is not answered on this path", st.Trace(8)...)
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
	r.Min("publish", 1)
}

func fromDequeue(t *Term) bool {
	return t != nil && t.Op == "extract" && t.Args[0].IsCall("server.Session.removePublishRequest")
}

func baseIs(t, op *Term) bool {
	// op.req or op itself
	for t != nil {
		if t == op {
			return true
		}
		b, path := t.FieldPath()
		if len(path) == 0 || b == t {
			return false
		}
		t = b
	}
	return false
}

func itoa(n int) string { return (&Exec{T: NewTerms()}).Int(n).Name }

func p02Took(p *Program, r *Report, x *Exec, st *State, name string, op *Term) {
	if st.Get("op") != nil {
		r.Bad("queue", name+"/dropped", p.Pos(x.Root.Pos()), name+": another publish request is taken before the previous one was answered or handed back", st.Trace(6)...)
	}
	st.Set("op", op)
}

func p02Sent(p *Program, r *Report, x *Exec, st *State, f *ssa.Function, op *Term) {
	name := FuncName(f)
	r.Ob("queue", name+" enqueues")
	s := derefType(op.Typ)
	if s == nil {
		return
	}
	for _, fn := range []string{"ch", "requestId", "req"} {
		t := faultField(x, st, op, fn)
		ok := t != nil && t.Op == "param"
		if !ok {
			k := "unknown"
			if t != nil {
				k = t.Key()
			}
			r.Bad("queue", name+"/enqueue/"+fn, p.Pos(f.Pos()), name+": the queued publish request's "+fn+" is "+k+", not the caller's own", st.Trace(6)...)
		}
	}
	st.Set("sent", x.Flag())
}

func p02Worker(p *Program, r *Report) {
	w := p.Func("server.Server.requestWorker")
	h := Hooks{MaxDepth: 4}
	reachR := p.Reach(func(n string, _ ssa.CallInstruction) bool {
		return n == "server.serverSecureChannel.readRequest" || n == "server.Server.handleRequest"
	}, nil)
	h.Inline = func(fn *ssa.Function) bool {
		return reachR[fn] && FuncName(fn) != "server.Server.handleRequest" && FuncName(fn) != "server.serverSecureChannel.readRequest"
	}
	pending := func(st *State) *Term { return st.Get("got") }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case "server.serverSecureChannel.readRequest":
			if pending(st) != nil {
				r.Bad("worker", "dropped", p.InstrPos(ci.Instr), "the next request is read before the previous one was dispatched", st.Trace(6)...)
			}
			st.Del("hnd")
			st.Set("read", x.Flag())
			return ActOpaque
		case "server.Server.handleRequest":
			got := pending(st)
			r.Ob("worker", "dispatch of the request read")
			isx := func(t *Term, i string) bool {
				return t.Op == "extract" && t.Name == i && t.Args[0].IsCall("server.serverSecureChannel.readRequest")
			}
			if !isx(ci.Args[2], "0") || !isx(ci.Args[3], "1") {
				r.Bad("worker", "args", p.InstrPos(ci.Instr), "a request is dispatched with another request's id", st.Trace(6)...)
			}
			if got == nil {
				r.Bad("worker", "twice", p.InstrPos(ci.Instr), "a request is dispatched twice, or although reading it failed", st.Trace(6)...)
			}
			st.Del("got")
			st.Set("hnd", x.Flag())
			return ActOpaque
		}
		return ActDefault
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok && b.IsNil() {
			if a.Op == "extract" && a.Name == "2" && a.Args[0].IsCall("server.serverSecureChannel.readRequest") {
				if eq {
					st.Set("got", a.Args[0])
				}
			}
			if a.IsCall("server.Server.handleRequest") && !eq {
				st.Set("failed", x.Flag())
			}
		}
	}
	h.OnBlock = nil
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		r.Ob("worker", "return")
		if pending(st) != nil {
			r.Bad("worker", "dropped", p.InstrPos(in), "the worker returns without dispatching the request it read", st.Trace(6)...)
		}
	}
	// after a handler error the worker must not go on reading
	prev := h.OnCall
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "server.serverSecureChannel.readRequest" && st.Has("failed") {
			r.Bad("worker", "continue-after-error", p.InstrPos(ci.Instr), "the worker goes on reading after a handler returned an error: an unanswered request would go unnoticed", st.Trace(6)...)
		}
		return prev(x, st, ci)
	}
	x := NewExec(p, h)
	x.Run(w, nil)
	r.Saw(x)
	r.Min("worker", 2)
}
