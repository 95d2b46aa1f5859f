package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Request types a server may serve without an activated session.
var sessionless = map[string]bool{
	"FindServersRequest": true, "GetEndpointsRequest": true, "CreateSessionRequest": true, "ActivateSessionRequest": true,
	"OpenSecureChannelRequest": true, "CloseSecureChannelRequest": true, "RegisterServerRequest": true, "RegisterServer2Request": true,
	"FindServersOnNetworkRequest": true,
}

func init() {
	register("P01", "Path-sensitive typestate analysis of the request dispatcher with every handler, helper, worker closure and defer virtually inlined: for each session-bound request type, every path to a state-changing call or to a non-fault response must have established, by branch conditions on this very request, channel and session, that the token lookup succeeded and that the session's channel id equals the id of the channel the request arrived on (which implies activation, channel ids being non-zero). Plus: the lookup returns a session only on paths where it was found under the given token and found unexpired; the expiry predicate compares last access with the timeout. Decides the control-flow part of the property for all inputs; does not model concurrent re-activation between check and effect.", runP01)
}

func reqTypeOf(t types.Type) string {
	n := TypeName(t)
	if strings.HasPrefix(n, "ua.") && strings.HasSuffix(n, "Request") {
		return strings.TrimPrefix(n, "ua.")
	}
	return ""
}

// svcOfBranch recognises the positive outcome of a type test on the request.
func svcOfBranch(cond *Term, taken bool) string {
	if taken && cond.Op == "extract" && cond.Name == "1" && cond.Args[0].Op == "assert" {
		return reqTypeOf(cond.Args[0].Typ)
	}
	return ""
}

// getterField is the field a getter method returns (its anchor), e.g. Session.SecureChannelId -> channelId.
func (p *Program) getterField(name string) string {
	f := p.Func(name)
	field := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && len(f.Params) > 0 && fa.X == f.Params[0] {
				fn := fieldName(fa.X.Type(), fa.Field)
				if refs := fa.Referrers(); refs != nil {
					for _, r := range *refs {
						if u, ok := r.(*ssa.UnOp); ok && types.Identical(u.Type(), f.Signature.Results().At(0).Type()) {
							field = fn
						}
					}
				}
			}
		}
	}
	if field == "" {
		fail("cannot determine the field behind %s", name)
	}
	return field
}

// isGetter: a value is base.field either through the getter or directly.
func fieldOrGetter(t *Term, getter, field string) (base *Term, ok bool) {
	t = t.Strip()
	if t == nil {
		return nil, false
	}
	if t.IsCall(getter) {
		return t.Args[0], true
	}
	if t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "fieldaddr" && t.Args[0].Name == field {
		return t.Args[0].Args[0], true
	}
	if t.Op == "field" && t.Name == field {
		return t.Args[0], true
	}
	return nil, false
}

var effectTypes = map[string]bool{
	"server.NamespaceManager": true, "server.SubscriptionManager": true, "server.Subscription": true, "server.Scheduler": true,
	"server.MonitoredItem": true, "server.DataChangeMonitoredItem": true, "server.EventMonitoredItem": true,
	"server.Node": true, "server.VariableNode": true, "server.MethodNode": true, "server.ObjectNode": true, "server.ViewNode": true,
	"server.HistoryReadWriter": true, "server.Session": true, "server.SessionManager": true,
}

type gateModel struct {
	p          *Program
	mut        map[*ssa.Function]bool
	effect     map[*ssa.Function]bool // opaque effect functions
	reachGate  map[*ssa.Function]bool // reaches a gate event or a response write
	chanField  string
	chIDField  string
	implCache  map[*types.Func]bool
	effectInst map[*ssa.Function]bool
}

func newGateModel(p *Program) *gateModel {
	g := &gateModel{p: p, mut: p.Mutators(), implCache: map[*types.Func]bool{}}
	g.chanField = p.getterField("server.Session.SecureChannelId")
	g.chIDField = p.getterField("server.serverSecureChannel.ChannelID")
	g.reachGate = p.Reach(func(n string, in ssa.CallInstruction) bool {
		switch n {
		case "server.SessionManager.Get", "server.serverSecureChannel.Write", "server.serverSecureChannel.Abort",
			"server.Session.SecureChannelId", "server.serverSecureChannel.ChannelID":
			return true
		}
		return false
	}, nil)
	g.effectInst = p.Reach(func(n string, in ssa.CallInstruction) bool { return g.isEffectCall(n, in) }, nil)
	return g
}

func (g *gateModel) isEffectCall(n string, in ssa.CallInstruction) bool {
	cm := in.Common()
	if cm.IsInvoke() {
		rt := TypeName(cm.Value.Type())
		if !effectTypes[rt] {
			return false
		}
		if r, ok := g.implCache[cm.Method]; ok {
			return r
		}
		impls := g.p.Implementors(cm.Method)
		r := len(impls) == 0
		for _, f := range impls {
			if g.mut[f] {
				r = true
			}
		}
		g.implCache[cm.Method] = r
		return r
	}
	if f, ok := cm.Value.(*ssa.Function); ok {
		rt := RecvType(f)
		if rt == "server.SessionManager" && (f.Name() == "Get" || f.Name() == "Delete") {
			return false
		}
		return effectTypes[rt] && g.mut[f]
	}
	return false
}

func runP01(p *Program, r *Report) {
	g := newGateModel(p)
	r.Rule("gate-before-effect: on every path of a session-bound service, session found by the request's token and session.channel == this channel are established before any mutating call, handler callback or non-fault response")
	r.Rule("refusal-is-bad: a response sent before the gate is passed is a ServiceFault with a constant Bad status")
	r.Rule("lookup: SessionManager.Get returns ok only when found under the given token and not expired")
	services := map[string]bool{}
	root := p.Func("server.Server.handleRequest")
	var chParam, reqParam *Term
	sawEffect := map[string]bool{}
	sawGate := map[string]bool{}
	h := Hooks{MaxDepth: 10}
	h.Inline = func(fn *ssa.Function) bool {
		rt := RecvType(fn)
		if rt == "server.SessionManager" || rt == "server.serverSecureChannel" && !g.mutHandler(fn) {
			return false
		}
		if effectTypes[rt] {
			return false
		}
		return g.reachGate[fn] || small(fn, 10)
	}
	gated := func(st *State) bool { return st.Has("bound") && st.Has("found") }
	svc := func(st *State) string {
		if t := st.Get("svc"); t != nil {
			return t.Name
		}
		return ""
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if s := svcOfBranch(cond, taken); s != "" && !st.Has("svc") {
			st.Set("svc", x.T.mk("const", s, nil, nil, nil, nil))
			services[s] = true
			return
		}
		// session found
		if cond.Op == "extract" && cond.Name == "1" && cond.Args[0].IsCall("server.SessionManager.Get") && taken {
			st.Set("found", cond.Args[0])
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok {
			if b.IsNil() && !eq && a.Op == "extract" && a.Name == "0" && a.Args[0].IsCall("server.SessionManager.Get") {
				st.Set("found", a.Args[0])
			}
			for i := 0; i < 2; i++ {
				sb, ok1 := fieldOrGetter(a, "server.Session.SecureChannelId", g.chanField)
				cb, ok2 := fieldOrGetter(b, "server.serverSecureChannel.ChannelID", g.chIDField)
				if ok1 && ok2 && eq && isSessionOf(sb) && cb == chParam {
					st.Set("bound", sb)
				}
				if ok1 && eq && isSessionOf(sb) && b.Op == "const" && b.Name == "0" {
					st.Set("unactivated", sb)
				}
				a, b = b, a
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if chParam == nil {
			// the root's own parameters
			fr := x.frame(nil, nil, root, false)
			chParam = x.ValIn(st, fr, root.Params[1])
			reqParam = x.ValIn(st, fr, root.Params[2])
		}
		s := svc(st)
		if s == "" || sessionless[s] {
			if s != "" && ci.Fn != nil && g.p.InModule(ci.Fn) {
				return ActOpaque
			}
			return ActDefault
		}
		switch ci.Name {
		case "server.SessionManager.Get":
			tok := ci.Args[1]
			base, path := tok.FieldPath()
			okTok := len(path) > 0 && path[len(path)-1] == "AuthenticationToken" && base != nil && rootedAt(base, reqParam)
			if tok.Op == "extract" || !okTok {
				// req.Header().AuthenticationToken
				if base != nil && base.Op == "call" && strings.HasSuffix(base.Name, ".Header") && len(path) > 0 && path[len(path)-1] == "AuthenticationToken" {
					okTok = rootedAt(base.Args[0], reqParam)
				}
			}
			r.Ob("token", s)
			if !okTok {
				r.Bad("token", s, p.InstrPos(ci.Instr), "the session is looked up by "+tok.Key()+", not by the authentication token of this request", st.Trace(8)...)
			}
			st.Del("found")
			st.Del("bound")
			return ActOpaque
		case "server.SessionManager.Delete":
			// a session that was never activated may be dropped on sight; any other only by its owner
			r.Ob("gate-before-effect", s+" -> "+ci.Name)
			if !gated(st) && !st.Has("unactivated") {
				r.Bad("gate-before-effect", s+"/"+ci.Name, p.InstrPos(ci.Instr), s+" deletes a session on a path that has not established "+missing(st), st.Trace(10)...)
			}
			return ActOpaque
		case "server.serverSecureChannel.Write":
			rt := respType(ci.Args[1])
			if rt == "ua.ServiceFault" {
				if !gated(st) {
					r.Ob("refusal-is-bad", s+"@"+faultStatus(x, st, ci.Args[1]))
					if v, ok := faultConst(x, st, ci.Args[1]); ok && v < 0x80000000 {
						r.Bad("refusal-is-bad", s, p.InstrPos(ci.Instr), "a request refused before the session gate gets a fault whose status is not Bad", st.Trace(8)...)
					}
				}
				return ActOpaque
			}
			r.Ob("gate-before-effect", s+" -> "+rt)
			sawGate[s] = true
			if !gated(st) {
				r.Bad("gate-before-effect", s+"/response", p.InstrPos(ci.Instr), s+" is answered with "+rt+" on a path that has not established "+missing(st), st.Trace(10)...)
			}
			return ActOpaque
		}
		if in, ok := ci.Instr.(ssa.CallInstruction); ok && !ci.Defer {
			eff := false
			what := ci.Name
			if g.isEffectCall(ci.Name, in) {
				eff = true
			} else if ci.Name == "dyn" && ci.Fn == nil {
				eff = true
				what = "function value " + ci.Callee.Key()
			} else if ci.Fn != nil && g.effectInst[ci.Fn] && !g.reachGate[ci.Fn] && p.InModule(ci.Fn) && ci.Fn.Parent() == nil {
				eff = true
			}
			if eff {
				r.Ob("gate-before-effect", s+" -> "+what)
				sawEffect[s] = true
				if !gated(st) {
					r.Bad("gate-before-effect", s+"/"+what, p.InstrPos(ci.Instr), s+" performs "+what+" on a path that has not established "+missing(st), st.Trace(10)...)
				}
				// the session acted for must be the one that was checked
				return ActOpaque
			}
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
	n := 0
	for s := range services {
		if !sessionless[s] {
			n++
			r.Ob("service", s)
			if !sawGate[s] && !sawEffect[s] {
				r.Bad("service", s, p.Pos(root.Pos()), "no response and no effect found for this session-bound service: it cannot be decided")
			}
		}
	}
	r.Min("service", 21)
	r.Min("gate-before-effect", 40)

	// the lookup itself
	p01Lookup(p, r)
}

// mutHandler: channel methods that are handlers of their own (open/close) are sessionless anyway.
func (g *gateModel) mutHandler(fn *ssa.Function) bool { return false }

func missing(st *State) string {
	var m []string
	if !st.Has("found") {
		m = append(m, "that the token names a live session")
	}
	if !st.Has("bound") {
		m = append(m, "that the session is activated on the channel the request came through")
	}
	return strings.Join(m, " and ")
}

func rootedAt(t, root *Term) bool {
	for t != nil {
		if t == root {
			return true
		}
		switch t.Op {
		case "assert", "conv", "load", "field", "fieldaddr":
			t = t.Args[0]
		case "extract":
			if t.Args[0].Op == "assert" {
				t = t.Args[0]
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// isSessionOf: the term is the session returned by the lookup.
func isSessionOf(t *Term) bool {
	return t != nil && t.Op == "extract" && t.Name == "0" && t.Args[0].IsCall("server.SessionManager.Get")
}

// respType is the dynamic type of a response value, as far as the path determines it.
func respType(t *Term) string {
	if t == nil {
		return "?"
	}
	if t.Typ != nil && !types.IsInterface(t.Typ) {
		return TypeName(t.Typ)
	}
	return "?"
}

func faultField(x *Exec, st *State, resp *Term, names ...string) *Term {
	a := resp
	var typ types.Type = resp.Typ
	for _, n := range names {
		typ = derefType(typ)
		s, ok := typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				typ = s.Field(i).Type()
				found = true
			}
		}
		if !found {
			return nil
		}
		a = x.T.mk("fieldaddr", n, []*Term{a}, nil, nil, types.NewPointer(typ))
	}
	return x.Load(st, a, typ)
}

func faultStatus(x *Exec, st *State, resp *Term) string {
	t := faultField(x, st, resp, "ResponseHeader", "ServiceResult")
	if t == nil {
		return "?"
	}
	return t.Key()
}

func faultConst(x *Exec, st *State, resp *Term) (uint64, bool) {
	t := faultField(x, st, resp, "ResponseHeader", "ServiceResult")
	if t == nil {
		return 0, false
	}
	v := parseConst(t)
	if v == nil {
		return 0, false
	}
	return constUint(v)
}

func p01Lookup(p *Program, r *Report) {
	get := p.Func("server.SessionManager.Get")
	timeoutF := p.getterField("server.Session.Timeout")
	lastF := p.getterField("server.Session.LastAccess")
	h := Hooks{MaxDepth: 5}
	h.Inline = func(fn *ssa.Function) bool { return fn.Name() != "IsExpired" && fn.Name() != "SetLastAccess" }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if cond.Op == "extract" && cond.Name == "1" && cond.Args[0].Op == "lookup" && taken {
			st.Set("hit", cond.Args[0])
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok && b.IsNil() && !eq && (a.Op == "lookup" || a.Op == "extract" && a.Args[0].Op == "lookup") {
			if a.Op == "extract" {
				a = a.Args[0]
			}
			st.Set("hit", a)
		}
		if cond.IsCall("server.Session.IsExpired") && !taken {
			st.Set("unexpired", cond.Args[0])
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 2 {
			fail("SessionManager.Get: unexpected results")
		}
		if b, ok := res[1].ConstBool(); ok && !b {
			r.Ob("lookup", "miss")
			return
		}
		r.Ob("lookup", "hit returns "+res[0].Key())
		hit := st.Get("hit")
		okHit := hit != nil && len(hit.Args) == 2 && hit.Args[1] == x.ValIn(st, x.frame(nil, nil, get, false), get.Params[1])
		if hit != nil && len(hit.Args) == 2 && hit.Args[1].Op == "param" {
			okHit = true
		}
		if res[1].Op == "extract" && res[1].Args[0].Op == "lookup" {
			// returning the lookup's own ok: fine when the session itself was checked
			if hit == nil {
				okHit = true
			}
		}
		sess := res[0]
		fromMap := sess.Op == "lookup" || sess.Op == "extract" && sess.Args[0].Op == "lookup"
		un := st.Get("unexpired")
		if !okHit || !fromMap {
			r.Bad("lookup", "found", p.InstrPos(in), "SessionManager.Get reports success on a path where no session was found under the given token", st.Trace(6)...)
		}
		if un == nil || un != sess {
			r.Bad("lookup", "expired", p.InstrPos(in), "SessionManager.Get returns a session on a path that has not established that it is unexpired", st.Trace(6)...)
		}
	}
	x := NewExec(p, h)
	x.Run(get, nil)
	r.Saw(x)
	r.Min("lookup", 2)

	exp := p.Func("server.Session.IsExpired")
	h2 := Hooks{MaxDepth: 4}
	h2.Inline = func(fn *ssa.Function) bool { return true }
	h2.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		t, neg := res[0], false
		for t.Op == "un" && t.Name == "!" {
			t, neg = t.Args[0], !neg
		}
		has := func(t *Term, f string) bool {
			return t.Contains(func(s *Term) bool { return s.Op == "fieldaddr" && s.Name == f })
		}
		r.Ob("expiry", t.Key())
		good := has(t, lastF) && has(t, timeoutF)
		if good && t.Op == "bin" && len(t.Args) == 2 {
			l, rr := t.Args[0], t.Args[1]
			gt := t.Name == ">" || t.Name == ">="
			lt := t.Name == "<" || t.Name == "<="
			if neg {
				gt, lt = lt, gt
			}
			switch {
			case has(l, lastF) && !has(l, timeoutF) && has(rr, timeoutF): // elapsed > timeout
				good = gt
			case has(rr, lastF) && !has(rr, timeoutF) && has(l, timeoutF):
				good = lt
			}
		}
		if b, ok := t.ConstBool(); ok {
			good = b != neg // constantly "expired" is safe, constantly "alive" is not
		}
		if !good {
			r.Bad("expiry", "predicate", p.InstrPos(in), "the expiry predicate does not say expired when the time since last access exceeds the timeout: "+t.Key())
		}
	}
	x2 := NewExec(p, h2)
	x2.Run(exp, nil)
	r.Saw(x2)
}
