package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P16", "Path-sensitive typestate analysis: a subscription obtained by its id (SubscriptionManager.Get or an index into the registry) is, on every path of every request handler and of every method-call handler, compared with the requesting session (owner id or owner pointer) and found equal before it is passed to a call, modified or read. Subscriptions obtained per session come from a lookup that is itself checked to filter by owner. The owner fields are written only when the subscription is created (with the requesting session) and when it is deleted. A publish cycle takes publish requests only from the queue of the subscription's own session, and status changes go to that session's queue only.", runP16)
}

const subT = "server.Subscription"

// subField: t is base.field of a subscription, through any getter-free load.
func loadField(t *Term) (base *Term, field string) {
	t = t.Strip()
	if t == nil {
		return nil, ""
	}
	if t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "fieldaddr" {
		return t.Args[0].Args[0], t.Args[0].Name
	}
	if t.Op == "field" {
		return t.Args[0], t.Name
	}
	return nil, ""
}

func isPtrTo(t types.Type, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && TypeName(pt.Elem()) == name
}

// ownerFields are the fields of Subscription that identify its session.
func (p *Program) ownerFields() (ptr, id, sid string) {
	st := p.Named("server", "Subscription").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isPtrTo(f.Type(), "server.Session") {
			ptr = f.Name()
		}
	}
	// the id field: stored in the constructor from the session's id
	sid = p.getterField("server.Session.SessionId")
	nf := p.Func("server.NewSubscription")
	for _, b := range nf.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || TypeName(fa.X.Type()) != subT {
				continue
			}
			v := s.Val
			if u, ok := v.(*ssa.UnOp); ok {
				if fb, ok := u.X.(*ssa.FieldAddr); ok && TypeName(fb.X.Type()) == "server.Session" && fieldName(fb.X.Type(), fb.Field) == sid {
					id = fieldName(fa.X.Type(), fa.Field)
				}
			}
			if c, ok := v.(*ssa.Call); ok {
				if n, _ := CallName(c.Common()); n == "server.Session.SessionId" {
					id = fieldName(fa.X.Type(), fa.Field)
				}
			}
		}
	}
	if ptr == "" && id == "" {
		fail("a subscription does not record its session")
	}
	return
}

func runP16(p *Program, r *Report) {
	r.Rule("owner-before-use: a subscription looked up by id is used only after its owner was compared with the requesting session and found equal")
	r.Rule("owner-set-once: the owner of a subscription is set from the creating session and never changed")
	r.Rule("by-session: the per-session lookup returns only subscriptions of that session")
	r.Rule("own-queue: notifications are taken to publish requests, and status changes to the queue, of the owning session only")
	ptr, id, sid := p.ownerFields()
	getName := "server.SubscriptionManager.Get"
	mut := p.Mutators()
	isRegistry := func(t *Term) bool {
		_, f := loadField(t)
		return f == "subscriptionsByID" || t != nil && t.Typ != nil && isSubMap(t.Typ)
	}
	// a subscription reached by id
	lookedUp := func(t *Term) bool {
		if t == nil {
			return false
		}
		if t.Op == "extract" && t.Name == "0" {
			a := t.Args[0]
			return a.IsCall(getName) || a.Op == "lookup" && isRegistry(a.Args[0])
		}
		return t.Op == "lookup" && isRegistry(t.Args[0])
	}
	reachGet := p.Reach(func(n string, in ssa.CallInstruction) bool { return n == getName }, func(in ssa.Instruction) bool {
		l, ok := in.(*ssa.Lookup)
		return ok && isSubMap(l.X.Type()) && !isMgrMethod(in.Parent())
	})
	covered := map[ssa.Instruction]bool{}

	explore := func(root *ssa.Function, sessParam *Term) {
		svcName := FuncName(root)
		isSess := func(t *Term) bool {
			if isSessionOf(t) {
				return true
			}
			return t != nil && t.Op == "param" && t.Typ != nil && isPtrTo(t.Typ, "server.Session") && (t.F == nil || t.F.parent == nil)
		}
		cmpOwner := func(a, b *Term) *Term {
			ba, fa := loadField(a)
			if ba != nil && fa == ptr && lookedUp(ba) && isSess(b) {
				return ba
			}
			if ba != nil && fa == id && lookedUp(ba) {
				if bb, ok := fieldOrGetter(b, "server.Session.SessionId", sid); ok && isSess(bb) {
					return ba
				}
			}
			return nil
		}
		h := Hooks{MaxDepth: 10}
		h.Inline = func(fn *ssa.Function) bool {
			rt := RecvType(fn)
			if rt == "server.SubscriptionManager" || rt == "server.SessionManager" || rt == "server.serverSecureChannel" {
				return false
			}
			if rt == subT {
				return !mut[fn] && small(fn, 4)
			}
			return reachGet[fn] || small(fn, 8) && !mut[fn]
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			if s := svcOfBranch(cond, taken); s != "" && !st.Has("svc") {
				st.Set("svc", x.T.mk("const", s, nil, nil, nil, nil))
				return
			}
			if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
				for i := 0; i < 2; i++ {
					if s := cmpOwner(a, b); s != nil {
						st.Set("own", s)
					}
					a, b = b, a
				}
			}
		}
		name := func(st *State) string {
			if t := st.Get("svc"); t != nil {
				return t.Name
			}
			return svcName
		}
		check := func(x *Exec, st *State, s *Term, what string, in ssa.Instruction) {
			key := name(st) + " -> " + what
			r.Ob("owner-before-use", key)
			if st.Get("own") != s {
				r.Bad("owner-before-use", key, p.InstrPos(in), name(st)+": "+what+" on a subscription named by its id, on a path that has not found the requesting session to be its owner", st.Trace(8)...)
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == getName {
				covered[ci.Instr] = true
				st.Del("own")
				return ActOpaque
			}
			for _, a := range ci.Args {
				if lookedUp(a) {
					if strings.HasPrefix(ci.Name, "sync.") {
						return ActDefault
					}
					if ci.Fn != nil && p.InModule(ci.Fn) && h.Inline(ci.Fn) {
						return ActDefault
					}
					check(x, st, a, shortName(ci.Name), ci.Instr)
				}
			}
			for _, b := range ci.Binds {
				if lookedUp(b) && ci.Fn == nil {
					check(x, st, b, "capture by a closure", ci.Instr)
				}
			}
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.Lookup:
				if isSubMap(v.X.Type()) {
					covered[in] = true
					st.Del("own")
				}
			case *ssa.Store:
				a := x.Val(st, v.Addr)
				if a.Op == "fieldaddr" && lookedUp(a.Args[0]) {
					check(x, st, a.Args[0], "a change of "+a.Name, in)
				}
			case *ssa.UnOp:
				if fa, ok := v.X.(*ssa.FieldAddr); ok && TypeName(fa.X.Type()) == subT {
					f := fieldName(fa.X.Type(), fa.Field)
					if f == ptr || f == id || f == "id" || f == "manager" {
						return
					}
					b := x.Val(st, fa.X)
					if lookedUp(b) {
						check(x, st, b, "a read of "+f, in)
					}
				}
			}
		}
		x := NewExec(p, h)
		x.Run(root, nil)
		r.Saw(x)
	}
	explore(p.Func("server.Server.handleRequest"), nil)
	// method-call handlers and other callbacks given the session
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" || !reachGet[fn] || len(fn.Params) == 0 {
			continue
		}
		hasSess := false
		for _, pa := range fn.Params {
			if isPtrTo(pa.Type(), "server.Session") {
				hasSess = true
			}
		}
		if fn.Parent() != nil && hasSess && fn.Signature.Recv() == nil {
			explore(fn, nil)
		}
	}
	// every lookup by id lies in one of the analysed handlers
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" || isMgrMethod(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				site := false
				if c, ok := in.(ssa.CallInstruction); ok {
					n, _ := CallName(c.Common())
					site = n == getName
				}
				if l, ok := in.(*ssa.Lookup); ok && isSubMap(l.X.Type()) {
					site = true
				}
				if site {
					r.Ob("lookup", FuncName(fn)+"@"+p.InstrPos(in))
					if !covered[in] && p.used(fn) {
						r.Bad("lookup", FuncName(fn), p.InstrPos(in), "a subscription is looked up by id outside the handlers of requests and method calls: its use cannot be tied to a session")
					}
				}
			}
		}
	}
	r.Min("owner-before-use", 14)
	r.Min("lookup", 12)
	p16Set(p, r, ptr, id)
	p16BySession(p, r, ptr, id, sid)
	p16Queues(p, r, ptr)
}

func isSubMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isPtrTo(m.Elem(), subT)
}

func isMgrMethod(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return RecvType(fn) == "server.SubscriptionManager"
}

// p16Set: stores to the owner fields.
func p16Set(p *Program, r *Report, ptr, id string) {
	creators := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || TypeName(fa.X.Type()) != subT {
					continue
				}
				f := fieldName(fa.X.Type(), fa.Field)
				if f != ptr && f != id {
					continue
				}
				r.Ob("owner-set-once", FuncName(fn)+"."+f)
				if c, ok := s.Val.(*ssa.Const); ok && c.Value == nil && f == ptr {
					continue
				}
				_, fresh := fa.X.(*ssa.Alloc)
				// the value comes from a parameter of the constructor
				v := s.Val
				for {
					if u, ok := v.(*ssa.UnOp); ok {
						v = u.X
					} else if g, ok := v.(*ssa.FieldAddr); ok {
						v = g.X
					} else if c, ok := v.(*ssa.Call); ok && len(c.Call.Args) == 1 {
						v = c.Call.Args[0]
					} else {
						break
					}
				}
				if _, ok := v.(*ssa.Parameter); fresh && ok {
					creators[fn] = true
					continue
				}
				if fresh && p.Func("server.NewSubscription") != fn {
					continue
				}
				r.Bad("owner-set-once", FuncName(fn)+"."+f, p.InstrPos(in), "the owner of a subscription ("+f+") is changed outside its creation")
			}
		}
	}
	// both owner fields name the same session: the same parameter
	if len(creators) == 0 {
		r.Bad("owner-set-once", "creation", "", "no function creates a subscription with its session")
	}
	root := p.Func("server.Server.handleRequest")
	h := Hooks{MaxDepth: 8}
	reach := p.Reach(func(n string, in ssa.CallInstruction) bool { return n == "server.NewSubscription" }, nil)
	h.Inline = func(fn *ssa.Function) bool { return reach[fn] && !creators[fn] }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Fn != nil && creators[ci.Fn] {
			r.Ob("owner-set-once", "created in "+FuncName(ci.Frame.fn))
			ok := false
			for _, a := range ci.Args {
				if isSessionOf(a) {
					ok = true
				}
			}
			if !ok {
				r.Bad("owner-set-once", "created", p.InstrPos(ci.Instr), "a subscription is created for something else than the session of the request")
			}
			return ActOpaque
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
	r.Min("owner-set-once", 4)
}

// p16BySession: each function returning a list of subscriptions for a session adds only that session's.
func p16BySession(p *Program, r *Report, ptr, id, sid string) {
	n := 0
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" || fn.Blocks == nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		sl, ok := res.At(0).Type().Underlying().(*types.Slice)
		if !ok || !isPtrTo(sl.Elem(), subT) {
			continue
		}
		var sp *ssa.Parameter
		for _, pa := range fn.Params {
			if isPtrTo(pa.Type(), "server.Session") {
				sp = pa
			}
		}
		if sp == nil {
			continue
		}
		n++
		h := Hooks{MaxDepth: 5}
		h.Inline = func(f *ssa.Function) bool { return small(f, 6) }
		h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			if a, b, eq, ok := CmpOf(cond, taken); ok {
				for i := 0; i < 2; i++ {
					ba, fa := loadField(a)
					if ba != nil && (fa == ptr && b.Op == "param" && b.Typ != nil && isPtrTo(b.Typ, "server.Session") || fa == id && isParamField(b, sid)) {
						if eq {
							st.Set("own", ba)
						} else {
							st.Del("own")
						}
					}
					a, b = b, a
				}
			}
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			if _, ok := in.(*ssa.Next); ok {
				st.Del("own")
			}
			if s, ok := in.(*ssa.Store); ok && isPtrTo(s.Val.Type(), subT) {
				if _, ok := s.Addr.(*ssa.IndexAddr); ok {
					r.Ob("by-session", FuncName(fn))
					if v := x.Val(st, s.Val); st.Get("own") != v {
						r.Bad("by-session", FuncName(fn), p.InstrPos(in), "a subscription whose owner was not found to be the given session is added to the session's list", st.Trace(6)...)
					}
				}
			}
		}
		x := NewExec(p, h)
		x.Run(fn, nil)
		r.Saw(x)
	}
	if n == 0 {
		fail("no per-session subscription lookup found")
	}
	r.Min("by-session", 1)
}

func isParamField(t *Term, f string) bool {
	b, ok := fieldOrGetter(t, "server.Session.SessionId", f)
	return ok && b.Op == "param"
}

// p16Queues: who takes from and puts into the publish and state-change queues.
func p16Queues(p *Program, r *Report, ptr string) {
	// functions that touch a queue of a session
	queueFns := p.Reach(nil2, func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && TypeName(fa.X.Type()) == "server.Session" && isChan(derefType(fa.Type()))
	})
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if RecvType(top) != subT {
			continue
		}
		// within the methods of a subscription every session used is the subscription's own
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				use := func(v ssa.Value, what string) {
					if !isPtrTo(v.Type(), "server.Session") {
						return
					}
					r.Ob("own-queue", FuncName(fn)+" "+what)
					if !ownSession(v, ptr, fn, 0) {
						r.Bad("own-queue", FuncName(fn), p.InstrPos(in), what+" of a session that is not the subscription's own")
					}
				}
				switch v := in.(type) {
				case ssa.CallInstruction:
					for _, a := range v.Common().Args {
						n, cf := CallName(v.Common())
						if cf != nil && queueFns[cf] {
							use(a, "call of "+shortName(n))
						}
					}
				case *ssa.FieldAddr:
					if f := fieldName(v.X.Type(), v.Field); isChan(derefType(v.Type())) {
						use(v.X, "use of "+f)
					}
				}
			}
		}
	}
	// late requests are answered from the subscriptions of the requesting session
	late := "server.Subscription.handleLatePublishRequest"
	reach := p.Reach(func(n string, in ssa.CallInstruction) bool { return n == late }, nil)
	h := Hooks{MaxDepth: 8}
	h.Inline = func(fn *ssa.Function) bool { return reach[fn] && FuncName(fn) != late }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == late {
			r.Ob("own-queue", "late request")
			base := ci.Args[0].Strip()
			ok := base.Contains(func(t *Term) bool {
				return t.Op == "call" && len(t.Args) > 1 && t.V != nil && isSubList(t.V.Type()) && hasArg(t, isSessionOf)
			})
			if !ok {
				r.Bad("own-queue", "late request", p.InstrPos(ci.Instr), "a publish request is answered from a subscription that does not come from the subscriptions of the requesting session: "+base.Key(), st.Trace(6)...)
			}
			return ActOpaque
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(p.Func("server.Server.handleRequest"), nil)
	r.Saw(x)
	// taking from the state-change queue of a session: only the requesting session's
	h2 := Hooks{MaxDepth: 8}
	reach2 := p.Reach(nil2, func(in ssa.Instruction) bool { return recvOfField(in, "stateChanges") })
	// (the methods of a subscription use only its own session, as decided above)
	h2.Inline = func(fn *ssa.Function) bool { return reach2[fn] && RecvType(fn) != subT }
	h2.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		for _, c := range recvChans(in) {
			t := x.Val(st, c)
			if b, f := loadField(t); f == "stateChanges" {
				r.Ob("own-queue", "state change taken")
				if !isSessionOf(b) {
					r.Bad("own-queue", "state change", p.InstrPos(in), "a status change is taken from the queue of a session other than the requesting one", st.Trace(6)...)
				}
			}
		}
	}
	x2 := NewExec(p, h2)
	x2.Run(p.Func("server.Server.handleRequest"), nil)
	r.Saw(x2)
	r.Min("own-queue", 3)
}

func nil2(string, ssa.CallInstruction) bool { return false }

func isSubList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isPtrTo(sl.Elem(), subT)
}

func recvChans(in ssa.Instruction) []ssa.Value {
	switch v := in.(type) {
	case *ssa.UnOp:
		if v.Op.String() == "<-" {
			return []ssa.Value{v.X}
		}
	case *ssa.Select:
		var r []ssa.Value
		for _, s := range v.States {
			if s.Dir == types.RecvOnly {
				r = append(r, s.Chan)
			}
		}
		return r
	}
	return nil
}

func recvOfField(in ssa.Instruction, f string) bool {
	for _, c := range recvChans(in) {
		if u, ok := c.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == f {
				return true
			}
		}
	}
	return false
}

// ownSession: v is receiver.ptr, nil, or a merge of such.
func ownSession(v ssa.Value, ptr string, fn *ssa.Function, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !ownSession(e, ptr, fn, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && TypeName(fa.X.Type()) == subT && fieldName(fa.X.Type(), fa.Field) == ptr {
			return isReceiver(fa.X, fn)
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && !ownSession(s.Val, ptr, fn, depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// isReceiver: v is the receiver of fn, or the receiver of its enclosing method captured by fn.
func isReceiver(v ssa.Value, fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 && v == ssa.Value(fn.Params[0]) {
		return true
	}
	if _, ok := v.(*ssa.FreeVar); ok {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if _, ok := u.X.(*ssa.FreeVar); ok {
			return true
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && !isReceiver(s.Val, fn) {
					return false
				}
			}
			return true
		}
	}
	if al, ok := v.(*ssa.Alloc); ok {
		_ = al
	}
	return false
}

func hasArg(t *Term, f func(*Term) bool) bool {
	for _, a := range t.Args {
		if f(a) {
			return true
		}
	}
	return false
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// used: the function is exported, a closure, or referred to by some instruction of the module.
func (p *Program) used(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() {
		return true
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}
