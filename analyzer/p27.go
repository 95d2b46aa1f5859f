package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P27", "Typestate over every path of every function that removes a session, subscription or monitored item from its registry or releases one: removal and release come in pairs for the same object, on every path and in every turn of a loop; the functions that release one are shown to give up every resource (publishing timer, items, session; sampling group or event listener, with the key or node it was registered under; authentication token and continuation points). Sweeps over the registries visit every entry, the expiry tests compare the right quantities in the right direction, a publishing cycle without a queued request always counts towards the lifetime and the count is tested against its limit, and a queued publish request of a closed session is never used.", runP27)
}

type p27 struct {
	p    *Program
	r    *Report
	srv  *ssa.Package
	prim map[*ssa.Function]bool // functions of the owner types that remove or release
}

// mapField: the struct field a map value is loaded from.
func mapField(v ssa.Value) (owner, name string) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return "", ""
	}
	return TypeName(derefType(fa.X.Type())), fieldName(fa.X.Type(), fa.Field)
}

// registryOf: which registry of the server a map is, by what it holds.
func registryOf(t types.Type) string {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	switch TypeName(derefType(m.Elem())) {
	case "server.Session":
		return "session"
	case "server.Subscription":
		return "subscription"
	case "server.MonitoredItem":
		return "item"
	}
	return ""
}

func nilStore(i ssa.Instruction, owner, field string) *ssa.FieldAddr {
	s, ok := i.(*ssa.Store)
	if !ok {
		return nil
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || TypeName(derefType(fa.X.Type())) != owner || fieldName(fa.X.Type(), fa.Field) != field {
		return nil
	}
	if k, ok := s.Val.(*ssa.Const); ok && k.IsNil() {
		return fa
	}
	return nil
}

func (c *p27) isEvent(i ssa.Instruction) bool {
	if nilStore(i, "server.Subscription", "items") != nil || nilStore(i, "server.Session", "authenticationToken") != nil {
		return true
	}
	if ci, ok := i.(ssa.CallInstruction); ok {
		n, _ := CallName(ci.Common())
		if n == "builtin.delete" && registryOf(ci.Common().Args[0].Type()) != "" {
			if o, _ := mapField(ci.Common().Args[0]); o != "" {
				return true
			}
		}
	}
	return false
}

func runP27(p *Program, r *Report) {
	r.Rule("paired: whatever is removed from a registry of sessions, subscriptions or monitored items is released on the same path, and a released subscription is removed")
	r.Rule("release: releasing a subscription stops its timer and deletes every item; a session gives up its token and continuation points; an item is detached from the sampling group or node it was attached to")
	r.Rule("detached: the sampling interval, the node and the monitoring mode of an item change only while it is detached")
	r.Rule("attached: an item enters and leaves its sampling group or node while its lock is held, and if the lock was given up before, only after its deletion, mode and interval were looked at again")
	r.Rule("sweep: enumerations of the registries visit every entry, and a goroutine sweeps each of them")
	r.Rule("expiry: expired sessions are not found; expiry compares elapsed time or cycles with the limit in the right direction and unit")
	r.Rule("lifetime: a publishing cycle without a queued request counts, the count is tested, and at the limit the subscription is removed")
	r.Rule("closed: closing a session removes it (and, if asked, all its subscriptions); its queued publish requests are no longer used")
	c := &p27{p: p, r: r, srv: p.SSA["server"], prim: map[*ssa.Function]bool{}}
	reach := p.Reach(nil, c.isEvent)
	owners := map[string]bool{"server.SessionManager": true, "server.SubscriptionManager": true, "server.Subscription": true, "server.Session": true}
	for f := range reach {
		if f.Pkg == c.srv && owners[RecvType(f)] {
			c.prim[f] = true
		}
	}
	for i := 0; i < 3; i++ { // unexported helpers in between
		for f := range reach {
			if f.Pkg == c.srv && f.Signature.Recv() == nil && small(f, 12) && f.Parent() == nil && !isLoopyNew(f) {
				c.prim[f] = true
			}
		}
	}
	c.pairs()
	r.Min("paired", 6)
	c.release()
	r.Min("release", 6)
	c.detached()
	r.Min("detached", 4)
	c.attached()
	r.Min("attached", 6)
	c.sweeps()
	r.Min("sweep", 5)
	c.expiry()
	r.Min("expiry", 3)
	c.lifetime()
	r.Min("lifetime", 3)
	c.closed()
	r.Min("closed", 3)
}

func isLoopyNew(f *ssa.Function) bool { return strings.HasPrefix(f.Name(), "New") }

// ownerOf: the object a term is a field or key of.
func ownerOf(t *Term) *Term {
	t = t.Strip()
	if t.Op == "load" && len(t.Args) > 0 && t.Args[0].Strip().Op == "fieldaddr" {
		t = t.Args[0].Strip()
	}
	switch t.Op {
	case "field", "fieldaddr":
		t = t.Args[0].Strip()
	case "call":
		if len(t.Args) == 1 && !strings.HasPrefix(t.Name, "builtin.") {
			t = t.Args[0].Strip()
		}
	}
	if t.Op == "extract" && t.Args[0].Op == "next" {
		return t.Args[0]
	}
	return t
}

func isParamOf(t *Term, f *ssa.Function) bool {
	return t != nil && t.Op == "param" && t.V != nil && t.V.Parent() == f
}

func (c *p27) pairs() {
	p := c.p
	roots := map[*ssa.Function]bool{}
	for f := range c.prim {
		roots[f] = true
	}
	for _, f := range p.Funcs {
		if f.Pkg != c.srv || c.prim[f] {
			continue
		}
		EachCall(f, func(_ ssa.CallInstruction, n string, callee *ssa.Function) {
			if callee != nil && c.prim[callee] && (RecvType(callee) == "server.SubscriptionManager" || RecvType(callee) == "server.Subscription" && strings.HasPrefix(strings.ToLower(callee.Name()), "delete") && callee.Name() != "DeleteItem") {
				roots[f] = true
			}
		})
	}
	callers := map[*ssa.Function]int{}
	for _, f := range p.Funcs {
		EachCall(f, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
			if callee != nil {
				callers[callee]++
			}
		})
	}
	for _, f := range sortedFns(roots) {
		c.pairIn(f, callers)
	}
}

func (c *p27) pairIn(f *ssa.Function, callers map[*ssa.Function]int) {
	p, r := c.p, c.r
	fn := FuncName(f)
	seen := map[string]bool{}
	report := func(kind, what string, t *Term, where string, tr []string) {
		if kind == "subscription" && isParamOf(t, f) && callers[f] > 0 {
			return // the callers complete it
		}
		key := fn + " " + kind + " " + what
		if seen[key] {
			return
		}
		seen[key] = true
		r.Bad("paired", key, where, fn+": "+what, tr...)
	}
	mark := func(x *Exec, st *State, kind, ev string, t *Term, where string) {
		id := kind + ":" + itoa(termID(t)) + ":"
		other := map[string]string{"gone": "rel", "rel": "gone"}[ev]
		if st.Has(id + other) {
			st.Del(id + other)
			r.Ob("paired", fn+" "+kind)
			st.Set(id+"done", t)
			return
		}
		if ev == "gone" {
			if st.Has(id+"gone") && (kind != "subscription" || !isParamOf(t, f)) {
				report(kind, "removes a "+kind+" from its registry without releasing it", t, where, st.Trace(10))
			}
			st.Del(id + "done")
		}
		if ev == "rel" && st.Has(id+"done") {
			return
		}
		st.Set(id+ev, t)
	}
	h := Hooks{MaxDepth: 5}
	h.Inline = func(g *ssa.Function) bool { return c.prim[g] && g != f }
	h.Stable = func(a *Term) bool {
		a = a.Strip()
		return a.Op == "fieldaddr" && a.Name == "id" || a.Op == "indexaddr"
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Go {
			return ActOpaque
		}
		if ci.Fn != nil && ci.Fn != f && RecvType(ci.Fn) == "server.Subscription" && releases(ci.Fn) && len(ci.Args) > 0 {
			mark(x, st, "subscription", "rel", ci.Args[0].Strip(), p.InstrPos(ci.Instr))
			return ActOpaque
		}
		if ci.Name == "builtin.delete" && len(ci.Args) == 2 {
			cc := ci.Instr.(ssa.CallInstruction).Common()
			reg := registryOf(cc.Args[0].Type())
			if o, _ := mapField(cc.Args[0]); o == "" {
				reg = ""
			}
			switch reg {
			case "session", "subscription":
				mark(x, st, reg, "gone", ownerOf(ci.Args[1]), p.InstrPos(ci.Instr))
			case "item":
				if st.Has("item:gone") {
					report("item", "removes a monitored item from its subscription without deleting it", nil, p.InstrPos(ci.Instr), st.Trace(10))
				}
				if st.Has("item:rel") {
					st.Del("item:rel")
					r.Ob("paired", fn+" item")
				} else {
					st.Set("item:gone", ci.Args[1])
				}
			}
		}
		if strings.HasSuffix(ci.Name, "MonitoredItem.Delete") {
			if st.Has("item:gone") {
				st.Del("item:gone")
				r.Ob("paired", fn+" item")
			} else {
				st.Set("item:rel", ci.Args[0])
			}
		}
		return ActDefault
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if fa := nilStore(in, "server.Subscription", "items"); fa != nil {
			mark(x, st, "subscription", "rel", x.Val(st, fa.X).Strip(), p.InstrPos(in))
			st.Del("item:rel")
		}
		if fa := nilStore(in, "server.Session", "authenticationToken"); fa != nil {
			t := x.Val(st, fa.X).Strip()
			b := t
			if t.Op == "extract" && t.Args[0].Op == "next" {
				b = t.Args[0]
			}
			if st.Has("session:" + itoa(termID(b)) + ":gone") {
				mark(x, st, "session", "rel", b, p.InstrPos(in))
			}
		}
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		if !to.Dominates(from) {
			return
		}
		for _, k := range sortedKeys(st.A) {
			if strings.HasSuffix(k, ":done") {
				st.Del(k)
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		for _, k := range sortedKeys(st.A) {
			if !strings.HasSuffix(k, ":gone") && !strings.HasSuffix(k, ":rel") {
				continue
			}
			kind := k[:strings.IndexByte(k, ':')]
			t := st.A[k]
			if kind == "item" {
				if strings.HasSuffix(k, ":gone") {
					report("item", "removes a monitored item from its subscription without deleting it", nil, p.InstrPos(in), st.Trace(10))
				}
				continue
			}
			if strings.HasSuffix(k, ":gone") {
				report(kind, "removes a "+kind+" from its registry without releasing it", t, p.InstrPos(in), st.Trace(10))
			} else if kind == "subscription" {
				report(kind, "releases a subscription that stays in the registry", t, p.InstrPos(in), st.Trace(10))
			}
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

func releases(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if nilStore(i, "server.Subscription", "items") != nil {
				return true
			}
		}
	}
	return false
}

// release: what the release functions give up.
func (c *p27) release() {
	p, r := c.p, c.r
	found := map[string]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != c.srv {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if nilStore(i, "server.Subscription", "items") != nil && !found["sub "+FuncName(f)] {
					found["sub "+FuncName(f)] = true
					c.releaseSub(f)
				}
				if nilStore(i, "server.Session", "authenticationToken") != nil && !found["sess "+FuncName(f)] {
					found["sess "+FuncName(f)] = true
					c.releaseSession(f)
				}
			}
		}
	}
	if len(found) < 2 {
		r.Bad("release", "release functions", "-", "no function releases a subscription (clears its items) or a session (clears its token)")
	}
	for _, m := range c.itemMethods("Delete") {
		c.releaseItem(m)
	}
	// PollGroup and ObjectNode: unregistering removes what registering added
	for _, pr := range [][2]string{{"server.PollGroup.Subscribe", "server.PollGroup.Unsubscribe"}, {"server.ObjectNode.AddEventListener", "server.ObjectNode.RemoveEventListener"}} {
		add, rem := p.FuncOpt(pr[0]), p.FuncOpt(pr[1])
		if add == nil || rem == nil {
			fail("%s or %s is missing", pr[0], pr[1])
		}
		o1, n1 := "", ""
		for _, b := range add.Blocks {
			for _, i := range b.Instrs {
				if mu, ok := i.(*ssa.MapUpdate); ok {
					o1, n1 = mapField(mu.Map)
				}
			}
		}
		h := Hooks{MaxDepth: 2}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == "builtin.delete" {
				o, n := mapField(ci.Instr.(ssa.CallInstruction).Common().Args[0])
				if o == o1 && n == n1 && ci.Args[1].Strip().Op == "param" {
					st.Set("removed", ci.Args[1])
				}
			}
			return ActDefault
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if st.Has("removed") {
				r.Ob("release", pr[1])
			} else {
				r.Bad("release", pr[1], p.InstrPos(in), pr[1]+" does not remove the listener from the map that "+pr[0]+" adds it to", st.Trace(8)...)
			}
		}
		if n1 == "" {
			// not a map: out of reach of this rule
			continue
		}
		x := NewExec(p, h)
		x.Run(rem, nil)
		r.Saw(x)
	}
}

func (c *p27) itemMethods(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Pkg == c.srv && f.Name() == name && f.Parent() == nil && strings.HasSuffix(RecvType(f), "MonitoredItem") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return FuncName(out[i]) < FuncName(out[j]) })
	return out
}

func (c *p27) releaseSub(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	h := Hooks{MaxDepth: 3}
	h.Inline = func(g *ssa.Function) bool { return g != f && RecvType(g) == "server.Subscription" && small(g, 6) }
	h.Stable = func(a *Term) bool { return a.Strip().Op == "fieldaddr" && a.Strip().Name == "cancelPublishing" }
	one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "extract" && nc.Args[0].Op == "next" {
			if st.Has("item") {
				r.Bad("release", fn+" items", "-", fn+" goes on to the next monitored item without deleting this one", st.Trace(8)...)
			}
			if want {
				st.Set("item", nc)
				st.Set("began", nc)
			} else {
				st.Set("began", nc)
				st.Set("all", nc)
			}
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok || !eq {
			return
		}
		if isNilT(a) {
			a, b = b, a
		}
		if isNilT(b) {
			if a.Strip().HasField("cancelPublishing") {
				st.Set("stopped", a)
			}
			if a.Strip().HasField("items") && !st.Has("began") {
				st.Set("already", a)
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "builtin.close" && ci.Args[0].Strip().HasField("cancelPublishing") {
			st.Set("stopped", one(x))
		}
		if strings.HasSuffix(ci.Name, "MonitoredItem.Delete") {
			st.Del("item")
		}
		return ActDefault
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if nilStore(in, "server.Subscription", "items") != nil {
			st.Set("items", one(x))
		}
		if nilStore(in, "server.Subscription", "session") != nil {
			st.Set("session", one(x))
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if st.Has("already") {
			return
		}
		for _, w := range [][2]string{{"stopped", "stopping its publishing timer"}, {"all", "deleting every monitored item"}, {"items", "clearing its items"}, {"session", "letting go of its session"}} {
			if st.Has(w[0]) && !(w[0] == "all" && st.Has("item")) {
				r.Ob("release", fn+" "+w[0])
			} else {
				r.Bad("release", fn+" "+w[0], p.InstrPos(in), fn+" releases the subscription without "+w[1], st.Trace(10)...)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

func (c *p27) releaseSession(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	h := Hooks{MaxDepth: 3}
	h.Inline = func(g *ssa.Function) bool { return g != f && RecvType(g) == "server.Session" && small(g, 8) }
	fields := []string{"authenticationToken", "browseCPs", "historyCPs"}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		for _, n := range fields {
			if nilStore(in, "server.Session", n) != nil {
				st.Set(n, x.T.mk("const", "1", nil, nil, nil, nil))
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		for _, n := range fields {
			if st.Has(n) {
				r.Ob("release", fn+" "+n)
			} else {
				r.Bad("release", fn+" "+n, p.InstrPos(in), fn+" releases the session without giving up its "+n, st.Trace(8)...)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

// watched: the fields of the item type that name what it is attached to.
func (c *p27) watched(rt string) (detach map[string]string) {
	detach = map[string]string{}
	for _, f := range c.p.Funcs {
		if f.Pkg != c.srv || RecvType(f) != rt {
			continue
		}
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			switch n {
			case "server.PollGroup.Subscribe":
				detach["server.PollGroup.Unsubscribe"] = "samplingInterval"
			case "server.ObjectNode.AddEventListener":
				detach["server.ObjectNode.RemoveEventListener"] = "node"
			}
		})
	}
	return detach
}

// detachHooks: common events: "detached" holds after the item left what it observes.
func (c *p27) detachHooks(h *Hooks, rt string, detach map[string]string, wrong func(x *Exec, st *State, ci *CallInfo, field string)) {
	prevCall := h.OnCall
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if field, ok := detach[ci.Name]; ok {
			src := ci.Args[0]
			if mentions(src, field) || field == "samplingInterval" && mentions(src, "ti") && c.tiTied(rt) {
				if st.Has("changed "+field) && field != "node" {
					wrong(x, st, ci, field)
				}
				st.Set("detached", src)
				st.Del("attached")
			} else {
				wrong(x, st, ci, field)
			}
		}
		if ci.Name == "server.PollGroup.Subscribe" || ci.Name == "server.ObjectNode.AddEventListener" {
			st.Set("attached", ci.Args[0])
			st.Del("detached")
		}
		if prevCall != nil {
			return prevCall(x, st, ci)
		}
		return ActDefault
	}
	prevBranch := h.OnBranch
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		// the node is not of the kind that has listeners: there was nothing to attach to
		if nc.Op == "extract" && nc.Name == "1" && nc.Args[0].Op == "assert" && !want && mentions(nc.Args[0], "node") {
			st.Set("detached", nc)
		}
		if prevBranch != nil {
			prevBranch(x, st, cond, taken)
		}
	}
}

// tiTied: whoever sets the sampling interval of an item sets its duration from it.
func (c *p27) tiTied(rt string) bool {
	sets, ties := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if f.Pkg != c.srv {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && TypeName(derefType(fa.X.Type())) == rt {
					switch fieldName(fa.X.Type(), fa.Field) {
					case "samplingInterval":
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							sets[f] = true
						}
					case "ti":
						ties[f] = true
					}
				}
			}
		}
	}
	for f := range sets {
		if !ties[f] {
			return false
		}
	}
	return len(sets) > 0
}

func mentions(t *Term, field string) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if (t.Op == "field" || t.Op == "fieldaddr") && t.Name == field {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (c *p27) itemExec(f *ssa.Function, h Hooks) {
	rt := RecvType(f)
	inl := h.Inline
	h.Inline = func(g *ssa.Function) bool {
		if inl != nil && inl(g) {
			return true
		}
		return g != f && g.Pkg == c.srv && RecvType(g) == rt && small(g, 40)
	}
	h.Stable = func(a *Term) bool {
		a = a.Strip()
		return a.Op == "fieldaddr" && (a.Name == "node" || a.Name == "samplingInterval" || a.Name == "sub")
	}
	x := NewExec(c.p, h)
	x.Run(f, nil)
	c.r.Saw(x)
}

func (c *p27) releaseItem(f *ssa.Function) {
	p, r := c.p, c.r
	fn, rt := FuncName(f), RecvType(f)
	detach := c.watched(rt)
	if len(detach) == 0 {
		return
	}
	h := Hooks{MaxDepth: 4}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		for _, n := range []string{"node", "sub"} {
			if nilStore(in, rt, n) != nil {
				st.Set("cleared "+n, x.T.mk("const", "1", nil, nil, nil, nil))
			}
		}
	}
	c.detachHooks(&h, rt, detach, func(x *Exec, st *State, ci *CallInfo, field string) {
		r.Bad("release", fn+" key", p.InstrPos(ci.Instr), fn+" detaches the item from something other than what its "+field+" names", st.Trace(8)...)
	})
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if st.Has("detached") && !st.Has("attached") {
			r.Ob("release", fn+" detaches")
		} else {
			r.Bad("release", fn+" detaches", p.InstrPos(in), fn+" deletes the item while it stays attached to what it observes", st.Trace(10)...)
		}
		for _, n := range []string{"node", "sub"} {
			if st.Has("cleared " + n) {
				r.Ob("release", fn+" clears "+n)
			} else {
				r.Bad("release", fn+" clears "+n, p.InstrPos(in), fn+" deletes the item without clearing its "+n, st.Trace(10)...)
			}
		}
	}
	c.itemExec(f, h)
}

// detached: the fields that name the attachment change only while detached.
func (c *p27) detached() {
	p, r := c.p, c.r
	for _, m := range append(c.itemMethods("Modify"), c.itemMethods("SetMonitoringMode")...) {
		m := m
		fn, rt := FuncName(m), RecvType(m)
		detach := c.watched(rt)
		if len(detach) == 0 {
			continue
		}
		h := Hooks{MaxDepth: 4}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || TypeName(derefType(fa.X.Type())) != rt {
				return
			}
			n := fieldName(fa.X.Type(), fa.Field)
			key := n == "monitoringMode"
			for _, w := range detach {
				key = key || w == n
			}
			if !key {
				return
			}
			if st.Has("detached") {
				r.Ob("detached", fn+" changes "+n)
			} else {
				r.Bad("detached", fn+" changes "+n, p.InstrPos(in), fn+" changes the "+n+" of an item that is still attached: what it was attached to keeps it for ever", st.Trace(8)...)
			}
		}
		c.detachHooks(&h, rt, detach, func(x *Exec, st *State, ci *CallInfo, field string) {
			r.Bad("detached", fn+" key", p.InstrPos(ci.Instr), fn+" detaches the item from something other than what its "+field+" names", st.Trace(8)...)
		})
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			r.Ob("detached", fn)
		}
		c.itemExec(m, h)
	}
}

// sweeps: loops over a registry are complete.
func (c *p27) sweeps() {
	p, r := c.p, c.r
	for _, f := range p.Funcs {
		if f.Pkg != c.srv {
			continue
		}
		rt := RecvType(f)
		if rt != "server.SessionManager" && rt != "server.SubscriptionManager" && rt != "server.Subscription" {
			continue
		}
		fn := FuncName(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				rg, ok := i.(*ssa.Range)
				if !ok || registryOf(rg.X.Type()) == "" {
					continue
				}
				// every exit from the loop is the end of the iteration
				var nb *ssa.BasicBlock
				for _, ref := range *rg.Referrers() {
					if nx, ok := ref.(*ssa.Next); ok {
						nb = nx.Block()
					}
				}
				if nb == nil {
					continue
				}
				if w := leavesLoop(nb); w != nil {
					r.Bad("sweep", fn+" "+registryOf(rg.X.Type()), p.Pos(rg.Pos()), fn+" can leave its loop over the "+registryOf(rg.X.Type())+"s before it has visited them all")
				} else {
					r.Ob("sweep", fn+" visits every "+registryOf(rg.X.Type()))
				}
			}
		}
		// functions that return the subscriptions: each entry that belongs is appended
		if res := f.Signature.Results(); res.Len() == 1 && res.At(0).Type().String() != "" && strings.HasSuffix(res.At(0).Type().String(), "[]*"+c.srv.Pkg.Path()+".Subscription") {
			c.collect(f)
		}
	}
	// each registry is swept by a goroutine
	for _, reg := range []string{"session", "subscription"} {
		reach := p.Reach(nil, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n, _ := CallName(ci.Common())
			if n != "builtin.delete" || registryOf(ci.Common().Args[0].Type()) != reg {
				return false
			}
			o, _ := mapField(ci.Common().Args[0])
			return o != ""
		})
		exp := map[string]string{"session": "server.Session.IsExpired", "subscription": "server.Subscription.IsExpired"}[reg]
		tests := p.Reach(func(n string, _ ssa.CallInstruction) bool { return n == exp }, nil)
		ok := false
		for _, f := range p.Funcs {
			if f.Pkg != c.srv {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					g, isGo := i.(*ssa.Go)
					if !isGo {
						continue
					}
					var w *ssa.Function
					if mc, isMC := g.Call.Value.(*ssa.MakeClosure); isMC {
						w, _ = mc.Fn.(*ssa.Function)
					} else {
						_, w = CallName(g.Common())
					}
					if w != nil && !strings.Contains(FuncName(w), "Connection") && reach[w] && tests[w] && usesTicker(w) {
						ok = true
					}
				}
			}
		}
		if ok {
			r.Ob("sweep", "a goroutine removes expired "+reg+"s")
		} else {
			r.Bad("sweep", "goroutine "+reg, "-", "no goroutine removes "+reg+"s that expired")
		}
	}
	// the sweep acts on every expired entry
	for _, f := range p.Funcs {
		rt := RecvType(f)
		if f.Pkg != c.srv || rt != "server.SessionManager" && rt != "server.SubscriptionManager" {
			continue
		}
		exp := ""
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "server.Session.IsExpired" || n == "server.Subscription.IsExpired" {
				exp = n
			}
		})
		if exp == "" || !isLoopy(f) {
			continue
		}
		fn := FuncName(f)
		n := 0
		h := Hooks{MaxDepth: 3}
		h.Inline = func(g *ssa.Function) bool { return g != f && c.prim[g] && RecvType(g) == rt }
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			nc, want := NormCond(cond, taken)
			if nc.IsCall(exp) {
				if want {
					st.Set("expired", nc)
				} else {
					st.Set("fresh", nc)
				}
				n++
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == exp {
				if st.Has("expired") {
					r.Bad("sweep", fn+" expired", p.InstrPos(ci.Instr), fn+" goes past an expired entry without removing it", st.Trace(8)...)
				}
				st.Del("fresh")
			}
			if ci.Name == "builtin.delete" && registryOf(ci.Instr.(ssa.CallInstruction).Common().Args[0].Type()) != "" {
				if st.Has("fresh") && !st.Has("expired") {
					r.Bad("sweep", fn+" fresh", p.InstrPos(ci.Instr), fn+" removes an entry that has not expired", st.Trace(8)...)
				}
				st.Del("expired")
			}
			return ActDefault
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if st.Has("expired") {
				r.Bad("sweep", fn+" expired", p.InstrPos(in), fn+" goes past an expired entry without removing it", st.Trace(8)...)
			} else {
				r.Ob("sweep", fn+" removes the expired")
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

func usesTicker(f *ssa.Function) bool {
	ok := false
	EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
		if n == "time.NewTicker" || n == "time.After" || n == "time.Tick" || n == "time.NewTimer" || n == "time.Sleep" {
			ok = true
		}
	})
	return ok
}

// leavesLoop: a block of the loop headed by h, other than h, with an edge out of it.
func leavesLoop(h *ssa.BasicBlock) *ssa.BasicBlock {
	in := map[*ssa.BasicBlock]bool{h: true}
	work := []*ssa.BasicBlock{}
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	for b := range in {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !in[s] {
				return b
			}
		}
	}
	if len(in) == 1 && len(h.Preds) > 0 {
		// no way back at all: the body always leaves
		return h
	}
	return nil
}

// collect: a function returning subscriptions returns all of them, or all of the session's.
func (c *p27) collect(f *ssa.Function) {
	p, r := c.p, c.r
	fn := FuncName(f)
	h := Hooks{MaxDepth: 2}
	one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
	bad := func(st *State) {
		if st.Has("turn") {
			r.Bad("sweep", fn+" collects", p.Pos(f.Pos()), fn+" leaves out a subscription it should return", st.Trace(8)...)
		} else {
			r.Ob("sweep", fn+" collects")
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Op == "extract" && nc.Args[0].Op == "next" {
			bad(st)
			st.Del("turn")
			if want {
				st.Set("turn", one(x))
			}
			return
		}
		if a, b, eq, ok := CmpOf(cond, taken); ok && !eq && (mentionsSession(a) && mentionsSession(b)) {
			st.Del("turn")
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "builtin.append" {
			st.Del("turn")
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) { bad(st) }
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

func mentionsSession(t *Term) bool {
	return mentions(t, "sessionId") || mentions(t, "session") || strings.Contains(t.Strip().Name, "SessionId") || t.Strip().Op == "param" || strings.HasSuffix(t.Strip().Name, ".Session")
}

// expiry: tests and look-ups.
func (c *p27) expiry() {
	p, r := c.p, c.r
	// Session.IsExpired
	if f := p.FuncOpt("server.Session.IsExpired"); f != nil {
		c.expiryTest(f, "lastAccess", "timeout")
	} else {
		fail("server.Session.IsExpired is missing")
	}
	if f := p.FuncOpt("server.Subscription.IsExpired"); f != nil {
		c.expiryTest(f, "lifetimeCount", "maxLifetimeCount")
	} else {
		fail("server.Subscription.IsExpired is missing")
	}
	// SessionManager.Get
	f := p.FuncOpt("server.SessionManager.Get")
	if f == nil {
		fail("server.SessionManager.Get is missing")
	}
	h := Hooks{MaxDepth: 2}
	h.Inline = func(g *ssa.Function) bool { return g != f && RecvType(g) == "server.SessionManager" && small(g, 8) }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.IsCall("server.Session.IsExpired") && !want {
			st.Set("fresh", nc.Args[0])
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if len(res) == 0 || isNilT(res[0]) {
			r.Ob("expiry", "a look-up that finds nothing")
			return
		}
		if fr := st.Get("fresh"); fr != nil && fr.Strip() == res[0].Strip() {
			r.Ob("expiry", "a session found has not expired")
			return
		}
		r.Bad("expiry", "server.SessionManager.Get", p.InstrPos(in), "server.SessionManager.Get returns a session without knowing that it has not expired", st.Trace(8)...)
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

func (c *p27) expiryTest(f *ssa.Function, elapsed, limit string) {
	p, r := c.p, c.r
	fn := FuncName(f)
	h := Hooks{MaxDepth: 2}
	var verdict func(x *Exec, t *Term, want bool, where string)
	verdict = func(x *Exec, t *Term, want bool, where string) {
		t, want = NormCond(t, want)
		ok := true
		why := ""
		switch {
		case t.Op == "bin" && len(t.Args) == 2:
			a, b := t.Args[0], t.Args[1]
			op := t.Name
			if mentions(a, limit) && mentions(b, elapsed) && !mentions(a, elapsed) {
				a, b = b, a
				op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
			}
			if !want {
				op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
			}
			if !mentions(a, elapsed) || !mentions(b, limit) {
				ok, why = false, "does not compare "+elapsed+" with "+limit
			} else if op != ">" && op != ">=" {
				ok, why = false, "is true while "+elapsed+" is below "+limit
			} else if elapsed == "lastAccess" {
				ms := false
				walkCalls(a, func(n string) {
					if strings.HasPrefix(n, "time.Duration.") {
						ms = n == "time.Duration.Milliseconds"
						if !ms {
							ok, why = false, "compares the timeout in milliseconds with "+n
						}
					}
				})
				if !ms && ok && !hasConst(a, 1e6) && !hasConst(b, 1e6) {
					ok, why = false, "does not compare milliseconds with milliseconds"
				}
			}
		case t.Op == "call" && strings.HasPrefix(t.Name, "time.Time."):
			if !mentions(t, elapsed) || !mentions(t, limit) || !hasConst(t, 1e6) {
				ok, why = false, "does not compare "+elapsed+" with "+limit
			} else {
				late := t.Name == "time.Time.After" && mentions(t.Args[1], elapsed) || t.Name == "time.Time.Before" && mentions(t.Args[0], elapsed)
				if late != want {
					ok, why = false, "is true before the timeout is over"
				}
			}
		}
		if ok {
			r.Ob("expiry", fn)
		} else {
			r.Bad("expiry", fn, where, fn+" "+why)
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if mentions(cond, elapsed) || mentions(cond, limit) {
			nc, want := NormCond(cond, taken)
			if want {
				st.Set("cond", nc)
			} else {
				st.Set("ncond", nc)
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if b, isC := res[0].ConstBool(); isC {
			if cd := st.Get("cond"); cd != nil {
				verdict(x, cd, b, p.InstrPos(in))
			} else if cd := st.Get("ncond"); cd != nil {
				verdict(x, cd, !b, p.InstrPos(in))
			} else {
				r.Bad("expiry", fn+" constant", p.InstrPos(in), fn+" always returns the same")
			}
			return
		}
		verdict(x, res[0], true, p.InstrPos(in))
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
}

func walkCalls(t *Term, f func(string)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "call" {
			f(t.Name)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
}

func hasConst(t *Term, v float64) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if n, ok := constNum(t); ok && n == v {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// lifetime: cycles without a publish request count, and the limit ends the subscription.
func (c *p27) lifetime() {
	p, r := c.p, c.r
	for _, f := range p.Funcs {
		if f.Pkg != c.srv || RecvType(f) != "server.Subscription" {
			continue
		}
		takes := false
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "server.Session.removePublishRequest" {
				takes = true
			}
		})
		if !takes {
			continue
		}
		f := f
		fn := FuncName(f)
		h := Hooks{MaxDepth: 4}
		h.Inline = func(g *ssa.Function) bool {
			return g != f && (c.prim[g] || RecvType(g) == "server.Subscription" && p.setsField(g, "lifetimeCount", 0) && small(g, 10))
		}
		h.Stable = func(a *Term) bool {
			a = a.Strip()
			return a.Op == "fieldaddr" && (a.Name == "lifetimeCount" || a.Name == "maxLifetimeCount" || a.Name == "items")
		}
		one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Name == "server.Session.removePublishRequest" {
				st.Set("req", res)
			}
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			nc, want := NormCond(cond, taken)
			req := st.Get("req")
			if req != nil && nc.Op == "extract" && nc.Args[0] == req && nc.Name == "4" {
				if want {
					st.Set("taken", nc)
				} else {
					st.Set("idle", nc)
				}
			}
			if nc.Op != "bin" || len(nc.Args) != 2 || !st.Has("counted") {
				return
			}
			op := nc.Name
			a, b := nc.Args[0], nc.Args[1]
			lim := func(t *Term) bool { return t.Strip().HasField("maxLifetimeCount") }
			if lim(a) {
				a, b = b, a
				op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
			}
			if !lim(b) || lim(a) {
				return
			}
			if !want {
				op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
			}
			st.Del("counted")
			switch op {
			case ">=", "==", ">":
				st.Set("dead", nc)
				if op == ">" {
					r.Bad("lifetime", fn+" limit", "-", fn+" lets the subscription live beyond its lifetime count", st.Trace(6)...)
				}
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == "builtin.delete" && registryOf(ci.Instr.(ssa.CallInstruction).Common().Args[0].Type()) == "subscription" {
				st.Set("gone", one(x))
			}
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "lifetimeCount" || TypeName(derefType(fa.X.Type())) != "server.Subscription" {
				return
			}
			if bo, ok := s.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Int64() >= 1 {
					st.Set("counted", one(x))
					st.Set("did", one(x))
					return
				}
			}
			if !st.Has("taken") {
				r.Bad("lifetime", fn+" reset", p.InstrPos(in), fn+" resets the lifetime count although no publish request was taken", st.Trace(6)...)
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			where := p.InstrPos(in)
			if st.Has("idle") && !st.Has("did") {
				r.Bad("lifetime", fn+" count", where, fn+" ends a cycle for which no publish request was queued without counting it", st.Trace(8)...)
			}
			if st.Has("counted") {
				r.Bad("lifetime", fn+" test", where, fn+" counts a cycle without testing the count against its limit", st.Trace(8)...)
			}
			if st.Has("dead") && !st.Has("gone") {
				r.Bad("lifetime", fn+" end", where, fn+" reaches the lifetime count of the subscription and does not remove it", st.Trace(8)...)
			}
			if st.Has("gone") && !st.Has("dead") {
				r.Bad("lifetime", fn+" early", where, fn+" removes the subscription although its lifetime is not over", st.Trace(8)...)
			}
			r.Ob("lifetime", fn+" return at "+where)
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

// closed: CloseSession.
func (c *p27) closed() {
	p, r := c.p, c.r
	f := p.FuncOpt("server.Server.handleCloseSession")
	if f == nil {
		fail("server.Server.handleCloseSession is missing")
	}
	removes := p.Reach(nil, func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n, _ := CallName(ci.Common())
		return n == "builtin.delete" && registryOf(ci.Common().Args[0].Type()) == "session"
	})
	subRemoves := p.Reach(nil, func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n, _ := CallName(ci.Common())
		return n == "builtin.delete" && registryOf(ci.Common().Args[0].Type()) == "subscription"
	})
	fn := FuncName(f)
	h := Hooks{MaxDepth: 3}
	h.Inline = func(g *ssa.Function) bool {
		return g != f && g.Pkg == c.srv && g.Parent() == nil && RecvType(g) != "server.SessionManager" && RecvType(g) != "server.Subscription" && (subRemoves[g] || removes[g]) && RecvType(g) == "server.Server" && small(g, 15)
	}
	isSubs := func(t *Term) bool {
		return t != nil && t.Op == "call" && t.Typ != nil && t.Typ.String() == "[]*"+c.srv.Pkg.Path()+".Subscription"
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		nc, want := NormCond(cond, taken)
		if nc.Strip().HasField("DeleteSubscriptions") {
			if want {
				st.Set("subs", nc)
			}
			return
		}
		// a turn of the loop over the session's subscriptions
		if nc.Op == "bin" && (nc.Name == "<" || nc.Name == ">") {
			for _, a := range nc.Args {
				if a.IsCall("builtin.len") && isSubs(a.Args[0].Strip()) {
					if st.Has("turn") {
						r.Bad("closed", fn+" turn", "-", fn+" leaves one of the session's subscriptions behind", st.Trace(10)...)
					}
					if want {
						st.Set("turn", nc)
					} else {
						st.Set("swept", nc)
					}
				}
			}
		}
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Fn == nil {
			return
		}
		if ci.Fn.Name() == "Get" && RecvType(ci.Fn) == "server.SessionManager" {
			st.Set("session", res)
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Fn != nil && RecvType(ci.Fn) == "server.SessionManager" && removes[ci.Fn] && len(ci.Args) > 1 {
			st.Set("removed", ci.Args[1])
		}
		if ci.Fn != nil && RecvType(ci.Fn) == "server.SubscriptionManager" && subRemoves[ci.Fn] {
			st.Del("turn")
		}
		if ci.Fn != nil && ci.Name == chWrite && len(ci.Args) > 1 && strings.Contains(respType(ci.Args[1]), "CloseSessionResponse") {
			if !st.Has("removed") {
				r.Bad("closed", fn+" session", p.InstrPos(ci.Instr), fn+" confirms that the session is closed without removing it", st.Trace(10)...)
			} else {
				r.Ob("closed", fn+" removes the session")
			}
			if st.Has("subs") && !st.Has("swept") {
				r.Bad("closed", fn+" subscriptions", p.InstrPos(ci.Instr), fn+" was asked to delete the subscriptions of the session and does not visit them all", st.Trace(10)...)
			} else if st.Has("subs") {
				r.Ob("closed", fn+" removes the subscriptions")
			}
			if st.Has("turn") {
				r.Bad("closed", fn+" turn", p.InstrPos(ci.Instr), fn+" leaves one of the session's subscriptions behind", st.Trace(10)...)
			}
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
	// the queue of a closed session
	q := p.FuncOpt("server.Session.removePublishRequest")
	if q == nil {
		fail("server.Session.removePublishRequest is missing")
	}
	h2 := Hooks{MaxDepth: 2}
	h2.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if isNilT(a) {
			a, b = b, a
		}
		if isNilT(b) && !eq && (mentions(a, "authenticationToken") || a.Strip().IsCall("server.Session.AuthenticationToken")) {
			st.Set("alive", a)
		}
	}
	h2.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if len(res) < 5 {
			return
		}
		if b, isC := res[4].ConstBool(); isC && !b {
			r.Ob("closed", "no request taken")
			return
		}
		if st.Has("alive") {
			r.Ob("closed", "a request taken belongs to an open session")
		} else {
			r.Bad("closed", FuncName(q), p.InstrPos(in), FuncName(q)+" hands out a publish request without knowing that its session is still open", st.Trace(8)...)
		}
	}
	x2 := NewExec(p, h2)
	x2.Run(q, nil)
	r.Saw(x2)
}
