package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", "Typestate over all paths of the services that reach nodes: the permission checks a path has passed are recorded per node (identified by the lookup it came from) and per session identity; every disclosure or effect must be covered by the check it requires on the same node for the session of the request. The permission functions themselves are explored against their definition.", runP14)
}

type permGuard struct {
	p       *Program
	r       *Report
	perm    map[string]string // constant value -> permission name
	lvl     map[string]string // constant value -> access level bit
	attrVal string
}

func newPermGuard(p *Program, r *Report) *permGuard {
	g := &permGuard{p: p, r: r, perm: map[string]string{}, lvl: map[string]string{}}
	for _, n := range []string{"Browse", "ReadRolePermissions", "WriteAttribute", "WriteRolePermissions", "WriteHistorizing", "Read", "Write", "ReadHistory", "ReceiveEvents", "Call"} {
		g.perm[itoa(int(p.constVal("ua", "PermissionType"+n)))] = n
	}
	for _, n := range []string{"CurrentRead", "CurrentWrite", "HistoryRead"} {
		g.lvl[itoa(int(p.constVal("ua", "AccessLevels"+n)))] = n
	}
	g.attrVal = itoa(int(p.constVal("ua", "AttributeIDValue")))
	return g
}

// nodeOf strips type assertions and conversions: the looked-up node.
func nodeOf(t *Term) *Term {
	for t != nil {
		t = t.Strip()
		switch {
		case t.Op == "assert":
			t = t.Args[0]
		case t.Op == "extract" && t.Name == "0" && t.Args[0].Op == "assert":
			t = t.Args[0].Args[0]
		default:
			return t
		}
	}
	return t
}

// callerIdentity: the term is the user identity of the session of the request.
func (g *permGuard) callerIdentity(st *State, t *Term) bool {
	t = t.Strip()
	if t.Op != "call" || t.Name != "server.Session.UserIdentity" || len(t.Args) == 0 {
		return false
	}
	return g.callerSession(t.Args[0])
}

func (g *permGuard) callerSession(s *Term) bool {
	s = s.Strip()
	if isSessionOf(s) {
		return true
	}
	if s.Op == "param" && (s.F == nil || s.F.parent == nil) && s.V != nil && TypeName(derefType(s.V.Type())) == "server.Session" {
		return true
	}
	return s.Op == "free"
}

const nodeIface = "UserRolePermissions"

func isNodeMethod(name, m string) bool {
	return strings.HasPrefix(name, "server.") && strings.HasSuffix(name, "."+m) && (strings.Contains(name, "Node."))
}

func (g *permGuard) rolePerms(st *State, t *Term) (node *Term, ok bool) {
	t = t.Strip()
	if t.Op != "call" || !isNodeMethod(t.Name, nodeIface) || len(t.Args) < 2 || !g.callerIdentity(st, t.Args[1]) {
		return nil, false
	}
	return nodeOf(t.Args[0]), true
}

func gkey(node *Term, what string) string { return "g:" + itoa(termID(node)) + ":" + what }

func (g *permGuard) has(st *State, node *Term, what string) bool {
	return st.Has(gkey(nodeOf(node), what))
}

func (g *permGuard) branch(x *Exec, st *State, cond *Term, taken bool) {
	c, tk := NormCond(cond, taken)
	c = c.Strip()
	set := func(node *Term, what string) {
		if node != nil && what != "" {
			st.Set(gkey(node, what), x.Flag())
		}
	}
	if c.Op == "call" && tk {
		switch {
		case c.Name == "server.IsUserPermitted" && len(c.Args) == 2:
			if n, ok := g.rolePerms(st, c.Args[0]); ok {
				if k, ok := numConst(c.Args[1].Strip()); ok {
					set(n, g.perm[itoa(int(k))])
				}
			}
		case isNodeMethod(c.Name, "UserExecutable") && len(c.Args) == 2 && g.callerIdentity(st, c.Args[1]):
			set(nodeOf(c.Args[0]), "Execute")
		}
	}
	a, b, eq, ok := CmpOf(cond, taken)
	if !ok {
		return
	}
	if a.IsConst() {
		a, b = b, a
	}
	a, b = a.Strip(), b.Strip()
	if lastField(a) == "AttributeID" || lastField(a) == "attributeId" {
		if k, ok := numConst(b); ok {
			st.Del("attrV")
			if eq && itoa(int(k)) == g.attrVal {
				st.Set("attr", x.T.mk("const", "value", nil, nil, nil, nil))
			} else if !eq && itoa(int(k)) == g.attrVal || eq {
				st.Set("attr", x.T.mk("const", "other", nil, nil, nil, nil))
			}
		}
		return
	}
	if a.Op == "bin" && a.Name == "&" {
		u, m := a.Args[0].Strip(), a.Args[1].Strip()
		if u.IsConst() {
			u, m = m, u
		}
		k, ok1 := numConst(m)
		z, ok2 := numConst(b)
		if !ok1 || !ok2 || u.Op != "call" || len(u.Args) < 2 || !isNodeMethod(u.Name, "UserAccessLevel") || !g.callerIdentity(st, u.Args[1]) {
			return
		}
		if z == 0 && !eq || z == k && z != 0 && eq {
			set(nodeOf(u.Args[0]), "Level"+g.lvl[itoa(int(k))])
		}
	}
}

// looked-up nodes are new with every lookup.
func (g *permGuard) after(x *Exec, st *State, ci *CallInfo, res *Term) {
	if !strings.HasSuffix(ci.Name, ".FindNode") && !strings.HasSuffix(ci.Name, "FindObject") && !strings.HasSuffix(ci.Name, "FindVariable") && !strings.HasSuffix(ci.Name, "FindMethod") {
		return
	}
	e := x.T.mk("extract", "0", []*Term{res}, nil, nil, nil)
	pre := "g:" + itoa(termID(e)) + ":"
	for k := range st.A {
		if strings.HasPrefix(k, pre) {
			st.Del(k)
		}
	}
	for k := range st.A {
		if strings.HasPrefix(k, "g:") && g.derived(x, k, res) {
			st.Del(k)
		}
	}
}

func (g *permGuard) derived(x *Exec, k string, res *Term) bool {
	id := strings.SplitN(k, ":", 3)[1]
	t := x.T.list[atoi(id)-1]
	return t == res || t.Op == "extract" && t.Args[0] == res
}

func runP14(p *Program, r *Report) {
	r.Rule("use: a value is read (handler or stored value) only with user access level CurrentRead, written only with CurrentWrite, a method called only when executable by the user, attributes and references disclosed only with permission Browse, role permissions only with ReadRolePermissions, Historizing changed only with WriteHistorizing, data monitored only with CurrentRead (or Browse for other attributes), events monitored only with ReceiveEvents, history read only with permission to read history - on the same node, for the identity of the session of the request")
	r.Rule("identity: readValue and writeValue are called with the session of the request or of the subscription")
	r.Rule("permission: UserRolePermissions contains only permissions of roles of the given identity, the node's own or (without own ones) the server's defaults; IsUserPermitted, UserAccessLevel and UserExecutable grant nothing else")
	r.Rule("roles: a role is granted only by a rule whose identity criteria match, and no rule is skipped because an earlier one does not apply")
	r.Rule("diagnostics: session security diagnostics are disclosed only to authenticated users over an encrypted channel")
	g := newPermGuard(p, r)
	g.uses()
	g.identity()
	g.permissionFns()
	g.roles()
	g.secDiag()
	r.Min("use", 30)
	r.Min("identity", 4)
	r.Min("permission", 11)
	r.Min("roles", 5)
	r.Min("diagnostics", 4)
}

var p14Attr = map[string]bool{"BrowseName": true, "DisplayName": true, "Description": true, "References": true, "Value": true, "DataType": true,
	"Symmetric": true, "InverseName": true, "IsAbstract": true, "ContainsNoLoops": true, "Executable": true, "DataTypeDefinition": true}

func (g *permGuard) uses() {
	p, r := g.p, g.r
	roots := []string{"readValue", "writeValue", "handleBrowse", "handleTranslateBrowsePathsToNodeIds", "handleCall", "handleCreateMonitoredItems", "handleHistoryRead", "handleRead", "handleWrite"}
	touches := p.Reach(func(name string, in ssa.CallInstruction) bool {
		return name == "server.IsUserPermitted" || strings.HasPrefix(name, "server.") && (strings.HasSuffix(name, ".UserAccessLevel") || strings.HasSuffix(name, ".UserRolePermissions") || strings.HasSuffix(name, ".UserExecutable") ||
			strings.HasSuffix(name, "Node.SetValue") || strings.HasSuffix(name, "Node.Value") || strings.HasSuffix(name, "Node.References") || strings.HasSuffix(name, "Node.BrowseName"))
	}, nil)
	for _, rn := range roots {
		fn := p.FuncOpt("server.Server." + rn)
		if fn == nil {
			fail("server.Server.%s not found", rn)
		}
		h := Hooks{MaxDepth: 7}
		h.Inline = func(f *ssa.Function) bool {
			if f.Pkg != fn.Pkg && (f.Parent() == nil || f.Parent().Pkg != fn.Pkg) {
				return false
			}
			switch f.Name() {
			case "readValue", "writeValue":
				return false
			}
			rt := RecvType(f)
			if strings.HasSuffix(rt, "Node") || rt == "server.NamespaceManager" || rt == "server.Session" || rt == "server.SessionManager" ||
				strings.HasSuffix(rt, "MonitoredItem") || rt == "server.Subscription" || rt == "server.serverSecureChannel" || rt == "server.SubscriptionManager" {
				return false
			}
			if f.Name() == "IsUserPermitted" || strings.HasPrefix(f.Name(), "New") {
				return false
			}
			return touches[f]
		}
		h.OnBranch = g.branch
		h.AfterCall = g.after
		// readRange/writeRange walk the value for every type: not needed
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			g.use(x, st, ci, rn)
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			g.useInstr(x, st, in, rn)
		}
		x := NewExec(p, h)
		x.Run(fn, nil)
		r.Saw(x)
	}
}

func (g *permGuard) need(st *State, in ssa.Instruction, root, what string, node *Term, anyOf ...string) {
	g.r.Ob("use", root+": "+what+" @"+g.p.InstrPos(in))
	for _, a := range anyOf {
		ok := true
		for _, b := range strings.Split(a, "+") {
			ok = ok && g.has(st, node, b)
		}
		if ok {
			return
		}
	}
	g.r.Bad("use", root+"/"+what, g.p.InstrPos(in), what+" is reached on a path that did not check "+strings.Join(anyOf, " or ")+" for this node and the session's user", st.Trace(8)...)
}

func (g *permGuard) use(x *Exec, st *State, ci *CallInfo, root string) {
	if len(ci.Args) == 0 {
		return
	}
	n := ci.Args[0]
	short := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
	isNode := strings.HasPrefix(ci.Name, "server.") && strings.HasSuffix(strings.TrimSuffix(ci.Name, "."+short), "Node")
	switch {
	case isNode && short == "getReadValueHandler":
		g.need(st, ci.Instr, root, "the read handler of a variable", n, "LevelCurrentRead+Browse")
	case ci.Name == "server.VariableNode.Value":
		g.need(st, ci.Instr, root, "the value of a variable", n, "LevelCurrentRead+Browse", "LevelCurrentWrite+Browse")
	case isNode && (short == "getWriteValueHandler" || short == "SetValue"):
		g.need(st, ci.Instr, root, "writing a variable ("+short+")", n, "LevelCurrentWrite+Browse")
	case isNode && short == "SetHistorizing":
		g.need(st, ci.Instr, root, "changing Historizing", n, "WriteHistorizing+Browse")
	case isNode && short == "getCallMethodHandler":
		g.need(st, ci.Instr, root, "calling a method", n, "Execute+Browse")
	case isNode && short == "RolePermissions":
		g.need(st, ci.Instr, root, "the role permissions of a node", n, "ReadRolePermissions+Browse")
	case isNode && p14Attr[short]:
		if root == "handleCreateMonitoredItems" || root == "writeValue" {
			return // consulted to judge the request, not returned
		}
		g.need(st, ci.Instr, root, "attribute "+short, n, "Browse")
	case ci.Name == "server.NewDataChangeMonitoredItem" && len(ci.Args) > 1:
		at := ""
		if t := st.Get("attr"); t != nil {
			at = t.Name
		}
		switch at {
		case "value":
			g.need(st, ci.Instr, root, "monitoring a value", ci.Args[1], "LevelCurrentRead")
		case "other":
			g.need(st, ci.Instr, root, "monitoring an attribute", ci.Args[1], "Browse", "LevelCurrentRead")
		default:
			g.need(st, ci.Instr, root, "monitoring a value or attribute", ci.Args[1], "LevelCurrentRead+Browse")
		}
	case ci.Name == "server.NewEventMonitoredItem" && len(ci.Args) > 1:
		g.need(st, ci.Instr, root, "monitoring events", ci.Args[1], "ReceiveEvents")
	case strings.HasPrefix(ci.Name, "server.HistoryRead") && strings.HasPrefix(short, "Read"):
		g.r.Ob("use", root+": history "+short)
		ok := false
		for k := range st.A {
			if strings.HasPrefix(k, "g:") && (strings.HasSuffix(k, ":ReadHistory") || strings.HasSuffix(k, ":LevelHistoryRead")) {
				ok = true
			}
		}
		if !ok {
			g.r.Bad("use", root+"/"+short, g.p.InstrPos(ci.Instr), "the history of the requested nodes is read ("+short+") without checking that the session's user may read it", st.Trace(6)...)
		}
	}
}

func (g *permGuard) useInstr(x *Exec, st *State, in ssa.Instruction, root string) {
	switch v := in.(type) {
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "Node") {
			return
		}
		f := fieldName(derefType(fa.X.Type()), fa.Field)
		n := x.Val(st, fa.X)
		switch f {
		case "readValueHandler":
			g.need(st, in, root, "the read handler of a variable", n, "LevelCurrentRead+Browse")
		case "value":
			g.need(st, in, root, "the value of a variable", n, "LevelCurrentRead+Browse", "LevelCurrentWrite+Browse")
		case "writeValueHandler":
			g.need(st, in, root, "writing a variable", n, "LevelCurrentWrite+Browse")
		case "callMethodHandler":
			g.need(st, in, root, "calling a method", n, "Execute+Browse")
		}
	case *ssa.Store:
		fa, ok := v.Addr.(*ssa.FieldAddr)
		if !ok || TypeName(derefType(fa.X.Type())) != "ua.ReferenceDescription" || fieldName(derefType(fa.X.Type()), fa.Field) != "NodeID" {
			return
		}
		id := x.Val(st, v.Val).Strip()
		g.r.Ob("use", root+": reference target @"+g.p.InstrPos(in))
		for k := range st.A {
			if !strings.HasPrefix(k, "g:") || !strings.HasSuffix(k, ":Browse") {
				continue
			}
			nid := strings.SplitN(k, ":", 3)[1]
			if x.T.list[atoi(nid)-1].Contains(func(u *Term) bool { return u == id }) {
				return
			}
		}
		g.r.Bad("use", root+"/reference target", g.p.InstrPos(in), "a reference is disclosed although its target was not checked for permission Browse", st.Trace(8)...)
	}
}

// identity: who calls readValue and writeValue with which session.
func (g *permGuard) identity() {
	p, r := g.p, g.r
	for _, fn := range p.Funcs {
		hit := false
		EachCall(fn, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
			hit = hit || name == "server.Server.readValue" || name == "server.Server.writeValue"
		})
		if !hit {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		h := Hooks{MaxDepth: 3}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name != "server.Server.readValue" && ci.Name != "server.Server.writeValue" {
				return ActDefault
			}
			r.Ob("identity", FuncName(fn)+" @"+p.InstrPos(ci.Instr))
			s := ci.Args[1].Strip()
			ok := isSessionOf(s)
			if s.IsCall("server.Subscription.Session") {
				// the subscription of the item itself
				b := s.Args[0].Strip()
				ok = lastField(b) == "sub" || b.Op == "call" && strings.HasSuffix(b.Name, ".Subscription")
				if b.Op == "phi" || b.Op == "param" {
					ok = false
				}
			}
			if lastField(s) == "session" && s.Contains(func(u *Term) bool { return lastField(u) == "sub" }) {
				ok = true
			}
			if !ok {
				r.Bad("identity", FuncName(fn), p.InstrPos(ci.Instr), "the value is read or written for a session that is neither that of the request nor that of the item's subscription", st.Trace(5)...)
			}
			return ActDefault
		}
		x := NewExec(p, h)
		x.Run(root, nil)
		r.Saw(x)
	}
}

// permissionFns explores the functions that compute permissions.
func (g *permGuard) permissionFns() {
	p, r := g.p, g.r
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		rt := RecvType(fn)
		switch {
		case fn.Name() == "UserRolePermissions" && strings.HasSuffix(rt, "Node"):
			g.permFn(fn, "list")
		case fn.Name() == "UserAccessLevel" && strings.HasSuffix(rt, "Node"):
			g.permFn(fn, "level")
		case fn.Name() == "UserExecutable" && strings.HasSuffix(rt, "Node"):
			g.permFn(fn, "exec")
		}
	}
	fn := p.Func("server.IsUserPermitted")
	h := Hooks{MaxDepth: 4, Inline: func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() {
			a, b = b, a
		}
		a = a.Strip()
		z, isZ := numConst(b.Strip())
		if a.Op != "bin" || a.Name != "&" {
			return
		}
		perm, mask := a.Args[0].Strip(), a.Args[1].Strip()
		if lastField(mask) == "Permissions" {
			perm, mask = mask, perm
		}
		if lastField(perm) == "Permissions" && isParamN(mask, 1) && (isZ && z == 0 && !eq || b.Strip() == mask && eq) && perm.Contains(func(u *Term) bool { return isParamN(u, 0) }) {
			st.Set("match", x.Flag())
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		r.Ob("permission", "IsUserPermitted")
		b, ok := res[0].Strip().ConstBool()
		if !ok { // the returned condition itself decides: consider it true
			h.OnBranch(x, st, res[0], true)
			b = !accumulated(fn, res[0])
		}
		if b && !st.Has("match") {
			r.Bad("permission", "IsUserPermitted", p.InstrPos(in), "IsUserPermitted grants a permission no entry of the list contains", st.Trace(4)...)
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func (g *permGuard) permFn(fn *ssa.Function, kind string) {
	p, r := g.p, g.r
	name := FuncName(fn)
	r.Ob("permission", name)
	h := Hooks{MaxDepth: 5}
	h.Inline = func(f *ssa.Function) bool {
		n := FuncName(f)
		return f.Pkg == fn.Pkg && n != "server.Server.GetRoles" && !strings.HasSuffix(n, ".RolePermissions") && n != "server.IsUserPermitted" && f.Name() != nodeIface
	}
	// origin of a permission entry: own, default
	fromList := func(t *Term, what string) bool {
		return t.Contains(func(u *Term) bool { return u.IsCall(what) || u.Op == "call" && strings.HasSuffix(u.Name, what) })
	}
	isRole := func(t *Term) bool {
		return t.Contains(func(u *Term) bool {
			return u.IsCall("server.Server.GetRoles", "server.RolesProvider.GetRoles") && isParamN(u.Args[1], 1)
		})
	}
	own := rt(fn) + ".RolePermissions"
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if c.Strip().Op == "field" || c.Strip().Op == "load" {
			if lastField(c.Strip()) == "executable" && tk {
				st.Set("executable", x.Flag())
			}
		}
		if cc := c.Strip(); cc.IsCall("server.IsUserPermitted") && tk && len(cc.Args) == 2 {
			// the list of this node for this user is checked on its own
			l := cc.Args[0].Strip()
			k, isK := numConst(cc.Args[1].Strip())
			if isK && l.IsCall(rt(fn)+"."+nodeIface) && isParamN(l.Args[0], 0) && isParamN(l.Args[1], 1) {
				st.Set("has:"+g.perm[itoa(int(k))], x.Flag())
				st.Set("rolesok", x.Flag())
			}
		}
		if c.Strip().Op == "call" && strings.HasSuffix(c.Strip().Name, ".Executable") && tk {
			st.Set("executable", x.Flag())
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() {
			a, b = b, a
		}
		a, b = a.Strip(), b.Strip()
		switch {
		case b.IsNil() && (a.IsCall(own) || lastField(a) == "rolePermissions"):
			if eq {
				st.Set("noown", x.Flag())
			}
		case b.IsNil() && a.Op == "extract" && a.Name == "1" && isRole(a):
			if eq {
				st.Set("rolesok", x.Flag())
			}
		case lastField(a) == "RoleID" || lastField(b) == "RoleID":
			if lastField(b) == "RoleID" {
				a, b = b, a
			}
			if eq && isRole(b) {
				st.Set("entry", entryOf(a))
			} else {
				st.Del("entry")
			}
		case a.Op == "bin" && a.Name == "&":
			u, m := a.Args[0].Strip(), a.Args[1].Strip()
			if u.IsConst() {
				u, m = m, u
			}
			k, ok1 := numConst(m)
			z, ok2 := numConst(b)
			if lastField(u) == "Permissions" && ok1 && ok2 && (z == 0 && !eq || z == k && z != 0 && eq) {
				if e := st.Get("entry"); e != nil && e == entryOf(u) {
					st.Set("has:"+g.perm[itoa(int(k))], x.Flag())
					g.entryOrigin(st, u, own, name, fromList, kind)
				}
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if kind == "list" && ci.Name == "builtin.append" && len(ci.Args) > 1 {
			// the appended entries
			var el *Term
			s := ci.Args[1].Strip()
			if s.Op == "slice" {
				for a, c := range st.Mem {
					if a.Op == "indexaddr" && a.Args[0] == s.Args[0].Strip() {
						el = c
					}
				}
			}
			e := st.Get("entry")
			if el == nil || e == nil || entryOf(el) != e && el.Strip() != e {
				r.Bad("permission", name+"/entry", p.InstrPos(ci.Instr), name+" lists a permission whose role is not one of the user's", st.Trace(6)...)
			} else {
				g.entryOrigin(st, el, own, name, fromList, kind)
			}
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		v := res[0].Strip()
		switch kind {
		case "exec":
			b, ok := v.ConstBool()
			if !ok { // the returned condition itself decides: consider it true
				h.OnBranch(x, st, v, true)
				b = true
			}
			if b && (!st.Has("executable") || !st.Has("has:Call") || !st.Has("rolesok")) {
				r.Bad("permission", name, p.InstrPos(in), name+" is true on a path that did not find the method executable and permission Call for a role of the user", st.Trace(6)...)
			}
		case "level":
			need := map[string]string{"CurrentRead": "Read", "CurrentWrite": "Write", "HistoryRead": "ReadHistory"}
			if k, ok := numConst(v); ok && k == 0 {
				return
			}
			cleared := int64(0)
			t := v
			for t.Op == "bin" && (t.Name == "&^" || t.Name == "&") {
				k, ok := numConst(t.Args[1].Strip())
				if !ok {
					break
				}
				if t.Name == "&^" {
					cleared |= k
				} else {
					cleared |= ^k & 0xff
				}
				t = t.Args[0].Strip()
			}
			if lastField(t) != "accessLevel" && !(t.Op == "call" && strings.HasSuffix(t.Name, ".AccessLevel")) {
				r.Bad("permission", name+"/base", p.InstrPos(in), name+" is not derived from the node's access level", st.Trace(6)...)
				return
			}
			for bit, n := range g.lvl {
				k := int64(atoi(bit))
				if cleared&k != 0 {
					continue
				}
				if !st.Has("has:"+need[n]) || !st.Has("rolesok") {
					r.Bad("permission", name+"/"+n, p.InstrPos(in), name+" leaves "+n+" on a path that did not find permission "+need[n]+" for a role of the user", st.Trace(6)...)
				}
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func rt(fn *ssa.Function) string { return RecvType(fn) }

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// entryOf: the list element whose field the term is.
func entryOf(t *Term) *Term {
	t = t.Strip()
	if t.Op == "field" && (t.Name == "RoleID" || t.Name == "Permissions") {
		return t.Args[0].Strip()
	}
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" {
		return t.Args[0].Args[0].Strip()
	}
	return t
}

func (g *permGuard) entryOrigin(st *State, t *Term, own, name string, from func(*Term, string) bool, kind string) {
	isOwn := from(t, own) || t.Contains(func(u *Term) bool {
		return lastField(u) == "rolePermissions" && !u.Contains(func(w *Term) bool { return lastField(w) == "server" })
	})
	isDef := from(t, "server.Server.RolePermissions")
	if isDef && !st.Has("noown") {
		g.r.Bad("permission", name+"/default", "-", name+" uses the server's default permissions although the node has its own", st.Trace(6)...)
	}
	if !isOwn && !isDef {
		g.r.Bad("permission", name+"/origin", "-", name+" uses permissions that are neither the node's nor the server's defaults", st.Trace(6)...)
	}
}

// roles: the rules based provider.
func (g *permGuard) roles() {
	p, r := g.p, g.r
	fn := p.Func("server.RulesBasedRolesProvider.GetRoles")
	crit := map[string]string{}
	for _, n := range []string{"UserName", "Thumbprint", "Role", "GroupID", "Anonymous", "AuthenticatedUser"} {
		if c := p.SSA["ua"].Const("IdentityCriteriaType" + n); c != nil {
			crit[c.Value.Value.ExactString()] = n
		}
	}
	h := Hooks{MaxDepth: 4, Inline: func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		c = c.Strip()
		if c.Op == "extract" && c.Name == "1" && c.Args[0].Op == "assert" && tk && isParamN(c.Args[0].Args[0], 1) {
			st.Set("idtype", x.T.mk("const", TypeName(assertedType(c.Args[0])), nil, nil, nil, nil))
			return
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() {
			a, b = b, a
		}
		a, b = a.Strip(), b.Strip()
		if lastField(a) == "CriteriaType" {
			if k := crit[b.Name]; eq && k != "" {
				st.Set("crit", x.T.mk("const", k, nil, nil, nil, nil))
				st.Del("critval")
			} else if eq {
				st.Del("crit")
			}
		}
		if lastField(b) == "Criteria" {
			a, b = b, a
		}
		if lastField(a) == "Criteria" && eq {
			st.Set("critval", b)
		}
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		// a new rule or identity: forget
		for _, pr := range to.Preds {
			if to.Dominates(pr) {
				st.Del("crit")
				st.Del("critval")
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name != "builtin.append" {
			return ActDefault
		}
		get := func(k string) string {
			if t := st.Get(k); t != nil {
				return t.Name
			}
			return ""
		}
		id, c := get("idtype"), get("crit")
		r.Ob("roles", id+" by "+c)
		good := false
		switch id {
		case "ua.AnonymousIdentity":
			good = c == "Anonymous"
		case "ua.UserNameIdentity":
			v := st.Get("critval")
			good = c == "AuthenticatedUser" || c == "UserName" && v != nil && lastField(v) == "UserName"
		case "ua.X509Identity":
			v := st.Get("critval")
			good = c == "AuthenticatedUser" || c == "Thumbprint" && v != nil
		case "ua.IssuedIdentity":
			good = c == "AuthenticatedUser"
		}
		if !good {
			r.Bad("roles", "grant/"+id+"/"+c, p.InstrPos(ci.Instr), "a role is granted to a "+id+" without a matching identity criterion", st.Trace(8)...)
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
	// no early exit of the rule loop
	for _, b := range fn.Blocks {
		if !isLoopHeaderOver(b, "identityMappingRules") {
			continue
		}
		r.Ob("roles", "all rules")
		body := map[*ssa.BasicBlock]bool{}
		for _, pr := range b.Preds {
			if b.Dominates(pr) {
				for k := range loopBody(b, pr) {
					body[k] = true
				}
			}
		}
		for in := range body {
			if in == b {
				continue
			}
			for _, s := range in.Succs {
				if !body[s] && !alwaysErrors(s) {
					r.Bad("roles", "skip", p.InstrPos(in.Instrs[len(in.Instrs)-1]), "the remaining role mapping rules are skipped")
				}
			}
		}
	}
}

func assertedType(t *Term) types.Type {
	if ta, ok := t.V.(*ssa.TypeAssert); ok {
		return ta.AssertedType
	}
	return t.Typ
}

// isLoopHeaderOver: the loop ranges over the named field (the bound is its length).
func isLoopHeaderOver(b *ssa.BasicBlock, field string) bool {
	hdr := false
	for _, pr := range b.Preds {
		hdr = hdr || b.Dominates(pr)
	}
	if !hdr || len(b.Instrs) == 0 {
		return false
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{cmp.X, cmp.Y} {
		c, ok := o.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			continue
		}
		if u, ok := c.Call.Args[0].(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(derefType(fa.X.Type()), fa.Field) == field {
				return true
			}
		}
	}
	return false
}

// alwaysErrors: the block returns a non-nil error.
func alwaysErrors(b *ssa.BasicBlock) bool {
	for n := 0; n < 4; n++ {
		last := b.Instrs[len(b.Instrs)-1]
		switch v := last.(type) {
		case *ssa.Return:
			e := v.Results[len(v.Results)-1]
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				return false
			}
			return true
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

// secDiag: handlers that disclose the security data of a session.
func (g *permGuard) secDiag() {
	p, r := g.p, g.r
	secret := map[string]bool{"clientUserIdOfSession": true, "clientUserIdHistory": true, "authenticationMechanism": true, "clientCertificate": true, "securityMode": true, "securityPolicyURI": true}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 ||
			TypeName(fn.Signature.Results().At(0).Type()) != "ua.DataValue" || TypeName(derefType(fn.Signature.Params().At(0).Type())) != "server.Session" {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && secret[fieldName(derefType(fa.X.Type()), fa.Field)] && TypeName(derefType(fa.X.Type())) == "server.Session" {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		mode := itoa(int(p.constVal("ua", "MessageSecurityModeSignAndEncrypt")))
		h := Hooks{MaxDepth: 4, Inline: func(f *ssa.Function) bool {
			return f.Pkg == fn.Parent().Pkg && RecvType(f) != "server.Session" && FuncName(f) != "server.Server.GetRoles"
		}}
		isReader := func(t *Term) bool { return isParamN(t, 0) }
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok || !eq {
				return
			}
			if a.IsConst() {
				a, b = b, a
			}
			a, b = a.Strip(), b.Strip()
			if k, ok := numConst(b); ok && itoa(int(k)) == mode && a.IsCall("server.Session.SecurityMode") && isReader(a.Args[0]) {
				st.Set("mode", x.Flag())
			}
			for _, q := range [][2]*Term{{a, b}, {b, a}} {
				if q[0].Contains(func(u *Term) bool {
					return u.IsCall("server.Server.GetRoles") && u.Args[1].Strip().IsCall("server.Session.UserIdentity") && isReader(u.Args[1].Strip().Args[0])
				}) && q[1].Contains(func(u *Term) bool {
					return u.Op == "global" && strings.Contains(u.Name, "WellKnownRole") && !strings.HasSuffix(u.Name, "Anonymous")
				}) {
					st.Set("role", x.Flag())
				}
			}
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok {
				return
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || !secret[fieldName(derefType(fa.X.Type()), fa.Field)] || TypeName(derefType(fa.X.Type())) != "server.Session" {
				return
			}
			f := fieldName(derefType(fa.X.Type()), fa.Field)
			r.Ob("diagnostics", f+" @"+p.InstrPos(in))
			if !st.Has("mode") || !st.Has("role") {
				r.Bad("diagnostics", FuncName(fn)+"/"+f, p.InstrPos(in), "the "+f+" of a session is disclosed without checking the reader's role and that its channel is encrypted", st.Trace(6)...)
			}
		}
		x := NewExec(p, h)
		x.Run(fn, nil)
		r.Saw(x)
	}
}

// accumulated: a boolean carried around the loop that is only ever false or
// the test of an entry's permissions against the requested one.
func accumulated(fn *ssa.Function, t *Term) bool {
	phi, ok := t.Strip().V.(*ssa.Phi)
	if !ok || phi.Parent() != fn {
		return false
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && v.Value.ExactString() == "false"
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			and, ok := v.X.(*ssa.BinOp)
			z, ok2 := v.Y.(*ssa.Const)
			if v.Op != token.NEQ || !ok || !ok2 || z.Value == nil || z.Value.ExactString() != "0" || and.Op != token.AND {
				return false
			}
			perm, mask := and.X, and.Y
			if perm == ssa.Value(fn.Params[1]) {
				perm, mask = mask, perm
			}
			if mask != ssa.Value(fn.Params[1]) {
				return false
			}
			switch u := perm.(type) {
			case *ssa.UnOp:
				fa, ok := u.X.(*ssa.FieldAddr)
				return ok && fieldName(derefType(fa.X.Type()), fa.Field) == "Permissions"
			case *ssa.Field:
				return fieldName(u.X.Type(), u.Field) == "Permissions"
			}
		}
		return false
	}
	return walk(phi)
}
