package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P13", "Typestate over all paths of the client's session establishment and endpoint selection: at the sending of the activation request the path must have compared the server's certificate, verified its signature and built the identity token as the token policy demands; the endpoint stored for the channel must have passed the comparisons with the requested policy and mode.", runP13)
}

type p13 struct {
	authTrack
	r *Report
}

func runP13(p *Program, r *Report) {
	r.Rule("certificate: the activation is sent only after the certificate in the CreateSession response was found equal to that of the selected endpoint")
	r.Rule("server-signature: on secured policies the activation is sent only after the server's signature over the client's certificate and fresh nonce verified with the key of the channel's remote certificate")
	r.Rule("client-signature: on secured policies the request is signed with the client's key over server certificate and server nonce")
	r.Rule("token: the identity token is of the kind of the user's identity and names a policy of that kind offered by the selected endpoint")
	r.Rule("secret: a password or issued token leaves in plain text only when the policy of the token (or, without one, the channel) is None; else it is encrypted, together with the server's nonce, with the key of the channel's remote certificate; a user certificate is accompanied by a signature of its key over server certificate and server nonce")
	r.Rule("endpoint: the selected endpoint has the requested policy and mode; None replaces an open request only without client certificate; of several the one with the highest security level is taken; the channel is created with the policy, mode and certificate of that endpoint")
	c := &p13{authTrack{p}, r}
	c.open()
	c.dial()
	r.Min("certificate", 1)
	r.Min("server-signature", 1)
	r.Min("client-signature", 1)
	r.Min("token", 4)
	r.Min("secret", 3)
	r.Min("endpoint", 4)
}

func (c *p13) recv(t *Term) bool {
	t = t.Strip()
	return t.Op == "param" && isParamN(t, 0)
}

// resp: the given field path of the CreateSession response.
func (c *p13) resp(t *Term, path ...string) bool {
	if t == nil {
		return false
	}
	t = t.Strip()
	for i := len(path) - 1; i >= 0; i-- {
		if t.Op == "load" {
			t = t.Args[0]
		}
		if (t.Op != "field" && t.Op != "fieldaddr") || t.Name != path[i] {
			return false
		}
		t = t.Args[0].Strip()
	}
	return t.Contains(func(u *Term) bool {
		return u.Op == "call" && strings.HasSuffix(u.Name, ".createSession") || u.Op == "call" && strings.HasSuffix(u.Name, "Channel.Request")
	})
}

// fieldOfRecv: a field reached from the client itself.
func (c *p13) own(t *Term, names ...string) bool {
	f := lastField(t)
	for _, n := range names {
		if f == n && t.Contains(c.recv) && !t.Contains(func(u *Term) bool { return u.Op == "call" }) {
			return true
		}
	}
	return false
}

func (c *p13) polKind(t *Term) string {
	t = t.Strip()
	switch lastField(t) {
	case "securityPolicyURI":
		return "ch"
	case "SecurityPolicyURI":
		if t.Contains(func(u *Term) bool { return lastField(u) == "userTokenPolicies" }) {
			return "tok"
		}
	}
	return ""
}

func (c *p13) isServerCert(t *Term) bool {
	return c.own(t, "serverCertificate", "remoteCertificate") || c.resp(t, "ServerCertificate")
}

func (c *p13) open() {
	p, r := c.p, c.r
	fn := p.Func("client.Client.open")
	touches := p.reachesCall(func(n string) bool {
		return rsaOps[n].verb != "" || strings.HasPrefix(n, "hash.Hash.") || n == "rand.Read" || n == "io.ReadFull" || n == "bytes.Equal" ||
			strings.HasSuffix(n, ".createSession") || strings.HasSuffix(n, ".activateSession") || strings.HasPrefix(n, "ua.SecurityPolicy")
	})
	tt := map[string]string{}
	for k, v := range p12Kinds {
		tt[itoa(int(p.constVal("ua", v[0])))] = k
	}
	h := Hooks{MaxDepth: 6}
	h.Inline = func(f *ssa.Function) bool {
		if f.Pkg != fn.Pkg && (f.Parent() == nil || f.Parent().Pkg != fn.Pkg) {
			return false
		}
		if RecvType(f) == "client.clientSecureChannel" || f.Name() == "createSession" || f.Name() == "activateSession" {
			return false
		}
		return touches[f] || accessesType(f, "ua.UserTokenPolicy") || touchesType(f, "ua.SignatureData") || f.Pkg == fn.Pkg && small(f, 1)
	}
	h.Stable = func(a *Term) bool {
		return a.Op == "fieldaddr" && (a.Name == "clientSignature" || a.Name == "identityToken" || a.Name == "identityTokenSignature" || a.Name == "securityPolicyURI")
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		policyFacts(x, st, cond, taken, c.polKind)
		cn, tk := NormCond(cond, taken)
		cn = cn.Strip()
		if cn.Op == "extract" && cn.Name == "1" && cn.Args[0].Op == "assert" && c.own(cn.Args[0].Args[0], "userIdentity") {
			k := strings.TrimSuffix(strings.TrimPrefix(TypeName(assertedType(cn.Args[0])), "ua."), "Identity")
			if tk {
				st.Set("ident", x.T.mk("const", k, nil, nil, nil, nil))
			} else {
				st.Set("ident-:"+k, x.Flag())
			}
		}
		if cn.IsCall("bytes.Equal", "subtle.ConstantTimeCompare") {
			for i := 0; i < 2; i++ {
				if c.own(cn.Args[i], "serverCertificate", "remoteCertificate") && c.resp(cn.Args[1-i], "ServerCertificate") && tk {
					st.Set("cert", x.Flag())
				}
			}
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() || a.IsNil() {
			a, b = b, a
		}
		a, b = a.Strip(), b.Strip()
		if eq && (c.own(a, "serverCertificate", "remoteCertificate") && c.resp(b, "ServerCertificate") || c.own(b, "serverCertificate", "remoteCertificate") && c.resp(a, "ServerCertificate")) {
			st.Set("cert", x.Flag())
		}
		if eq && b.IsNil() {
			if w := st.Get("res:" + itoa(termID(a))); w != nil {
				st.Set("ok:"+w.Name, x.Flag())
			}
		}
		if lastField(a) == "TokenType" && b.IsConst() && a.Contains(func(u *Term) bool { return lastField(u) == "userTokenPolicies" }) {
			k := "tt:" + itoa(termID(elemOf(a)))
			if eq {
				st.Set(k, x.T.mk("const", tt[b.Name], nil, nil, nil, nil))
			} else if w := st.Get(k); w != nil && w.Name == tt[b.Name] {
				st.Del(k) // the index moved on
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		c.call(x, st, ci)
		st.Del("pend")
		if s, ok := c.sig(x, st, ci); ok {
			what := ""
			two := len(s.parts) == 2
			switch {
			case s.verb == "verify" && two && c.own(s.parts[0], "localCertificate") && st.Has("rand:"+itoa(termID(baseOf(s.parts[1])))) &&
				baseOf(s.parts[1]) == st.Get("clientNonce") && c.resp(s.sig, "ServerSignature", "Signature") && c.own(s.key, "remotePublicKey"):
				what = "server"
			case s.verb == "sign" && two && c.isServerCert(s.parts[0]) && c.resp(s.parts[1], "ServerNonce"):
				switch {
				case c.own(s.key, "localPrivateKey"):
					what = "client"
				case lastField(s.key) == "Key" && s.key.Contains(func(u *Term) bool { return c.own(u, "userIdentity") }):
					what = "user"
				}
			}
			if what != "" {
				st.Set("pend", x.T.mk("const", what, nil, nil, nil, nil))
			}
		}
		switch ci.Name {
		case "rand.Read":
			st.Set("rand:"+itoa(termID(baseOf(ci.Args[0]))), x.Flag())
		case "io.ReadFull":
			if ci.Args[0].Contains(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.Name, "rand.Reader") }) {
				st.Set("rand:"+itoa(termID(baseOf(ci.Args[1]))), x.Flag())
			}
		}
		if op, ok := rsaOps[ci.Name]; ok && op.verb == "encrypt" {
			r.Ob("secret", "encryption @"+p.InstrPos(ci.Instr))
			key := ci.Args[op.key].Strip()
			if !c.own(key, "remotePublicKey") {
				r.Bad("secret", "key/"+FuncName(ci.Instr.Parent()), p.InstrPos(ci.Instr), "the user's secret is encrypted with a key that is not that of the channel's remote certificate", st.Trace(6)...)
			}
			src := st.Get("rd:" + itoa(termID(baseOf(ci.Args[op.data]))))
			if src == nil || !st.Has("nonce:"+itoa(termID(src))) {
				r.Bad("secret", "nonce/"+FuncName(ci.Instr.Parent()), p.InstrPos(ci.Instr), "the user's secret is encrypted without the server's nonce", st.Trace(6)...)
			}
		}
		if isBufCall(ci, "Read") {
			st.Set("rd:"+itoa(termID(baseOf(ci.Args[1]))), ci.Args[0].Strip())
		}
		if isBufCall(ci, "Write") && !isHash(ci.Args[0]) {
			d := ci.Args[1].Strip()
			b := itoa(termID(ci.Args[0].Strip()))
			if c.resp(d, "ServerNonce") {
				st.Set("nonce:"+b, x.Flag())
			}
			if !(d.Op == "extract" && d.Name == "0" && rsaOps[d.Args[0].Name].verb == "encrypt") {
				st.Set("plain:"+b, x.Flag())
			}
		}
		if ci.Name == "binary.Write" {
			st.Set("plain:"+itoa(termID(ci.Args[0].Strip())), x.Flag())
		}
		if strings.HasSuffix(ci.Name, ".createSession") && len(ci.Args) > 2 {
			if n := faultField(x, st, ci.Args[2], "ClientNonce"); n != nil {
				st.Set("clientNonce", baseOf(n))
				r.Ob("server-signature", "fresh client nonce")
				if !st.Has("rand:" + itoa(termID(baseOf(n)))) {
					r.Bad("server-signature", "nonce", p.InstrPos(ci.Instr), "the client nonce is not freshly drawn from crypto/rand", st.Trace(4)...)
				}
			}
		}
		if strings.HasSuffix(ci.Name, ".activateSession") && len(ci.Args) > 2 {
			c.activate(x, st, ci)
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		c.after(x, st, ci, res)
		if w := st.Get("pend"); w != nil && res != nil {
			st.Set("res:"+itoa(termID(res)), w)
			st.Del("pend")
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func isBufCall(ci *CallInfo, m string) bool {
	return len(ci.Args) == 2 && (ci.Name == "io."+m+"er.Read" || ci.Name == "io.Reader.Read" && m == "Read" || ci.Name == "io.Writer.Write" && m == "Write" ||
		strings.HasSuffix(ci.Name, "."+m) && strings.Contains(ci.Name, "buffer."))
}

func (c *p13) activate(x *Exec, st *State, ci *CallInfo) {
	p, r := c.p, c.r
	at := p.InstrPos(ci.Instr)
	bad := func(rule, k, msg string) { r.Bad(rule, k, at, msg, st.Trace(10)...) }
	req := ci.Args[2]
	r.Ob("certificate", "activation")
	if !st.Has("cert") {
		bad("certificate", "compare", "the session is activated although the server's certificate was not compared with that of the selected endpoint")
	}
	sec := securedPossible(st, "ch")
	r.Ob("server-signature", "activation")
	if sec && !st.Has("ok:server") {
		bad("server-signature", "verify", "the session is activated although the server's signature was not verified and the policy may be a secured one")
	}
	r.Ob("client-signature", "activation")
	signed := func(t *Term, what string) bool {
		if t == nil {
			return false
		}
		t = t.Strip()
		if t.Op != "extract" || t.Name != "0" {
			return false
		}
		w := st.Get("res:" + itoa(termID(t.Args[0])))
		return w != nil && w.Name == what
	}
	if sec && !signed(faultField(x, st, req, "ClientSignature", "Signature"), "client") {
		bad("client-signature", "sign", "the activation request does not carry the client's signature over server certificate and nonce although the policy may be a secured one")
	}
	kind := ""
	if t := st.Get("ident"); t != nil {
		kind = t.Name
	} else if st.Has("ident-:UserName") && st.Has("ident-:X509") && st.Has("ident-:Issued") {
		kind = "Anonymous"
	}
	tok := faultField(x, st, req, "UserIdentityToken")
	if tok == nil {
		bad("token", "unknown", "the identity token is not known")
		return
	}
	tok = tok.Strip()
	tk := strings.TrimSuffix(typeNameOfTerm(tok), "IdentityToken")
	r.Ob("token", tk)
	if tk != kind {
		bad("token", "kind/"+tk+"/"+kind, "a "+tk+" token is sent for an identity of kind "+kind)
	}
	pid := x.fieldOf(tok, "PolicyID", types.Typ[types.String])
	okp := false
	if pid != nil && lastField(pid) == "PolicyID" {
		if w := st.Get("tt:" + itoa(termID(elemOf(pid)))); w != nil && w.Name == tk {
			okp = true
		}
	}
	if !okp {
		bad("token", "policy/"+tk, "the "+tk+" token does not name a policy of its kind offered by the selected endpoint")
	}
	eff := "tok"
	if t := st.Get("pf:tok"); t != nil && t.Name == "" {
		eff = "ch"
	}
	secret := securedPossible(st, eff)
	switch tk {
	case "UserName", "Issued":
		f := "Password"
		if tk == "Issued" {
			f = "TokenData"
		}
		r.Ob("secret", tk)
		if !secret {
			return
		}
		v := x.fieldOf(tok, f, types.NewSlice(types.Typ[types.Byte]))
		var buf *Term
		if v != nil {
			buf = st.Get("rd:" + itoa(termID(baseOf(v))))
		}
		if buf == nil || st.Has("plain:"+itoa(termID(buf))) {
			bad("secret", tk+"/plain", "the secret of a "+tk+" token is sent unencrypted although the policy may be a secured one")
		}
	case "X509":
		r.Ob("secret", tk)
		if secret && !signed(faultField(x, st, req, "UserTokenSignature", "Signature"), "user") {
			bad("secret", "X509/proof", "a certificate token is sent without the signature of its key over server certificate and nonce")
		}
	}
}

// dial: the endpoint selection.
func (c *p13) dial() {
	p, r := c.p, c.r
	fn := p.Func("client.Dial")
	inv := itoa(int(p.constVal("ua", "MessageSecurityModeInvalid")))
	none := ""
	for i := range secProfiles {
		if secProfiles[i].sign == "" {
			none = secProfiles[i].uri
		}
	}
	touches := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg == fn.Pkg && (touchesType(f, "ua.EndpointDescription") || f.Name() == "newClientSecureChannel") {
			touches[f] = true
		}
		if f.Pkg == fn.Pkg && accessesType(f, "ua.EndpointDescription") {
			touches[f] = true
		}
	}
	h := Hooks{MaxDepth: 5}
	h.Inline = func(f *ssa.Function) bool {
		return touches[f] && f.Name() != "open" && f.Name() != "GetEndpoints"
	}
	isEp := func(t *Term) bool {
		return t.Contains(func(u *Term) bool { return lastField(u) == "Endpoints" })
	}
	key := func(k string, e *Term) string { return k + ":" + itoa(termID(e)) }
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		if from == nil || !to.Dominates(from) {
			return
		}
		for k := range st.A {
			if strings.HasPrefix(k, "pol:") || strings.HasPrefix(k, "mode:") || strings.HasPrefix(k, "polIs:") {
				st.Del(k)
			}
		}
	}
	isReqPol := func(t *Term) bool { t = t.Strip(); return lastField(t) == "securityPolicyURI" && !isEp(t) }
	isReqMode := func(t *Term) bool { t = t.Strip(); return lastField(t) == "securityMode" && !isEp(t) }
	h.Stable = func(a *Term) bool {
		return a.Op == "fieldaddr" && (a.Name == "securityPolicyURI" || a.Name == "securityMode" || a.Name == "serverCertificate" || a.Name == "userTokenPolicies")
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Callee == nil && !ci.Invoke {
			for _, a := range ci.Args {
				if a = a.Strip(); a.Op == "alloc" && TypeName(derefType(a.Typ)) == "client.Client" {
					for _, f := range []struct {
						n string
						t types.Type
					}{{"securityPolicyURI", types.Typ[types.String]}, {"securityMode", types.Typ[types.Int32]}} {
						addr := x.T.mk("fieldaddr", f.n, []*Term{a}, nil, nil, nil)
						for m := range st.Mem {
							if m.Op == "fieldaddr" && m.Name == f.n && m.Args[0] == a {
								addr = m
							}
						}
						x.store(st, addr, x.T.mk("load", "", []*Term{addr}, nil, nil, f.t))
					}
				}
			}
		}
		return ActDefault
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() {
			a, b = b, a
		}
		a, b = a.Strip(), b.Strip()
		if isReqPol(a) && b.IsConst() {
			if b.Name == `""` && eq {
				st.Set("anyPol", x.Flag())
			}
			if b.Name == `""` && !eq {
				st.Set("somePol", x.Flag())
			}
			return
		}
		if isReqMode(a) && b.IsConst() && b.Name == inv && eq {
			st.Set("anyMode", x.Flag())
			return
		}
		if a.Op == "call" && a.Name == "builtin.len" && lastField(a.Args[0]) == "localCertificate" {
			if n, ok := numConst(b); ok && n == 0 && eq {
				st.Set("noCert", x.Flag())
			}
			return
		}
		for i := 0; i < 2; i++ {
			e := elemOf(a)
			if isEp(a) && lastField(a) == "SecurityPolicyURI" && eq {
				if isReqPol(b) {
					st.Set(key("pol", e), x.Flag())
				}
				if b.IsConst() {
					st.Set(key("polIs", e), b)
				}
			}
			if isEp(a) && lastField(a) == "SecurityMode" && eq {
				if isReqMode(b) || b.IsConst() && st.Has("anyPol") && st.Has("noCert") {
					st.Set(key("mode", e), x.Flag())
				}
			}
			a, b = b, a
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && TypeName(derefType(fa.X.Type())) == "client.Client" && st.Get("chosen") == nil {
				v := x.Load(st, x.Val(st, fa), u.Type()).Strip()
				switch fieldName(derefType(fa.X.Type()), fa.Field) {
				case "securityPolicyURI":
					if v.IsConst() && v.Name == `""` {
						st.Set("anyPol", x.Flag())
					}
				case "securityMode":
					if v.IsConst() && v.Name == inv {
						st.Set("anyMode", x.Flag())
					}
				case "localCertificate":
					if v.IsNil() {
						st.Set("noCert", x.Flag())
					}
				}
			}
			return
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		owner, f := TypeName(derefType(fa.X.Type())), fieldName(derefType(fa.X.Type()), fa.Field)
		v := x.Val(st, s.Val).Strip()
		switch owner {
		case "client.Client":
			want := map[string]string{"securityPolicyURI": "SecurityPolicyURI", "securityMode": "SecurityMode", "serverCertificate": "ServerCertificate", "userTokenPolicies": "UserIdentityTokens"}[f]
			if want == "" || v.IsConst() || v.IsNil() || in.Parent().Parent() != nil {
				return
			}
			r.Ob("endpoint", "selected "+f)
			if lastField(v) != want || !isEp(v) {
				r.Bad("endpoint", "field/"+f, p.InstrPos(in), "the client's "+f+" is not that of the selected endpoint", st.Trace(6)...)
				return
			}
			e := elemOf(v)
			if cur := st.Get("chosen"); cur != nil && cur != e {
				r.Bad("endpoint", "mixed/"+f, p.InstrPos(in), "the client mixes fields of different endpoints", st.Trace(6)...)
			}
			st.Set("chosen", e)
			isNone := false
			if t := st.Get(key("polIs", e)); t != nil {
				isNone = t.Name == `"`+none+`"`
			}
			okPol := st.Has(key("pol", e)) || st.Has("anyPol") && (isNone || !st.Has("noCert"))
			okMode := st.Has(key("mode", e)) || st.Has("anyMode")
			if !okPol {
				r.Bad("endpoint", "policy", p.InstrPos(in), "an endpoint is selected whose security policy was not compared with the requested one", st.Trace(8)...)
			}
			if !okMode {
				r.Bad("endpoint", "mode", p.InstrPos(in), "an endpoint is selected whose security mode was not compared with the requested one", st.Trace(8)...)
			}
		case "client.clientSecureChannel":
			want := map[string]string{"securityPolicyURI": "SecurityPolicyURI", "securityMode": "SecurityMode", "remoteCertificate": "ServerCertificate"}[f]
			if want == "" || in.Parent().Name() != "newClientSecureChannel" || v.IsConst() {
				return
			}
			if st.Get("chosen") == nil {
				return // another use of the constructor
			}
			r.Ob("endpoint", "channel "+f)
			if lastField(v) != want || elemOf(v) != st.Get("chosen") {
				r.Bad("endpoint", "channel/"+f, p.InstrPos(in), "the channel's "+f+" is not that of the selected endpoint", st.Trace(6)...)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
	c.order(fn)
}

// order: candidates are visited by decreasing security level.
func (c *p13) order(fn *ssa.Function) {
	p, r := c.p, c.r
	for _, f := range p.Funcs {
		if f.Pkg == nil && f.Parent() == nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 2 {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != fn.Pkg || root == f {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(derefType(fa.X.Type()), fa.Field) == "SecurityLevel" {
					uses = true
				}
				if fa, ok := in.(*ssa.Field); ok && fieldName(fa.X.Type(), fa.Field) == "SecurityLevel" {
					uses = true
				}
			}
		}
		bt, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
		if !uses || !ok || bt.Kind() != types.Bool {
			continue
		}
		h := Hooks{}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			r.Ob("endpoint", "order")
			t, tk := NormCond(res[0], true)
			if _, isC := t.ConstBool(); isC || t.Op != "bin" {
				return
			}
			op, a, b := t.Name, t.Args[0], t.Args[1]
			if !tk {
				op = negate(op)
			}
			ia := a.Contains(func(u *Term) bool { return isParamN(u, 0) })
			ib := b.Contains(func(u *Term) bool { return isParamN(u, 0) })
			if ib && !ia {
				op = flip(op)
			}
			if op != ">" && op != ">=" {
				r.Bad("endpoint", "order", p.InstrPos(in), "endpoints are not ordered by decreasing security level", st.Trace(3)...)
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

// accessesType: the function reads or writes a field of the named struct.
func accessesType(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && TypeName(derefType(fa.X.Type())) == name {
				return true
			}
			if fa, ok := in.(*ssa.Field); ok && TypeName(fa.X.Type()) == name {
				return true
			}
		}
	}
	return false
}
