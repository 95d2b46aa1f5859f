package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P12", "Typestate over all paths of the activation handler: at every change of the session and at the successful response, the path must have verified the client's signature (per policy), matched the identity token with an offered policy, validated the secret or proof of that token, and obtained the authenticator's consent for exactly the identity that is set.", runP12)
}

type p12 struct {
	authTrack
	r *Report
}

// tokenKinds: identity type -> token policy type constant, authenticator.
var p12Kinds = map[string][2]string{
	"Anonymous": {"UserTokenTypeAnonymous", "AuthenticateAnonymousIdentity"},
	"UserName":  {"UserTokenTypeUserName", "AuthenticateUserNameIdentity"},
	"X509":      {"UserTokenTypeCertificate", "AuthenticateX509Identity"},
	"Issued":    {"UserTokenTypeIssuedToken", "AuthenticateIssuedIdentity"},
}

func runP12(p *Program, r *Report) {
	r.Rule("signature: a session changes only after the client's signature over the server certificate and the session's current nonce verified with the channel's remote key, unless the channel's policy is None")
	r.Rule("policy: the identity token's kind and policy id equal those of one policy of the endpoint")
	r.Rule("proof: the user certificate's key verified the signature over server certificate and session nonce; an encrypted password was decrypted with the server's key and ends with the session's current nonce, as the token policy (or, without one, the channel) demands")
	r.Rule("authenticator: the authenticator for the kind of identity accepted exactly the identity that is set")
	r.Rule("nonce: the new session nonce is fresh random data, and a Good response follows only when identity, nonce and channel were set")
	r.Rule("endpoints: user name and certificate policies offered by endpoints always name a secured policy")
	c := &p12{authTrack{p}, r}
	c.activate()
	c.endpoints()
	r.Min("signature", 2)
	r.Min("policy", 4)
	r.Min("proof", 4)
	r.Min("authenticator", 4)
	r.Min("nonce", 2)
	r.Min("endpoints", 6)
}

func isReq(t *Term) bool { // the request parameter of the handler
	t = t.Strip()
	return t.Op == "param" && t.V != nil && strings.HasSuffix(TypeName(derefType(t.V.Type())), "Request") && (t.F == nil || t.F.parent == nil)
}

// reqPath: t is the given field path of the request.
func reqPath(t *Term, path ...string) bool {
	t = t.Strip()
	for i := len(path) - 1; i >= 0; i-- {
		for t.Op == "load" {
			t = t.Args[0]
		}
		if t.Op != "field" && t.Op != "fieldaddr" || t.Name != path[i] {
			return false
		}
		t = t.Args[0].Strip()
		if (t.Op == "field" || t.Op == "fieldaddr") && t.Name == "RequestHeader" && (i == 0 || path[i-1] != t.Name) {
			t = t.Args[0].Strip()
		}
	}
	return isReq(t)
}

func (c *p12) isChan(t *Term) bool {
	t = t.Strip()
	return t.Op == "param" && t.V != nil && TypeName(derefType(t.V.Type())) == "server.serverSecureChannel" && (t.F == nil || t.F.parent == nil)
}

func (c *p12) polKind(t *Term) string {
	t = t.Strip()
	if t.IsCall("server.serverSecureChannel.SecurityPolicyURI") && c.isChan(t.Args[0]) {
		return "ch"
	}
	switch lastField(t) {
	case "securityPolicyURI":
		return "ch"
	case "SecurityPolicyURI":
		if t.Contains(func(u *Term) bool { return lastField(u) == "UserIdentityTokens" }) {
			return "tok"
		}
		if t.Contains(func(u *Term) bool {
			return u.IsCall("server.serverSecureChannel.LocalEndpoint") || lastField(u) == "localEndpoint"
		}) {
			return "ch"
		}
	}
	return ""
}

func (c *p12) mySession(st *State, t *Term) bool {
	t = t.Strip()
	return isSessionOf(t) && reqPath(t.Args[0].Args[1], "AuthenticationToken")
}

func (c *p12) isServerCert(t *Term) bool {
	t = t.Strip()
	return t.IsCall("server.Server.LocalCertificate") || lastField(t) == "localCertificate"
}

func (c *p12) isNonce(st *State, t *Term) bool {
	t = t.Strip()
	return t.IsCall("server.Session.SessionNonce") && c.mySession(st, t.Args[0]) || lastField(t) == "sessionNonce" && t.Contains(func(u *Term) bool { return c.mySession(st, u) })
}

func (c *p12) activate() {
	p, r := c.p, c.r
	fn := p.Func("server.Server.handleActivateSession")
	touches := p.reachesCall(func(n string) bool {
		return rsaOps[n].verb != "" || strings.HasPrefix(n, "hash.Hash.") || strings.HasPrefix(n, "server.Session.Set") || strings.Contains(n, ".Authenticate") ||
			n == "rand.Read" || n == "rand.Reader.Read" || n == "io.ReadFull" || n == "server.serverSecureChannel.LocalEndpoint" || n == "server.serverSecureChannel.Write"
	})
	setters := map[string]bool{}
	for m := range p.Mutators() {
		setters[FuncName(m)] = true
	}
	kinds := map[string]string{} // token type constant -> kind
	for k, v := range p12Kinds {
		kinds[itoa(int(p.constVal("ua", v[0])))] = k
	}
	h := Hooks{MaxDepth: 6}
	h.Inline = func(f *ssa.Function) bool {
		if f.Pkg != fn.Pkg && (f.Parent() == nil || f.Parent().Pkg != fn.Pkg) {
			return false
		}
		switch RecvType(f) {
		case "server.Session", "server.SessionManager", "server.serverSecureChannel":
			return false
		}
		return touches[f]
	}
	tokT := func(st *State) string {
		if t := st.Get("token"); t != nil {
			return t.Name
		}
		return ""
	}
	clear := func(st *State, pre ...string) {
		for k := range st.A {
			for _, q := range pre {
				if strings.HasPrefix(k, q) {
					st.Del(k)
				}
			}
		}
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		if from != nil && to.Dominates(from) {
			clear(st, "tt:", "pid:")
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		policyFacts(x, st, cond, taken, c.polKind)
		geFact(x, st, cond, taken)
		cn, tk := NormCond(cond, taken)
		cn = cn.Strip()
		if cn.Op == "extract" && cn.Name == "1" && cn.Args[0].Op == "assert" && reqPath(cn.Args[0].Args[0], "UserIdentityToken") && tk {
			st.Set("token", x.T.mk("const", strings.TrimSuffix(strings.TrimPrefix(TypeName(assertedType(cn.Args[0])), "ua."), "IdentityToken"), nil, nil, nil, nil))
		}
		if cn.IsCall("bytes.Equal") && tk || cn.IsCall("hmac.Equal") && tk {
			for i := 0; i < 2; i++ {
				if c.isNonce(st, cn.Args[i]) {
					st.Set("secretnonce", c.readFrom(st, cn.Args[1-i]))
				}
			}
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() || a.IsNil() {
			a, b = b, a
		}
		a, b = a.Strip(), b.Strip()
		if cmp := a; cmp.IsCall("subtle.ConstantTimeCompare") {
			if n, ok := numConst(b); ok && (n == 1) == eq {
				for i := 0; i < 2; i++ {
					if c.isNonce(st, cmp.Args[i]) {
						st.Set("secretnonce", c.readFrom(st, cmp.Args[1-i]))
					}
				}
			}
		}
		if eq && b.IsNil() {
			if st.Has("res:" + itoa(termID(a))) {
				st.Set("ok:"+st.Get("res:"+itoa(termID(a))).Name, x.Flag())
			}
		}
		if lastField(b) == "TokenType" || lastField(b) == "PolicyID" && !st.Has("") && lastField(a) == "PolicyID" && !c.isOffered(a) {
			a, b = b, a
		}
		if lastField(a) == "TokenType" && c.isOffered(a) {
			if eq && b.IsConst() {
				st.Set("tt:"+itoa(termID(elemOf(a))), x.T.mk("const", kinds[b.Name], nil, nil, nil, nil))
			}
		}
		if lastField(a) == "PolicyID" && c.isOffered(a) && eq {
			if lastField(b) == "PolicyID" && b.Contains(func(u *Term) bool { return u.Op == "assert" && reqPath(u.Args[0], "UserIdentityToken") }) {
				st.Set("pid:"+itoa(termID(elemOf(a))), x.Flag())
			}
		}
		for k := range st.A {
			if strings.HasPrefix(k, "tt:") && st.Has("pid:"+strings.TrimPrefix(k, "tt:")) {
				st.Set("match:"+st.Get(k).Name, x.Flag())
			}
		}
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		c.after(x, st, ci, res)
		if res == nil {
			return
		}
		if w := st.Get("pend"); w != nil {
			st.Set("res:"+itoa(termID(res)), w)
			st.Del("pend")
		}
		if i := strings.LastIndex(ci.Name, ".Authenticate"); i > 0 && len(ci.Args) > 1 {
			k := "auth:" + ci.Name[i+1:] + ":" + itoa(termID(ci.Args[1].Strip()))
			st.Set("res:"+itoa(termID(res)), x.T.mk("const", k, nil, nil, nil, nil))
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		c.call(x, st, ci)
		st.Del("pend")
		if s, ok := c.sig(x, st, ci); ok && s.verb == "verify" {
			what := ""
			switch {
			case !(len(s.parts) == 2 && c.isServerCert(s.parts[0]) && c.isNonce(st, s.parts[1])):
			case reqPath(s.sig, "ClientSignature", "Signature") && (s.key.IsCall("server.serverSecureChannel.RemotePublicKey") && c.isChan(s.key.Args[0]) || lastField(s.key) == "remotePublicKey"):
				what = "client"
			case reqPath(s.sig, "UserTokenSignature", "Signature") && s.key.Contains(func(u *Term) bool { return lastField(u) == "PublicKey" }) && s.key.Contains(c.isUserCert):
				what = "user"
			}
			if what != "" {
				st.Set("pend", x.T.mk("const", what, nil, nil, nil, nil))
			}
		}
		switch ci.Name {
		case "binary.Read":
			clear(st, "ge:")
		case "rand.Read":
			st.Set("rand:"+itoa(termID(baseOf(ci.Args[0]))), x.Flag())
		case "io.ReadFull":
			if ci.Args[0].Contains(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.Name, "rand.Reader") }) {
				st.Set("rand:"+itoa(termID(baseOf(ci.Args[1]))), x.Flag())
			}
		}
		if ci.Name == "io.Reader.Read" {
			if ci.Args[0].Contains(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.Name, "rand.Reader") }) {
				st.Set("rand:"+itoa(termID(baseOf(ci.Args[1]))), x.Flag())
			}
		}
		if (ci.Name == "io.Reader.Read" || strings.HasSuffix(ci.Name, ".Read") && strings.Contains(ci.Name, "buffer.")) && len(ci.Args) == 2 {
			st.Set("rd:"+itoa(termID(baseOf(ci.Args[1]))), ci.Args[0].Strip())
		}
		if (ci.Name == "io.Writer.Write" || strings.HasSuffix(ci.Name, ".Write") && strings.Contains(ci.Name, "buffer.")) && len(ci.Args) == 2 && !isHash(ci.Args[0]) {
			d := ci.Args[1].Strip()
			dec := d.Op == "extract" && d.Name == "0" && rsaOps[d.Args[0].Name].verb == "decrypt"
			if dec {
				k := d.Args[0].Args[rsaOps[d.Args[0].Name].key]
				dec = lastField(k) == "localPrivateKey"
			}
			if dec {
				st.Set("dec:"+itoa(termID(ci.Args[0].Strip())), x.Flag())
			} else {
				st.Set("plain:"+itoa(termID(ci.Args[0].Strip())), x.Flag())
			}
		}
		if setters[ci.Name] && strings.HasPrefix(ci.Name, "server.Session.") && len(ci.Args) > 0 {
			short := strings.TrimPrefix(ci.Name, "server.Session.")
			if short == "SetLastAccess" {
				return ActDefault
			}
			if !c.mySession(st, ci.Args[0]) {
				r.Ob("signature", short)
				r.Bad("signature", "other/"+short, p.InstrPos(ci.Instr), short+" changes a session other than the one named by the request", st.Trace(5)...)
			}
			c.effect(x, st, ci, short, tokT(st))
		}
		if ci.Name == "server.serverSecureChannel.Write" && len(ci.Args) > 1 && respType(ci.Args[1]) == "ua.ActivateSessionResponse" {
			r.Ob("nonce", "response")
			if sr := faultField(x, st, ci.Args[1], "ResponseHeader", "ServiceResult"); sr != nil {
				if n, ok := numConst(sr.Strip()); ok && n&0x80000000 != 0 {
					return ActDefault
				}
			}
			for _, q := range []string{"SetUserIdentity", "SetSessionNonce", "SetSecureChannelId"} {
				if !st.Has("did:" + q) {
					r.Bad("nonce", "response/"+q, p.InstrPos(ci.Instr), "the activation succeeds without "+q, st.Trace(8)...)
				}
			}
			if n := faultField(x, st, ci.Args[1], "ServerNonce"); n != nil && !c.isNonce(st, n) && n.Strip() != st.Get("newnonce") {
				r.Bad("nonce", "response/ServerNonce", p.InstrPos(ci.Instr), "the response does not carry the new nonce of the session", st.Trace(8)...)
			}
		}
		return ActDefault
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && TypeName(derefType(fa.X.Type())) == "server.Session" {
				c.effectAt(x, st, in, "store of "+fieldName(derefType(fa.X.Type()), fa.Field), tokT(st), nil)
			}
		}
		if m, ok := in.(*ssa.MakeSlice); ok {
			n := x.Val(st, m.Len).Strip()
			if n.Op == "bin" && n.Name == "-" && n.Args[1].IsConst() {
				r.Ob("proof", "length of the secret @"+p.InstrPos(in))
				if !lowerBounded(st, n.Args[0].Strip(), n.Args[1]) {
					r.Bad("proof", "length", p.InstrPos(in), "the length of the decrypted secret is used without checking that it includes the nonce", st.Trace(6)...)
				}
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

// lowerBounded: the path has established a >= k.
func lowerBounded(st *State, a, k *Term) bool {
	m := st.Get("ge:" + a.Key())
	if m == nil {
		return false
	}
	x, ok1 := numConst(m)
	y, ok2 := numConst(k.Strip())
	return ok1 && ok2 && x >= y
}

// geFact records a lower bound established by a comparison with a constant.
func geFact(x *Exec, st *State, cond *Term, taken bool) {
	c, tk := NormCond(cond, taken)
	if c.Op != "bin" {
		return
	}
	op, a, b := c.Name, c.Args[0].Strip(), c.Args[1].Strip()
	if _, ok := numConst(a); ok {
		a, b = b, a
		op = flip(op)
	}
	k, ok := numConst(b)
	if !ok {
		return
	}
	if !tk {
		op = negate(op)
	}
	if op == ">" {
		k++
		op = ">="
	}
	if op == ">=" || op == "==" {
		if m := st.Get("ge:" + a.Key()); m != nil {
			if o, ok := numConst(m); ok && o >= k {
				return
			}
		}
		st.Set("ge:"+a.Key(), x.T.mk("const", itoa(int(k)), nil, nil, nil, types.Typ[types.Int]))
	}
}

func elemOf(t *Term) *Term {
	t = t.Strip()
	for t.Op == "load" {
		t = t.Args[0]
	}
	if (t.Op == "field" || t.Op == "fieldaddr") && len(t.Args) > 0 {
		return t.Args[0].Strip()
	}
	return t
}

func (c *p12) isOffered(t *Term) bool {
	return t.Contains(func(u *Term) bool {
		return lastField(u) == "UserIdentityTokens" && u.Contains(func(w *Term) bool {
			return w.IsCall("server.serverSecureChannel.LocalEndpoint") && c.isChan(w.Args[0]) || lastField(w) == "localEndpoint"
		})
	})
}

func (c *p12) isUserCert(u *Term) bool {
	return lastField(u) == "CertificateData" && u.Contains(func(w *Term) bool { return w.Op == "assert" && reqPath(w.Args[0], "UserIdentityToken") })
}

func baseOf(t *Term) *Term {
	t = t.Strip()
	for t.Op == "slice" {
		t = t.Args[0].Strip()
	}
	return t
}

// readFrom: the buffer the bytes were read from.
func (c *p12) readFrom(st *State, t *Term) *Term {
	if b := st.Get("rd:" + itoa(termID(baseOf(t)))); b != nil {
		return b
	}
	return t.Strip()
}

func (c *p12) effect(x *Exec, st *State, ci *CallInfo, short, tok string) {
	r, p := c.r, c.p
	st.Set("did:"+short, x.Flag())
	c.effectAt(x, st, ci.Instr, short, tok, ci)
	switch short {
	case "SetSessionNonce":
		r.Ob("nonce", "fresh")
		v := baseOf(ci.Args[1])
		st.Set("newnonce", ci.Args[1].Strip())
		if !st.Has("rand:" + itoa(termID(v))) {
			r.Bad("nonce", "fresh", p.InstrPos(ci.Instr), "the new nonce of the session is not freshly drawn from crypto/rand", st.Trace(5)...)
		}
	case "SetUserIdentity":
		id := ci.Args[1].Strip()
		kind := strings.TrimSuffix(typeNameOfTerm(id), "Identity")
		r.Ob("authenticator", kind)
		k, known := p12Kinds[kind]
		if !known {
			r.Bad("authenticator", "kind", p.InstrPos(ci.Instr), "the identity that is set is of unknown kind", st.Trace(8)...)
			return
		}
		if !st.Has("ok:auth:" + k[1] + ":" + itoa(termID(id))) {
			r.Bad("authenticator", kind, p.InstrPos(ci.Instr), "a "+kind+" identity is set that "+k[1]+" has not accepted", st.Trace(8)...)
		}
		r.Ob("policy", kind)
		if !st.Has("match:" + kind) {
			r.Bad("policy", kind, p.InstrPos(ci.Instr), "a "+kind+" identity is set although no policy offered by the endpoint has that kind and the token's policy id", st.Trace(8)...)
		}
		if tok != kind {
			r.Bad("policy", kind+"/token", p.InstrPos(ci.Instr), "a "+kind+" identity is set for a token of kind "+tok, st.Trace(8)...)
		}
		eff := "tok"
		if t := st.Get("pf:tok"); t != nil && t.Name == "" {
			eff = "ch"
		}
		switch kind {
		case "X509":
			r.Ob("proof", "user signature")
			if securedPossible(st, eff) && !st.Has("ok:user") {
				r.Bad("proof", "X509", p.InstrPos(ci.Instr), "a certificate identity is set although the signature with the certificate's key over server certificate and session nonce was not verified", st.Trace(10)...)
			}
			if f := x.fieldOf(id, "Certificate", types.NewSlice(types.Typ[types.Byte])); f == nil || !f.Contains(c.isUserCert) {
				r.Bad("proof", "X509/certificate", p.InstrPos(ci.Instr), "the identity does not carry the certificate of the token", st.Trace(6)...)
			}
		case "UserName":
			r.Ob("proof", "password")
			un := x.fieldOf(id, "UserName", types.Typ[types.String])
			if un == nil || lastField(un) != "UserName" {
				r.Bad("proof", "UserName/name", p.InstrPos(ci.Instr), "the identity does not carry the user name of the token", st.Trace(6)...)
			}
			if !securedPossible(st, eff) {
				return
			}
			pw := x.fieldOf(id, "Password", types.Typ[types.String])
			var buf *Term
			if pw != nil {
				buf = st.Get("rd:" + itoa(termID(baseOf(pw))))
			}
			switch {
			case buf == nil:
				r.Bad("proof", "UserName/plain", p.InstrPos(ci.Instr), "a password that the token policy wants encrypted is used without decrypting it", st.Trace(10)...)
			case st.Has("plain:" + itoa(termID(buf))):
				r.Bad("proof", "UserName/source", p.InstrPos(ci.Instr), "the password is not (only) the text decrypted with the server's private key", st.Trace(10)...)
			case st.Get("secretnonce") != buf:
				r.Bad("proof", "UserName/nonce", p.InstrPos(ci.Instr), "an encrypted password is accepted without comparing its nonce with the session's", st.Trace(10)...)
			}
		}
	}
}

func (c *p12) effectAt(x *Exec, st *State, in ssa.Instruction, short, tok string, ci *CallInfo) {
	r, p := c.r, c.p
	r.Ob("signature", short+" @"+p.InstrPos(in))
	if securedPossible(st, "ch") && !st.Has("ok:client") {
		r.Bad("signature", short, p.InstrPos(in), "the session changes ("+short+") on a path where the client's signature was not verified although the channel may be secured", st.Trace(10)...)
	}
	if short != "SetUserIdentity" {
		r.Ob("authenticator", "before "+short)
		okAuth := false
		for k := range st.A {
			if strings.HasPrefix(k, "ok:auth:") {
				okAuth = true
			}
		}
		if !okAuth {
			r.Bad("authenticator", "before/"+short, p.InstrPos(in), "the session changes ("+short+") before the user is authenticated", st.Trace(8)...)
		}
	}
}

// endpoints: the token policies offered.
func (c *p12) endpoints() {
	p, r := c.p, c.r
	fn := p.Func("server.Server.buildEndpointDescriptions")
	names := map[string]string{}
	for k, v := range p12Kinds {
		names[itoa(int(p.constVal("ua", v[0])))] = k
	}
	h := Hooks{MaxDepth: 4, Inline: func(f *ssa.Function) bool {
		return f.Pkg == fn.Pkg && RecvType(f) != "server.Server" || f.Pkg == fn.Pkg && touchesType(f, "ua.UserTokenPolicy")
	}}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name != "builtin.append" || len(ci.Args) < 2 {
			return ActDefault
		}
		var el *Term
		s := ci.Args[1].Strip()
		if s.Op == "slice" {
			b := s.Args[0].Strip()
			if at, ok := derefType(b.Typ).(*types.Array); ok {
				zero := x.T.mk("const", "0", nil, nil, nil, types.Typ[types.Int])
				el = x.Load(st, x.T.mk("indexaddr", "", []*Term{b, zero}, nil, nil, types.NewPointer(at.Elem())), at.Elem())
				for a := range st.Mem {
					for a.Op == "fieldaddr" {
						a = a.Args[0]
					}
					if a.Op == "indexaddr" && a.Args[0] == b {
						el = x.Load(st, a, at.Elem())
					}
				}
			}
		}
		if el == nil || typeNameOfTerm(el) != "UserTokenPolicy" {
			return ActDefault
		}
		tt := x.fieldOf(el, "TokenType", types.Typ[types.Int32])
		uri := x.fieldOf(el, "SecurityPolicyURI", types.Typ[types.String])
		kind := ""
		if tt != nil {
			kind = names[tt.Strip().Name]
		}
		r.Ob("endpoints", kind+" @"+p.InstrPos(ci.Instr))
		if kind == "Anonymous" {
			return ActDefault
		}
		ok := uri != nil
		if ok {
			u := uri.Strip()
			if u.Op == "const" {
				pf := profileOfURI(u.Name)
				ok = pf != nil && pf.sign != ""
			} else {
				// an element of a list of constants
				ok = listSecured(st, u)
			}
		}
		if !ok {
			r.Bad("endpoints", kind, p.InstrPos(ci.Instr), "a "+kind+" policy is offered whose secret or proof is not protected by a security policy", st.Trace(5)...)
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func touchesType(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && TypeName(derefType(a.Type())) == name {
				return true
			}
		}
	}
	return false
}

// listSecured: an element of an array whose stored elements are all secured policy URIs.
func listSecured(st *State, u *Term) bool {
	if u.Op == "load" {
		u = u.Args[0]
	}
	if u.Op != "index" && u.Op != "indexaddr" {
		return false
	}
	b := baseOf(u.Args[0])
	n := 0
	for a, v := range st.Mem {
		if a.Op == "indexaddr" && a.Args[0] == b {
			v = v.Strip()
			pf := profileOfURI(v.Name)
			if v.Op != "const" || pf == nil || pf.sign == "" {
				return false
			}
			n++
		}
	}
	return n > 0
}
