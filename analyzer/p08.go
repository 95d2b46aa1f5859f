package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P08", "Typestate over every path of readRequest and readResponse (helpers expanded): each chunk read starts unverified; joining it to the message, or any other effect on the channel than installing token keys, requires a successful signature check of that chunk on every path whose security mode (or, for channel open, policy) is not known to be None; the check is required to cover everything before the signature, with the remote key, and to follow decryption with the local key.", runP08)
}

func runP08(p *Program, r *Report) {
	r.Rule("verified: a chunk is joined to the message only after its signature was found valid (or the channel is known to be unsecured)")
	r.Rule("covers: the signature checked is the last part of the chunk and covers every byte before it")
	r.Rule("key: the check uses the remote key, decryption the local key, and comes before the check")
	r.Rule("ends: a failed check ends the read with an error")
	r.Rule("early: nothing but token keys is changed before the check")
	r.Rule("pinned: a renewal cannot change the security policy or certificate of an open channel")
	r.Rule("offered: the server opens a channel only with a policy and mode it offers")
	none := "\"" + p.stringConst("ua", "SecurityPolicyURINone") + "\""
	for _, s := range recvSides {
		s := s
		side := s.side
		ev := recvEvents{}
		bad := func(rule, what string, where ssa.Instruction, msg string, st *State) {
			r.Bad(rule, side+"/"+what, p.InstrPos(where), msg, st.Trace(5)...)
		}
		kt := &keyTrack{p, r, "key", side, "remote"}
		secured := func(st *State) bool {
			if kindOf(st) == "OpenFinal" && side == "server" {
				t := st.Get("pol")
				return t == nil || t.Name != "none"
			}
			return modesOf(st) != "1"
		}
		ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
			kt.call(x, st, ci)
			switch k {
			case "read":
				if st.Has("failedcheck") {
					bad("ends", "continue", ci.Instr, "after a failed signature check the next chunk is read instead of ending with an error", st)
				}
				for _, k := range []string{"pol", "pinpol", "pincert", "first"} {
					st.Del(k)
				}
			case "decrypt":
				r.Ob("key", side+" symmetric decryption")
				d := ci.Args[0].Strip()
				if !d.IsCall("cipher.NewCBCDecrypter") || !d.Args[0].Strip().HasField("symDecryptingBlockCipher") || !d.Args[1].Strip().HasField("remoteInitializationVector") {
					bad("key", "decrypt", ci.Instr, "a received chunk is not decrypted with the receiving cipher and initialization vector", st)
				}
				for _, a := range ci.Args[1:] {
					base, lo, _, ok := sliceParts(a)
					if !ok || bufRoot(base) != bufRoot(st.Get("buffer")) {
						bad("key", "decrypt span", ci.Instr, "what is decrypted is not the received chunk", st)
					} else if k, ok := numConst(lo); !ok || k != 16 {
						bad("key", "decrypt span", ci.Instr, "decryption does not start after the 16 bytes of the plain header", st)
					}
				}
			case "rsadecrypt":
				r.Ob("key", side+" asymmetric decryption")
				if !anyArg(ci.Args, "localPrivateKey") {
					bad("key", "rsadecrypt", ci.Instr, "an open message is not decrypted with the local private key", st)
				}
				st.Set("decloop", x.Flag())
			case "join":
				kind := kindOf(st)
				key := kind
				if key == "" {
					key = "other"
				}
				r.Ob("verified", side+" "+key+" modes "+modesOf(st))
				if st.Has("failedcheck") {
					bad("verified", "failed/"+key, ci.Instr, "a chunk whose signature is invalid is joined to the message", st)
				}
				if secured(st) && !st.Has("verified") {
					bad("verified", key, ci.Instr, "a chunk of kind "+key+" is joined to the message without a valid signature while the channel may be secured (modes "+modesOf(st)+")", st)
				}
				if kind == "OpenFinal" && side == "server" {
					r.Ob("pinned", side)
					if !st.Has("first") && !(st.Has("pinpol") && st.Has("pincert")) {
						bad("pinned", "open", ci.Instr, "an open message is accepted on an open channel although its security policy or certificate may differ from the channel's", st)
					}
				}
			}
		}
		check := func(x *Exec, st *State, data, sig *Term, in *Term, where string) {
			r.Ob("covers", side+" "+where)
			db, dlo, dhi, ok1 := sliceParts(data)
			sb, slo, shi, ok2 := sliceParts(sig)
			pos := p.Pos(p.Func(s.fn).Pos())
			if in != nil && in.V != nil {
				pos = p.Pos(in.V.Pos())
			}
			if !ok1 || !ok2 || bufRoot(db) != bufRoot(st.Get("buffer")) || bufRoot(sb) != bufRoot(st.Get("buffer")) {
				r.Bad("covers", side+"/"+where, pos, "the signature check does not work on the received chunk", st.Trace(5)...)
				return
			}
			if !isZeroOrNone(dlo) {
				r.Bad("covers", side+"/"+where+"/start", pos, "the signature check leaves out the beginning of the chunk", st.Trace(5)...)
			}
			if noTerm(dhi) || noTerm(slo) || !linSub(linOf(dhi), linOf(slo)).isZero() {
				r.Bad("covers", side+"/"+where+"/gap", pos, "the signature check does not cover all bytes up to the signature", st.Trace(5)...)
			}
			if noTerm(slo) || noTerm(shi) {
				r.Bad("covers", side+"/"+where+"/end", pos, "the signature is not taken from the end of the chunk", st.Trace(5)...)
				return
			}
			// length of the signature
			d := linSub(linOf(shi), linOf(slo))
			okLen := len(d.coef) == 1 && d.c.Sign() == 0
			for k := range d.coef {
				if !(strings.Contains(k, "Size(") || strings.HasSuffix(k, "KeySize")) || strings.Contains(k, "ncryption") {
					okLen = false
				}
			}
			if !okLen {
				r.Bad("covers", side+"/"+where+"/length", pos, "the signature compared has not the length of a signature", st.Trace(5)...)
			}
			// its end is the end of the chunk
			e := linOf(shi)
			okEnd := false
			for _, k := range []string{"count", "mlen", "plen"} {
				if t := st.Get(k); t != nil && linSub(e, linOf(t)).isZero() {
					okEnd = true
				}
			}
			if where == "asymmetric" && !okEnd {
				// after decryption the chunk ends where the plain text ends
				okEnd = len(e.coef) == 1 && e.c.Sign() == 0 && strings.Contains(e.String(), "phi")
			}
			if !okEnd {
				r.Bad("covers", side+"/"+where+"/end", pos, "the signature checked is not at the end of the chunk", st.Trace(5)...)
			}
		}
		ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
			c, tk := NormCond(cond, taken)
			if a, b, eq, ok := CmpOf(cond, taken); ok {
				// policy
				for _, t := range []*Term{a, b} {
					if t.Op == "const" && t.Name == none {
						v := "sec"
						if eq {
							v = "none"
						}
						if old := st.Get("pol"); old != nil && old.Name != v {
							st.dead = true
							return
						}
						st.Set("pol", x.T.mk("const", v, nil, nil, nil, nil))
					}
				}
				if a.Op != "const" && b.Op != "const" && eq && isString(a.Typ) && (a.Strip().HasField("securityPolicyURI") || b.Strip().HasField("securityPolicyURI")) {
					st.Set("pinpol", x.Flag())
				}
				if eq && (a.Strip().HasField("pendingTokenID") || a.Strip().HasField("tokenID")) {
					if k, ok := numConst(b); ok && k == 0 {
						st.Set("first", x.Flag())
					}
				}
				// count == messageLength
				if eq && isCountOf(a, s.read) != isCountOf(b, s.read) && b.Op != "const" && a.Op != "const" {
					if isCountOf(a, s.read) {
						st.Set("count", a.Strip())
						st.Set("mlen", b.Strip())
					} else {
						st.Set("count", b.Strip())
						st.Set("mlen", a.Strip())
					}
				}
				if b.IsNil() && a.Op == "call" && strings.HasSuffix(a.Name, ".RSAVerify") {
					if eq {
						n := len(a.Args)
						check(x, st, a.Args[n-2], a.Args[n-1], a, "asymmetric")
						r.Ob("key", side+" asymmetric verification")
						if !anyArg(a.Args[:n-2], "remotePublicKey") && !certKey(a.Args[n-3]) {
							r.Bad("key", side+"/rsaverify", p.Pos(a.V.Pos()), "an open message is not verified with the remote public key", st.Trace(5)...)
						}
						st.Set("verified", x.Flag())
					} else {
						st.Set("failedcheck", x.Flag())
					}
				}
				// ConstantTimeCompare(...) == 1
				t := a
				if t.Op == "const" {
					t, b = b, a
				}
				if t.IsCall("subtle.ConstantTimeCompare") {
					if k, ok := numConst(b); ok {
						good := (k == 1) == eq
						ev.hmacOutcome(x, st, t, good, check, r, side)
						return
					}
				}
			}
			if c.IsCall("bytes.Equal") {
				if tk && (c.Args[0].Strip().HasField("remoteCertificate") || c.Args[1].Strip().HasField("remoteCertificate")) {
					st.Set("pincert", x.Flag())
				}
			}
			if c.IsCall("hmac.Equal", "bytes.Equal", "reflect.DeepEqual") {
				ev.hmacOutcome(x, st, c, tk, check, r, side)
			}
		}
		ev.instr = func(x *Exec, st *State, in ssa.Instruction) {
			kt.instr(x, st, in)
			sto, ok := in.(*ssa.Store)
			if !ok || !st.Has("chunks") {
				return
			}
			fa, ok := sto.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
				return
			}
			name := fieldName(derefType(fa.X.Type()), fa.Field)
			if !secured(st) || st.Has("verified") || kindOf(st) == "" {
				return
			}
			r.Ob("early", side+" "+name)
			l := strings.ToLower(name)
			for _, okk := range []string{"token", "signingkey", "encryptingkey", "initializationvector", "hmac", "blockcipher", "securitypolicy", "remotecertificate", "remotepublickey"} {
				if strings.Contains(l, okk) {
					return
				}
			}
			bad("early", name, in, "the channel's "+name+" is changed by a chunk whose signature has not been checked", st)
		}
		ev.ret = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if st.Has("failedcheck") {
				r.Ob("ends", side)
				last := res[len(res)-1]
				if last.IsNil() || last.Op == "const" && last.Name == "0" {
					bad("ends", "success", in, "after a failed signature check the read ends without an error", st)
				}
			}
		}
		x := p.recvExplore(s, ev)
		r.Saw(x)
		kt.allocs(side)
	}
	p08Offered(p, r)
	r.Min("verified", 8)
	r.Min("covers", 4)
	r.Min("key", 8)
	r.Min("ends", 2)
	r.Min("pinned", 1)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// certKey: the public key of a certificate parsed from the peer's message.
func certKey(t *Term) bool {
	cert, local := false, false
	t.Strip().Contains(func(s *Term) bool {
		if s.Op == "call" && strings.HasPrefix(s.Name, "x509.Parse") {
			cert = true
		}
		if strings.HasPrefix(lastField(s), "local") {
			local = true
		}
		return false
	})
	return cert && !local
}

func anyArg(args []*Term, field string) bool {
	for _, a := range args {
		if a.Strip().HasField(field) {
			return true
		}
	}
	return false
}

func isCountOf(t *Term, read string) bool {
	t = t.Strip()
	return t.Op == "extract" && t.Args[0].IsCall(read)
}

// hmacOutcome judges the comparison of a computed with a received signature.
func (e recvEvents) hmacOutcome(x *Exec, st *State, c *Term, good bool, check func(x *Exec, st *State, data, sig *Term, in *Term, where string), r *Report, side string) {
	var sig *Term
	sum := false
	for _, a := range c.Args {
		if a.Strip().Contains(func(t *Term) bool { return t.Op == "call" && strings.HasSuffix(t.Name, ".Sum") }) {
			sum = true
		} else {
			sig = a
		}
	}
	if !sum || sig == nil {
		return
	}
	pos := "-"
	if c.V != nil {
		pos = x.P.Pos(c.V.Pos())
	}
	r.Ob("key", side+" symmetric verification")
	hs := st.Get("hsum")
	if hs == nil || !hs.Strip().HasField("symVerifyHMAC") {
		r.Bad("key", side+"/hmac", pos, "the signature of a chunk is not computed with the receiving key", st.Trace(5)...)
	}
	if !st.Has("hreset") || !st.Has("hdata") {
		r.Bad("covers", side+"/hmac/reset", pos, "the signature is computed without resetting the hash or without the chunk", st.Trace(5)...)
	} else if good {
		check(x, st, st.Get("hdata"), sig, c, "symmetric")
	}
	if !good {
		st.Set("failedcheck", x.Flag())
		return
	}
	if strings.Contains(modesOf(st), "3") && !st.Has("decrypted") {
		r.Bad("key", side+"/order", pos, "a chunk of an encrypted channel is verified without having been decrypted", st.Trace(5)...)
	}
	st.Set("verified", x.Flag())
}

// p08Offered: the server answers an open request only for an endpoint it offers.
func p08Offered(p *Program, r *Report) {
	fn := p.Func("server.serverSecureChannel.Open")
	none := "\"" + p.stringConst("ua", "SecurityPolicyURINone") + "\""
	modeNone := itoa(int(p.constVal("ua", "MessageSecurityModeNone")))
	h := Hooks{MaxDepth: 3}
	h.Inline = func(f *ssa.Function) bool {
		return f.Pkg == fn.Pkg && isChannelFn(f) && f.Name() != "readRequest" && f.Name() != "read" && f.Name() != "write" && f.Name() != "Write" && !strings.HasPrefix(f.Name(), "send")
	}
	h.Stable = func(a *Term) bool {
		return a.Op == "fieldaddr" && (a.Name == "securityMode" || a.Name == "securityPolicyURI")
	}
	clear := func(st *State) {
		st.Del("mpol")
		st.Del("mmode")
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.Op == "const" {
			a, b = b, a
		}
		_, pa := a.Strip().FieldPath()
		_, pb := b.Strip().FieldPath()
		fa, fb := lastOf(pa), lastOf(pb)
		switch {
		case b.Op != "const" && strings.EqualFold(fa, "securityPolicyURI") && strings.EqualFold(fb, "securityPolicyURI"):
			if eq {
				st.Set("mpol", x.Flag())
			} else {
				clear(st)
			}
		case b.Op != "const" && strings.EqualFold(fa, "securityMode") && (strings.EqualFold(fb, "securityMode")):
			if eq {
				st.Set("mmode", x.Flag())
			} else {
				clear(st)
			}
		case b.Op == "const" && b.Name == none && fa == "securityPolicyURI":
			if eq {
				st.Set("npol", x.Flag())
			}
		case b.Op == "const" && b.Name == modeNone && (fa == "securityMode" || fa == "SecurityMode"):
			if eq {
				st.Set("nmode", x.Flag())
			}
		case b.Op == "const" && b.Name == `""` && fa == "EndpointURL":
			if eq {
				st.Set("noep", x.Flag())
				st.Del("ep")
			} else {
				st.Set("ep", x.Flag())
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		sto, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := sto.Addr.(*ssa.FieldAddr)
		if !ok || fieldName(derefType(fa.X.Type()), fa.Field) != "localEndpoint" {
			return
		}
		r.Ob("offered", "localEndpoint at "+p.InstrPos(in))
		if !(st.Has("mpol") && st.Has("mmode")) && !(st.Has("npol") && st.Has("nmode")) {
			r.Bad("offered", "endpoint", p.InstrPos(in), "the channel's endpoint is set although its policy and mode were not compared with those of the channel", st.Trace(5)...)
		}
		st.Set("stored", x.Flag())
		st.Set("ep", x.Flag())
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "server.serverSecureChannel.Write" {
			r.Ob("offered", "answer")
			if !st.Has("ep") {
				r.Bad("offered", "answer", p.InstrPos(ci.Instr), "an open request is answered although no offered endpoint has its policy and mode", st.Trace(6)...)
			}
			return ActStop
		}
		return ActDefault
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
	r.Min("offered", 3)
}

func lastOf(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return p[len(p)-1]
}
