package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P09", "Typestate over every path of every function that writes to a channel's connection (helpers expanded): what is written is followed item by item; a chunk reaches the connection only, when its mode is not known to be None, after a signature over everything before it was made with the sender's own key and appended last, and, when encryption applies, after everything behind the plain header was enciphered with the sender's own cipher. The derivation of the sender's keys from the two nonces and the token id in the header are followed on the same paths.", runP09)
}

func runP09(p *Program, r *Report) {
	r.Rule("signed: a chunk sent on a channel whose mode is not None ends with a signature over everything before it")
	r.Rule("encrypted: in mode SignAndEncrypt everything after the header is enciphered, after signing; an open message in any secured mode")
	r.Rule("key: signing and enciphering use the sender's own keys, an open message the own private key and the peer's public key")
	r.Rule("token: the header names the token whose keys secure the chunk")
	r.Rule("nonce: the nonces that keys are derived from are fresh random bytes of the length the policy prescribes")
	r.Rule("other: nothing else reaches the connection but Hello, Acknowledge and Error messages")
	covered := map[*ssa.Function]bool{}
	for _, s := range sendSides {
		s := s
		side := s.side
		kt := &keyTrack{p, r, "key", side, "local"}
		bad := func(rule, what string, where ssa.Instruction, msg string, st *State) {
			r.Bad(rule, side+"/"+what, p.InstrPos(where), msg, st.Trace(8)...)
		}
		isHeaderEnd := func(st *State, t *Term, kind string) bool {
			if kind != "OpenFinal" {
				if k, ok := numConst(t); ok {
					return k == 16
				}
			}
			if c, ok := snapshot(t, "len"); ok {
				return c == headerItems(kind)
			}
			h := st.Get("hdrlen")
			return h != nil && linSub(linOf(h), linOf(t)).isZero()
		}
		secret := func(st *State, kind string) bool {
			m := modesOf(st)
			if kind == "OpenFinal" {
				return m != "1"
			}
			return strings.Contains(m, "3")
		}
		ev := sendEvents{}
		ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
			if covered != nil {
				covered[ci.Instr.Parent()] = true
			}
			kt.call(x, st, ci)
			kind := sendKind(st)
			switch k {
			case "hash", "sum":
				if k == "hash" {
					r.Ob("key", side+" signing hash")
					if lastField(ci.Args[0]) != "symSignHMAC" && !isFactoryHash(kt, st, ci.Args[0]) {
						bad("key", "sign "+kind, ci.Instr, "a chunk is not signed with the channel's own signing key", st)
					}
				}
			case "rsasign":
				r.Ob("key", side+" asymmetric signature")
				if !ci.Args[len(ci.Args)-2].Strip().HasField("localPrivateKey") {
					bad("key", "rsasign", ci.Instr, "an open message is not signed with the own private key", st)
				}
			case "encrypt":
				r.Ob("key", side+" symmetric encryption "+kind)
				d := ci.Args[0].Strip()
				if !d.IsCall("cipher.NewCBCEncrypter") || !isOwnCipher(kt, st, d.Args[0]) || lastField(d.Args[1]) != "localInitializationVector" {
					bad("key", "encrypt "+kind, ci.Instr, "a chunk is not enciphered with the channel's own encrypting key and initialization vector", st)
				}
				good := len(ci.Args) == 3
				if good {
					for _, a := range ci.Args[1:] {
						base, lo, hi, ok := sliceParts(a)
						if !ok || !noTerm(hi) {
							good = false
							break
						}
						c, isW := snapshot(base, "bytes")
						if !isW || c != sentOf(st) || !isHeaderEnd(st, lo, kind) {
							good = false
						}
					}
				}
				if good {
					st.Set("encrypted", x.T.mk("const", sentOf(st), nil, nil, nil, nil))
				} else {
					bad("encrypted", kind+" span", ci.Instr, "what is enciphered is not everything after the plain header of the chunk", st)
				}
			case "rsaencrypt":
				r.Ob("key", side+" asymmetric encryption")
				if !ci.Args[len(ci.Args)-2].Strip().HasField("remotePublicKey") {
					bad("key", "rsaencrypt", ci.Instr, "an open message is not enciphered with the peer's public key", st)
				}
				pt := bufRoot(ci.Args[len(ci.Args)-1])
				if c, isW := snapshot(pt, "bytes"); isW {
					// enciphered in place
					if c != sentOf(st) {
						bad("encrypted", kind+" plain", ci.Instr, "what is enciphered is not the chunk in its final form", st)
					}
				} else if f := st.Get("plain:" + pt.Key()); f == nil {
					bad("encrypted", kind+" plain", ci.Instr, "what is enciphered is not the chunk in its final form", st)
				}
			case "other":
				if ci.Name == "builtin.copy" && len(ci.Args) == 2 {
					p09Copy(p, x, st, ci, isHeaderEnd, kind, func(what, msg string) { bad("encrypted", kind+" "+what, ci.Instr, msg, st) })
				}
			}
		}
		ev.branch = func(x *Exec, st *State, cond *Term, taken bool) {
			p09CipherMade(x, st, cond, taken)
			// the enciphering loop is entered: the header is shorter than the chunk
			if c, tk := NormCond(cond, taken); c.Op == "bin" && c.Name == "<" && !tk && c.Args[0].Strip().Op == "phi" {
				if n, is := snapshot(c.Args[1], "len"); is && n == sentOf(st) && strings.Contains(n, "B") && !st.Has("walk") {
					if p09Loop(x, st, c.Args[0], func(t *Term) bool { return isHeaderEnd(st, t, sendKind(st)) }, func(*Term) bool { return true }) == "" {
						st.dead = true
						return
					}
				}
			}
			if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
				if _, is := snapshot(b, "len"); is {
					a, b = b, a
				}
				if c, is := snapshot(a, "len"); is && c == headerItems(sendKind(st)) {
					st.Set("hdrlen", b)
				}
				for _, u := range [][2]*Term{{a.Strip(), b}, {b.Strip(), a}} {
					if l := u[0]; l.IsCall("builtin.len") {
						if e := l.Args[0].Strip(); e.Op == "extract" && e.Args[0].Op == "call" && strings.HasSuffix(e.Args[0].Name, ".RSAEncrypt") {
							st.Set("ctlen", u[1])
						}
					}
				}
			}
		}
		ev.instr = func(x *Exec, st *State, in ssa.Instruction) {
			covered[in.Parent()] = true
			kt.instr(x, st, in)
			sto, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := sto.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
				return
			}
			switch fieldName(derefType(fa.X.Type()), fa.Field) {
			case s.token:
				st.Set("keep:tok", x.Flag())
				st.Del("keep:hmac")
				st.Del("keep:cipher")
				if v := x.Val(st, sto.Val); lastField(v) != "" {
					st.Set("keep:tokfrom", v)
				}
			case "symSignHMAC":
				st.Set("keep:hmac", x.Flag())
			case "symEncryptingBlockCipher":
				st.Set("keep:cipher", x.Flag())
			}
		}
		ev.emit = func(x *Exec, st *State, ci *CallInfo, kind, content string, buf *Term) {
			covered[ci.Instr.Parent()] = true
			key := kind
			switch kind {
			case "Error", "Hello", "Ack":
				r.Ob("other", side+" "+kind)
				if content == "" {
					bad("other", "unknown bytes", ci.Instr, "bytes that are not a message built before reach the connection", st)
				}
				return
			case "Chunk", "Final", "CloseFinal", "OpenFinal":
			default:
				bad("other", "unknown", ci.Instr, "bytes of unknown kind reach the connection", st)
				return
			}
			m := modesOf(st)
			r.Ob("signed", side+" "+key+" modes "+m)
			full := sentOf(st)
			if m != "1" {
				sg := st.Get("signed")
				pre := ""
				if sg != nil {
					pre, _ = snapshot(sg, "bytes")
				}
				switch {
				case sg == nil || !strings.HasSuffix(full, "S"):
					bad("signed", key+" missing", ci.Instr, "a chunk reaches the connection unsigned although the mode is not known to be None", st)
				case pre+"S" != full:
					bad("signed", key+" cover", ci.Instr, "the signature does not cover everything before it", st)
				}
				if !strings.Contains(full, "B") {
					bad("signed", key+" body", ci.Instr, "the chunk does not hold its body", st)
				}
			}
			if secret(st, kind) {
				r.Ob("encrypted", side+" "+key+" modes "+m)
				if kind == "OpenFinal" {
					root := bufRoot(buf)
					if content != "" {
						bad("encrypted", key+" missing", ci.Instr, "an open message reaches the connection without being enciphered although the mode is not known to be None", st)
					} else if !st.Has("cipher:" + root.Key()) {
						// the loop that enciphers may be judged empty; it is required to exist
						bad("encrypted", key+" missing", ci.Instr, "the bytes sent are not those enciphered with the peer's public key", st)
					}
					if t := st.Get("raw:" + root.Key()); t != nil {
						bad("encrypted", key+" raw", ci.Instr, "the buffer sent holds bytes of the message that were not enciphered", st)
					}
				} else {
					e := st.Get("encrypted")
					switch {
					case e == nil:
						bad("encrypted", key+" missing", ci.Instr, "a chunk reaches the connection without being enciphered although the mode may be SignAndEncrypt", st)
					case e.Name != full:
						bad("encrypted", key+" order", ci.Instr, "the chunk was changed after it was enciphered", st)
					case content != full:
						bad("encrypted", key+" buffer", ci.Instr, "the bytes sent are not those enciphered", st)
					}
				}
			}
			if kind != "OpenFinal" && content != full {
				bad("signed", key+" buffer", ci.Instr, "the bytes sent are not the chunk in its final form", st)
			}
			if kind != "OpenFinal" {
				r.Ob("token", side+" "+key)
				t := st.Get("it3")
				if t == nil || lastField(t) != s.token && (st.Get("keep:tokfrom") == nil || t.Strip() != st.Get("keep:tokfrom").Strip()) {
					bad("token", key, ci.Instr, "the header does not name the token whose keys secure the chunk ("+s.token+")", st)
				}
				if st.Has("keep:tok") && m != "1" {
					if !st.Has("keep:hmac") || strings.Contains(m, "3") && !st.Has("keep:cipher") {
						bad("token", key+" keys", ci.Instr, "a new token is named in the header without the keys having been derived anew", st)
					}
				}
			}
		}
		for _, root := range s.roots {
			p.sendExplore(s, root, ev)
			r.SawFn(p.Func(root))
		}
		kt.allocs(s.pkg)
	}
	// the server derives the keys it sends with when it receives the first chunk of a token
	for _, s := range recvSides {
		s := s
		kt := &keyTrack{p, r, "key", s.side, "local"}
		ev := recvEvents{}
		tok := map[string]string{"server": "tokenID", "client": "sendingTokenID"}[s.side]
		done := func(st *State, where ssa.Instruction) {
			if !st.Has("ktok") || modesOf(st) == "1" {
				return
			}
			r.Ob("token", s.side+" switch modes "+modesOf(st))
			if !st.Has("khmac") || strings.Contains(modesOf(st), "3") && !st.Has("kcipher") {
				r.Bad("token", s.side+"/switch", p.InstrPos(where), "the channel goes over to a new token for sending without having derived the keys for it", st.Trace(8)...)
			}
		}
		ev.call = func(k string, x *Exec, st *State, ci *CallInfo) {
			kt.call(x, st, ci)
			if strings.HasSuffix(ci.Name, "Mutex.Unlock") && len(ci.Args) > 0 && lastField(ci.Args[0]) == "sendingSemaphore" || k == "join" {
				done(st, ci.Instr)
				if k != "join" {
					st.Del("ksem")
				}
			}
			if strings.HasSuffix(ci.Name, "Mutex.Lock") && len(ci.Args) > 0 && lastField(ci.Args[0]) == "sendingSemaphore" {
				st.Set("ksem", x.Flag())
			}
			if k == "read" || k == "join" {
				for _, f := range []string{"ktok", "khmac", "kcipher"} {
					st.Del(f)
				}
			}
		}
		ev.instr = func(x *Exec, st *State, in ssa.Instruction) {
			kt.instr(x, st, in)
			sto, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := sto.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
				return
			}
			f := fieldName(derefType(fa.X.Type()), fa.Field)
			switch f {
			case tok, "symSignHMAC", "symEncryptingBlockCipher", "localSigningKey", "localEncryptingKey", "localInitializationVector":
				r.Ob("token", s.side+" "+f+" changed while sending is held off")
				if !st.Has("ksem") {
					r.Bad("token", s.side+"/"+f+" race", p.InstrPos(in), "the keys or token for sending are changed while a message may be under way", st.Trace(8)...)
				}
			}
			switch f {
			case tok:
				st.Set("ktok", x.Flag())
			case "symSignHMAC":
				st.Set("khmac", x.Flag())
			case "symEncryptingBlockCipher":
				st.Set("kcipher", x.Flag())
			}
		}
		ev.branch = p09CipherMade
		p.recvExplore(s, ev)
	}
	p09Nonces(p, r)
	p09Writers(p, r, covered)
	r.Min("signed", 12)
	r.Min("encrypted", 6)
	r.Min("key", 10)
	r.Min("token", 5)
	r.Min("nonce", 6)
	r.Min("other", 4)
}

// isFactoryHash: a hash made from the local signing key.
func isFactoryHash(k *keyTrack, st *State, t *Term) bool {
	t = t.Strip()
	return t.Op == "call" && strings.HasSuffix(t.Name, ".SymHMACFactory") && len(t.Args) > 0 && k.role(st, t.Args[len(t.Args)-1]) == "localSigningKey"
}

// isOwnCipher: the channel's encrypting cipher, or one just made from its encrypting key.
func isOwnCipher(k *keyTrack, st *State, t *Term) bool {
	t = t.Strip()
	if lastField(t) == "symEncryptingBlockCipher" {
		return true
	}
	if t.Op == "extract" && t.Name == "0" {
		t = t.Args[0].Strip()
	}
	return t.IsCall("aes.NewCipher") && k.role(st, t.Args[0]) == "localEncryptingKey"
}

// p09CipherMade: aes.NewCipher fails only for keys of a wrong length, which rule key excludes.
func p09CipherMade(x *Exec, st *State, cond *Term, taken bool) {
	if a, b, eq, ok := CmpOf(cond, taken); ok && !eq {
		if b.IsNil() && a.Op == "extract" && a.Name == "1" && a.Args[0].IsCall("aes.NewCipher") {
			st.dead = true
		}
	}
}

// p09Loop: the phi starts at the end of the header and advances by steps that the predicate accepts.
func p09Loop(x *Exec, st *State, t *Term, isStart, isStep func(*Term) bool) string {
	t = t.Strip()
	ph, ok := t.V.(*ssa.Phi)
	if t.Op != "phi" || !ok {
		return "it is not a loop variable"
	}
	fr := st.C.F
	if fr.fn != ph.Parent() {
		return "it belongs to another function"
	}
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op.String() != "+" || b.X != ssa.Value(ph) && b.Y != ssa.Value(ph) {
				return "it does not advance by a block at a time"
			}
			y := b.Y
			if b.Y == ssa.Value(ph) {
				y = b.X
			}
			if !isStep(x.ValIn(st, fr, y)) {
				return "it does not advance by the length of a block"
			}
		} else if v := st.Get("phi0:" + ph.Name()); v == nil || !isStart(v) {
			return "it does not start at the end of the header"
		}
	}
	return ""
}

// p09Copy follows the bytes of an open message through the buffers used to encipher it.
func p09Copy(p *Program, x *Exec, st *State, ci *CallInfo, isHeaderEnd func(*State, *Term, string) bool, kind string, bad func(what, msg string)) {
	start := func(t *Term) bool { return isHeaderEnd(st, t, kind) }
	same := func(a, b *Term) bool { return linSub(linOf(a), linOf(b)).isZero() }
	dst, src := bufRoot(ci.Args[0]), ci.Args[1].Strip()
	root := bufRoot(src)
	if c, ok := snapshot(root, "bytes"); ok {
		_, lo, hi, sl := sliceParts(src)
		if sl && isZeroOrNone(lo) && !noTerm(hi) && isHeaderEnd(st, hi, kind) {
			return // the plain header
		}
		if c == sentOf(st) {
			if sl {
				st.Set("plain:"+dst.Key(), x.Flag())
				if why := p09Loop(x, st, lo, start, func(t *Term) bool {
					if dst.Op == "make" && len(dst.Args) > 0 && same(dst.Args[0], t) {
						return true
					}
					u := t.Strip()
					return u.Op == "call" && (u.Name == "builtin.len" || u.Name == "builtin.copy") && bufRoot(u.Args[0]) == dst
				}); why != "" {
					bad("from", "the position in the chunk from which it is enciphered is wrong: "+why)
				} else {
					st.Set("walk", lo.Strip())
				}
			}
		}
		st.Set("raw:"+dst.Key(), x.Flag())
		return
	}
	if root.Op == "extract" && root.Name == "0" && root.Args[0].Op == "call" && strings.HasSuffix(root.Args[0].Name, ".RSAEncrypt") {
		st.Set("cipher:"+dst.Key(), x.Flag())
		_, lo, _, sl := sliceParts(ci.Args[0])
		why := "it does not advance"
		if sl {
			why = p09Loop(x, st, lo, start, func(t *Term) bool {
				if z := st.Get("ctlen"); z != nil && same(z, t) {
					return true
				}
				u := t.Strip()
				return u.Op == "call" && (u.Name == "builtin.len" && u.Args[0].Strip() == root || u.Name == "builtin.copy")
			})
		}
		if why != "" {
			bad("to", "the position to which the enciphered blocks are written is wrong: "+why)
		}
		return
	}
	if st.Has("raw:" + root.Key()) {
		st.Set("raw:"+dst.Key(), x.Flag())
	}
}

// p09Nonces: what is stored as own nonce, or sent as one, is random and of the prescribed length.
func p09Nonces(p *Program, r *Report) {
	fresh := func(v ssa.Value) (bool, string) { return p.randomBytes(v, 0) }
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" && fn.Pkg.Pkg.Name() != "client" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sto, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := sto.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				tn, f := TypeName(derefType(fa.X.Type())), fieldName(derefType(fa.X.Type()), fa.Field)
				own := strings.HasSuffix(tn, "SecureChannel") && f == "localNonce"
				sent := tn == "ua.OpenSecureChannelRequest" && f == "ClientNonce" || tn == "ua.OpenSecureChannelResponse" && f == "ServerNonce"
				if !own && !sent {
					continue
				}
				key := FuncName(fn) + " " + f
				r.Ob("nonce", key)
				ok, why := fresh(sto.Val)
				if ok && sent && !p.renewedBefore(in, "localNonce") && loadsField(sto.Val, "localNonce") {
					ok, why = false, "an earlier nonce of the channel is used again"
				}
				if !ok {
					r.Bad("nonce", key, p.InstrPos(in), "the nonce is not made of fresh random bytes of the length the policy prescribes: "+why)
				}
			}
		}
	}
}

// randomBytes: the value is a slice of random bytes as long as the policy's nonce (or empty, when the
// channel is unsecured), or the value held by one of the nonce fields, judged where they are stored.
func (p *Program) randomBytes(v ssa.Value, depth int) (bool, string) {
	if depth > 8 {
		return false, "too deep"
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return p.randomBytes(v.X, depth+1)
	case *ssa.ChangeType:
		return p.randomBytes(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if ok, why := p.randomBytes(e, depth+1); !ok {
				return false, why
			}
		}
		return true, ""
	case *ssa.Const:
		return true, "" // none: judged by the mode the channel was opened with
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok && strings.HasPrefix(al.Type().String(), "*[0]") {
			return true, ""
		}
		return p.randomBytes(v.X, depth+1)
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			switch fieldName(derefType(fa.X.Type()), fa.Field) {
			case "localNonce":
				if strings.HasPrefix(TypeName(derefType(fa.X.Type())), "server.") {
					return true, ""
				}
			case "ClientNonce":
				return true, ""
			}
			return false, "it is taken from " + fieldName(derefType(fa.X.Type()), fa.Field)
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			if s := singleStore(al); s != nil {
				return p.randomBytes(s, depth+1)
			}
		}
	case *ssa.Call:
		n, f := CallName(v.Common())
		if f == nil || !p.InModule(f) {
			return false, "it comes from " + n
		}
		if !p.fillsRandom(f) {
			return false, n + " does not fill it with random bytes"
		}
		for _, a := range v.Call.Args {
			if c, ok := a.(*ssa.Call); ok {
				if n, _ := CallName(c.Common()); strings.HasSuffix(n, ".NonceSize") {
					return true, ""
				}
			}
		}
		return false, "its length is not the policy's NonceSize"
	case *ssa.MakeSlice:
		ok := false
		if c, isC := v.Len.(*ssa.Call); isC {
			if n, _ := CallName(c.Common()); strings.HasSuffix(n, ".NonceSize") {
				ok = true
			}
		}
		if !ok {
			return false, "its length is not the policy's NonceSize"
		}
		for _, ref := range *v.Referrers() {
			if c, isC := ref.(*ssa.Call); isC {
				if n, _ := CallName(c.Common()); n == "rand.Read" && strings.HasPrefix(fnPkg(c), "crypto/") {
					return true, ""
				}
			}
		}
		return false, "it is not filled with random bytes"
	}
	return false, "its origin is not known"
}

func loadsField(v ssa.Value, f string) bool {
	switch v := v.(type) {
	case *ssa.Convert:
		return loadsField(v.X, f)
	case *ssa.ChangeType:
		return loadsField(v.X, f)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && loadsField(e, f) {
				return true
			}
		}
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldName(derefType(fa.X.Type()), fa.Field) == f
		}
	}
	return false
}

// renewedBefore: every path to the instruction passes a store to the field (here or in a helper called).
func (p *Program) renewedBefore(at ssa.Instruction, field string) bool {
	var stores func(in ssa.Instruction, depth int) bool
	stores = func(in ssa.Instruction, depth int) bool {
		if sto, ok := in.(*ssa.Store); ok {
			fa, ok := sto.Addr.(*ssa.FieldAddr)
			return ok && fieldName(derefType(fa.X.Type()), fa.Field) == field
		}
		if c, ok := in.(*ssa.Call); ok && depth < 3 {
			if f := c.Common().StaticCallee(); f != nil && p.InModule(f) && len(f.Blocks) > 0 {
				// on every path of the helper to its return
				return !p.reachWithout(f, func(i ssa.Instruction) bool { return stores(i, depth+1) }, func(i ssa.Instruction) bool { _, r := i.(*ssa.Return); return r })
			}
		}
		return false
	}
	return !p.reachWithout(at.Parent(), func(i ssa.Instruction) bool { return stores(i, 0) }, func(i ssa.Instruction) bool { return i == at })
}

// reachWithout: from the entry of f an instruction that goal accepts is reached without passing one that
// stop accepts.
func (p *Program) reachWithout(f *ssa.Function, stop, goal func(ssa.Instruction) bool) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if goal(in) {
				return true
			}
			if stop(in) {
				return false
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.Blocks[0])
}

func fnPkg(c *ssa.Call) string {
	if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	return ""
}

// fillsRandom: every slice the function returns was made with the length of its parameter and filled by
// crypto/rand.
func (p *Program) fillsRandom(f *ssa.Function) bool {
	seen := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			seen = true
			mk, ok := ret.Results[0].(*ssa.MakeSlice)
			if !ok {
				return false
			}
			if _, ok := mk.Len.(*ssa.Parameter); !ok {
				return false
			}
			filled := false
			for _, ref := range *mk.Referrers() {
				c, ok := ref.(*ssa.Call)
				if !ok {
					continue
				}
				n, _ := CallName(c.Common())
				if n == "rand.Read" && fnPkg(c) == "crypto/rand" && c.Block().Dominates(b) {
					filled = true
				} else if n == "io.ReadFull" && len(c.Call.Args) == 2 && c.Block().Dominates(b) {
					filled = isRandReader(c.Call.Args[0])
				} else if n != "builtin.len" {
					return false
				}
			}
			if !filled {
				return false
			}
		}
	}
	return seen
}

func isRandReader(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader"
		}
	}
	return false
}

// p09Writers: every call that writes to a connection was on an explored path.
func p09Writers(p *Program, r *Report, covered map[*ssa.Function]bool) {
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" && fn.Pkg.Pkg.Name() != "client" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n, _ := CallName(c.Common())
				if n != "net.Conn.Write" && n != "net.TCPConn.Write" {
					continue
				}
				r.Ob("other", "writer "+FuncName(fn))
				if !covered[fn] {
					r.Bad("other", FuncName(fn), p.InstrPos(in), "the connection is written to by a function outside the senders")
				}
			}
		}
	}
}
