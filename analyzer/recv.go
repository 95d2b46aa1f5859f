package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Receiving side of the secure channels: one exploration of readRequest / readResponse whose
// events the properties P07, P08, P22 and P30 judge.

type recvSide struct {
	side string // server or client
	fn   string
	read string
	open string
}

var recvSides = []recvSide{
	{"server", "server.serverSecureChannel.readRequest", "server.serverSecureChannel.read", "server.serverSecureChannel.Open"},
	{"client", "client.clientSecureChannel.readResponse", "client.clientSecureChannel.Read", "client.clientSecureChannel.Open"},
}

type recvEvents struct {
	// call sees every call with the path's typestate; kind of event in ev:
	// read, join, decode, deliver, decrypt, other
	call   func(ev string, x *Exec, st *State, ci *CallInfo)
	branch func(x *Exec, st *State, cond *Term, taken bool)
	instr  func(x *Exec, st *State, in ssa.Instruction)
	ret    func(x *Exec, st *State, res []*Term, in ssa.Instruction)
	bad    func(what, where, msg string, st *State)
}

func isChannelFn(f *ssa.Function) bool {
	rt := RecvType(f)
	return strings.HasSuffix(rt, "SecureChannel")
}

// buffer roots

// sliceParts peels a slice expression.
func sliceParts(t *Term) (base, lo, hi *Term, ok bool) {
	t = t.Strip()
	if t.Op != "slice" {
		return nil, nil, nil, false
	}
	return t.Args[0], t.Args[1], t.Args[2], true
}

func noTerm(t *Term) bool { return t == nil || t.Op == "const" && t.Name == "none" }

func isZeroOrNone(t *Term) bool {
	if noTerm(t) {
		return true
	}
	k, ok := numConst(t)
	return ok && k == 0
}

func linSub(a, b *linear) *linear {
	l := &linear{new(big.Int).Sub(a.c, b.c), map[string]*big.Int{}}
	for k, v := range a.coef {
		l.add(k, v)
	}
	for k, v := range b.coef {
		l.add(k, new(big.Int).Neg(v))
	}
	return l
}

func (l *linear) isZero() bool { return l.c.Sign() == 0 && len(l.coef) == 0 }

// modeSet is the set of security modes still possible on the path: "123" with 1 None, 2 Sign, 3 SignAndEncrypt.
func modesOf(st *State) string {
	if t := st.Get("modes"); t != nil {
		return t.Name
	}
	return "123"
}

func (p *Program) recvExplore(s recvSide, e recvEvents) *Exec {
	fn := p.Func(s.fn)
	msg := map[string]string{}
	for _, k := range []string{"Chunk", "Final", "CloseFinal", "OpenFinal", "Error", "Abort"} {
		msg[fmt.Sprint(p.constVal("ua", "MessageType"+k))] = k
	}
	mode := map[string]string{}
	for m, c := range map[string]string{"None": "1", "Sign": "2", "SignAndEncrypt": "3"} {
		mode[fmt.Sprint(p.constVal("ua", "MessageSecurityMode"+m))] = c
	}
	h := Hooks{MaxDepth: 6}
	h.Inline = func(f *ssa.Function) bool {
		n := FuncName(f)
		if n == s.read || strings.HasSuffix(n, "calculatePSHA") || RecvType(f) == "ua.BinaryDecoder" {
			return false
		}
		return f.Pkg == fn.Pkg
	}
	h.Stable = func(a *Term) bool {
		return a.Op == "fieldaddr" && (a.Name == "securityMode" || a.Name == "securityPolicyURI" || a.Name == "remoteCertificate" || a.Name == "remotePublicKey" || a.Name == "receiveBuffer")
	}
	call := func(ev string, x *Exec, st *State, ci *CallInfo) {
		if e.call != nil {
			e.call(ev, x, st, ci)
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case ci.Name == s.read:
			for _, k := range []string{"verified", "decrypted", "kind", "hdata", "hreset", "hsum", "seq", "count", "mlen", "sized", "joined", "pinned"} {
				st.Del(k)
			}
			n := st.Count("chunks")
			if n < 3 {
				st.Set("chunks", x.Int(n+1))
			}
			st.Set("buffer", ci.Args[1])
			call("read", x, st, ci)
			return ActOpaque
		case len(ci.Args) > 0 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Reset"):
			st.Set("hreset", ci.Args[0])
			st.Del("hdata")
			return ActOpaque
		case len(ci.Args) > 1 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Write"):
			if st.Has("hdata") {
				st.Set("hdata", x.T.mk("opaque", "several", nil, nil, nil, nil))
			} else {
				st.Set("hdata", ci.Args[1])
			}
			return ActOpaque
		case len(ci.Args) > 0 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Sum"):
			st.Set("hsum", ci.Args[0])
			return ActOpaque
		case strings.HasSuffix(ci.Name, "BlockMode.CryptBlocks"):
			call("decrypt", x, st, ci)
			st.Set("decrypted", ci.Args[0])
			st.Set("decspan", ci.Args[1])
			return ActOpaque
		case strings.HasSuffix(ci.Name, ".RSADecrypt"):
			call("rsadecrypt", x, st, ci)
			st.Set("decrypted", ci.Args[0])
			return ActOpaque
		case strings.HasSuffix(ci.Name, ".RSAVerify"):
			call("rsaverify", x, st, ci)
			return ActOpaque
		case (strings.HasSuffix(ci.Name, ".Write") || strings.HasSuffix(ci.Name, ".WriteAt")) && len(ci.Args) > 1 && e.rooted(st, ci.Args[1]):
			call("join", x, st, ci)
			st.Set("joined", x.Flag())
			return ActOpaque
		case ci.Name == "builtin.append" && len(ci.Args) > 1 && e.rooted(st, ci.Args[1]):
			call("join", x, st, ci)
			st.Set("joined", x.Flag())
			return ActOpaque
		case strings.HasPrefix(ci.Name, "ua.BinaryDecoder."):
			call("decode", x, st, ci)
			if ci.Name == "ua.BinaryDecoder.ReadNodeID" || ci.Name == "ua.BinaryDecoder.Decode" {
				call("deliver", x, st, ci)
				return ActStop
			}
			return ActOpaque
		}
		call("other", x, st, ci)
		return ActDefault
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if e.instr != nil {
			e.instr(x, st, in)
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok {
			if a.Op == "const" {
				a, b = b, a
			}
			if b.Op == "const" {
				if k := msg[b.Name]; k != "" && eq {
					st.Set("kind", x.T.mk("const", k, nil, nil, nil, nil))
				}
				if m := mode[b.Name]; m != "" && a.Strip().HasField("securityMode") {
					cur := modesOf(st)
					if eq {
						if !strings.Contains(cur, m) {
							st.dead = true
							return
						}
						cur = m
					} else {
						cur = strings.Replace(cur, m, "", 1)
						if cur == "" {
							st.dead = true
							return
						}
					}
					st.Set("modes", x.T.mk("const", cur, nil, nil, nil, nil))
				}
			}
		}
		if e.branch != nil {
			e.branch(x, st, cond, taken)
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if e.ret != nil {
			e.ret(x, st, res, in)
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	return x
}

// rooted: the term is (a slice of) the buffer the last chunk was read into.
func (e recvEvents) rooted(st *State, t *Term) bool {
	b := st.Get("buffer")
	return b != nil && bufRoot(t) == bufRoot(b)
}

func bufRoot(t *Term) *Term {
	for t != nil {
		t = t.Strip()
		if t.Op == "slice" {
			t = t.Args[0]
			continue
		}
		return t
	}
	return nil
}

func kindOf(st *State) string {
	if t := st.Get("kind"); t != nil {
		return t.Name
	}
	return ""
}

// isHash: the value is a hash.Hash.
func isHash(t *Term) bool {
	return t.Typ != nil && TypeName(t.Typ) == "hash.Hash" || t.Strip().HasField("symVerifyHMAC") || t.Strip().HasField("symSignHMAC")
}
