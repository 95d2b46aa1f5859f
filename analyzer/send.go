package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sending side of the secure channels: one exploration per function that writes to the connection,
// whose events the properties P09, P21 and P22 judge.

type sendSide struct {
	side, pkg  string
	roots      []string
	opaque     []string // explored on their own or not part of sending
	msgLimit   string
	chunkLimit string
	token      string // field holding the id of the token whose keys secure what is sent
}

var sendSides = []sendSide{
	{"server", "server", []string{"server.serverSecureChannel.Write", "server.serverSecureChannel.Abort", "server.serverSecureChannel.Open"},
		[]string{"server.serverSecureChannel.readRequest", "server.serverSecureChannel.Write"}, "maxResponseMessageSize", "maxResponseChunkCount", "tokenID"},
	{"client", "client", []string{"client.clientSecureChannel.sendRequest", "client.clientSecureChannel.connect"},
		[]string{"client.clientSecureChannel.Request", "client.clientSecureChannel.readResponse", "client.clientSecureChannel.sendRequest", "client.clientSecureChannel.renewToken"}, "maxRequestMessageSize", "maxRequestChunkCount", "sendingTokenID"},
}

type sendEvents struct {
	// emit: bytes go to the connection. kind is the message type written first, content the items of the
	// writer whose bytes they are ("" when they are another buffer).
	emit   func(x *Exec, st *State, ci *CallInfo, kind, content string, buf *Term)
	call   func(ev string, x *Exec, st *State, ci *CallInfo)
	branch func(x *Exec, st *State, cond *Term, taken bool)
	instr  func(x *Exec, st *State, in ssa.Instruction)
	ret    func(x *Exec, st *State, res []*Term, in ssa.Instruction)
	block  func(x *Exec, st *State, from, to *ssa.BasicBlock)
}

func sentOf(st *State) string {
	if t := st.Get("content"); t != nil {
		return t.Name
	}
	return ""
}

func sendKind(st *State) string {
	if t := st.Get("mtype"); t != nil {
		return t.Name
	}
	return ""
}

// snapshot: the term is the bytes (or the length) of the writer; what it contained then.
func snapshot(t *Term, what string) (string, bool) {
	t = t.Strip()
	if t.Op == "opaque" && strings.HasPrefix(t.Name, what+"|") {
		return t.Name[len(what)+1:], true
	}
	return "", false
}

// headerItems is the content of a chunk's header for its kind.
func headerItems(kind string) string {
	if kind == "OpenFinal" {
		return "Tuusbb"
	}
	return "Tuuu"
}

func isConnWrite(ci *CallInfo) bool {
	return ci.Invoke && ci.Name == "net.Conn.Write" || ci.Name == "net.TCPConn.Write" || ci.Name == "net.Conn.Write"
}

func (p *Program) sendExplore(s sendSide, root string, e sendEvents) *Exec {
	fn := p.Func(root)
	kinds := map[string]string{}
	for _, k := range []string{"Chunk", "Final", "CloseFinal", "OpenFinal", "Error", "Hello", "Ack"} {
		kinds[fmt.Sprint(p.constVal("ua", "MessageType"+k))] = k
	}
	mode := map[string]string{}
	for m, c := range map[string]string{"None": "1", "Sign": "2", "SignAndEncrypt": "3"} {
		mode[fmt.Sprint(p.constVal("ua", "MessageSecurityMode"+m))] = c
	}
	cs := func(x *Exec, s string) *Term { return x.T.mk("const", s, nil, nil, nil, nil) }
	h := Hooks{MaxDepth: 6}
	h.Inline = func(f *ssa.Function) bool {
		n := FuncName(f)
		for _, o := range s.opaque {
			if n == o {
				return false
			}
		}
		if strings.HasSuffix(n, "calculatePSHA") || strings.HasSuffix(n, "getNextNonce") || p.isSeqSource(f) {
			return false
		}
		return f.Pkg == fn.Pkg
	}
	h.Stable = func(a *Term) bool {
		if a.Op != "fieldaddr" {
			return false
		}
		switch a.Name {
		case "securityMode", "securityPolicyURI", "securityPolicy", "sendBufferSize", "sendBuffer", "encryptionBuffer", "symSignHMAC", "symEncryptingBlockCipher",
			"localInitializationVector", "localPrivateKey", "remotePublicKey", "localCertificate", "localPrivateKeySize", "remotePublicKeySize", s.msgLimit, s.chunkLimit, s.token:
			return true
		}
		return false
	}
	add := func(x *Exec, st *State, item string, v *Term) {
		c := sentOf(st)
		if item == "y" && strings.HasSuffix(c, "yy") {
			return
		}
		if len(c) > 24 {
			return
		}
		if v != nil && len(c) < 10 {
			st.Set(fmt.Sprintf("it%d", len(c)), v)
		}
		st.Set("content", cs(x, c+item))
	}
	writer := func(st *State, t *Term) bool {
		w := st.Get("writer")
		return w != nil && t.Strip() == w
	}
	// an encoder's target
	target := func(st *State, t *Term) bool {
		w := st.Get("enc")
		return w != nil && t.Strip() == w
	}
	call := func(ev string, x *Exec, st *State, ci *CallInfo) {
		if e.call != nil {
			e.call(ev, x, st, ci)
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case isConnWrite(ci) && len(ci.Args) > 1:
			content := ""
			if c, ok := snapshot(bufRoot(ci.Args[1]), "bytes"); ok {
				content = c
			}
			e.emit(x, st, ci, sendKind(st), content, ci.Args[1])
			for _, k := range sortedKeys(st.A) {
				if k != "modes" && k != "emitted" && !strings.HasPrefix(k, "keep:") && !strings.HasPrefix(k, "role:") {
					st.Del(k)
				}
			}
			return ActOpaque
		case ci.Name == "ua.NewWriter":
			for i := 0; i < 10; i++ {
				st.Del(fmt.Sprintf("it%d", i))
			}
			for _, k := range []string{"content", "mtype", "enc", "signed", "encrypted", "padloop", "copied"} {
				st.Del(k)
			}
			st.Set("newwriter", ci.Args[0])
			return ActOpaque
		case ci.Name == "ua.NewBinaryEncoder":
			if writer(st, ci.Args[0]) {
				st.Set("encnew", x.Flag())
			} else {
				st.Del("encnew")
			}
			return ActOpaque
		case strings.HasPrefix(ci.Name, "ua.BinaryEncoder.") && target(st, ci.Args[0]):
			switch strings.TrimPrefix(ci.Name, "ua.BinaryEncoder.") {
			case "WriteUInt32":
				if sentOf(st) == "" {
					k := "?"
					if c := ci.Args[1].Strip(); c.Op == "const" && kinds[c.Name] != "" {
						k = kinds[c.Name]
					}
					st.Set("mtype", cs(x, k))
					add(x, st, "T", ci.Args[1])
				} else {
					add(x, st, "u", ci.Args[1])
				}
			case "WriteString":
				add(x, st, "s", ci.Args[1])
			case "WriteByteArray":
				add(x, st, "b", ci.Args[1])
			case "WriteByte":
				add(x, st, "y", nil)
			default:
				add(x, st, "?", nil)
			}
			call("write", x, st, ci)
			return ActOpaque
		case ci.Name == "ua.Writer.Bytes" && writer(st, ci.Args[0]):
			ci.Result = x.T.mk("opaque", "bytes|"+sentOf(st), nil, nil, nil, nil)
			return ActOpaque
		case ci.Name == "ua.Writer.Len" && writer(st, ci.Args[0]):
			ci.Result = x.T.mk("opaque", "len|"+sentOf(st), nil, nil, nil, nil)
			return ActOpaque
		case (ci.Name == "io.CopyN" || ci.Name == "io.Copy") && writer(st, ci.Args[0]):
			if ci.Name == "io.CopyN" {
				st.Set("copied", ci.Args[2])
			}
			add(x, st, "B", nil)
			call("copy", x, st, ci)
			return ActOpaque
		case ci.Name == "ua.Writer.Write" && writer(st, ci.Args[0]):
			call("append", x, st, ci)
			if isSignature(st, ci.Args[1]) {
				add(x, st, "S", nil)
				st.Set("signed", st.Get("sigdata"))
			} else {
				add(x, st, "?", nil)
			}
			return ActOpaque
		case len(ci.Args) > 0 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Reset"):
			st.Set("hreset", ci.Args[0])
			st.Del("hdata")
			return ActOpaque
		case len(ci.Args) > 1 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Write"):
			if st.Has("hdata") {
				st.Set("hdata", cs(x, "several"))
			} else {
				st.Set("hdata", ci.Args[1])
			}
			call("hash", x, st, ci)
			return ActOpaque
		case len(ci.Args) > 0 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Sum"):
			call("sum", x, st, ci)
			return ActOpaque
		case strings.HasSuffix(ci.Name, ".RSASign"):
			call("rsasign", x, st, ci)
			return ActOpaque
		case strings.HasSuffix(ci.Name, "BlockMode.CryptBlocks"):
			call("encrypt", x, st, ci)
			return ActOpaque
		case strings.HasSuffix(ci.Name, ".RSAEncrypt"):
			call("rsaencrypt", x, st, ci)
			return ActOpaque
		}
		if ci.Fn != nil && p.isSeqSource(ci.Fn) {
			call("seq", x, st, ci)
			return ActOpaque
		}
		call("other", x, st, ci)
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if res == nil {
			return
		}
		switch {
		case ci.Name == "ua.NewWriter":
			st.Set("writer", res.Strip())
		case ci.Name == "ua.NewBinaryEncoder" && st.Has("encnew"):
			st.Set("enc", res.Strip())
			st.Del("encnew")
		case len(ci.Args) > 0 && isHash(ci.Args[0]) && strings.HasSuffix(ci.Name, ".Sum"):
			st.Set("signature", res.Strip())
			st.Set("sighash", ci.Args[0])
			if d := st.Get("hdata"); d != nil && st.Has("hreset") {
				st.Set("sigdata", d)
			} else {
				st.Set("sigdata", cs(x, "none"))
			}
		case strings.HasSuffix(ci.Name, ".RSASign"):
			st.Set("signature", res)
			st.Set("sigdata", ci.Args[len(ci.Args)-1])
			st.Set("sighash", ci.Args[len(ci.Args)-2])
		}
		if ci.Fn != nil && p.isSeqSource(ci.Fn) {
			st.Set("seqval", res.Strip())
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if e.instr != nil {
			e.instr(x, st, in)
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok {
			if a.Op == "const" {
				a, b = b, a
			}
			if m := mode[b.Name]; b.Op == "const" && m != "" && a.Strip().HasField("securityMode") {
				cur := modesOf(st)
				if eq {
					if !strings.Contains(cur, m) {
						st.dead = true
						return
					}
					cur = m
				} else {
					cur = strings.Replace(cur, m, "", 1)
					if cur == "" {
						st.dead = true
						return
					}
				}
				st.Set("modes", cs(x, cur))
			}
		}
		if e.branch != nil {
			e.branch(x, st, cond, taken)
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if e.ret != nil {
			e.ret(x, st, res, in)
		}
	}
	// the values loop variables start with
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		if e.block != nil {
			e.block(x, st, from, to)
		}
		if sendKind(st) == "" {
			return
		}
		header := false
		pi := 0
		for i, q := range to.Preds {
			if to.Dominates(q) {
				header = true
			}
			if q == from {
				pi = i
			}
		}
		if !header || to.Dominates(from) {
			return
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isBasicNumeric(ph.Type()) {
				st.Set("phi0:"+ph.Name(), x.Val(st, ph.Edges[pi]))
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	return x
}

// isSeqSource: the function hands out the next sequence number of a channel.
func (p *Program) isSeqSource(f *ssa.Function) bool {
	if f == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && p21Modifies(fa) {
				switch fieldName(derefType(fa.X.Type()), fa.Field) {
				case "lastSequenceNumber", "sequenceNumber":
					return true
				}
			}
		}
	}
	return false
}

func isSignature(st *State, t *Term) bool {
	s := st.Get("signature")
	if s == nil {
		return false
	}
	t = t.Strip()
	if t.Op == "extract" && t.Name == "0" {
		t = t.Args[0]
	}
	return t.Strip() == s.Strip()
}
