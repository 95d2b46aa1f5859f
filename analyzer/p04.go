package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P04", "Agreement of dispatch tables by path-sensitive exploration: on every path of the server's and client's senders up to the point where the body is encoded, the encoding id written is the standard id of the type that is encoded; on every path of both receivers the object that is decoded has the type whose standard id was compared equal; the dispatcher with all handlers inlined writes for each request type only the response type of that service or a fault, and a fault BadServiceUnsupported for anything else; and for every dispatched service the four tables chain (client sends it, server recognises it, server can send its response, client recognises that) and the client's service method asserts that service's response type.", runP04)
}

// globalOf is the name of the global a term loads.
func globalOf(t *Term) string {
	if t != nil && t.Op == "load" && t.Args[0].Op == "global" {
		n := t.Args[0].Name
		return n[strings.Index(n, ".")+1:]
	}
	return ""
}

func typeNameOfTerm(t *Term) string {
	if t == nil || t.Typ == nil {
		return ""
	}
	if types.IsInterface(t.Typ) {
		return ""
	}
	return strings.TrimPrefix(TypeName(t.Typ), "ua.")
}

func runP04(p *Program, r *Report) {
	r.Rule("send: the encoding id written before the body is the standard id of the body's type")
	r.Rule("receive: the object decoded has the type of the encoding id that was recognised")
	r.Rule("answer: a service's handler writes only that service's response type or a ServiceFault; unknown requests get BadServiceUnsupported")
	r.Rule("chain: client-send, server-receive, server-send and client-receive support every dispatched service")
	r.Rule("method: the client method taking XRequest returns XResponse")
	oracle := encodingOracle()
	vars := p.EncodingVars()
	byID := map[uint64]string{}
	for n, id := range oracle {
		byID[id] = n
	}
	// type whose standard id the global holds
	typeOfVar := func(g string) string {
		if id, ok := vars[g]; ok {
			if n := byID[id]; n != "" {
				return n
			}
			return fmt.Sprintf("id %d", id)
		}
		return ""
	}

	// ---- senders
	send := func(side, root string) map[string]bool {
		out := map[string]bool{}
		h := Hooks{MaxDepth: 6}
		reach := p.Reach(func(n string, in ssa.CallInstruction) bool { return n == "ua.BinaryEncoder.Encode" }, nil)
		h.Inline = func(fn *ssa.Function) bool { return reach[fn] && fn.Pkg == p.SSA[side] }
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch ci.Name {
			case "ua.BinaryEncoder.WriteNodeID":
				st.Set("id", ci.Args[1])
				return ActOpaque
			case "ua.BinaryEncoder.Encode":
				if !st.Has("id") {
					return ActOpaque
				}
				where := p.InstrPos(ci.Instr)
				typ := typeNameOfTerm(ci.Args[1])
				g := globalOf(st.Get("id"))
				is := typeOfVar(g)
				r.Ob("send", side+" "+typ)
				if typ == "" {
					r.Bad("send", side+"/untyped", where, "the message body encoded here has no type fixed by the path", st.Trace(4)...)
				} else if is != typ {
					if g == "" {
						g = st.Get("id").Key()
					}
					r.Bad("send", side+"/"+typ, where, fmt.Sprintf("%s sends a %s under %s, which identifies %q", side, typ, g, is), st.Trace(4)...)
				} else {
					out[typ] = true
				}
				st.dead = true
				return ActStop
			}
			return ActDefault
		}
		x := NewExec(p, h)
		x.Run(p.Func(root), nil)
		r.Saw(x)
		return out
	}
	srvSend := send("server", "server.serverSecureChannel.Write")
	cliSend := send("client", "client.clientSecureChannel.sendRequest")

	// ---- receivers
	recv := func(side, root string) map[string]bool {
		out := map[string]bool{}
		f := p.Func(root)
		h := Hooks{MaxDepth: 5, NoFacts: true}
		reach := p.Reach(func(n string, in ssa.CallInstruction) bool {
			return n == "ua.BinaryDecoder.Decode" || n == "ua.BinaryDecoder.ReadNodeID"
		}, func(in ssa.Instruction) bool {
			if b, ok := in.(*ssa.BinOp); ok {
				for _, v := range []ssa.Value{b.X, b.Y} {
					if u, ok := v.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && strings.HasSuffix(g.Name(), encSuffix) {
							return true
						}
					}
				}
			}
			return false
		})
		h.Inline = func(fn *ssa.Function) bool { return reach[fn] && fn.Pkg == p.SSA[side] }
		started := false
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch ci.Name {
			case "ua.BinaryDecoder.ReadNodeID":
				started = true
				st.Set("nid", ci.Args[1])
				return ActOpaque
			case "ua.BinaryDecoder.Decode":
				where := p.InstrPos(ci.Instr)
				typ := typeNameOfTerm(ci.Args[1])
				rec := ""
				if t := st.Get("rec"); t != nil {
					rec = t.Name
				}
				r.Ob("receive", side+" "+rec)
				if rec == "" {
					r.Bad("receive", side+"/unrecognised", where, side+" decodes a message body whose encoding id was not recognised", st.Trace(4)...)
				} else if typ != rec {
					r.Bad("receive", side+"/"+rec, where, fmt.Sprintf("%s decodes a message identified as %s into a %s", side, rec, typ), st.Trace(4)...)
				} else {
					out[rec] = true
				}
				st.Set("decoded", ci.Args[1])
				return ActOpaque
			}
			return ActDefault
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok || !eq {
				return
			}
			if globalOf(a) != "" {
				a, b = b, a
			}
			if g := globalOf(b); strings.HasSuffix(g, encSuffix) || typeOfVar(g) != "" && strings.HasPrefix(g, "ObjectID") {
				// the compared value must be what ReadNodeID filled in
				if nid := st.Get("nid"); nid == nil || !a.Contains(func(t *Term) bool { return t == nid }) {
					return
				}
				st.Set("rec", x.T.mk("const", typeOfVar(g), nil, nil, nil, nil))
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if res[0].IsNil() {
				return
			}
			r.Ob("receive", side+" returns a decoded message")
			d := st.Get("decoded")
			if d == nil || !rootedAt(res[0], d) {
				r.Bad("receive", side+"/return", p.InstrPos(in), side+" returns "+res[0].Key()+", which is not the message it decoded", st.Trace(4)...)
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
		if !started {
			r.Bad("receive", side+"/noid", "-", root+" never reads an encoding id")
		}
		return out
	}
	srvRecv := recv("server", "server.serverSecureChannel.readRequest")
	cliRecv := recv("client", "client.clientSecureChannel.readResponse")

	// ---- dispatcher
	answers := map[string]map[string]bool{}
	root := p.Func("server.Server.handleRequest")
	reach := p.Reach(func(n string, in ssa.CallInstruction) bool { return n == chWrite }, nil)
	h := Hooks{MaxDepth: 8, NoFacts: true}
	h.Inline = func(fn *ssa.Function) bool { return FuncName(fn) != chWrite && reach[fn] && fn.Pkg == p.SSA["server"] }
	h.SkipClosures = func(ci *CallInfo, cl *Term) bool {
		if ci.Fn != nil {
			return !reach[ci.Fn]
		}
		return false
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if s := svcOfBranch(cond, taken); s != "" && !st.Has("svc") {
			st.Set("svc", x.T.mk("const", s, nil, nil, nil, nil))
			if answers[s] == nil {
				answers[s] = map[string]bool{}
			}
		}
	}
	unsupported := p.constVal("ua", "BadServiceUnsupported")
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name != chWrite {
			return ActDefault
		}
		if fromDequeue(ci.Args[2]) {
			return ActOpaque
		}
		where := p.InstrPos(ci.Instr)
		typ := typeNameOfTerm(ci.Args[1])
		if !st.Has("svc") {
			code, ok := faultConst(x, st, ci.Args[1])
			r.Ob("answer", "(unsupported request) "+typ)
			if typ != "ServiceFault" || !ok || code != unsupported {
				r.Bad("answer", "unsupported", where, "a request of no supported service is not answered with a BadServiceUnsupported fault", st.Trace(4)...)
			}
			answers[""] = map[string]bool{typ: true}
			return ActOpaque
		}
		s := st.Get("svc").Name
		r.Ob("answer", s+" -> "+typ)
		want := strings.TrimSuffix(s, "Request") + "Response"
		if typ != want && typ != "ServiceFault" {
			r.Bad("answer", s+"/"+typ, where, fmt.Sprintf("%s is answered with a %s", s, typ), st.Trace(4)...)
		}
		answers[s][typ] = true
		return ActOpaque
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
	if answers[""] == nil {
		r.Bad("answer", "unsupported/none", p.Pos(root.Pos()), "requests of no supported service are not answered")
	}

	// handlers of queued publish requests answer with PublishResponse
	for _, f := range p.Funcs {
		rt := RecvType(f)
		for g := f; rt == "" && g.Parent() != nil; {
			g = g.Parent()
			rt = RecvType(g)
		}
		if rt != "server.Session" && rt != "server.Subscription" && rt != "server.SessionManager" && rt != "server.SubscriptionManager" {
			continue
		}
		EachCall(f, func(in ssa.CallInstruction, name string, _ *ssa.Function) {
			if name != chWrite {
				return
			}
			v := in.Common().Args[1]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				tn := strings.TrimPrefix(TypeName(mi.X.Type()), "ua.")
				r.Ob("answer", "queued Publish -> "+tn)
				if tn != "PublishResponse" && tn != "ServiceFault" {
					r.Bad("answer", "queued/"+tn, p.InstrPos(in), "a queued publish request is answered with a "+tn)
				}
			}
		})
	}

	// ---- chain
	for _, s := range sortedKeys(answers) {
		if s == "" {
			continue
		}
		req, resp := s, strings.TrimSuffix(s, "Request")+"Response"
		r.Ob("chain", s)
		bad := func(tab, typ string) {
			r.Bad("chain", s+"/"+tab, p.Pos(root.Pos()), fmt.Sprintf("the server dispatches %s, but the %s does not handle %s", s, tab, typ))
		}
		if !srvRecv[req] {
			bad("server's receiver", req)
		}
		if !cliSend[req] {
			bad("client's sender", req)
		}
		if s == "CloseSecureChannelRequest" {
			continue // answered by closing the connection
		}
		if !srvSend[resp] {
			bad("server's sender", resp)
		}
		if !cliRecv[resp] {
			bad("client's receiver", resp)
		}
	}
	for side, m := range map[string]map[string]bool{"server's sender": srvSend, "client's receiver": cliRecv} {
		r.Ob("chain", "ServiceFault "+side)
		if !m["ServiceFault"] {
			r.Bad("chain", "ServiceFault/"+side, "-", "the "+side+" does not handle ServiceFault")
		}
	}
	// everything one side sends the other recognises, fault or not
	for t := range cliSend {
		r.Ob("chain", "client sends "+t)
		if !srvRecv[t] {
			r.Bad("chain", "recognise/"+t, "-", "the client can send "+t+" but the server does not recognise it")
		}
	}
	for t := range srvSend {
		r.Ob("chain", "server sends "+t)
		if !cliRecv[t] {
			r.Bad("chain", "recognise/"+t, "-", "the server can send "+t+" but the client does not recognise it")
		}
	}

	// ---- client methods
	for _, f := range p.Funcs {
		if f.Pkg != p.SSA["client"] || f.Parent() != nil {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() < 1 {
			continue
		}
		var reqT string
		for i := 0; i < sig.Params().Len(); i++ {
			if t := reqTypeOf(sig.Params().At(i).Type()); t != "" && t != "ServiceRequest" {
				reqT = t
			}
		}
		rn := strings.TrimPrefix(TypeName(sig.Results().At(0).Type()), "ua.")
		if reqT == "" || !strings.HasSuffix(rn, "Response") {
			continue
		}
		r.Ob("method", FuncName(f))
		want := strings.TrimSuffix(reqT, "Request") + "Response"
		if rn != want {
			r.Bad("method", FuncName(f), p.Pos(f.Pos()), FuncName(f)+" takes a "+reqT+" but returns a "+rn)
			continue
		}
		// the request handed to the channel is the parameter
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok {
					tn := strings.TrimPrefix(TypeName(ta.AssertedType), "ua.")
					if strings.HasSuffix(tn, "Response") && tn != want && tn != "ServiceResponse" {
						r.Bad("method", FuncName(f)+"/assert", p.InstrPos(in), FuncName(f)+" expects a "+tn+" in answer to a "+reqT)
					}
				}
			}
		}
	}
	r.Min("send", 60)
	r.Min("receive", 60)
	r.Min("answer", 50)
	r.Min("chain", 28)
	r.Min("method", 30)
}
