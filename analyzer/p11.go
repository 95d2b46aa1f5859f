package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P11", "Typestate over all paths of certificate validation (helpers expanded) and of channel opening on both sides: validation may succeed only with a chain that the standard library verified under the caller's host name, usage and time, one member of which is in the trust list, and whose every member passed signature, usage and revocation tests; the opening may succeed on secured modes only after validation of the peer's certificate with the configured lists and suppressions succeeded.", runP11)
}

func runP11(p *Program, r *Report) {
	r.Rule("chain: validation succeeds only if the standard verification of the leaf succeeded, for the given host name, usages and the current time; host name and time are left out, and the leaf is taken as its own root, only when suppressed")
	r.Rule("trust: validation succeeds only if a member of the chain equals a certificate of the trust list; the leaf is counted as trusted only when incomplete chains are suppressed")
	r.Rule("member: every member of the accepted chain passed the self-signature test, the usage test and the revocation test")
	r.Rule("revocation: a certificate with an issuer passes only if every current list of the issuer was searched and did not contain it, and at least one was found unless suppressed")
	r.Rule("lists: trust list, issuers and revocation lists are read from the configured paths")
	r.Rule("open: a secured channel is opened only after validation of the peer's certificate succeeded, with the configured paths and suppressions")
	r.Rule("wiring: each option and constructor stores each setting under its own name")
	r.Rule("key: the peer's public key is that of the certificate")
	p11Validate(p, r)
	p11Open(p, r)
	p11Wiring(p, r)
	r.Min("chain", 2)
	r.Min("trust", 1)
	r.Min("member", 1)
	r.Min("revocation", 1)
	r.Min("lists", 4)
	r.Min("open", 3)
	r.Min("wiring", 8)
	r.Min("key", 2)
}

// parameter positions of ValidateCertificate
const (
	vcCerts = iota
	vcUsages
	vcHost
	vcTrusted
	vcTrustedCRL
	vcIssuers
	vcIssuersCRL
	vcRejected
	vcSupHost
	vcSupTime
	vcSupChain
	vcSupRev
)

const (
	tCert  = "[]*crypto/x509.Certificate"
	tChain = "[][]*crypto/x509.Certificate"
	tCRL   = "[]*crypto/x509.RevocationList"
)

// certLoop: a loop bounded by the length of a slice of interest.
type certLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	over  string          // type of the slice, or "revoked"
	kinds map[string]bool // for a loop over certificates: the tests its body reaches
}

func lenArg(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	return c.Call.Args[0]
}

func p11Loops(p *Program, pkg *ssa.Package) map[*ssa.BasicBlock]*certLoop {
	kindFns := map[string]map[*ssa.Function]bool{}
	instrKind := func(in ssa.Instruction) string {
		var t types.Type
		i := 0
		switch fa := in.(type) {
		case *ssa.FieldAddr:
			t, i = derefType(fa.X.Type()), fa.Field
		case *ssa.Field:
			t, i = fa.X.Type(), fa.Field
		case ssa.CallInstruction:
			if n, _ := CallName(fa.Common()); n == "x509.Certificate.CheckSignature" {
				return "self"
			}
			return ""
		default:
			return ""
		}
		switch fieldName(t, i) {
		case "ExtKeyUsage":
			return "use"
		case "RevokedCertificates", "RevokedCertificateEntries":
			return "rev"
		}
		return ""
	}
	for _, k := range []string{"use", "self", "rev"} {
		k := k
		kindFns[k] = p.Reach(nil, func(in ssa.Instruction) bool { return instrKind(in) == k })
	}
	out := map[*ssa.BasicBlock]*certLoop{}
	for _, f := range p.Funcs {
		if f.Pkg != pkg && (f.Parent() == nil || f.Parent().Pkg != pkg) {
			continue
		}
		for _, b := range f.Blocks {
			hdr := false
			for _, pr := range b.Preds {
				hdr = hdr || b.Dominates(pr)
			}
			if !hdr || len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			var s ssa.Value
			for _, o := range []ssa.Value{cmp.X, cmp.Y} {
				if a := lenArg(o); a != nil {
					s = a
				}
			}
			if s == nil {
				continue
			}
			l := &certLoop{head: b, kinds: map[string]bool{}}
			switch ts := s.Type().String(); {
			case ts == tCert || ts == tChain || ts == tCRL:
				l.over = ts
			case strings.HasPrefix(ts, "[]crypto/x509/pkix.RevokedCertificate") || strings.HasPrefix(ts, "[]crypto/x509.RevocationListEntry"):
				l.over = "revoked"
			default:
				continue
			}
			l.body = map[*ssa.BasicBlock]bool{}
			for _, pr := range b.Preds {
				if b.Dominates(pr) {
					for bb := range loopBody(b, pr) {
						l.body[bb] = true
					}
				}
			}
			for bb := range l.body {
				for _, in := range bb.Instrs {
					if k := instrKind(in); k != "" {
						l.kinds[k] = true
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							for k, fs := range kindFns {
								if fs[g] {
									l.kinds[k] = true
								}
							}
						}
					}
				}
			}
			out[b] = l
		}
	}
	return out
}

func p11Validate(p *Program, r *Report) {
	fn := p.Func("ua.ValidateCertificate")
	if len(fn.Params) != 12 {
		r.Bad("chain", "signature", p.Pos(fn.Pos()), "ValidateCertificate no longer has the parameters this check knows")
		return
	}
	loops := p11Loops(p, fn.Pkg)
	root := func(t *Term) bool { return t.F == nil || t.F.parent == nil }
	par := func(t *Term, i int) bool {
		t = t.Strip()
		return t.Op == "param" && isParamN(t, i) && root(t)
	}
	isReader := func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		s := f.Signature
		return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 2 && types.Identical(s.Params().At(0).Type(), types.Typ[types.String]) && strings.Contains(s.Results().At(0).Type().String(), "x509.")
	}
	h := Hooks{MaxDepth: 5}
	h.Inline = func(f *ssa.Function) bool {
		if f.Pkg != fn.Pkg && (f.Parent() == nil || f.Parent().Pkg != fn.Pkg) || isReader(f) {
			return false
		}
		if f.Parent() != nil {
			return true
		}
		for _, q := range f.Params {
			if strings.Contains(q.Type().String(), "crypto/x509.") {
				return true
			}
		}
		return false
	}
	// which path a list was read from
	listOf := func(t *Term) map[int]bool {
		out := map[int]bool{}
		t.Contains(func(u *Term) bool {
			if u.Op == "call" && len(u.Args) == 1 {
				for i := vcTrusted; i <= vcIssuersCRL; i++ {
					if par(u.Args[0], i) {
						out[i] = true
					}
				}
			}
			return false
		})
		return out
	}
	isLeaf := func(t *Term) bool {
		t = t.Strip()
		for t.Op == "load" {
			t = t.Args[0].Strip()
		}
		if t.Op != "index" && t.Op != "indexaddr" {
			return false
		}
		n, ok := numConst(t.Args[1])
		return ok && n == 0 && par(t.Args[0], vcCerts)
	}
	// member: the index of a member of a chain that Verify returned
	member := func(t *Term) (verify, idx *Term) {
		t = t.Strip()
		for t.Op == "load" {
			t = t.Args[0].Strip()
		}
		if t.Op != "index" && t.Op != "indexaddr" {
			return nil, nil
		}
		c := t.Args[0].Strip()
		for c.Op == "load" {
			c = c.Args[0].Strip()
		}
		if c.Op != "index" && c.Op != "indexaddr" {
			return nil, nil
		}
		v := c.Args[0].Strip()
		if v.Op == "extract" && v.Name == "0" && v.Args[0].IsCall("x509.Certificate.Verify") {
			return v.Args[0], t.Args[1]
		}
		return nil, nil
	}
	isMember := func(t *Term) bool { v, _ := member(t); return v != nil }
	iter := []string{"issuer", "self", "use:leaf", "use:ca", "leaf", "last", "crl", "cur", "rev", "unsearched", "alllists"}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		if from == nil {
			return
		}
		if st.Has("last?") {
			st.Del("last?")
			if loops[from] == nil {
				st.Set("last", x.Flag())
			}
		}
		if l := loops[to]; l != nil {
			back := l.body[from]
			switch {
			case l.over == tChain:
				for _, k := range []string{"trusted", "done:use", "done:self", "done:rev"} {
					st.Del(k)
				}
			case l.over == tCert && len(l.kinds) > 0:
				if back {
					at := p.InstrPos(to.Instrs[len(to.Instrs)-1])
					bad := func(rule, k, msg string) { r.Bad(rule, k, at, msg, st.Trace(10)...) }
					r.Ob("member", "loop @"+at)
					if l.kinds["self"] && !st.Has("self") {
						bad("member", "signature", "a chain member is passed over without the test of its own signature")
					}
					if l.kinds["use"] {
						ok := st.Has("use:leaf") && (st.Has("first") || st.Has("leaf")) || st.Has("use:ca") && !st.Has("first")
						if !ok {
							bad("member", "usage", "a chain member is passed over without the test of its usage")
						}
					}
					if l.kinds["rev"] {
						r.Ob("revocation", "loop @"+at)
						switch {
						case st.Has("rev"):
							bad("revocation", "revoked", "a chain member found in a revocation list is passed over")
						case st.Has("last"):
						case !st.Has("crl") && !st.Has("sup:"+itoa(vcSupRev)):
							bad("revocation", "unknown", "a chain member is passed over although no current revocation list of its issuer was found and this is not suppressed")
						case st.Has("unsearched"):
							bad("revocation", "unsearched", "a current revocation list of the issuer was not searched to its end")
						case !st.Has("alllists"):
							bad("revocation", "lists", "the revocation lists were not searched to the end")
						}
					}
					st.Del("first")
				} else {
					st.Set("first", x.Flag())
					for k := range l.kinds {
						st.Del("done:" + k)
					}
				}
				for _, k := range iter {
					st.Del(k)
				}
			case l.over == tCRL:
				st.Del("cur")
				if !back {
					st.Del("alllists")
				}
			}
		}
		if l := loops[from]; l != nil && l.over == tChain {
			if l.body[to] {
				st.Set("chainiter", x.Flag())
			} else if !st.Has("chainiter") {
				st.Set("vacuous", x.Flag()) // a successful verification returns at least one chain, with at least the leaf
			}
		}
		if l := loops[from]; l != nil && !l.body[to] {
			if l.over == tCert && len(l.kinds) > 0 && st.Has("first") {
				st.Set("vacuous", x.Flag())
			}
			switch {
			case l.over == tCert:
				for k := range l.kinds {
					st.Set("done:"+k, x.Flag())
				}
			case l.over == tCRL:
				st.Set("alllists", x.Flag())
			case l.over == "revoked":
				st.Del("unsearched")
			}
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		cn, tk := NormCond(cond, taken)
		cn = cn.Strip()
		for i := vcSupHost; i <= vcSupRev; i++ {
			if par(cn, i) && tk {
				st.Set("sup:"+itoa(i), x.Flag())
			}
		}
		if cn.IsCall("x509.Certificate.Equal") && tk {
			for i := 0; i < 2; i++ {
				if v, _ := member(cn.Args[i]); v != nil {
					r.Ob("trust", "comparison")
					o := cn.Args[1-i].Strip()
					for o.Op == "load" {
						o = o.Args[0].Strip()
					}
					if o.Op == "index" || o.Op == "indexaddr" {
						o = o.Args[0].Strip()
					}
					if o.IsNil() {
						st.dead = true // an element of an empty list
						return
					}
					ls := listOf(o)
					appended := o.Contains(func(u *Term) bool { return u.IsCall("builtin.append") })
					if ls[vcTrusted] && len(ls) == 1 && !appended || appended && !ls[vcIssuers] && st.Has("sup:"+itoa(vcSupChain)) {
						st.Set("trusted", x.Flag())
					}
				}
			}
		}
		if cn.IsCall("bytes.Equal") && !tk {
			a, b := lastField(cn.Args[0]), lastField(cn.Args[1])
			if (a == "RawIssuer" && b == "RawSubject" || b == "RawIssuer" && a == "RawSubject") && isMember(elemOf(cn.Args[0])) {
				st.Set("self", x.Flag())
			}
		}
		now := func(t *Term) bool { return t.Contains(func(u *Term) bool { return u.IsCall("time.Now") }) }
		if tk && (cn.IsCall("time.Time.Before") && lastField(cn.Args[1]) == "NextUpdate" && now(cn.Args[0]) ||
			cn.IsCall("time.Time.After") && lastField(cn.Args[0]) == "NextUpdate" && now(cn.Args[1])) {
			st.Set("cur", x.Flag())
		}
		if !tk && (cn.IsCall("time.Time.After") && lastField(cn.Args[1]) == "NextUpdate" && now(cn.Args[0]) ||
			cn.IsCall("time.Time.Before") && lastField(cn.Args[0]) == "NextUpdate" && now(cn.Args[1])) {
			st.Set("cur", x.Flag())
		}
		if cn.Op == "bin" && len(cn.Args) == 2 {
			op, u, v := cn.Name, cn.Args[0].Strip(), cn.Args[1].Strip()
			if !tk {
				op = negate(op)
			}
			if u.IsCall("builtin.len") {
				op, u, v = flip(op), v, u
			}
			if u.Op == "bin" && v.Op == "bin" || v.IsCall("builtin.len") || v.Op == "bin" && v.Contains(func(w *Term) bool { return w.IsCall("builtin.len") }) {
				w := v
				if w.Op == "bin" {
					w = w.Args[0].Strip()
				}
				if w.IsCall("builtin.len") && (op == ">=" || op == ">" && v.Op == "bin" || op == "==") {
					a := w.Args[0].Strip()
					for a.Op == "load" {
						a = a.Args[0].Strip()
					}
					if (a.Op == "index" || a.Op == "indexaddr") && a.Contains(func(w *Term) bool { return w.IsCall("x509.Certificate.Verify") }) {
						w, ok := u, true
						if v.Op != "bin" {
							ok = false
							if u.Op == "bin" && u.Name == "+" {
								if n, isN := numConst(u.Args[1]); isN && n == 1 {
									w, ok = u.Args[0].Strip(), true
								}
							}
						}
						if _, isC := p11Const(w); !isC && w.Op == "bin" {
							n, isN := numConst(w.Args[1])
							ok = ok && w.Name == "+" && isN && n == 1 && w.Args[0].Strip().Op == "phi"
						} else if !isC && w.Op != "phi" {
							ok = false
						}
						if ok {
							st.Set("last?", x.Flag()) // unless this is the head of a loop
						}
					}
				}
				if w.IsCall("builtin.len") && (op == "<" || op == ">=") {
					ls := listOf(w)
					for _, i := range []int{vcTrustedCRL, vcIssuersCRL} {
						if st.Has("readok:"+itoa(i)) && p11IsCRL(w) && !ls[i] {
							r.Bad("lists", "unused/"+itoa(i), p.Pos(fn.Pos()), "a revocation list that was read is not among those searched", st.Trace(6)...)
						}
					}
				}
			}
		}
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if a.IsConst() || a.IsNil() {
			a, b = b, a
		}
		a, b = a.Strip(), b.Strip()
		if eq && b.IsNil() && a.Op == "extract" && a.Name == "1" {
			if a.Args[0].IsCall("x509.Certificate.Verify") && st.Has("good:"+itoa(termID(a.Args[0]))) {
				st.Set("verified", x.Flag())
			}
			for i := range listOf(a) {
				st.Set("readok:"+itoa(i), x.Flag())
			}
		}
		if eq && b.IsNil() && a.IsCall("x509.Certificate.CheckSignature") && isMember(a.Args[0]) {
			st.Set("self", x.Flag())
		}
		if eq && b.IsNil() && a.IsCall("x509.RevocationList.CheckSignatureFrom") && st.Has("cur") {
			if _, j := member(a.Args[1]); j != nil && p11Plus(j) {
				st.Set("crl", x.Flag())
				st.Set("issuer", j)
				st.Set("unsearched", x.Flag())
			}
		}
		if a.IsCall("big.Int.Cmp") && st.Get("issuer") != nil {
			for _, o := range a.Args {
				if _, j := member(elemOf(o)); j != nil && lastField(o) == "SerialNumber" && !p11Next(st.Get("issuer"), j) {
					r.Bad("revocation", "issuer", p.Pos(fn.Pos()), "a certificate is looked up in a revocation list that is not its issuer's", st.Trace(8)...)
				}
			}
		}
		if eq && a.IsCall("big.Int.Cmp") {
			if n, ok := numConst(b); ok && n == 0 && lastField(a.Args[0]) == "SerialNumber" && lastField(a.Args[1]) == "SerialNumber" {
				st.Set("rev", x.Flag())
			}
		}
		if n, ok := numConst(b); ok && (a.Op == "bin" || a.Op == "phi") {
			if v, ok := p11Const(a); ok && (v == n) != eq {
				st.dead = true
				return
			}
			if eq && n == 0 {
				st.Set("leaf", x.Flag())
			}
		}
		if eq {
			for i, t := range []*Term{a, b} {
				o := []*Term{b, a}[i]
				if p11Elem(t, "ExtKeyUsage") && !p11Elem(o, "ExtKeyUsage") && (!o.IsConst() || st.Has("nousage")) {
					st.Set("use:leaf", x.Flag())
				}
			}
		}
		if a.Op == "bin" && a.Name == "&" {
			m, ok1 := numConst(a.Args[1])
			n, ok2 := numConst(b)
			if lastField(a.Args[0]) == "KeyUsage" && ok1 && ok2 && m == 32 && (eq && n == 32 || !eq && n == 0) && isMember(elemOf(a.Args[0])) {
				st.Set("use:ca", x.Flag())
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if isReader(ci.Fn) && len(ci.Args) == 1 {
			for i := vcTrusted; i <= vcIssuersCRL; i++ {
				if par(ci.Args[0], i) {
					r.Ob("lists", "read "+itoa(i))
				}
			}
		}
		if ci.Name == "x509.CertPool.AddCert" && isLeaf(ci.Args[1]) {
			r.Ob("chain", "leaf as root")
			if !st.Has("sup:" + itoa(vcSupChain)) {
				r.Bad("chain", "self-root", p.InstrPos(ci.Instr), "the certificate under test is taken as its own root although incomplete chains are not suppressed", st.Trace(6)...)
			}
		}
		if ci.Name == "x509.Certificate.Verify" {
			o := ci.Args[1].Strip()
			r.Ob("chain", "verification @"+p.InstrPos(ci.Instr))
			f := func(n string, t types.Type) *Term {
				v := x.fieldOf(o, n, t)
				if v == nil {
					return x.T.mk("opaque", "none", nil, nil, nil, nil)
				}
				return v.Strip()
			}
			why := ""
			if !isLeaf(ci.Args[0]) {
				why = "leaf"
			}
			if d := f("DNSName", types.Typ[types.String]); !(par(d, vcHost) || d.IsConst() && d.Name == `""` && st.Has("sup:"+itoa(vcSupHost))) {
				why = "host"
			}
			ct := f("CurrentTime", types.Typ[types.Int])
			zero := ct.Op == "struct" || ct.IsConst()
			if ct.Op == "struct" {
				for _, a := range ct.Args {
					zero = zero && (a.IsConst() && a.Name == "0" || a.IsNil())
				}
			}
			if !zero && !st.Has("sup:"+itoa(vcSupTime)) {
				why = "time"
			}
			if k := f("KeyUsages", types.NewSlice(types.Typ[types.Int])); !par(k, vcUsages) && !st.Has("nousage") {
				why = "usage"
			}
			if k := f("Roots", types.NewPointer(types.Typ[types.Int])); !k.IsCall("x509.NewCertPool") {
				why = "roots"
			}
			// the options have been judged: the result need not carry them
			if v, ok := ci.Instr.(ssa.Value); ok {
				n := "leaf"
				if why != "" {
					n = why
				}
				ci.Result = x.T.mk("call", ci.Name, []*Term{x.T.mk("const", n, nil, nil, nil, nil)}, ci.Frame, v, v.Type())
				if why == "" {
					st.Set("good:"+itoa(termID(ci.Result)), x.Flag())
				} else {
					st.Set("whynot", x.T.mk("const", why, nil, nil, nil, nil))
				}
			}
			st.Del("sup:" + itoa(vcSupHost))
			st.Del("sup:" + itoa(vcSupTime))
		}
		return ActDefault
	}
	base := h.OnBranch
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			if a.IsConst() {
				a, b = b, a
			}
			if a = a.Strip(); a.IsCall("builtin.len") && par(a.Args[0], vcUsages) {
				if n, ok := numConst(b); ok && n == 0 {
					st.Set("nousage", x.Flag())
				}
			}
		}
		base(x, st, cond, taken)
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 1 {
			return
		}
		t := res[0].Strip()
		if isFailure(x, st, t) {
			return
		}
		at := p.InstrPos(in)
		bad := func(rule, k, msg string) { r.Bad(rule, k, at, msg, st.Trace(12)...) }
		r.Ob("chain", "success @"+at)
		if !st.Has("verified") {
			why := ""
			if w := st.Get("whynot"); w != nil {
				why = " (" + w.Name + ")"
			}
			bad("chain", "verify", "the certificate is accepted although the standard verification under the required options did not succeed"+why)
		}
		r.Ob("trust", "success @"+at)
		if !st.Has("trusted") && !st.Has("vacuous") {
			bad("trust", "trusted", "the certificate is accepted although no member of its chain was found in the trust list")
		}
		for k, msg := range map[string]string{"use": "usage", "self": "signature", "rev": "revocation"} {
			if !st.Has("done:"+k) && !st.Has("vacuous") {
				bad("member", "all/"+k, "the certificate is accepted although not every member of its chain passed the "+msg+" test")
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func p11IsCRL(l *Term) bool {
	if len(l.Args) == 0 || l.Args[0].Typ == nil {
		return false
	}
	return l.Args[0].Typ.String() == tCRL
}

// p11Plus: an index one above another.
func p11Plus(t *Term) bool {
	t = t.Strip()
	return t.Op == "bin" && t.Name == "+" || t.IsConst()
}

// p11Next: the index a is one above b.
func p11Next(a, b *Term) bool {
	va, ok1 := p11Const(a)
	vb, ok2 := p11Const(b)
	if ok1 && ok2 {
		return va == vb+1
	}
	a, b = a.Strip(), b.Strip()
	if a.Op != "bin" || a.Name != "+" {
		return false
	}
	n, ok := numConst(a.Args[1])
	return ok && n == 1 && a.Args[0].Strip() == b
}

func p11Elem(t *Term, field string) bool {
	t = t.Strip()
	for t.Op == "load" {
		t = t.Args[0].Strip()
	}
	if t.Op != "index" && t.Op != "indexaddr" {
		return false
	}
	return lastField(t.Args[0]) == field
}

// p11Const: the value of a sum of constants.
func p11Const(t *Term) (int64, bool) {
	t = t.Strip()
	if n, ok := numConst(t); ok {
		return n, true
	}
	if t.Op == "bin" && (t.Name == "+" || t.Name == "-") {
		a, ok1 := p11Const(t.Args[0])
		b, ok2 := p11Const(t.Args[1])
		if ok1 && ok2 {
			if t.Name == "-" {
				b = -b
			}
			return a + b, true
		}
	}
	return 0, false
}

// the settings of validation, by argument position
var p11Fields = map[int]string{vcTrusted: "trustedCertsPath", vcTrustedCRL: "trustedCRLsPath", vcIssuers: "issuerCertsPath", vcIssuersCRL: "issuerCRLsPath",
	vcSupHost: "suppressHostNameInvalid", vcSupTime: "suppressCertificateExpired", vcSupChain: "suppressCertificateChainIncomplete", vcSupRev: "suppressCertificateRevocationUnknown"}

func p11Open(p *Program, r *Report) {
	reach := p.reachesCall(func(n string) bool { return n == "ua.ValidateCertificate" })
	sign := itoa(int(p.constVal("ua", "MessageSecurityModeSign")))
	enc := itoa(int(p.constVal("ua", "MessageSecurityModeSignAndEncrypt")))
	usage := map[string]string{"server": itoa(int(x509Usage["ClientAuth"])), "client": itoa(int(x509Usage["ServerAuth"]))}
	for _, side := range []string{"server", "client"} {
		side := side
		fn := p.Func("server.serverSecureChannel.Open")
		if side == "client" {
			fn = p.Func("client.clientSecureChannel.connect")
		}
		h := Hooks{MaxDepth: 4}
		h.Inline = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg && reach[f] }
		h.Stable = func(a *Term) bool {
			return a.Op == "fieldaddr" && (a.Name == "securityMode" || a.Name == "remoteCertificate" || a.Name == "remotePublicKey")
		}
		isMode := func(t *Term) bool { f := lastField(t.Strip()); return f == "securityMode" || f == "SecurityMode" }
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok {
				if cn, tk := NormCond(cond, taken); cn.Op == "bin" {
					op, u, v := cn.Name, cn.Args[0].Strip(), cn.Args[1].Strip()
					if !tk {
						op = negate(op)
					}
					if u.IsConst() {
						op, u, v = flip(op), v, u
					}
					n, isN := numConst(v)
					if isN && u.IsCall("builtin.len") && lastField(u.Args[0]) == "remoteCertificate" && (op == "<=" && n == 0 || op == "<" && n == 1) {
						st.Set("nocert", x.Flag())
					}
				}
				return
			}
			if a.IsConst() || a.IsNil() {
				a, b = b, a
			}
			a, b = a.Strip(), b.Strip()
			if isMode(a) && b.IsConst() {
				if eq {
					st.Set("mode", b)
				} else {
					st.Set("mode!"+b.Name, x.Flag())
				}
			}
			if b.IsNil() && lastField(a) == "remotePublicKey" && !eq {
				st.Set("haskey", x.Flag())
			}
			if b.IsNil() && eq && (lastField(a) == "remoteCertificate") {
				st.Set("nocert", x.Flag())
			}
			if n, ok := numConst(b); ok && n == 0 && eq && a.IsCall("builtin.len") && lastField(a.Args[0]) == "remoteCertificate" {
				st.Set("nocert", x.Flag())
			}
			if b.IsNil() && eq && st.Has("val:"+itoa(termID(a))) {
				st.Set("validated", x.Flag())
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == "ua.ValidateCertificate" && len(ci.Args) == 12 {
				why := ""
				at := p.InstrPos(ci.Instr)
				if !p11Peer(ci.Args[0]) {
					why = "certificate"
				}
				for i, f := range p11Fields {
					a := ci.Args[i].Strip()
					r.Ob("open", side+" argument "+itoa(i))
					if a.IsConst() && i >= vcSupHost && a.Name == "false" {
						continue
					}
					if lastField(a) != f {
						r.Bad("open", side+"/argument/"+f, at, "validation is called with something else than the configured "+f, st.Trace(4)...)
					}
				}
				u := ci.Args[vcUsages].Strip()
				for u.Op == "slice" {
					u = u.Args[0].Strip()
				}
				if u.Op == "alloc" {
					n := 0
					for a, v := range st.Mem {
						if a.Op == "indexaddr" && a.Args[0] == u {
							n++
							if v.Strip().Name != usage[side] {
								why = "usage"
							}
						}
					}
					if n != 1 {
						why = "usage"
					}
				}
				if side == "client" {
					if hn := ci.Args[vcHost].Strip(); !hn.IsCall("url.URL.Hostname") || !hn.Contains(func(u *Term) bool { return lastField(u) == "endpointURL" }) {
						why = "host"
					}
				}
				if why != "" {
					r.Bad("open", side+"/"+why, at, "validation is called for another "+why+" than the peer's", st.Trace(4)...)
				}
				st.Set("pend", x.Flag())
			}
			if side == "client" && (ci.Name == "net.DialTimeout" || ci.Name == "net.Dialer.DialContext" || ci.Name == "net.Dial" || ci.Name == "net.Dialer.Dial") {
				r.Ob("open", "client dial")
				if !st.Has("validated") && !st.Has("nocert") {
					r.Bad("open", "client/dial", p.InstrPos(ci.Instr), "the connection is made although the server's certificate was not validated", st.Trace(6)...)
				}
			}
			return ActDefault
		}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if st.Has("pend") && res != nil && ci.Name == "ua.ValidateCertificate" {
				st.Set("val:"+itoa(termID(res)), x.Flag())
				st.Del("pend")
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if len(res) == 0 {
				return
			}
			t := res[len(res)-1].Strip()
			if isFailure(x, st, t) {
				return
			}
			r.Ob("open", side+" success @"+p.InstrPos(in))
			m := st.Get("mode")
			secured := !(st.Has("mode!"+sign) && st.Has("mode!"+enc))
			if m != nil {
				secured = m.Name == sign || m.Name == enc
			}
			if !secured {
				return
			}
			ok := st.Has("validated") || side == "client" && st.Has("nocert") && st.Has("haskey") // the key is that of the certificate: without one there is none
			if !ok {
				r.Bad("open", side+"/unvalidated", p.InstrPos(in), "a secured channel is opened although the peer's certificate was not validated", st.Trace(10)...)
			}
			if side == "client" && !st.Has("haskey") {
				r.Bad("open", side+"/nokey", p.InstrPos(in), "a secured channel is opened without a public key of the server", st.Trace(10)...)
			}
		}
		x := NewExec(p, h)
		x.Run(fn, nil)
		r.Saw(x)
	}
}

var x509Usage = map[string]int{"ServerAuth": 1, "ClientAuth": 2}

// p11Peer: the certificates parsed from the peer's certificate.
func p11Peer(t *Term) bool {
	t = t.Strip()
	return t.Op == "extract" && t.Name == "0" && t.Args[0].IsCall("x509.ParseCertificates") && lastField(t.Args[0].Args[0]) == "remoteCertificate"
}

// origin: the parameter of the enclosing top-level function a value comes from, or a constant.
func p11Origin(v ssa.Value) (idx int, c *ssa.Const) {
	for {
		switch u := v.(type) {
		case *ssa.Const:
			return -1, u
		case *ssa.Parameter:
			for i, q := range u.Parent().Params {
				if q == u {
					return i, nil
				}
			}
			return -1, nil
		case *ssa.ChangeType:
			v = u.X
		case *ssa.UnOp:
			v = u.X
		case *ssa.FreeVar:
			par := u.Parent().Parent()
			var bind ssa.Value
			for _, b := range par.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == u.Parent() {
						for i, fv := range u.Parent().FreeVars {
							if fv == u {
								bind = mc.Bindings[i]
							}
						}
					}
				}
			}
			if bind == nil {
				return -1, nil
			}
			v = bind
		case *ssa.Alloc:
			var st ssa.Value
			for _, ref := range *u.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == u {
					if st != nil {
						return -1, nil
					}
					st = s.Val
				}
			}
			if st == nil {
				return -1, nil
			}
			v = st
		default:
			return -1, nil
		}
	}
}

func p11Wiring(p *Program, r *Report) {
	set := map[string]bool{"rejectedCertsPath": true}
	for _, f := range p11Fields {
		set[f] = true
	}
	word := map[string]string{"trusted": "Trusted", "issuer": "Issuer", "rejected": "Rejected"}
	ctor := map[int]string{}
	for _, f := range p.Funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name := fieldName(derefType(fa.X.Type()), fa.Field)
				owner := TypeName(derefType(fa.X.Type()))
				if name == "remotePublicKey" && (owner == "server.serverSecureChannel" || owner == "client.clientSecureChannel") {
					r.Ob("key", FuncName(f)+" @"+p.InstrPos(in))
					if !p11KeyOfCert(s.Val, 0) {
						r.Bad("key", FuncName(f), p.InstrPos(in), "the peer's public key is not taken from the peer's certificate")
					}
					continue
				}
				if !set[name] {
					continue
				}
				i, c := p11Origin(s.Val)
				switch owner {
				case "client.clientSecureChannel":
					if i >= 0 && f.Parent() == nil {
						ctor[i] = name
					}
				case "client.Client", "server.Server":
					r.Ob("wiring", FuncName(top)+" "+name)
					if strings.HasPrefix(name, "suppress") {
						if !strings.Contains(top.Name(), "Insecure") && !strings.Contains(top.Name(), "Suppress") && !(c != nil && c.Value != nil && c.Value.String() == "false") {
							r.Bad("wiring", FuncName(top)+"/"+name, p.InstrPos(in), "a check of certificates is suppressed by something else than the option meant for it")
						}
						continue
					}
					if i < 0 || !strings.HasPrefix(top.Name(), "With") {
						continue
					}
					want := 0
					if strings.HasSuffix(name, "CRLsPath") {
						want = 1
					}
					for pre, w := range word {
						if strings.HasPrefix(name, pre) && (!strings.Contains(top.Name(), w) || i != want) {
							r.Bad("wiring", FuncName(top)+"/"+name, p.InstrPos(in), "the option stores another path as "+name)
						}
					}
				}
			}
		}
	}
	nc := p.FuncOpt("client.newClientSecureChannel")
	if nc == nil {
		return
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != nc {
					continue
				}
				for i, name := range ctor {
					u, ok := c.Common().Args[i].(*ssa.UnOp)
					if !ok {
						if k, isC := c.Common().Args[i].(*ssa.Const); isC && strings.HasPrefix(name, "suppress") && k.Value != nil && k.Value.String() == "true" && f.Name() == "Dial" {
							r.Bad("wiring", "Dial/"+name, p.InstrPos(in), "the channel is created with a suppressed check nobody asked for")
						}
						continue
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					if !ok || TypeName(derefType(fa.X.Type())) != "client.Client" {
						continue
					}
					r.Ob("wiring", FuncName(f)+" passes "+name)
					if g := fieldName(derefType(fa.X.Type()), fa.Field); g != name {
						r.Bad("wiring", FuncName(f)+"/"+name, p.InstrPos(in), "the channel gets the client's "+g+" as its "+name)
					}
				}
			}
		}
	}
}

// p11KeyOfCert: the value is PublicKey of certificate 0 of the parsed remote certificate.
func p11KeyOfCert(v ssa.Value, d int) bool {
	if d > 20 {
		return false
	}
	switch u := v.(type) {
	case *ssa.Const:
		return u.Value == nil
	case *ssa.Extract:
		return p11KeyOfCert(u.Tuple, d+1)
	case *ssa.TypeAssert:
		return p11KeyOfCert(u.X, d+1)
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !p11KeyOfCert(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			if fieldName(derefType(a.X.Type()), a.Field) == "remoteCertificate" {
				return true
			}
			return p11KeyOfCert(a.X, d+1)
		case *ssa.IndexAddr:
			c, ok := a.Index.(*ssa.Const)
			return ok && c.Int64() == 0 && p11KeyOfCert(a.X, d+1)
		}
		return p11KeyOfCert(u.X, d+1)
	case *ssa.Call:
		if n, _ := CallName(&u.Call); n == "x509.ParseCertificates" {
			return p11KeyOfCert(u.Call.Args[0], d+1)
		}
		// a helper that extracts the key: its argument must be the certificate
		if g := u.Call.StaticCallee(); g != nil && len(u.Call.Args) > 0 {
			for _, a := range u.Call.Args {
				if p11KeyOfCert(a, d+1) {
					return true
				}
			}
		}
	case *ssa.Alloc:
		n := 0
		for _, ref := range *u.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == u {
				n++
				if !p11KeyOfCert(s.Val, d+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// isFailure: a result of type error that is known not to be nil.
func isFailure(x *Exec, st *State, t *Term) bool {
	if t.IsNil() {
		return false
	}
	if t.IsConst() {
		return true
	}
	if t.Typ != nil {
		if _, ok := t.Typ.Underlying().(*types.Basic); ok {
			return true // a status code as an error
		}
	}
	eq, known := x.equal(st, t, x.T.mk("nil", "", nil, nil, nil, nil))
	return known && !eq
}
