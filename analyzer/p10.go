package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P10", "Each method of the six security policy types is explored over all its paths and the algorithm it applies (library function, hash, salt, randomness, key and data operands) is compared with the table of the profile; every other use of RSA, of HMAC and of a policy object in server and client is explored with the policy URIs still possible on the path, and must use the algorithms of all of them.", runP10)
}

type secProfile struct {
	typ                                   string
	uri                                   string
	hash                                  string // signature hash
	sign                                  string // "", v15, pss
	enc                                   string // "", v15, oaep-sha1, oaep-sha256
	hmac                                  string
	kdf                                   string
	pad, sigSize, sigKey, blk, ekey, nonc int64
	sigURI, encURI                        string
}

var secProfiles = []secProfile{
	{"SecurityPolicyNone", "http://opcfoundation.org/UA/SecurityPolicy#None", "", "", "", "", "", 0, 0, 0, 1, 0, 0, "", ""},
	{"SecurityPolicyBasic128Rsa15", "http://opcfoundation.org/UA/SecurityPolicy#Basic128Rsa15", "sha1", "v15", "v15", "sha1", "sha1", 11, 20, 16, 16, 16, 16,
		"http://www.w3.org/2000/09/xmldsig#rsa-sha1", "http://www.w3.org/2001/04/xmlenc#rsa-1_5"},
	{"SecurityPolicyBasic256", "http://opcfoundation.org/UA/SecurityPolicy#Basic256", "sha1", "v15", "oaep-sha1", "sha1", "sha1", 42, 20, 24, 16, 32, 32,
		"http://www.w3.org/2000/09/xmldsig#rsa-sha1", "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	{"SecurityPolicyBasic256Sha256", "http://opcfoundation.org/UA/SecurityPolicy#Basic256Sha256", "sha256", "v15", "oaep-sha1", "sha256", "sha256", 42, 32, 32, 16, 32, 32,
		"http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	{"SecurityPolicyAes128Sha256RsaOaep", "http://opcfoundation.org/UA/SecurityPolicy#Aes128_Sha256_RsaOaep", "sha256", "v15", "oaep-sha1", "sha256", "sha256", 42, 32, 32, 16, 16, 32,
		"http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	{"SecurityPolicyAes256Sha256RsaPss", "http://opcfoundation.org/UA/SecurityPolicy#Aes256_Sha256_RsaPss", "sha256", "pss", "oaep-sha256", "sha256", "sha256", 66, 32, 32, 16, 32, 32,
		"http://opcfoundation.org/UA/security/rsa-pss-sha2-256", "http://opcfoundation.org/UA/security/rsa-oaep-sha2-256"},
}

func (s *secProfile) name() string { return s.typ[len("SecurityPolicy"):] }

func profileOfURI(q string) *secProfile {
	for i := range secProfiles {
		if `"`+secProfiles[i].uri+`"` == q {
			return &secProfiles[i]
		}
	}
	return nil
}

// ---- recognisers of library algorithms

// hashFn names the hash algorithm a term stands for: a hash.Hash object, a constructor, a
// crypto.Hash constant.
func hashAlg(t *Term) string {
	if t == nil {
		return ""
	}
	t = t.Strip()
	switch t.Op {
	case "call":
		switch t.Name {
		case "sha1.New":
			return "sha1"
		case "sha256.New":
			return "sha256"
		case "crypto.Hash.New":
			return hashAlg(t.Args[0])
		}
	case "func":
		switch t.Name {
		case "sha1.New":
			return "sha1"
		case "sha256.New":
			return "sha256"
		}
		return "?" + t.Name
	case "const":
		switch k, ok := numConst(t); {
		case ok && k == 3:
			return "sha1"
		case ok && k == 5:
			return "sha256"
		}
	case "closure":
		// bound method value of crypto.Hash.New
		if strings.Contains(t.Name, "crypto.Hash.New") || strings.Contains(t.Name, "Hash.New") {
			for _, a := range t.Args {
				if h := hashAlg(a); h != "" {
					return h
				}
			}
		}
	}
	return ""
}

// digestOf: the hash algorithm and, if visible, the hashed term of a digest.
func digestOf(x *Exec, st *State, t *Term) (alg string, data *Term) {
	t = t.Strip()
	for t.Op == "slice" {
		if !isZeroOrNone(t.Args[1]) || !noTerm(t.Args[2]) {
			return "partial", nil
		}
		t = t.Args[0].Strip()
	}
	if t.Op == "alloc" || t.Op == "fieldaddr" || t.Op == "indexaddr" {
		c, ok := st.Mem[t]
		if !ok || c == x.fresh {
			return "", nil
		}
		t = c.Strip()
	}
	if t.Op == "call" {
		switch t.Name {
		case "sha1.Sum":
			return "sha1", t.Args[0]
		case "sha256.Sum256":
			return "sha256", t.Args[0]
		case "hash.Hash.Sum":
			if len(t.Args) > 1 && !t.Args[1].Strip().IsNil() {
				return "prefixed", nil
			}
			return hashAlg(t.Args[0]), nil
		}
	}
	return "", nil
}

type rsaOp struct {
	verb string // sign verify encrypt decrypt
	pad  string // v15 pss oaep
	rnd  int    // operand index, -1 none
	key  int
	hash int // crypto.Hash constant or hash object
	data int // digest or text
	sig  int
	opt  int // pss options or label
}

var rsaOps = map[string]rsaOp{
	"rsa.SignPKCS1v15":              {"sign", "v15", 0, 1, 2, 3, -1, -1},
	"rsa.SignPSS":                   {"sign", "pss", 0, 1, 2, 3, -1, 4},
	"rsa.VerifyPKCS1v15":            {"verify", "v15", -1, 0, 1, 2, 3, -1},
	"rsa.VerifyPSS":                 {"verify", "pss", -1, 0, 1, 2, 3, 4},
	"rsa.EncryptPKCS1v15":           {"encrypt", "v15", 0, 1, -1, 2, -1, -1},
	"rsa.EncryptOAEP":               {"encrypt", "oaep", 1, 2, 0, 3, -1, 4},
	"rsa.DecryptPKCS1v15":           {"decrypt", "v15", 0, 1, -1, 2, -1, -1},
	"rsa.DecryptPKCS1v15SessionKey": {"decrypt", "v15", 0, 1, -1, 2, -1, -1},
	"rsa.DecryptOAEP":               {"decrypt", "oaep", 1, 2, 0, 3, -1, 4},
}

// rsaProblem compares an RSA operation with a profile; "" when it is the profile's.
func rsaProblem(x *Exec, st *State, op rsaOp, args []*Term, pf *secProfile) string {
	if op.rnd >= 0 {
		rd := args[op.rnd].Strip()
		isRand := rd.Contains(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.Name, "rand.Reader") })
		if !isRand && op.verb != "decrypt" {
			return "does not take its randomness from crypto/rand"
		}
	}
	switch op.verb {
	case "sign", "verify":
		if pf.sign == "" {
			return "signs with RSA although the policy has no signatures"
		}
		if op.pad != pf.sign {
			return "uses " + op.pad + " padding for signatures where the profile has " + pf.sign
		}
		if h := hashAlg(args[op.hash]); h != pf.hash {
			return "signs with hash '" + h + "' where the profile has " + pf.hash
		}
		alg, _ := digestOf(x, st, args[op.data])
		if alg != pf.hash {
			return "computes the digest with '" + alg + "' where the profile has " + pf.hash
		}
		if op.pad == "pss" {
			if s := pssSalt(x, st, args[op.opt], pf); s != "" {
				return s
			}
		}
	case "encrypt", "decrypt":
		if pf.enc == "" {
			return "encrypts with RSA although the policy has no encryption"
		}
		got := op.pad
		if op.pad == "oaep" {
			got += "-" + hashAlg(args[op.hash])
			lab := args[op.opt].Strip()
			if n, ok := sliceLenConst(x, st, lab); !ok || n != 0 {
				return "uses an OAEP label"
			}
		}
		if got != pf.enc {
			return "uses " + got + " where the profile has " + pf.enc
		}
	}
	return ""
}

func sliceLenConst(x *Exec, st *State, t *Term) (int64, bool) {
	t = t.Strip()
	if t.IsNil() {
		return 0, true
	}
	if t.Op == "make" && len(t.Args) > 0 {
		return numConst(t.Args[0])
	}
	if t.Op == "slice" {
		if !noTerm(t.Args[2]) {
			if k, ok := numConst(t.Args[2]); ok && isZeroOrNone(t.Args[1]) {
				return k, true
			}
			return 0, false
		}
		b := t.Args[0]
		if b.Typ != nil {
			if a, ok := derefType(b.Typ).Underlying().(*types.Array); ok && isZeroOrNone(t.Args[1]) {
				return a.Len(), true
			}
		}
	}
	if t.Op == "conv" {
		return sliceLenConst(x, st, t.Args[0])
	}
	if t.Op == "const" && t.Name == `""` {
		return 0, true
	}
	return 0, false
}

// pssSalt: the salt length has to equal the hash (or, when verifying, may be detected).
func pssSalt(x *Exec, st *State, opt *Term, pf *secProfile) string {
	opt = opt.Strip()
	if opt.IsNil() {
		return "does not fix the PSS salt length to the length of the hash"
	}
	fa := x.T.mk("fieldaddr", "SaltLength", []*Term{opt}, nil, nil, nil)
	v := x.Load(st, fa, types.Typ[types.Int])
	if v == nil {
		return "does not fix the PSS salt length to the length of the hash"
	}
	for a, c := range st.Mem {
		if a.Op == "fieldaddr" && a.Name == "SaltLength" && a.Args[0] == opt {
			v = c
		}
	}
	k := parseConst(v.Strip())
	if k == nil {
		if v.Strip().IsCall("crypto.Hash.Size") && hashAlg(v.Strip().Args[0]) == pf.hash {
			return ""
		}
		return "does not fix the PSS salt length to the length of the hash"
	}
	s := k.ExactString()
	if s == "-1" || s == "32" && pf.hash == "sha256" {
		return ""
	}
	return "uses a PSS salt length of " + s + " instead of the length of the hash"
}

// ---- policy methods

func runP10(p *Program, r *Report) {
	r.Rule("sizes: every size method of a policy returns the constant of its profile")
	r.Rule("method: RSASign, RSAVerify, RSAEncrypt, RSADecrypt and SymHMACFactory apply the profile's algorithm to the key and data given, with fresh randomness, and return its result; those of None fail")
	r.Rule("select: a policy object is chosen only where the policy URI is known to be its own; an unknown URI selects none")
	r.Rule("use: RSA signatures and encryption outside the policies use the algorithms, algorithm URIs and block sizes of every policy URI possible on the path")
	r.Rule("kdf: keys are derived with the P_hash of the policy: P_SHA1 for Basic128Rsa15 and Basic256, P_SHA256 for the others, A(i)=HMAC(A(i-1)), output HMAC(A(i)+seed)")
	r.Rule("symmetric: the only symmetric cipher is AES in CBC mode")
	p10Methods(p, r)
	p10Sites(p, r)
	p10KDF(p, r)
	p10Sym(p, r)
	r.Min("sizes", 42)
	r.Min("method", 30)
	r.Min("select", 12)
	r.Min("use", 30)
	r.Min("kdf", 8)
	r.Min("symmetric", 4)
}

func p10Methods(p *Program, r *Report) {
	for i := range secProfiles {
		pf := &secProfiles[i]
		// exactly the URI constant
		sizes := map[string]int64{"RSAPaddingSize": pf.pad, "SymSignatureSize": pf.sigSize, "SymSignatureKeySize": pf.sigKey,
			"SymEncryptionBlockSize": pf.blk, "SymEncryptionKeySize": pf.ekey, "NonceSize": pf.nonc}
		for _, m := range sortedKeys(sizes) {
			want := sizes[m]
			n := "ua." + pf.typ + "." + m
			p10Run(p, r, n, func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
				r.Ob("sizes", n)
				k, ok := numConst(res[0].Strip())
				if !ok || k != want {
					r.Bad("sizes", n, p.InstrPos(in), n+" does not return "+itoa(int(want))+", the value of its profile", st.Trace(5)...)
				}
			})
		}
		n := "ua." + pf.typ + ".PolicyURI"
		p10Run(p, r, n, func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			r.Ob("sizes", n)
			if res[0].Strip().Name != `"`+pf.uri+`"` {
				r.Bad("sizes", n, p.InstrPos(in), n+" does not return the URI of its profile")
			}
		})
		for _, m := range []string{"RSASign", "RSAVerify", "RSAEncrypt", "RSADecrypt"} {
			n := "ua." + pf.typ + "." + m
			p10RSA(p, r, pf, n, m)
		}
		n = "ua." + pf.typ + ".SymHMACFactory"
		p10Run(p, r, n, func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			r.Ob("method", n)
			v := res[0].Strip()
			if pf.hmac == "" {
				if !v.IsNil() {
					r.Bad("method", n, p.InstrPos(in), n+" returns a keyed hash although the policy has none")
				}
				return
			}
			if !v.IsCall("hmac.New") || hashAlg(v.Args[0]) != pf.hmac || !isParamN(v.Args[1], 1) {
				r.Bad("method", n, p.InstrPos(in), n+" does not return an HMAC-"+pf.hmac+" keyed with the key it was given", st.Trace(5)...)
			}
		})
	}
}

func isParamN(t *Term, i int) bool {
	t = t.Strip()
	if t.Op != "param" || t.F != nil && t.F.parent != nil {
		return false
	}
	pr, ok := t.V.(*ssa.Parameter)
	if !ok {
		return false
	}
	for j, q := range pr.Parent().Params {
		if q == pr {
			return i == j
		}
	}
	return false
}

func p10Run(p *Program, r *Report, name string, ret func(x *Exec, st *State, res []*Term, in ssa.Instruction)) {
	fn := p.FuncOpt(name)
	if fn == nil {
		fail("%s not found", name)
	}
	h := Hooks{MaxDepth: 6}
	h.Inline = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }
	h.OnReturn = ret
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func p10RSA(p *Program, r *Report, pf *secProfile, n, m string) {
	fn := p.Func(n)
	verb := map[string]string{"RSASign": "sign", "RSAVerify": "verify", "RSAEncrypt": "encrypt", "RSADecrypt": "decrypt"}[m]
	bad := func(what string, in ssa.Instruction, msg string, st *State) {
		r.Bad("method", n+"/"+what, p.InstrPos(in), n+" "+msg, st.Trace(5)...)
	}
	h := Hooks{MaxDepth: 6}
	h.Inline = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if (ci.Name == "hash.Hash.Write" || ci.Name == "io.Writer.Write") && !isParamN(ci.Args[1], 2) {
			bad("data", ci.Instr, "hashes something other than the text it was given", st)
		} else if ci.Name == "hash.Hash.Write" || ci.Name == "io.Writer.Write" {
			st.Set("wrote", x.Int(st.Count("wrote")+1))
		}
		op, ok := rsaOps[ci.Name]
		if !ok {
			return ActDefault
		}
		if op.verb != verb {
			bad("verb", ci.Instr, "performs '"+op.verb+"'", st)
			return ActDefault
		}
		if !isParamN(ci.Args[op.key], 1) {
			bad("key", ci.Instr, "does not use the key it was given", st)
		}
		switch verb {
		case "sign", "verify":
			_, data := digestOf(x, st, ci.Args[op.data])
			if !(data != nil && isParamN(data, 2) || data == nil && p10Streamed(ci.Args[op.data]) && st.Count("wrote") == 1) {
				bad("data", ci.Instr, "does not hash exactly the text it was given", st)
			}
			if verb == "verify" && !isParamN(ci.Args[op.sig], 3) {
				bad("sig", ci.Instr, "does not verify the signature it was given", st)
			}
		default:
			if !isParamN(ci.Args[op.data], 2) {
				bad("data", ci.Instr, "does not process the text it was given", st)
			}
		}
		if s := rsaProblem(x, st, op, ci.Args, pf); s != "" {
			bad("alg", ci.Instr, s, st)
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if _, ok := rsaOps[ci.Name]; ok {
			st.Set("rsa", res)
			st.Del("rsaok")
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok || !eq {
			return
		}
		if a.IsNil() {
			a, b = b, a
		}
		c := st.Get("rsa")
		if b.IsNil() && c != nil && (a == c || a.Op == "extract" && a.Args[0] == c && a.Name == "1") {
			st.Set("rsaok", x.Flag())
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		r.Ob("method", n)
		err := res[len(res)-1].Strip()
		if pf.sign == "" {
			if !isErrConst([]*Term{err}) {
				bad("none", in, "does not fail although the policy has no cryptography", st)
			}
			return
		}
		call := st.Get("rsa")
		failed := isErrConst([]*Term{err})
		if call == nil {
			if !failed {
				bad("result", in, "has a path that succeeds without the RSA operation", st)
			}
			return
		}
		if len(res) == 1 {
			if err == call || failed {
				return
			}
			if err.IsNil() && st.Has("rsaok") {
				return
			}
			bad("result", in, "does not return the verdict of the RSA operation", st)
			return
		}
		t := res[0].Strip()
		if failed || t.IsNil() && !err.IsNil() {
			return
		}
		if !(t.Op == "extract" && t.Args[0] == call && t.Name == "0") {
			bad("result", in, "does not return the result of the RSA operation", st)
		}
		if !(err.Op == "extract" && err.Args[0] == call && err.Name == "1") {
			if !st.Has("rsaok") || !err.IsNil() {
				bad("error", in, "drops the error of the RSA operation", st)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

func p10Streamed(t *Term) bool {
	t = t.Strip()
	return t.IsCall("hash.Hash.Sum")
}

// ---- other sites

// polFacts follows what the path knows about the policy URI it compared last.
func polBranch(x *Exec, st *State, cond *Term, taken bool) {
	a, b, eq, ok := CmpOf(cond, taken)
	if !ok {
		return
	}
	var t *Term
	var pf *secProfile
	if pf = profileOfURI(b.Strip().Name); pf != nil && b.Strip().Op == "const" {
		t = a
	} else if pf = profileOfURI(a.Strip().Name); pf != nil && a.Strip().Op == "const" {
		t = b
	} else {
		return
	}
	t = t.Strip()
	if cur := st.Get("polT"); cur != t {
		st.Set("polT", t)
		for k := range st.A {
			if strings.HasPrefix(k, "pol-") || k == "pol" {
				st.Del(k)
			}
		}
		// what is already known about this term
		if f, ok := st.Facts[t]; ok {
			if f.Eq != nil {
				if q := profileOfURI(f.Eq.Strip().Name); q != nil {
					st.Set("pol", x.T.mk("const", q.uri, nil, nil, nil, nil))
				}
			}
			for _, e := range f.Neq {
				if q := profileOfURI(e.Strip().Name); q != nil {
					st.Set("pol-"+q.uri, x.Flag())
				}
			}
		}
	}
	if eq {
		st.Set("pol", x.T.mk("const", pf.uri, nil, nil, nil, nil))
	} else {
		st.Set("pol-"+pf.uri, x.Flag())
	}
}

// polPossible: the profiles the path leaves possible.
func polPossible(st *State) (out []*secProfile, known bool) {
	if t := st.Get("pol"); t != nil {
		return []*secProfile{profileOfURI(`"` + t.Name + `"`)}, true
	}
	for i := range secProfiles {
		if st.Has("pol-" + secProfiles[i].uri) {
			known = true
			continue
		}
		out = append(out, &secProfiles[i])
	}
	return
}

func p10Sites(p *Program, r *Report) {
	direct := map[*ssa.Function]bool{}
	polTypes := map[string]*secProfile{}
	for i := range secProfiles {
		polTypes["ua."+secProfiles[i].typ] = &secProfiles[i]
	}
	isPolicyMethod := func(f *ssa.Function) bool { return polTypes[RecvType(f)] != nil }
	for _, f := range p.Funcs {
		if isPolicyMethod(f) || f.Synthetic != "" || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
			continue
		}
		hit := false
		EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
			if _, ok := rsaOps[name]; ok {
				hit = true
			}
		})
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && polTypes[TypeName(derefType(a.Type()))] != nil {
					hit = true
				}
			}
		}
		if hit {
			direct[f] = true
		}
	}
	callersOf := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		f := f
		EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
			if callee != nil {
				callersOf[callee] = append(callersOf[callee], f)
			}
		})
	}
	// what only the policies use is judged with them
	var only func(f *ssa.Function, depth int) bool
	only = func(f *ssa.Function, depth int) bool {
		if depth == 0 || len(callersOf[f]) == 0 || f.Object() == nil || f.Object().Exported() {
			return false
		}
		for _, c := range callersOf[f] {
			if !isPolicyMethod(c) && !only(c, depth-1) {
				return false
			}
		}
		return true
	}
	for _, f := range sortedFns(direct) {
		if only(f, 4) {
			delete(direct, f)
		}
	}
	inline := map[*ssa.Function]bool{}
	roots := map[*ssa.Function]bool{}
	for f := range direct {
		roots[f] = true
	}
	// a policy URI known only to the caller: explore the caller instead
	for round := 0; round < 4; round++ {
		changed := false
		for _, f := range sortedFns(roots) {
			need := p10Root(p, nil, f, inline, polTypes)
			if need && len(callersOf[f]) > 0 && !f.Object().Exported() {
				delete(roots, f)
				inline[f] = true
				for _, c := range callersOf[f] {
					if !isPolicyMethod(c) && !only(c, 4) {
						roots[c] = true
					}
				}
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for _, f := range sortedFns(roots) {
		p10Root(p, r, f, inline, polTypes)
	}
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return FuncName(out[i]) < FuncName(out[j]) })
	return out
}

// p10Root explores one function; with r nil it only reports whether a site lacks its policy URI.
func p10Root(p *Program, r *Report, fn *ssa.Function, inline map[*ssa.Function]bool, polTypes map[string]*secProfile) (need bool) {
	bad := func(rule, what string, in ssa.Instruction, msg string, st *State) {
		need = true
		if r != nil {
			r.Bad(rule, FuncName(in.Parent())+"/"+what, p.InstrPos(in), msg, st.Trace(8)...)
		}
	}
	ob := func(rule, key string) {
		if r != nil {
			r.Ob(rule, key)
		}
	}
	h := Hooks{MaxDepth: 5}
	h.Inline = func(f *ssa.Function) bool { return inline[f] || f.Pkg == fn.Pkg && small(f, 1) && getterOnly(f) }
	h.Stable = func(a *Term) bool {
		return a.Op == "fieldaddr" && strings.EqualFold(a.Name, "securityPolicyURI")
	}
	h.OnBranch = polBranch
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		op, ok := rsaOps[ci.Name]
		if !ok {
			return ActDefault
		}
		pos, _ := polPossible(st)
		for _, pf := range pos {
			ob("use", FuncName(fn)+" "+op.verb+" "+pf.name()+" @"+p.InstrPos(ci.Instr))
			if s := rsaProblem(x, st, op, ci.Args, pf); s != "" {
				bad("use", op.verb+"/"+pf.name()+"/"+shortHash(s), ci.Instr, "under policy "+pf.name()+" the code "+s, st)
				break
			}
		}
		key := ci.Args[op.key].Strip()
		switch op.verb {
		case "encrypt":
			// block length
			if k, n, ok := blockOf(ci.Args[op.data]); ok {
				for _, pf := range pos {
					if n < pf.pad || !sameKey(k, key) {
						bad("use", op.verb+"/block/"+pf.name(), ci.Instr, "under policy "+pf.name()+" a block of key size minus "+itoa(int(n))+" bytes is encrypted; the padding takes "+itoa(int(pf.pad)), st)
						break
					}
				}
			}
		case "decrypt":
			d := ci.Args[op.data].Strip()
			for d.Op == "slice" {
				d = d.Args[0].Strip()
			}
			if d.Op == "make" && len(d.Args) > 0 {
				n := d.Args[0].Strip()
				ob("use", FuncName(fn)+" decrypted block @"+p.InstrPos(ci.Instr))
				if n.Contains(func(t *Term) bool { return t.Op == "field" && t.Name == "D" || t.Op == "fieldaddr" && t.Name == "D" }) {
					bad("use", "decrypt/block", ci.Instr, "the encrypted blocks are cut by the length of the private exponent, not of the key", st)
				}
			}
		}
		return ActDefault
	}
	uriFields := map[string]bool{"Algorithm": true, "EncryptionAlgorithm": true}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		switch v := in.(type) {
		case *ssa.Alloc:
			pf := polTypes[TypeName(derefType(v.Type()))]
			if pf == nil {
				return
			}
			ob("select", FuncName(fn)+" "+pf.name())
			pos, known := polPossible(st)
			if !known {
				if pf.sign == "" {
					return // the initial policy of a channel
				}
				bad("select", pf.name(), in, "the policy "+pf.name()+" is selected without regard to the policy URI", st)
				return
			}
			for _, q := range pos {
				if q != pf {
					bad("select", pf.name()+" for "+q.name(), in, "the policy "+pf.name()+" is selected where the policy URI can be that of "+q.name(), st)
				}
			}
			if st.Get("pol") == nil {
				bad("select", pf.name()+" for unknown", in, "the policy "+pf.name()+" is selected for unknown policy URIs", st)
			}
		case *ssa.Store:
			fa, ok := v.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			f := fieldName(derefType(fa.X.Type()), fa.Field)
			if !uriFields[f] {
				return
			}
			c := x.Val(st, v.Val).Strip()
			if c.Op != "const" || c.Name == `""` {
				return
			}
			pos, _ := polPossible(st)
			for _, pf := range pos {
				want := pf.sigURI
				if f == "EncryptionAlgorithm" {
					want = pf.encURI
				}
				ob("use", FuncName(fn)+" "+f+" "+pf.name()+" @"+p.InstrPos(in))
				if c.Name != `"`+want+`"` {
					bad("use", f+"/"+pf.name(), in, "under policy "+pf.name()+" the "+f+" is announced as "+c.Name, st)
				}
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	if r != nil {
		r.Saw(x)
	}
	return need
}

func shortHash(s string) string {
	if i := strings.Index(s, " "); i > 0 {
		return s[:i]
	}
	return s
}

// getterOnly: a function of one block without calls.
func getterOnly(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	ok := true
	EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
		if !strings.HasPrefix(name, "sync.") {
			ok = false
		}
	})
	return ok
}

func sameKey(a, b *Term) bool {
	a, b = a.Strip(), b.Strip()
	if a == b {
		return true
	}
	// &priv.PublicKey
	for _, t := range []*Term{a, b} {
		if t.Op == "fieldaddr" && t.Name == "PublicKey" {
			if t == a {
				a = t.Args[0].Strip()
			} else {
				b = t.Args[0].Strip()
			}
		}
	}
	return a == b || lastField(a) != "" && lastField(a) == lastField(b)
}

// blockOf: the text was allocated with length Size(key)-n.
func blockOf(t *Term) (key *Term, n int64, ok bool) {
	t = t.Strip()
	for t.Op == "slice" {
		t = t.Args[0].Strip()
	}
	if t.Op != "make" || len(t.Args) == 0 {
		return
	}
	l := t.Args[0].Strip()
	if l.IsCall("rsa.PublicKey.Size", "rsa.PrivateKey.Size") {
		return l.Args[0], 0, true
	}
	if l.Op == "bin" && l.Name == "-" && l.Args[0].Strip().IsCall("rsa.PublicKey.Size", "rsa.PrivateKey.Size") {
		if k, isK := numConst(l.Args[1].Strip()); isK {
			return l.Args[0].Strip().Args[0], k, true
		}
	}
	return
}

// ---- key derivation

func p10KDF(p *Program, r *Report) {
	for _, pkg := range []string{"server", "client"} {
		n := 0
		for _, f := range p.Funcs {
			if f.Pkg == nil || f.Pkg.Pkg.Name() != pkg {
				continue
			}
			has := false
			EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) { has = has || name == "hmac.New" })
			if has {
				n++
				p10PSHA(p, r, f)
			}
		}
		if n == 0 {
			// a shared implementation in ua
			for _, f := range p.Funcs {
				if f.Pkg != nil && f.Pkg.Pkg.Name() == "ua" && !strings.HasPrefix(RecvType(f), "ua.SecurityPolicy") {
					EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
						if name == "hmac.New" {
							n++
							p10PSHA(p, r, f)
						}
					})
				}
			}
		}
	}
}

func p10PSHA(p *Program, r *Report, fn *ssa.Function) {
	name := FuncName(fn)
	h := Hooks{MaxDepth: 4}
	h.Inline = func(f *ssa.Function) bool { return false }
	h.OnBranch = polBranch
	bad := func(what string, in ssa.Instruction, msg string, st *State) {
		r.Bad("kdf", name+"/"+what, p.InstrPos(in), msg, st.Trace(8)...)
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case "hmac.New":
			alg := hashAlg(ci.Args[0])
			pos, _ := polPossible(st)
			for _, pf := range pos {
				if pf.kdf == "" {
					continue
				}
				r.Ob("kdf", name+" "+pf.name())
				if alg != pf.kdf {
					bad("hash/"+pf.name(), ci.Instr, "keys of policy "+pf.name()+" are derived with '"+alg+"' where the profile has "+pf.kdf, st)
				}
			}
			if !isParamN(ci.Args[1], 0) {
				bad("secret", ci.Instr, "the HMAC of the key derivation is not keyed with the secret", st)
			}
			st.Set("w", x.T.mk("const", "", nil, nil, nil, nil))
		case "hash.Hash.Reset":
			st.Set("w", x.T.mk("const", "", nil, nil, nil, nil))
		case "hash.Hash.Write", "io.Writer.Write":
			k := p10Part(st, ci.Args[1])
			w := ""
			if t := st.Get("w"); t != nil {
				w = t.Name
			}
			if len(w) < 6 {
				w += k
			}
			st.Set("w", x.T.mk("const", w, nil, nil, nil, nil))
		case "builtin.copy", "builtin.append":
			if len(ci.Args) > 1 {
				if k := p10Part(st, ci.Args[1]); k != "p" && ci.Name == "builtin.copy" {
					bad("out", ci.Instr, "the derived key is not made of HMAC(secret, A(i)+seed)", st)
				} else if k == "p" {
					r.Ob("kdf", name+" output")
				}
			}
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Name != "hash.Hash.Sum" {
			return
		}
		w := ""
		if t := st.Get("w"); t != nil {
			w = t.Name
		}
		k := "?"
		switch w {
		case "s", "a":
			k = "a" // A(i)
		case "as":
			k = "p" // P(i)
		}
		if k == "?" {
			bad("step", ci.Instr, "a step of the key derivation hashes neither A(i) nor A(i)+seed", st)
		}
		r.Ob("kdf", name+" step "+k)
		st.Set("part:"+itoa(termID(res.Strip())), x.T.mk("const", k, nil, nil, nil, nil))
		if k == "a" {
			st.Set("lastA", res.Strip())
		}
	}
	h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range to.Preds {
				if pr != from {
					continue
				}
				v := x.Val(st, ph.Edges[i])
				w := x.Val(st, ph)
				if v == nil || w == nil || v.Strip() == w.Strip() {
					continue
				}
				if k := p10Part(st, v); k != "x" {
					st.Set("part:"+itoa(termID(w.Strip())), x.T.mk("const", k, nil, nil, nil, nil))
					if k == "a" {
						st.Set("lastA", w.Strip())
					}
				}
			}
		}
	}
	x := NewExec(p, h)
	x.Run(fn, nil)
	r.Saw(x)
}

// p10Part: s the seed, a the latest A(i), p an output block.
func p10Part(st *State, t *Term) string {
	t = t.Strip()
	if isParamN(t, 1) {
		return "s"
	}
	for t.Op == "slice" {
		t = t.Args[0].Strip()
	}
	if k := st.Get("part:" + itoa(termID(t))); k != nil {
		if k.Name == "a" && st.Get("lastA") != t {
			return "x"
		}
		return k.Name
	}
	return "x"
}

func p10Sym(p *Program, r *Report) {
	for _, f := range p.Funcs {
		if f.Pkg == nil {
			continue
		}
		EachCall(f, func(in ssa.CallInstruction, name string, callee *ssa.Function) {
			pk, _, _ := strings.Cut(name, ".")
			switch pk {
			case "cipher":
				if strings.HasPrefix(name, "cipher.New") {
					r.Ob("symmetric", FuncName(f)+" "+name+" @"+p.InstrPos(in))
					if name != "cipher.NewCBCEncrypter" && name != "cipher.NewCBCDecrypter" {
						r.Bad("symmetric", FuncName(f)+"/"+name, p.InstrPos(in), "uses "+name+" where every profile has AES in CBC mode")
					}
				}
			case "des", "rc4":
				r.Bad("symmetric", FuncName(f)+"/"+name, p.InstrPos(in), "uses "+name+" where every profile has AES")
			case "aes":
				r.Ob("symmetric", FuncName(f)+" "+name+" @"+p.InstrPos(in))
			}
		})
	}
}
