package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// authTrack follows what is fed into hashes and byte buffers, so that the
// operands of a signature or encryption are known by origin.
type authTrack struct {
	p *Program
}

func hashKey(h *Term) string { return "h:" + itoa(termID(h)) + ":" }

// bytesOf flattens a byte slice expression into the parts it concatenates.
func bytesOf(x *Exec, st *State, t *Term) []*Term {
	t = t.Strip()
	switch {
	case t.Op == "slice" && isZeroOrNone(t.Args[1]) && noTerm(t.Args[2]):
		return bytesOf(x, st, t.Args[0])
	case t.IsCall("builtin.append") && len(t.Args) == 2:
		return append(bytesOf(x, st, t.Args[0]), bytesOf(x, st, t.Args[1])...)
	case t.IsCall("bytes.Clone", "slices.Clone"):
		return bytesOf(x, st, t.Args[0])
	case t.IsNil() || t.Op == "const" && t.Name == `""`:
		return nil
	case t.Op == "make" && len(t.Args) > 0:
		if n, ok := numConst(t.Args[0].Strip()); ok && n == 0 {
			return nil
		}
	}
	if t.Op == "alloc" && t.Typ != nil {
		if a, ok := derefType(t.Typ).Underlying().(*types.Array); ok && a.Len() == 0 {
			return nil
		}
	}
	return []*Term{t}
}

// note records hash and buffer writes.
func (a *authTrack) call(x *Exec, st *State, ci *CallInfo) {
	switch ci.Name {
	case "hash.Hash.Write", "io.Writer.Write":
		k := hashKey(ci.Args[0].Strip())
		n := 0
		for st.Has(k + itoa(n)) {
			n++
		}
		for _, q := range bytesOf(x, st, ci.Args[1]) {
			if n < 8 {
				st.Set(k+itoa(n), q)
			}
			n++
		}
	case "hash.Hash.Reset":
		k := hashKey(ci.Args[0].Strip())
		for n := 0; st.Has(k + itoa(n)); n++ {
			st.Del(k + itoa(n))
		}
	}
}

// after: a new hash is empty.
func (a *authTrack) after(x *Exec, st *State, ci *CallInfo, res *Term) {
	if res == nil {
		return
	}
	switch ci.Name {
	case "crypto.Hash.New", "sha1.New", "sha256.New":
		k := hashKey(res.Strip())
		for n := 0; st.Has(k + itoa(n)); n++ {
			st.Del(k + itoa(n))
		}
	}
}

// digestParts: what the digest was computed over.
func (a *authTrack) digestParts(x *Exec, st *State, t *Term) []*Term {
	t = t.Strip()
	for t.Op == "slice" && isZeroOrNone(t.Args[1]) && noTerm(t.Args[2]) {
		t = t.Args[0].Strip()
	}
	if t.Op == "alloc" {
		if c, ok := st.Mem[t]; ok && c != x.fresh {
			t = c.Strip()
		}
	}
	if t.IsCall("sha1.Sum", "sha256.Sum256") {
		return bytesOf(x, st, t.Args[0])
	}
	if t.IsCall("hash.Hash.Sum") {
		k := hashKey(t.Args[0].Strip())
		var out []*Term
		for n := 0; st.Has(k + itoa(n)); n++ {
			out = append(out, st.Get(k+itoa(n)))
		}
		return out
	}
	return nil
}

// sigCall: a verification or signature call with key, covered data and signature.
type sigCall struct {
	verb  string
	key   *Term
	parts []*Term
	sig   *Term
}

func (a *authTrack) sig(x *Exec, st *State, ci *CallInfo) (sigCall, bool) {
	if op, ok := rsaOps[ci.Name]; ok && (op.verb == "verify" || op.verb == "sign") {
		s := sigCall{verb: op.verb, key: ci.Args[op.key].Strip(), parts: a.digestParts(x, st, ci.Args[op.data])}
		if op.sig >= 0 {
			s.sig = ci.Args[op.sig].Strip()
		}
		return s, true
	}
	switch {
	case strings.HasPrefix(ci.Name, "ua.SecurityPolicy") && strings.HasSuffix(ci.Name, ".RSAVerify") && len(ci.Args) == 4:
		return sigCall{"verify", ci.Args[1].Strip(), bytesOf(x, st, ci.Args[2]), ci.Args[3].Strip()}, true
	case strings.HasPrefix(ci.Name, "ua.SecurityPolicy") && strings.HasSuffix(ci.Name, ".RSASign") && len(ci.Args) == 3:
		return sigCall{"sign", ci.Args[1].Strip(), bytesOf(x, st, ci.Args[2]), nil}, true
	}
	return sigCall{}, false
}

// policyFacts keeps, per kind of policy term, the URIs a path has excluded or fixed.
func policyFacts(x *Exec, st *State, cond *Term, taken bool, kind func(*Term) string) {
	a, b, eq, ok := CmpOf(cond, taken)
	if !ok {
		return
	}
	if a.Strip().Op == "const" {
		a, b = b, a
	}
	a, b = a.Strip(), b.Strip()
	if b.Op != "const" {
		return
	}
	k := kind(a)
	if k == "" {
		return
	}
	uri := strings.Trim(b.Name, `"`)
	if uri != "" && profileOfURI(b.Name) == nil {
		return
	}
	if eq {
		st.Set("pf:"+k, x.T.mk("const", uri, nil, nil, nil, nil))
	} else {
		st.Set("pf-:"+k+":"+uri, x.Flag())
	}
}

// securedPossible: the policy of this kind may be one of the secured ones.
func securedPossible(st *State, k string) bool {
	if t := st.Get("pf:" + k); t != nil {
		if st.Has("pf-:" + k + ":" + t.Name) {
			return false // contradicts itself: not a path
		}
		pf := profileOfURI(`"` + t.Name + `"`)
		return pf != nil && pf.sign != ""
	}
	for i := range secProfiles {
		if secProfiles[i].sign != "" && !st.Has("pf-:"+k+":"+secProfiles[i].uri) {
			return true
		}
	}
	return false
}

// reachesCall: functions of the package from which one of the calls is reached.
func (p *Program) reachesCall(pred func(name string) bool) map[*ssa.Function]bool {
	return p.Reach(func(name string, in ssa.CallInstruction) bool { return pred(name) }, nil)
}
