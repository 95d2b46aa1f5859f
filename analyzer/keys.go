package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keyTrack follows the derivation of the channel's symmetric keys: which nonces they are derived from,
// which part of the derived material becomes which key, and which key makes which cipher or hash.

var keyRoles = map[string][]string{
	// role: secret, seed, offset, size
	"remoteSigningKey":           {"localNonce", "remoteNonce", "", "SymSignatureKeySize"},
	"remoteEncryptingKey":        {"localNonce", "remoteNonce", "S", "SymEncryptionKeySize"},
	"remoteInitializationVector": {"localNonce", "remoteNonce", "E+S", "SymEncryptionBlockSize"},
	"localSigningKey":            {"remoteNonce", "localNonce", "", "SymSignatureKeySize"},
	"localEncryptingKey":         {"remoteNonce", "localNonce", "S", "SymEncryptionKeySize"},
	"localInitializationVector":  {"remoteNonce", "localNonce", "E+S", "SymEncryptionBlockSize"},
}

var keyUsers = map[string]string{
	"symVerifyHMAC":            "remoteSigningKey",
	"symDecryptingBlockCipher": "remoteEncryptingKey",
	"symSignHMAC":              "localSigningKey",
	"symEncryptingBlockCipher": "localEncryptingKey",
}

type keyTrack struct {
	p    *Program
	r    *Report
	rule string
	side string
	want string // remote, local
}

func lastField(t *Term) string {
	if t == nil {
		return ""
	}
	_, path := t.Strip().FieldPath()
	return lastOf(path)
}

// role of a byte slice holding key material.
func (k *keyTrack) role(st *State, t *Term) string {
	t = t.Strip()
	if f := lastField(t); keyRoles[f] != nil {
		return f
	}
	if r := st.Get("role:" + itoa(termID(t))); r != nil {
		return r.Name
	}
	return ""
}

// sym turns an offset into a sum of S (length of a signing key), E (of an encrypting key) and V (iv).
func (k *keyTrack) sym(st *State, t *Term) string {
	if isZeroOrNone(t) {
		return ""
	}
	t = t.Strip()
	if t.Op == "bin" && t.Name == "+" {
		a, b := k.sym(st, t.Args[0]), k.sym(st, t.Args[1])
		switch {
		case a == "":
			return b
		case b == "":
			return a
		case a > b:
			return b + "+" + a
		}
		return a + "+" + b
	}
	of := ""
	if t.Op == "call" {
		switch {
		case strings.HasSuffix(t.Name, ".SymSignatureKeySize"):
			return "S"
		case strings.HasSuffix(t.Name, ".SymEncryptionKeySize"):
			return "E"
		case strings.HasSuffix(t.Name, ".SymEncryptionBlockSize"):
			return "V"
		case t.Name == "builtin.copy" || t.Name == "builtin.len":
			of = k.role(st, t.Args[0])
			if of == "" {
				a := t.Args[0].Strip()
				if a.Op == "make" {
					return k.sym(st, a.Args[0])
				}
			}
		}
	}
	switch {
	case strings.HasSuffix(of, "SigningKey"):
		return "S"
	case strings.HasSuffix(of, "EncryptingKey"):
		return "E"
	case strings.HasSuffix(of, "Vector"):
		return "V"
	}
	return "?" + t.Key()
}

func (k *keyTrack) wanted(role string) bool { return strings.HasPrefix(role, k.want) }

// material: the term is (part of) derived key material; lo is its offset.
func (k *keyTrack) material(st *State, t *Term) (secret, seed, lo string, ok bool) {
	t = t.Strip()
	var off *Term
	for t.Op == "slice" {
		if !isZeroOrNone(t.Args[1]) {
			if off != nil {
				return
			}
			off = t.Args[1]
		}
		t = t.Args[0].Strip()
	}
	if t.Op != "call" || !strings.HasSuffix(t.Name, "calculatePSHA") || len(t.Args) < 2 {
		return
	}
	lo = ""
	if off != nil {
		lo = k.sym(st, off)
	}
	return lastField(t.Args[0]), lastField(t.Args[1]), lo, true
}

func (k *keyTrack) check(st *State, role string, m *Term, where ssa.Instruction) {
	if !k.wanted(role) {
		return
	}
	spec := keyRoles[role]
	k.r.Ob(k.rule, k.side+" "+role+" derived")
	sec, seed, lo, ok := k.material(st, m)
	if !ok {
		k.r.Bad(k.rule, k.side+"/"+role+"/material", k.p.InstrPos(where), "the "+role+" is not taken from the material derived from the two nonces", st.Trace(5)...)
		return
	}
	if sec != spec[0] || seed != spec[1] {
		k.r.Bad(k.rule, k.side+"/"+role+"/nonces", k.p.InstrPos(where), "the "+role+" is derived from secret "+sec+" and seed "+seed+" instead of secret "+spec[0]+" and seed "+spec[1], st.Trace(5)...)
	}
	if lo != spec[2] {
		k.r.Bad(k.rule, k.side+"/"+role+"/offset", k.p.InstrPos(where), "the "+role+" is taken from the wrong part of the derived material", st.Trace(5)...)
	}
}

func (k *keyTrack) size(st *State, role string, v *Term, where ssa.Instruction) {
	v = v.Strip()
	var n *Term
	switch {
	case v.Op == "make" && len(v.Args) > 0:
		n = v.Args[0]
	case v.Op == "slice" && !noTerm(v.Args[2]):
		if isZeroOrNone(v.Args[1]) {
			n = v.Args[2]
		}
	}
	if n == nil {
		return
	}
	want := map[string]string{"SymSignatureKeySize": "S", "SymEncryptionKeySize": "E", "SymEncryptionBlockSize": "V"}[keyRoles[role][3]]
	k.r.Ob(k.rule, k.side+" "+role+" size")
	if got := k.sym(st, n); got != want {
		k.r.Bad(k.rule, k.side+"/"+role+"/size", k.p.InstrPos(where), "the "+role+" does not have the length its security policy prescribes", st.Trace(5)...)
	}
}

// call is to be told of every call.
func (k *keyTrack) call(x *Exec, st *State, ci *CallInfo) {
	if ci.Name != "builtin.copy" || len(ci.Args) != 2 {
		return
	}
	role := k.role(st, ci.Args[0])
	_, _, _, isMat := k.material(st, ci.Args[1])
	if role == "" {
		if isMat {
			st.Set("mat:"+itoa(termID(ci.Args[0].Strip())), ci.Args[1])
		}
		return
	}
	k.check(st, role, ci.Args[1], ci.Instr)
}

// instr is to be told of every instruction.
func (k *keyTrack) instr(x *Exec, st *State, in ssa.Instruction) {
	sto, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	fa, ok := sto.Addr.(*ssa.FieldAddr)
	if !ok || !strings.HasSuffix(TypeName(derefType(fa.X.Type())), "SecureChannel") {
		return
	}
	f := fieldName(derefType(fa.X.Type()), fa.Field)
	if keyRoles[f] != nil {
		v := x.Val(st, sto.Val).Strip()
		if k.wanted(f) {
			k.size(st, f, v, in)
		}
		if m := st.Get("mat:" + itoa(termID(v))); m != nil {
			k.check(st, f, m, in)
		} else if v.Op != "make" {
			k.check(st, f, v, in)
		}
		st.Set("role:"+itoa(termID(v)), x.T.mk("const", f, nil, nil, nil, nil))
		return
	}
	want := keyUsers[f]
	if want == "" || !k.wanted(want) {
		return
	}
	v := x.Val(st, sto.Val).Strip()
	if v.IsNil() {
		return
	}
	k.r.Ob(k.rule, k.side+" "+f+" keyed")
	if v.Op == "extract" {
		v = v.Args[0].Strip()
	}
	good := false
	if v.Op == "call" && (strings.HasSuffix(v.Name, ".SymHMACFactory") || v.Name == "aes.NewCipher") && len(v.Args) > 0 {
		good = k.role(st, v.Args[len(v.Args)-1]) == want
	}
	if !good {
		k.r.Bad(k.rule, k.side+"/"+f, k.p.InstrPos(in), "the channel's "+f+" is not made from its "+want, st.Trace(5)...)
	}
}

// keySizes judges the allocation of keys outside the explored paths (constructors, Open).
func (k *keyTrack) allocs(pkg string) {
	want := map[string]string{}
	for f, s := range keyRoles {
		want[f] = s[3]
	}
	for _, fn := range k.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sto, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := sto.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := fieldName(derefType(fa.X.Type()), fa.Field)
				if want[f] == "" || !k.wanted(f) {
					continue
				}
				mk, ok := sto.Val.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				k.r.Ob(k.rule, k.side+" "+f+" allocated in "+FuncName(fn))
				if c, ok := mk.Len.(*ssa.Call); ok {
					if n, _ := CallName(c.Common()); n != "" && !strings.HasSuffix(n, "."+want[f]) {
						k.r.Bad(k.rule, k.side+"/"+f+"/size", k.p.InstrPos(in), "the "+f+" does not have the length its security policy prescribes ("+want[f]+")")
					}
				}
			}
		}
	}
}
