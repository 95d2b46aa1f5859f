package main

import (
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Entailment of linear inequalities over path facts: a goal g >= 0 holds when g minus the sum of at most
// three facts (each >= 0) has only non-negative coefficients over quantities that cannot be negative.

var nonNegAtom = regexp.MustCompile(`^([\w./]*[sS]ize|[\w./]*\.Len|builtin\.(len|cap|copy)|binary\.littleEndian\.Uint\d+|[\w./]*\.(read|Read)|bytes\.\w+\.Len)\(.*\)(#0)?$`)

type linFacts struct {
	facts  []*linear
	nonneg func(atom string) bool
}

func (f *linFacts) atomNonNeg(a string) bool {
	if nonNegAtom.MatchString(a) && balanced(a) {
		return true
	}
	if strings.HasSuffix(a, "KeySize") || strings.HasSuffix(a, "Size") {
		return true
	}
	return f.nonneg != nil && f.nonneg(a)
}

// balanced: the first opening parenthesis closes at the end of the atom (or before #0).
func balanced(a string) bool {
	a = strings.TrimSuffix(a, "#0")
	d := 0
	for i, r := range a {
		switch r {
		case '(':
			d++
		case ')':
			d--
			if d == 0 && i != len(a)-1 {
				return false
			}
		}
	}
	return d == 0
}

func (f *linFacts) plain(g *linear) bool {
	if g.c.Sign() < 0 {
		return false
	}
	for k, v := range g.coef {
		if v.Sign() < 0 || !f.atomNonNeg(k) {
			return false
		}
	}
	return true
}

// holds: g >= 0.
func (f *linFacts) holds(g *linear) bool { return f.search(g, 0, 3) }

func (f *linFacts) search(g *linear, from, depth int) bool {
	if f.plain(g) {
		return true
	}
	if depth == 0 {
		return false
	}
	for i := from; i < len(f.facts); i++ {
		if f.search(linSub(g, f.facts[i]), i, depth-1) {
			return true
		}
	}
	return false
}

// linCmp turns a decided comparison into facts "l >= 0".
func linCmp(cond *Term, taken bool) []*linear {
	c, tk := NormCond(cond, taken)
	if c.Op != "bin" || len(c.Args) != 2 {
		return nil
	}
	a, b := linOf(c.Args[0]), linOf(c.Args[1])
	op := c.Name
	if !tk {
		op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	minus1 := func(l *linear) *linear {
		l.c = new(big.Int).Sub(l.c, big.NewInt(1))
		return l
	}
	switch op {
	case "<":
		return []*linear{minus1(linSub(b, a))}
	case "<=":
		return []*linear{linSub(b, a)}
	case ">":
		return []*linear{minus1(linSub(a, b))}
	case ">=":
		return []*linear{linSub(a, b)}
	case "==":
		return []*linear{linSub(a, b), linSub(b, a)}
	}
	return nil
}

// growing: the phi starts at a value that is not negative and only grows.
func growing(v ssa.Value, seen map[ssa.Value]bool) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	if seen[ph] {
		return true
	}
	seen[ph] = true
	for _, e := range ph.Edges {
		if !growingEdge(e, ph, seen) {
			return false
		}
	}
	return true
}

func growingEdge(e ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	switch e := e.(type) {
	case *ssa.Const:
		return e.Value != nil && e.Int64() >= 0
	case *ssa.Phi:
		return growing(e, seen)
	case *ssa.Convert:
		return growingEdge(e.X, ph, seen)
	case *ssa.BinOp:
		if e.Op.String() == "+" {
			return (e.X == ssa.Value(ph) || growingEdge(e.X, ph, seen)) && growingEdge(e.Y, ph, seen) || e.Y == ssa.Value(ph) && growingEdge(e.X, ph, seen)
		}
		if e.Op.String() == "-" {
			// what has been consumed of a buffer
			c, ok := e.Y.(*ssa.Call)
			if ok {
				n, _ := CallName(c.Common())
				return strings.HasSuffix(n, ".Len")
			}
		}
	case *ssa.Call:
		n, _ := CallName(e.Common())
		return strings.HasSuffix(n, "Size") || n == "builtin.copy" || n == "builtin.len" || strings.HasSuffix(n, ".Len")
	case *ssa.Extract:
		if c, ok := e.Tuple.(*ssa.Call); ok && e.Index == 0 {
			n, _ := CallName(c.Common())
			return strings.HasSuffix(n, ".Read") || strings.HasSuffix(n, ".read")
		}
	case *ssa.UnOp:
		if fa, ok := e.X.(*ssa.FieldAddr); ok {
			return strings.HasSuffix(fieldName(fa.X.Type(), fa.Field), "Size")
		}
	}
	return false
}

// filled: the phi counts bytes copied into a buffer at itself (jj += copy(buf[jj:], ...)), so it never
// exceeds the buffer's length.
func filled(v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	n := 0
	for _, e := range ph.Edges {
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op.String() != "+" {
			continue
		}
		y := b.Y
		if b.X != ssa.Value(ph) {
			y = b.X
		}
		c, ok := y.(*ssa.Call)
		if !ok {
			return false
		}
		nm, _ := CallName(c.Common())
		if nm != "builtin.copy" {
			return false
		}
		sl, ok := c.Common().Args[0].(*ssa.Slice)
		if !ok || sl.Low != ssa.Value(ph) {
			return false
		}
		n++
	}
	return n > 0
}

var bigOne = big.NewInt(1)

func oneAtom(k string) *linear {
	l := &linear{new(big.Int), map[string]*big.Int{}}
	l.add(k, bigOne)
	return l
}
