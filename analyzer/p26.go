package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P26", "Path-sensitive interval analysis (with a not-a-number flag) of everything between a requested value and the field in which it takes effect, over every path of the functions that set session timeouts, publishing intervals, keep-alive and lifetime counts, notification limits, sampling intervals and queue sizes: on every path the value stored lies within the configured range. Every insertion into the tables of sessions, subscriptions and browse continuation points is preceded, in the same critical section, by the comparison of the table's size with the configured maximum; a path that does not insert returns an error, and the handler answers that error with the corresponding Bad result. The revised values of the responses are those in effect.", runP26)
}

type rng struct {
	lo, hi float64
	nan    bool
}

func (r rng) and(o rng) rng {
	if o.lo > r.lo {
		r.lo = o.lo
	}
	if o.hi < r.hi {
		r.hi = o.hi
	}
	r.nan = r.nan && o.nan
	return r
}

func typeRange(t types.Type) rng {
	full := rng{math.Inf(-1), math.Inf(1), true}
	if t == nil {
		return full
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return full
	}
	switch b.Kind() {
	case types.Uint8:
		return rng{0, 255, false}
	case types.Uint16:
		return rng{0, 65535, false}
	case types.Uint32:
		return rng{0, math.MaxUint32, false}
	case types.Uint, types.Uint64:
		return rng{0, math.MaxUint64, false}
	case types.Int32:
		return rng{math.MinInt32, math.MaxInt32, false}
	case types.Int, types.Int64:
		return rng{math.MinInt64, math.MaxInt64, false}
	}
	if b.Info()&types.IsInteger != 0 {
		return rng{math.Inf(-1), math.Inf(1), false}
	}
	return full
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func constNum(t *Term) (float64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	if t.Name == "zero" {
		return 0, true
	}
	if q, ok := new(big.Rat).SetString(t.Name); ok {
		f, _ := q.Float64()
		return f, true
	}
	return 0, false
}

type p26 struct {
	p     *Program
	r     *Report
	terms map[int]*Term
	inv   map[string]rng
}

func (c *p26) id(t *Term) string { c.terms[termID(t)] = t; return strconv.Itoa(termID(t)) }

func (c *p26) fact(st *State, t *Term) (rng, bool) {
	g := rng{math.Inf(-1), math.Inf(1), true}
	f := st.Get("rng:" + c.id(t))
	if f == nil {
		return g, false
	}
	var nan int
	if _, err := fmt.Sscan(f.Name, &g.lo, &g.hi, &nan); err != nil {
		return rng{math.Inf(-1), math.Inf(1), true}, false
	}
	g.nan = nan == 1
	return g, true
}

// eval bounds a numeric term from the facts of the path.
func (c *p26) eval(x *Exec, st *State, t *Term) rng {
	if t == nil {
		return rng{math.Inf(-1), math.Inf(1), true}
	}
	g := c.eval0(x, st, t)
	if f, ok := c.fact(st, t); ok {
		g = g.and(f)
	}
	return g
}

func (c *p26) eval0(x *Exec, st *State, t *Term) rng {
	tr := typeRange(t.Typ)
	if v, ok := constNum(t); ok {
		return rng{v, v, false}
	}
	fit := func(g rng) rng {
		if isIntType(t.Typ) && (g.lo < tr.lo || g.hi > tr.hi || g.nan || math.IsNaN(g.lo) || math.IsNaN(g.hi)) {
			return tr
		}
		if math.IsNaN(g.lo) || math.IsNaN(g.hi) {
			return tr
		}
		return g
	}
	switch {
	case t.Op == "conv" && len(t.Args) == 1:
		a := c.eval(x, st, t.Args[0])
		if isIntType(t.Typ) && !isIntType(t.Args[0].Typ) {
			if a.nan || math.IsInf(a.lo, 0) || math.IsInf(a.hi, 0) {
				return tr
			}
			a.lo, a.hi = math.Trunc(a.lo), math.Trunc(a.hi)
		}
		return fit(a)
	case t.Op == "bin" && len(t.Args) == 2:
		a, b := c.eval(x, st, t.Args[0]), c.eval(x, st, t.Args[1])
		nan := a.nan || b.nan
		switch t.Name {
		case "+":
			return fit(rng{a.lo + b.lo, a.hi + b.hi, nan || math.IsInf(a.hi, 1) && math.IsInf(b.lo, -1) || math.IsInf(b.hi, 1) && math.IsInf(a.lo, -1)})
		case "-":
			return fit(rng{a.lo - b.hi, a.hi - b.lo, nan || math.IsInf(a.hi, 0) || math.IsInf(b.hi, 0)})
		case "*":
			if a.lo >= 0 && b.lo >= 0 {
				return fit(rng{a.lo * b.lo, a.hi * b.hi, nan || (math.IsInf(a.hi, 1) && b.lo == 0) || (math.IsInf(b.hi, 1) && a.lo == 0)})
			}
		case "/":
			if a.lo >= 0 && b.lo > 0 {
				g := rng{a.lo / b.hi, a.hi / b.lo, nan || math.IsInf(a.hi, 1)}
				if isIntType(t.Typ) {
					g.lo, g.hi = math.Trunc(g.lo), math.Trunc(g.hi)
				}
				return fit(g)
			}
		}
	case (t.IsCall("builtin.min") || t.IsCall("math.Min")) && len(t.Args) > 0:
		g := c.eval(x, st, t.Args[0])
		for _, a := range t.Args[1:] {
			e := c.eval(x, st, a)
			g = rng{math.Min(g.lo, e.lo), math.Min(g.hi, e.hi), g.nan || e.nan}
		}
		return fit(g)
	case (t.IsCall("builtin.max") || t.IsCall("math.Max")) && len(t.Args) > 0:
		g := c.eval(x, st, t.Args[0])
		for _, a := range t.Args[1:] {
			e := c.eval(x, st, a)
			g = rng{math.Max(g.lo, e.lo), math.Max(g.hi, e.hi), g.nan || e.nan}
		}
		return fit(g)
	case (t.IsCall("math.Ceil") || t.IsCall("math.Floor") || t.IsCall("math.Trunc") || t.IsCall("math.Round")) && len(t.Args) == 1:
		a := c.eval(x, st, t.Args[0])
		return rng{math.Floor(a.lo), math.Ceil(a.hi), a.nan}
	case t.IsCall("builtin.len"):
		return rng{0, math.MaxInt64, false}
	case t.Op == "load":
		if _, path := t.FieldPath(); len(path) > 0 {
			if g, ok := c.inv[path[len(path)-1]]; ok {
				return g
			}
		}
	}
	return tr
}

// refine intersects what is known of t with g; false when nothing is left.
func (c *p26) refine(x *Exec, st *State, t *Term, g rng) bool {
	cur := c.eval(x, st, t)
	n := cur.and(g)
	if isIntType(t.Typ) {
		n.lo, n.hi = math.Ceil(n.lo), math.Floor(n.hi)
	}
	if n.lo > n.hi && !n.nan {
		return false
	}
	if n == cur {
		return true
	}
	nan := "0"
	if n.nan {
		nan = "1"
	}
	num := func(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }
	st.Set("rng:"+c.id(t), x.T.mk("const", num(n.lo)+" "+num(n.hi)+" "+nan, nil, nil, nil, nil))
	// look through the term
	switch {
	case t.Op == "conv" && len(t.Args) == 1 && isIntType(t.Args[0].Typ):
		in := typeRange(t.Args[0].Typ)
		out := typeRange(t.Typ)
		if !isIntType(t.Typ) || (in.lo >= out.lo && in.hi <= out.hi) {
			return c.refine(x, st, t.Args[0], rng{n.lo, n.hi, false})
		}
	case t.Op == "bin" && t.Name == "*" && !isIntType(t.Typ) && !n.nan:
		for i := 0; i < 2; i++ {
			o := c.eval(x, st, t.Args[1-i])
			a := c.eval(x, st, t.Args[i])
			if o.lo > 0 && a.lo >= 0 && !a.nan && !math.IsInf(n.hi, 1) {
				if !c.refine(x, st, t.Args[i], rng{math.Inf(-1), n.hi / o.lo, false}) {
					return false
				}
			}
		}
	}
	return true
}

// branch learns from a comparison.
func (c *p26) branch(x *Exec, st *State, cond *Term, taken bool) {
	if cond.IsCall("math.IsNaN") && len(cond.Args) == 1 {
		if !taken {
			if !c.refine(x, st, cond.Args[0], rng{math.Inf(-1), math.Inf(1), false}) {
				st.dead = true
			}
		} else if e := c.eval(x, st, cond.Args[0]); !e.nan {
			st.dead = true
		}
		return
	}
	if cond.Op != "bin" || len(cond.Args) != 2 {
		return
	}
	a, b, op := cond.Args[0], cond.Args[1], cond.Name
	switch op {
	case ">", ">=":
		a, b = b, a
		op = map[string]string{">": "<", ">=": "<="}[op]
	case "<", "<=", "==", "!=":
	default:
		return
	}
	ra, rb := c.eval(x, st, a), c.eval(x, st, b)
	ok := true
	ints := isIntType(a.Typ) || isIntType(b.Typ)
	if op == "!=" {
		op, taken = "==", !taken
	}
	inf := math.Inf(1)
	switch {
	case op == "==" && a == b && !ints:
		// x == x: not NaN
		if taken {
			ok = c.refine(x, st, a, rng{-inf, inf, false})
		}
	case op == "==" && taken:
		if _, isN := constNum(b); isN || ints {
			ok = c.refine(x, st, a, rng{rb.lo, rb.hi, false}) && c.refine(x, st, b, rng{ra.lo, ra.hi, false})
		}
	case op == "==":
		if ints && rb.lo == rb.hi {
			if ra.lo == rb.lo {
				ok = c.refine(x, st, a, rng{ra.lo + 1, inf, false})
			} else if ra.hi == rb.lo {
				ok = c.refine(x, st, a, rng{-inf, ra.hi - 1, false})
			}
		}
	case taken: // a < b or a <= b, neither is NaN
		d := 0.0
		if ints && op == "<" {
			d = 1
		}
		ok = c.refine(x, st, a, rng{-inf, rb.hi - d, false}) && c.refine(x, st, b, rng{ra.lo + d, inf, false})
		c.le(st, a, b)
		if op == "<" {
			st.Set("lt:"+c.id(a)+":"+c.id(b), cond)
		}
	default: // b <= a or b < a, or one is NaN
		d := 0.0
		if ints && op == "<=" {
			d = 1
		}
		ok = c.refine(x, st, a, rng{rb.lo + d, inf, ra.nan || rb.nan})
		if ok {
			ok = c.refine(x, st, b, rng{-inf, ra.hi - d, ra.nan || rb.nan})
		}
		c.le(st, b, a)
		if op == "<=" {
			st.Set("lt:"+c.id(b)+":"+c.id(a), cond)
		}
	}
	if !ok {
		st.dead = true
	}
}

// le records that a does not exceed b on this path.
func (c *p26) le(st *State, a, b *Term) {
	st.Set("le:"+c.id(a)+":"+c.id(b), a)
}

// lower lists the terms known not to exceed t.
func (c *p26) lower(st *State, t *Term) []*Term {
	var out []*Term
	suf := ":" + c.id(t)
	for _, k := range sortedKeys(st.A) {
		if strings.HasPrefix(k, "le:") && strings.HasSuffix(k, suf) {
			out = append(out, st.A[k])
		}
	}
	return out
}

type p26field struct {
	owner, name string
	check       func(x *Exec, st *State, base *Term, v *Term) string
	stop        func(f *ssa.Function) bool
	min         int
}

func (p *Program) floatConst(pkg, name string) float64 {
	sp := p.SSA[pkg]
	if sp == nil {
		fail("package %s is missing", pkg)
	}
	o, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if ok {
		f, _ := constant.Float64Val(constant.ToFloat(o.Val()))
		return f
	}
	// a package variable initialised once with a constant
	if g := sp.Var(name); g != nil {
		if init := sp.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
						if k, ok := s.Val.(*ssa.Const); ok {
							f, _ := constant.Float64Val(constant.ToFloat(k.Value))
							return f
						}
					}
				}
			}
		}
	}
	fail("the limit %s.%s is not recognised", pkg, name)
	return 0
}

func storesField(f *ssa.Function, owner, name string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == name && TypeName(derefType(fa.X.Type())) == owner {
					return true
				}
			}
		}
	}
	return false
}

func runP26(p *Program, r *Report) {
	r.Rule("revised: on every path the value stored for a timeout, interval, count or queue size lies within the configured range, whatever was requested")
	r.Rule("counted: an entry is added to the table of sessions, subscriptions or browse continuation points only after its size was found below the configured maximum, in the same critical section")
	r.Rule("configured: the maxima compared with come from the server's configuration")
	r.Rule("refused: a path that adds nothing reports an error, and the handler answers it with the corresponding Bad result and no success response")
	r.Rule("reported: the revised values of a response are the ones in effect for the object created or modified")
	c := &p26{p: p, r: r, terms: map[int]*Term{}}
	pmin, pmax := p.floatConst("server", "minPublishingInterval"), p.floatConst("server", "maxPublishingInterval")
	lmin, lmax := p.floatConst("server", "minLifetime"), p.floatConst("server", "maxLifetime")
	smin, smax := p.floatConst("server", "minSessionTimeout"), p.floatConst("server", "maxSessionTimeout")
	qmax := p.floatConst("server", "maxQueueSize")
	simax := p.floatConst("server", "maxSamplingInterval")
	kmax := math.Ceil(pmax / pmin)
	lcmax := math.Max(math.Ceil(lmax/pmin), 3*kmax)
	// what every store establishes holds whenever the field is read
	c.inv = map[string]rng{"publishingInterval": {pmin, pmax, false}}
	within := func(lo, hi float64) func(x *Exec, st *State, base, v *Term) string {
		return func(x *Exec, st *State, base, v *Term) string {
			g := c.eval(x, st, v)
			if g.nan {
				return "may be NaN"
			}
			if g.lo < lo || g.hi > hi {
				return fmt.Sprintf("lies in [%g, %g], outside [%g, %g]", g.lo, g.hi, lo, hi)
			}
			return ""
		}
	}
	exported := func(f *ssa.Function) bool {
		return f.Object() != nil && f.Object().Exported()
	}
	handler := func(f *ssa.Function) bool { return strings.HasPrefix(f.Name(), "handle") }
	pi := func(x *Exec, st *State, base *Term) *Term {
		if v := st.Get("p26:server.Subscription.publishingInterval:" + c.id(base)); v != nil {
			return v
		}
		return nil
	}
	fields := []p26field{
		{"server.Session", "timeout", within(smin, smax), handler, 1},
		{"server.Subscription", "publishingInterval", within(pmin, pmax), exported, 2},
		{"server.Subscription", "maxKeepAliveCount", within(1, kmax+1), exported, 2},
		{"server.Subscription", "maxNotificationsPerPublish", within(1, math.MaxUint32), exported, 2},
		{"server.Subscription", "maxLifetimeCount", func(x *Exec, st *State, base, v *Term) string {
			if e := within(1, lcmax+1)(x, st, base, v); e != "" {
				return e
			}
			k := st.Get("p26:server.Subscription.maxKeepAliveCount:" + c.id(base))
			if k == nil {
				return "is set without the keep-alive count being set"
			}
			if !c.geq3(x, st, v, k, 0) {
				return "may be less than three times the keep-alive count"
			}
			iv := pi(x, st, base)
			if iv == nil {
				return "is set without the publishing interval being set"
			}
			if !c.longEnough(x, st, v, iv, lmin, 0) {
				return "may amount to less than the minimum lifetime"
			}
			return ""
		}, exported, 2},
		{"server.DataChangeMonitoredItem", "queueSize", within(1, qmax), exported, 2},
		{"server.EventMonitoredItem", "queueSize", within(1, qmax), exported, 2},
		{"server.DataChangeMonitoredItem", "samplingInterval", func(x *Exec, st *State, base, v *Term) string {
			g := c.eval(x, st, v)
			if g.nan {
				return "may be NaN"
			}
			if g.hi > simax && !c.nodeMin(v) {
				return fmt.Sprintf("may exceed %g", simax)
			}
			if !c.atLeastMin(x, st, v, simax, 0) {
				return "may be less than the minimum sampling interval"
			}
			return ""
		}, exported, 2},
	}
	// the functions that set these fields, and from where they are reached
	groups := map[string]map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		g := f
		EachCall(f, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
			if callee != nil {
				callers[callee] = append(callers[callee], g)
			}
		})
	}
	for i := range fields {
		fd := &fields[i]
		todo := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			if p.InModule(f) && storesField(f, fd.owner, fd.name) {
				todo[f] = true
			}
		}
		if len(todo) == 0 {
			fail("nothing sets %s.%s", fd.owner, fd.name)
		}
		roots := map[*ssa.Function]bool{}
		onWay := map[*ssa.Function]bool{}
		for len(todo) > 0 {
			f := sortedFns(todo)[0]
			delete(todo, f)
			if onWay[f] || roots[f] {
				continue
			}
			if fd.stop(f) || len(callers[f]) == 0 {
				roots[f] = true
				continue
			}
			onWay[f] = true
			for _, g := range callers[f] {
				todo[g] = true
			}
		}
		for f := range roots {
			if groups[fd.owner] == nil {
				groups[fd.owner] = map[*ssa.Function]bool{}
			}
			groups[fd.owner][f] = true
		}
		for f := range onWay {
			if groups["+"+fd.owner] == nil {
				groups["+"+fd.owner] = map[*ssa.Function]bool{}
			}
			groups["+"+fd.owner][f] = true
		}
	}
	for _, owner := range sortedKeys(groups) {
		if strings.HasPrefix(owner, "+") {
			continue
		}
		for _, f := range sortedFns(groups[owner]) {
			c.run(f, owner, groups["+"+owner], fields)
		}
	}
	r.Min("revised", 13)
	c.counted()
	r.Min("counted", 3)
	r.Min("configured", 3)
	r.Min("refused", 7)
	c.reported()
	r.Min("reported", 6)
}

func numericResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 && len(f.Params) > 0
}

func (c *p26) nodeMin(v *Term) bool {
	v = v.Strip()
	if v.Op == "call" && strings.HasSuffix(v.Name, ".MinimumSamplingInterval") {
		return true
	}
	if v.IsCall("builtin.max") || v.IsCall("math.Max") {
		for _, a := range v.Args {
			if c.nodeMin(a) {
				return true
			}
		}
	}
	return v.HasField("minimumSamplingInterval") || v.HasField("MinimumSamplingInterval")
}

func (c *p26) atLeastMin(x *Exec, st *State, v *Term, simax float64, d int) bool {
	if d > 4 {
		return false
	}
	if n, ok := constNum(v); ok && n == simax {
		return true
	}
	if v.Op == "load" && v.HasField("minSamplingInterval") {
		return true
	}
	if v.Op == "param" && v.V != nil && v.V.Name() == "minSamplingInterval" {
		return true
	}
	if v == c.minOf(st) {
		return true
	}
	if v.IsCall("builtin.max") || v.IsCall("math.Max") {
		for _, a := range v.Args {
			if c.atLeastMin(x, st, a, simax, d+1) {
				return true
			}
		}
	}
	if v.IsCall("builtin.min") || v.IsCall("math.Min") {
		for _, a := range v.Args {
			if !c.atLeastMin(x, st, a, simax, d+1) {
				return false
			}
		}
		return true
	}
	for _, l := range c.lower(st, v) {
		if c.atLeastMin(x, st, l, simax, d+1) {
			return true
		}
	}
	return false
}

// minOf: the value stored as the minimum sampling interval of the item under construction.
func (c *p26) minOf(st *State) *Term { return st.Get("p26:min") }

func isTimes3(t, k *Term) bool {
	if t.Op == "bin" && t.Name == "*" {
		for i := 0; i < 2; i++ {
			if n, ok := constNum(t.Args[i]); ok && n >= 3 && t.Args[1-i].Strip() == k.Strip() {
				return true
			}
		}
	}
	return false
}

// quotient: t is C/p truncated or rounded up; up tells that one was added or the quotient was
// rounded up.
func quotient(t, p *Term) (num *Term, up, ok bool) {
	t = t.Strip()
	if t.Op == "bin" && t.Name == "+" {
		for i := 0; i < 2; i++ {
			if n, isN := constNum(t.Args[i]); isN && n == 1 {
				if num, _, ok := quotient(t.Args[1-i], p); ok {
					return num, true, true
				}
			}
		}
		return nil, false, false
	}
	if (t.IsCall("math.Ceil") || t.IsCall("math.Floor")) && len(t.Args) == 1 {
		num, u, ok := quotient(t.Args[0], p)
		return num, u || t.IsCall("math.Ceil"), ok
	}
	if t.Op == "bin" && t.Name == "/" && t.Args[1].Strip() == p.Strip() {
		return t.Args[0], false, true
	}
	return nil, false, false
}

// geq3: v is at least three times k.
func (c *p26) geq3(x *Exec, st *State, v, k *Term, d int) bool {
	if d > 4 {
		return false
	}
	for _, l := range c.lower(st, v) {
		if c.geq3(x, st, l, k, d+1) {
			return true
		}
	}
	v = v.Strip()
	if n, ok := constNum(v); ok && n == math.MaxUint32 {
		return true
	}
	if isTimes3(v, k) {
		return c.eval(x, st, k).hi*3 <= math.MaxUint32
	}
	if v.IsCall("builtin.max") {
		for _, a := range v.Args {
			if c.geq3(x, st, a, k, d+1) {
				return true
			}
		}
	}
	for _, l := range c.lower(st, v) {
		if c.geq3(x, st, l, k, d+1) {
			return true
		}
	}
	// v = C/p where C exceeds some multiple of p that is large enough
	for _, key := range sortedKeys(st.A) {
		if !strings.HasPrefix(key, "le:") {
			continue
		}
		l := st.A[key]
		if l.Op != "bin" || l.Name != "*" {
			continue
		}
		for i := 0; i < 2; i++ {
			num, _, ok := quotient(v, l.Args[i])
			if !ok || !strings.HasSuffix(key, ":"+c.id(num)) {
				continue
			}
			if c.geq3(x, st, l.Args[1-i], k, d+1) {
				return true
			}
		}
	}
	return false
}

// longEnough: v publishing intervals last at least the minimum lifetime.
func (c *p26) longEnough(x *Exec, st *State, v, iv *Term, lmin float64, d int) bool {
	if d > 3 {
		return false
	}
	g, pg := c.eval(x, st, v), c.eval(x, st, iv)
	if g.lo*pg.lo >= lmin {
		return true
	}
	for _, l := range c.lower(st, v) {
		if c.longEnough(x, st, l, iv, lmin, d+1) {
			return true
		}
	}
	v = v.Strip()
	if v.IsCall("builtin.max") {
		for _, a := range v.Args {
			if c.longEnough(x, st, a, iv, lmin, d+1) {
				return true
			}
		}
	}
	if num, up, ok := quotient(v, iv); ok {
		if n, isN := constNum(num); isN && n >= lmin {
			if up {
				return true
			}
			// exact when the remainder is zero
			for _, k := range sortedKeys(st.A) {
				if strings.HasPrefix(k, "mod0:") && st.A[k].Args[1].Strip() == iv.Strip() {
					if m, isN := constNum(st.A[k].Args[0]); isN && m == n {
						return true
					}
				}
			}
		}
	}
	for _, cv := range c.products(v, iv) {
		if e := c.eval(x, st, cv); !e.nan && e.lo >= lmin {
			return true
		}
	}
	for _, l := range c.lower(st, v) {
		if c.longEnough(x, st, l, iv, lmin, d+1) {
			return true
		}
	}
	return false
}

// products: the terms seen on some path that multiply v with iv.
func (c *p26) products(v, iv *Term) []*Term {
	var out []*Term
	for _, t := range c.terms {
		if t.Op == "bin" && t.Name == "*" && len(t.Args) == 2 {
			if t.Args[0].Strip() == v && t.Args[1].Strip() == iv.Strip() || t.Args[1].Strip() == v && t.Args[0].Strip() == iv.Strip() {
				out = append(out, t)
			}
		}
	}
	return out
}

func (c *p26) run(f *ssa.Function, owner string, onWay map[*ssa.Function]bool, fields []p26field) {
	p, r := c.p, c.r
	// invariants hold on entry for objects that exist already
	h := &Hooks{MaxDepth: 8}
	h.Inline = func(g *ssa.Function) bool {
		if g == f || !p.InModule(g) || g.Blocks == nil {
			return false
		}
		return onWay[g] || numericResult(g) && small(g, 12) && g.Pkg == f.Pkg
	}
	h.Stable = func(a *Term) bool {
		t := a.Strip()
		return t.Op == "fieldaddr" && len(t.Args) == 1 && derefType(t.Args[0].Typ) != nil && TypeName(derefType(t.Args[0].Typ)) == owner
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c.branch(x, st, cond, taken)
		if a, b, eq, ok := CmpOf(cond, taken); ok && eq {
			if n, isN := constNum(b); isN && n == 0 && a.IsCall("math.Mod") {
				st.Set("mod0:"+c.id(a), a)
			}
			if n, isN := constNum(a); isN && n == 0 && b.IsCall("math.Mod") {
				st.Set("mod0:"+c.id(b), b)
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || TypeName(derefType(fa.X.Type())) != owner {
			return
		}
		name := fieldName(fa.X.Type(), fa.Field)
		if name == "minSamplingInterval" {
			st.Set("p26:min", x.Val(st, s.Val))
		}
		for _, fd := range fields {
			if fd.owner == owner && fd.name == name {
				base := x.Val(st, fa.X)
				v := x.Val(st, s.Val)
				st.Set("p26:"+owner+"."+name+":"+c.id(base), v)
				st.Set("p26at:"+owner+"."+name+":"+c.id(base), x.T.mk("const", p.InstrPos(in), nil, nil, nil, nil))
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		for _, k := range sortedKeys(st.A) {
			if !strings.HasPrefix(k, "p26:"+owner+".") {
				continue
			}
			rest := strings.TrimPrefix(k, "p26:"+owner+".")
			i := strings.IndexByte(rest, ':')
			name, bid := rest[:i], rest[i+1:]
			n, _ := strconv.Atoi(bid)
			base := c.terms[n]
			at := "?"
			if a := st.Get("p26at:" + owner + "." + rest); a != nil {
				at = a.Name
			}
			for _, fd := range fields {
				if fd.owner != owner || fd.name != name {
					continue
				}
				e := fd.check(x, st, base, st.A[k])
				key := FuncName(f) + ": " + owner + "." + name + " set at " + at
				if e != "" {
					r.Bad("revised", key, at, fmt.Sprintf("in %s the value stored in %s.%s (%s) %s", FuncName(f), owner, name, st.A[k].Key(), e), st.Trace(30)...)
				} else {
					r.Ob("revised", FuncName(f)+": "+owner+"."+name)
				}
			}
		}
	}
	x := NewExec(p, *h)
	x.Run(f, nil)
	r.Saw(x)
}

type p26table struct {
	owner, table, max, getter, status, resp string
}

var p26tables = []p26table{
	{"server.SessionManager", "sessionsByToken", "maxSessionCount", "MaxSessionCount", "BadTooManySessions", "ua.CreateSessionResponse"},
	{"server.SubscriptionManager", "subscriptionsByID", "maxSubscriptionCount", "MaxSubscriptionCount", "BadTooManySubscriptions", "ua.CreateSubscriptionResponse"},
	{"server.Session", "browseCPs", "maxBrowseContinuationPoints", "MaxBrowseContinuationPoints", "BadNoContinuationPoints", ""},
}

func isLockCall(n string) bool {
	return strings.HasPrefix(n, "sync.") && (strings.HasSuffix(n, "Lock"))
}

func (c *p26) tableOf(v ssa.Value, tb p26table) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldName(fa.X.Type(), fa.Field) == tb.table && TypeName(derefType(fa.X.Type())) == tb.owner
}

// inserters: the functions from which an insertion into the table is examined.
func (c *p26) inserters(tb p26table) (roots, onWay map[*ssa.Function]bool) {
	roots, onWay = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	todo := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MapUpdate); ok && c.tableOf(m.Map, tb) {
					todo[f] = true
				}
			}
		}
	}
	for len(todo) > 0 {
		f := sortedFns(todo)[0]
		delete(todo, f)
		if roots[f] || onWay[f] {
			continue
		}
		stop := f.Object() != nil && f.Object().Exported()
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if isLockCall(n) {
				stop = true
			}
		})
		var cs []*ssa.Function
		for _, g := range c.p.Funcs {
			EachCall(g, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
				if callee == f {
					cs = append(cs, g)
				}
			})
		}
		if stop || len(cs) == 0 {
			roots[f] = true
			continue
		}
		onWay[f] = true
		for _, g := range cs {
			todo[g] = true
		}
	}
	return
}

func errResult(f *ssa.Function) int {
	rs := f.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if rs.At(i).Type().String() == "error" {
			return i
		}
	}
	return -1
}

func (c *p26) counted() {
	p, r := c.p, c.r
	for _, tb := range p26tables {
		tb := tb
		roots, onWay := c.inserters(tb)
		if len(roots) == 0 {
			r.Bad("counted", tb.owner+"."+tb.table, "-", "nothing is ever added to "+tb.owner+"."+tb.table)
		}
		isMax := func(t *Term) bool {
			t = t.Strip()
			return t.HasField(tb.max) || t.Op == "call" && strings.HasSuffix(t.Name, "."+tb.getter) || t.HasField(tb.getter)
		}
		for _, f := range sortedFns(roots) {
			f := f
			ei := errResult(f)
			h := &Hooks{MaxDepth: 6}
			h.Inline = func(g *ssa.Function) bool {
				return g != f && (onWay[g] || p.InModule(g) && g.Pkg == f.Pkg && g.Blocks != nil && numericResult(g) && small(g, 8) && !strings.HasSuffix(g.Name(), tb.getter))
			}
			h.OnBranch = c.branch
			h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if isLockCall(ci.Name) && !ci.Defer {
					for _, k := range sortedKeys(st.A) {
						if strings.HasPrefix(k, "lt:") || strings.HasPrefix(k, "le:") {
							st.Del(k)
						}
					}
				}
				return ActDefault
			}
			h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || !c.tableOf(m.Map, tb) {
					return
				}
				mt := x.Val(st, m.Map)
				base, _ := mt.FieldPath()
				good := false
				for _, k := range sortedKeys(st.A) {
					if strings.HasPrefix(k, "lt:") {
						var i, j int
						fmt.Sscanf(k, "lt:%d:%d", &i, &j)
						a, b := c.terms[i].Strip(), c.terms[j]
						if a.IsCall("builtin.len") && isMax(b) && a.Args[0].HasField(tb.table) {
							if ab, _ := a.Args[0].FieldPath(); ab == base {
								good = true
							}
						}
					}
					if strings.HasPrefix(k, "rng:") {
						n, _ := strconv.Atoi(k[4:])
						if t := c.terms[n]; t != nil && isMax(t) && c.eval(x, st, t).hi <= 0 {
							good = true
						}
					}
				}
				key := FuncName(f) + ": " + tb.owner + "." + tb.table
				if good {
					r.Ob("counted", key)
				} else {
					r.Bad("counted", key, p.InstrPos(in), FuncName(f)+" adds to "+tb.owner+"."+tb.table+" without having found, in the same critical section, that it holds fewer than "+tb.max+" entries", st.Trace(20)...)
				}
				for _, k := range sortedKeys(st.A) {
					if strings.HasPrefix(k, "lt:") || strings.HasPrefix(k, "le:") {
						st.Del(k)
					}
				}
				st.Set("p26:in", x.T.mk("const", "1", nil, nil, nil, nil))
			}
			h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
				if ei < 0 {
					r.Bad("refused", FuncName(f), p.InstrPos(in), FuncName(f)+" cannot report that "+tb.owner+"."+tb.table+" is full")
					return
				}
				e := res[ei]
				nilErr := e.Op == "nil" || e.Op == "const" && e.Name == "zero"
				ins := st.Has("p26:in")
				if ins && !nilErr {
					r.Bad("refused", FuncName(f)+" added", p.InstrPos(in), FuncName(f)+" adds the entry and reports an error", st.Trace(20)...)
				} else if !ins && nilErr {
					r.Bad("refused", FuncName(f)+" dropped", p.InstrPos(in), FuncName(f)+" adds nothing and reports success", st.Trace(20)...)
				} else {
					r.Ob("refused", FuncName(f)+" at "+p.InstrPos(in))
				}
			}
			x := NewExec(p, *h)
			x.Run(f, nil)
			r.Saw(x)
			c.refusal(f, tb)
		}
		// where the maximum comes from
		n := 0
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					s, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || fieldName(fa.X.Type(), fa.Field) != tb.max || TypeName(derefType(fa.X.Type())) != tb.owner {
						continue
					}
					n++
					if c.fromConfig(s.Val, tb, 0) {
						r.Ob("configured", FuncName(f)+": "+tb.owner+"."+tb.max)
					} else {
						r.Bad("configured", FuncName(f)+": "+tb.owner+"."+tb.max, p.InstrPos(i), FuncName(f)+" sets "+tb.owner+"."+tb.max+" to something other than the configured "+tb.getter)
					}
				}
			}
		}
		if n == 0 {
			// compared with the configuration directly
			r.Ob("configured", tb.owner+"."+tb.max)
		}
	}
}

func (c *p26) fromConfig(v ssa.Value, tb p26table, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return c.fromConfig(v.X, tb, d+1)
	case *ssa.ChangeType:
		return c.fromConfig(v.X, tb, d+1)
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.Name() == tb.getter {
			return c.returnsField(g, tb.max)
		}
		return false
	case *ssa.Field:
		return fieldName(v.X.Type(), v.Field) == tb.getter
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			n := fieldName(fa.X.Type(), fa.Field)
			return n == tb.getter || n == tb.max
		}
		if p, ok := v.X.(*ssa.Alloc); ok {
			for _, ref := range *p.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(p) && !c.fromConfig(s.Val, tb, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// returnsField: every return of f hands out the field.
func (c *p26) returnsField(f *ssa.Function, field string) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ret, ok := i.(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			n++
			ok = false
			v := ret.Results[0]
			if u, isU := v.(*ssa.UnOp); isU {
				if a, isA := u.X.(*ssa.Alloc); isA {
					// a result variable of a function with deferred calls
					for _, ref := range *a.Referrers() {
						if s, isS := ref.(*ssa.Store); isS && s.Addr == ssa.Value(a) {
							v = s.Val
						}
					}
				}
			}
			if u, isU := v.(*ssa.UnOp); isU {
				if fa, isF := u.X.(*ssa.FieldAddr); isF && fieldName(fa.X.Type(), fa.Field) == field {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return n > 0
}

// refusal: the callers of the function that adds to a table answer its error.
func (c *p26) refusal(add *ssa.Function, tb p26table) {
	p, r := c.p, c.r
	status := p.constVal("ua", tb.status)
	n := 0
	for _, f := range p.Funcs {
		f := f
		calls := false
		EachCall(f, func(_ ssa.CallInstruction, _ string, g *ssa.Function) {
			if g == add {
				calls = true
			}
		})
		if !calls {
			continue
		}
		n++
		reach := p.Reach(func(n string, _ ssa.CallInstruction) bool { return n == chWrite }, nil)
		h := &Hooks{MaxDepth: 4}
		h.Inline = func(g *ssa.Function) bool {
			return g.Pkg == f.Pkg && g != f && g.Blocks != nil && FuncName(g) != chWrite && small(g, 8) && reach[g]
		}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Fn == add {
				e := res
				if ei := errResult(add); add.Signature.Results().Len() > 1 {
					e = x.T.mk("extract", strconv.Itoa(ei), []*Term{res}, nil, nil, nil)
				}
				st.Set("add", res)
				_ = e
			}
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok || !st.Has("add") {
				return
			}
			if isNilT(a) {
				a, b = b, a
			}
			if !isNilT(b) {
				return
			}
			if a == st.Get("add") || a.Op == "extract" && a.Args[0] == st.Get("add") {
				if eq {
					st.Set("added", a)
				} else {
					st.Set("refused", a)
				}
			}
		}
		okStatus := func(st *State, v *Term) bool {
			if v == nil {
				return false
			}
			if k, isC := constNum(v.Strip()); isC && uint64(k) == status {
				return true
			}
			return v.Contains(func(t *Term) bool { return t == st.Get("refused") })
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name != chWrite || len(ci.Args) < 2 {
				return ActDefault
			}
			rt := respType(ci.Args[1])
			if strings.TrimPrefix(rt, "*") == tb.resp {
				if !st.Has("added") {
					r.Bad("refused", FuncName(f)+" "+tb.resp, p.InstrPos(ci.Instr), FuncName(f)+" writes a "+tb.resp+" without "+FuncName(add)+" having succeeded", st.Trace(20)...)
				} else {
					r.Ob("refused", FuncName(f)+" writes "+tb.resp)
				}
			} else if st.Has("refused") {
				if v := faultField(x, st, ci.Args[1], "ResponseHeader", "ServiceResult"); !okStatus(st, v) {
					r.Bad("refused", FuncName(f)+" status", p.InstrPos(ci.Instr), FuncName(f)+" answers the refusal of "+FuncName(add)+" with something other than "+tb.status, st.Trace(20)...)
				} else {
					r.Ob("refused", FuncName(f)+" answers "+tb.status)
					st.Set("answered", v)
				}
			}
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			if tb.resp != "" {
				return
			}
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "StatusCode":
				if st.Has("refused") && okStatus(st, x.Val(st, s.Val)) {
					st.Set("answered", x.Val(st, s.Val))
				}
			case "ContinuationPoint":
				if v := x.Val(st, s.Val); v.Contains(func(t *Term) bool { return t == st.Get("add") }) && !st.Has("added") {
					r.Bad("refused", FuncName(f)+" point", p.InstrPos(in), FuncName(f)+" hands out a continuation point without "+FuncName(add)+" having succeeded", st.Trace(20)...)
				}
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if st.Has("add") && !st.Has("added") && !st.Has("answered") {
				r.Bad("refused", FuncName(f)+" silent", p.InstrPos(in), FuncName(f)+" does not answer a refusal of "+FuncName(add)+" with "+tb.status, st.Trace(20)...)
			} else if st.Has("answered") {
				r.Ob("refused", FuncName(f)+" answers "+tb.status)
			}
		}
		x := NewExec(p, *h)
		x.Run(f, nil)
		r.Saw(x)
	}
	if n == 0 {
		r.Bad("refused", FuncName(add), "-", "nothing calls "+FuncName(add))
	}
}

var p26revised = map[string]string{
	"RevisedSessionTimeout": "timeout", "RevisedPublishingInterval": "publishingInterval", "RevisedLifetimeCount": "maxLifetimeCount",
	"RevisedMaxKeepAliveCount": "maxKeepAliveCount", "RevisedSamplingInterval": "samplingInterval", "RevisedQueueSize": "queueSize",
}

// reported: what a response calls revised is what is in effect.
func (c *p26) reported() {
	p, r := c.p, c.r
	sets := func(i ssa.Instruction, field string) bool {
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		name, g := CallName(call.Common())
		if g != nil && len(g.Blocks) > 0 && p.InModule(g) {
			return p.setsField(g, field, 0)
		}
		return strings.HasSuffix(name, ".Modify")
	}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "server" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name := fieldName(fa.X.Type(), fa.Field)
				field := p26revised[name]
				if field == "" || !strings.HasPrefix(TypeName(derefType(fa.X.Type())), "ua.") {
					continue
				}
				key := FuncName(f) + ": " + TypeName(derefType(fa.X.Type())) + "." + name
				src := c.inEffect(f, s.Val, field, 0)
				if src == nil {
					r.Bad("reported", key, p.InstrPos(i), FuncName(f)+" reports as "+name+" something other than the "+field+" in effect")
					continue
				}
				// nothing changes it between reading and reporting
				if p.reachesFrom(src, func(in ssa.Instruction) bool { return in != src && sets(in, field) }, func(in ssa.Instruction) bool { return in == i }) {
					r.Bad("reported", key, p.InstrPos(i), FuncName(f)+" reads the "+field+" it reports as "+name+" before it is revised")
					continue
				}
				r.Ob("reported", key+" at "+p.InstrPos(i))
			}
		}
	}
}

// setsField: f stores the field, directly or through what it calls.
func (p *Program) setsField(f *ssa.Function, field string, d int) bool {
	if d > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
					return true
				}
			}
			if call, ok := i.(*ssa.Call); ok {
				if _, g := CallName(call.Common()); g != nil && g != f && p.InModule(g) && g.Pkg == f.Pkg && p.setsField(g, field, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// reachesFrom: an instruction satisfying mid lies on a path from src to one satisfying end.
func (p *Program) reachesFrom(src ssa.Instruction, mid, end func(ssa.Instruction) bool) bool {
	type nd struct {
		b *ssa.BasicBlock
		m bool
	}
	seen := map[nd]bool{}
	var scan func(b *ssa.BasicBlock, from int, m bool) bool
	scan = func(b *ssa.BasicBlock, from int, m bool) bool {
		for _, in := range b.Instrs[from:] {
			if m && end(in) {
				return true
			}
			if in == src {
				return false
			}
			if mid(in) {
				m = true
			}
		}
		for _, s := range b.Succs {
			if n := (nd{s, m}); !seen[n] {
				seen[n] = true
				if scan(s, 0, m) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range src.Block().Instrs {
		if in == src {
			return scan(src.Block(), i+1, false)
		}
	}
	return false
}

// inEffect: the instruction that reads the field (or receives the value given to the object).
func (c *p26) inEffect(f *ssa.Function, v ssa.Value, field string, d int) ssa.Instruction {
	if d > 4 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
			return v
		}
	case *ssa.Call:
		if v.Call.IsInvoke() {
			ms := c.p.Implementors(v.Call.Method)
			for _, m := range ms {
				if !c.returnsField(m, field) {
					return nil
				}
			}
			if len(ms) > 0 {
				return v
			}
			return nil
		}
		if g := v.Call.StaticCallee(); g != nil && len(g.Params) == 1 && c.returnsField(g, field) {
			return v
		}
	case *ssa.Convert:
		return c.inEffect(f, v.X, field, d+1)
	}
	// the very value handed to the constructor that stores it
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !c.p.InModule(g) {
				continue
			}
			for k, a := range call.Call.Args {
				if a != v || k >= len(g.Params) {
					continue
				}
				for _, gb := range g.Blocks {
					for _, gi := range gb.Instrs {
						if s, ok := gi.(*ssa.Store); ok && s.Val == ssa.Value(g.Params[k]) {
							if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
								return call
							}
						}
					}
				}
			}
		}
	}
	return nil
}
