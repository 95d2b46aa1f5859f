package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------
// Path-sensitive abstract interpretation over SSA with virtual inlining ("pathflow").
//
// An abstract state is: a call stack of (frame, block, index), a symbolic environment for the live
// SSA values, the contents of tracked local cells, the branch facts about live values, pending
// defers, and a small property automaton. Nothing is executed and no solver is involved: branch
// conditions are only decided when they are syntactically constant or already recorded as facts.
// ---------------------------------------------------------------------------------------------

// Frame is one element of a call string, hash-consed.
type Frame struct {
	id     int
	parent *Frame
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
	Async  bool // entered through `go` or as a callback handed to an opaque function
}

func (f *Frame) String() string {
	if f == nil {
		return "-"
	}
	if f.parent == nil {
		return FuncName(f.fn)
	}
	return f.parent.String() + " > " + FuncName(f.fn)
}

type Key struct {
	F *Frame
	V ssa.Value
	I int
}

// Cont is a position in the inlined program.
type Cont struct {
	F      *Frame
	B      *ssa.BasicBlock
	I      int
	next   *Cont
	retKey ssa.Value // call value in next.F that receives the results (nil for defers/go)
}

type Deferred struct {
	instr   *ssa.Defer
	fn      *ssa.Function
	callee  *Term
	args    []*Term
	binds   []*Term
	name    string
	invoke  bool
	builtin string
}

type Fact struct {
	Eq  *Term
	Neq []*Term
}

type TraceNode struct {
	prev *TraceNode
	pos  string
	text string
	n    int
}

type State struct {
	C      *Cont
	Env    map[Key]*Term
	Mem    map[*Term]*Term // address term -> content; alloc root -> freshMark when zero initialised
	Facts  map[*Term]Fact
	Defers map[*Frame][]*Deferred
	A      map[string]*Term
	Tr     *TraceNode
	dead   bool
}

type CallInfo struct {
	Instr  ssa.Instruction // *ssa.Call, *ssa.Go or *ssa.Defer
	Name   string          // qualified callee name; "builtin.len"; "dyn" for function values
	Fn     *ssa.Function   // static callee or closure body, if known
	Callee *Term           // callee value for dynamic calls
	Args   []*Term         // receiver first; for invoke mode the receiver is Args[0]
	Binds  []*Term
	Go     bool
	Defer  bool // executing a deferred call
	Invoke bool
	Frame  *Frame // frame containing the call
	Result *Term  // a hook may set the result (single value)
}

type Action int

const (
	ActDefault Action = iota
	ActOpaque
	ActInline
	ActStop
)

type Hooks struct {
	// Inline decides whether an in-module callee is expanded; nil means: never.
	Inline func(fn *ssa.Function) bool
	// OnCall is called for every call (also go and deferred ones, when they run).
	OnCall func(x *Exec, st *State, ci *CallInfo) Action
	// AfterCall is called when an opaque call's result is known.
	AfterCall func(x *Exec, st *State, ci *CallInfo, res *Term)
	OnInstr   func(x *Exec, st *State, in ssa.Instruction)
	OnBranch  func(x *Exec, st *State, cond *Term, taken bool)
	// OnReturn is called when the root function returns.
	OnReturn func(x *Exec, st *State, res []*Term, in ssa.Instruction)
	// OnPop is called when an inlined function returns.
	OnPop func(x *Exec, st *State, fr *Frame, res []*Term)
	// OnBlock is called on entering a block (after phis).
	OnBlock func(x *Exec, st *State, from, to *ssa.BasicBlock)
	// SkipClosures: do not expand closures handed to opaque callees / go statements.
	SkipClosures func(ci *CallInfo, closure *Term) bool
	// Stable says that the memory at an address outside the analysed frames (a field of a shared
	// object) is not changed by others while the function runs, so that two loads give the same
	// value and a store is seen by later loads.
	Stable func(addr *Term) bool
	// NoFacts disables branch facts (cheaper).
	NoFacts bool
	// MaxDepth bounds virtual inlining.
	MaxDepth int
}

type Exec struct {
	P         *Program
	T         *Terms
	H         Hooks
	Root      *ssa.Function
	frames    map[frameKey]*Frame
	visited   map[string]bool
	perPoint  map[string]int
	work      []*State
	live      map[*ssa.Function]*liveness
	fresh     *Term
	States    int
	Blocks    map[*ssa.BasicBlock]bool
	FuncsSeen map[*ssa.Function]bool
	Budget    int
	Widened   int
}

type frameKey struct {
	parent *Frame
	call   ssa.Instruction
	fn     *ssa.Function
	async  bool
}

func NewExec(p *Program, h Hooks) *Exec {
	x := &Exec{P: p, T: NewTerms(), H: h, frames: map[frameKey]*Frame{}, visited: map[string]bool{},
		perPoint: map[string]int{}, live: map[*ssa.Function]*liveness{}, Blocks: map[*ssa.BasicBlock]bool{},
		FuncsSeen: map[*ssa.Function]bool{}, Budget: 400000}
	if x.H.MaxDepth == 0 {
		x.H.MaxDepth = 8
	}
	x.fresh = x.T.mk("opaque", "<fresh>", nil, nil, nil, nil)
	return x
}

func (x *Exec) frame(parent *Frame, call ssa.Instruction, fn *ssa.Function, async bool) *Frame {
	k := frameKey{parent, call, fn, async}
	if f := x.frames[k]; f != nil {
		return f
	}
	f := &Frame{id: len(x.frames) + 1, parent: parent, call: call, fn: fn, Async: async}
	if parent != nil {
		f.depth = parent.depth + 1
		f.Async = f.Async || parent.Async
	}
	x.frames[k] = f
	return f
}

// ---- state helpers -----------------------------------------------------------------------------

func (st *State) Has(k string) bool { _, ok := st.A[k]; return ok }
func (st *State) Get(k string) *Term {
	return st.A[k]
}
func (st *State) Set(k string, t *Term) {
	n := make(map[string]*Term, len(st.A)+1)
	for a, b := range st.A {
		n[a] = b
	}
	n[k] = t
	st.A = n
}
func (st *State) Del(k string) {
	if _, ok := st.A[k]; !ok {
		return
	}
	n := make(map[string]*Term, len(st.A))
	for a, b := range st.A {
		if a != k {
			n[a] = b
		}
	}
	st.A = n
}

func (st *State) Count(k string) int {
	if t := st.A[k]; t != nil && t.Op == "const" {
		n, _ := strconv.Atoi(t.Name)
		return n
	}
	return 0
}

func (x *Exec) Flag() *Term { return x.T.mk("const", "true", nil, nil, nil, types.Typ[types.Bool]) }
func (x *Exec) Int(n int) *Term {
	return x.T.mk("const", strconv.Itoa(n), nil, nil, nil, types.Typ[types.Int])
}

func (st *State) clone() *State {
	n := &State{C: st.C, A: st.A, Tr: st.Tr}
	n.Env = make(map[Key]*Term, len(st.Env))
	for k, v := range st.Env {
		n.Env[k] = v
	}
	n.Mem = make(map[*Term]*Term, len(st.Mem))
	for k, v := range st.Mem {
		n.Mem[k] = v
	}
	n.Facts = make(map[*Term]Fact, len(st.Facts))
	for k, v := range st.Facts {
		n.Facts[k] = v
	}
	n.Defers = make(map[*Frame][]*Deferred, len(st.Defers))
	for k, v := range st.Defers {
		n.Defers[k] = v
	}
	return n
}

// Trace lists the last branch decisions of the path.
func (st *State) Trace(n int) []string {
	var out []string
	for t := st.Tr; t != nil && len(out) < n; t = t.prev {
		out = append([]string{t.pos + " " + t.text}, out...)
	}
	return out
}

func (st *State) note(pos, text string) {
	n := 1
	if st.Tr != nil {
		n = st.Tr.n + 1
	}
	st.Tr = &TraceNode{prev: st.Tr, pos: pos, text: text, n: n}
}

// ---- liveness ----------------------------------------------------------------------------------

type liveness struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[[2]int]map[ssa.Value]bool
}

func isTracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (x *Exec) liveOf(fn *ssa.Function) *liveness {
	if l := x.live[fn]; l != nil {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[[2]int]map[ssa.Value]bool{}}
	x.live[fn] = l
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := l.out(b)
			cur = l.back(b, len(b.Instrs), 0, cur)
			// phis are evaluated on entry; their definitions are live-in for our purposes
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					if len(*ph.Referrers()) > 0 {
						cur[ph] = true
					}
				} else {
					break
				}
			}
			if len(cur) != len(l.in[b]) {
				l.in[b] = cur
				changed = true
			}
		}
	}
	return l
}

func (l *liveness) out(b *ssa.BasicBlock) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
				continue
			}
			cur[v] = true
		}
		for pi, pr := range s.Preds {
			if pr != b {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isTracked(ph.Edges[pi]) {
					cur[ph.Edges[pi]] = true
				}
			}
		}
	}
	return cur
}

func (l *liveness) back(b *ssa.BasicBlock, from, to int, cur map[ssa.Value]bool) map[ssa.Value]bool {
	n := map[ssa.Value]bool{}
	for v := range cur {
		n[v] = true
	}
	for i := from - 1; i >= to; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				delete(n, v)
			}
		}
		if _, isPhi := in.(*ssa.Phi); isPhi {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && isTracked(*op) {
				n[*op] = true
			}
		}
	}
	return n
}

func (x *Exec) liveAfter(c *Cont) map[ssa.Value]bool {
	l := x.liveOf(c.F.fn)
	k := [2]int{c.B.Index, c.I}
	if m := l.after[k]; m != nil {
		return m
	}
	m := l.back(c.B, len(c.B.Instrs), c.I, l.out(c.B))
	l.after[k] = m
	return m
}

// ---- canonicalisation --------------------------------------------------------------------------

func memRoot(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "fieldaddr", "indexaddr", "slice", "conv":
			t = t.Args[0]
			continue
		case "alloc":
			return t
		}
		return nil
	}
	return nil
}

// gc drops everything that cannot influence the rest of the path and returns the canonical key.
func (x *Exec) gc(st *State) string {
	liveSets := map[*Frame]map[ssa.Value]bool{}
	for c := st.C; c != nil; c = c.next {
		if c == st.C && c.I == 0 {
			// at block entry: phis already evaluated
			l := x.liveOf(c.F.fn)
			liveSets[c.F] = l.in[c.B]
		} else {
			liveSets[c.F] = x.liveAfter(c)
		}
	}
	for k := range st.Env {
		ls := liveSets[k.F]
		if ls == nil || !ls[k.V] {
			delete(st.Env, k)
		}
	}
	onStack := map[*Frame]bool{}
	for c := st.C; c != nil; c = c.next {
		onStack[c.F] = true
	}
	for f := range st.Defers {
		if !onStack[f] {
			delete(st.Defers, f)
		}
	}
	// mark
	mark := map[*Term]bool{}
	var visit func(t *Term)
	memByRoot := map[*Term][]*Term{}
	for a, c := range st.Mem {
		if r := memRoot(a); r != nil {
			memByRoot[r] = append(memByRoot[r], a)
			_ = c
		}
	}
	visit = func(t *Term) {
		if t == nil || mark[t] {
			return
		}
		mark[t] = true
		if t.Op == "alloc" {
			for _, a := range memByRoot[t] {
				mark[a] = true
				visit(st.Mem[a])
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, t := range st.Env {
		visit(t)
	}
	for _, t := range st.A {
		visit(t)
	}
	for _, ds := range st.Defers {
		for _, d := range ds {
			visit(d.callee)
			for _, a := range d.args {
				visit(a)
			}
			for _, a := range d.binds {
				visit(a)
			}
		}
	}
	stableFact := map[*Term]bool{}
	if x.H.Stable != nil {
		for a, c := range st.Mem {
			if memRoot(a) == nil {
				visit(c)
			}
		}
		for t := range st.Facts {
			if x.onlyStable(t) {
				stableFact[t] = true
			}
		}
	}
	for a := range st.Mem {
		if r := memRoot(a); r != nil && !mark[r] {
			delete(st.Mem, a)
		}
	}
	for t := range st.Facts {
		if !mark[t] && !stableFact[t] {
			delete(st.Facts, t)
		}
	}
	return x.key(st)
}

// onlyStable: a stable load, or a comparison of one with a constant.
func (x *Exec) onlyStable(t *Term) bool {
	if t.Op == "load" && t.V == nil && t.Args[0].Op == "fieldaddr" {
		return x.H.Stable(t.Args[0])
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		return x.onlyStable(t.Args[0]) && t.Args[1].IsConst() || x.onlyStable(t.Args[1]) && t.Args[0].IsConst()
	}
	return false
}

func (x *Exec) key(st *State) string {
	var sb strings.Builder
	for c := st.C; c != nil; c = c.next {
		fmt.Fprintf(&sb, "%d:%d:%d|", c.F.id, c.B.Index, c.I)
	}
	akeys := sortedKeys(st.A)
	for _, k := range akeys {
		fmt.Fprintf(&sb, "%s=%d;", k, st.A[k].id)
	}
	sb.WriteString("#")
	type ent struct {
		a, b, c int
		n       string
	}
	var es []string
	for k, t := range st.Env {
		es = append(es, fmt.Sprintf("%d.%s.%d=%d", k.F.id, k.V.Name(), k.I, t.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ";"))
	sb.WriteString("#")
	es = es[:0]
	for a, t := range st.Mem {
		es = append(es, fmt.Sprintf("%d=%d", a.id, t.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ";"))
	sb.WriteString("#")
	es = es[:0]
	for a, f := range st.Facts {
		s := fmt.Sprintf("%d:", a.id)
		if f.Eq != nil {
			s += fmt.Sprintf("=%d", f.Eq.id)
		}
		var ns []int
		for _, n := range f.Neq {
			ns = append(ns, n.id)
		}
		sort.Ints(ns)
		s += fmt.Sprint(ns)
		es = append(es, s)
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ";"))
	sb.WriteString("#")
	for c := st.C; c != nil; c = c.next {
		for _, d := range st.Defers[c.F] {
			fmt.Fprintf(&sb, "D%d.%s", c.F.id, d.name)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
	}
	return sb.String()
}

// ---- running -----------------------------------------------------------------------------------

// Run explores root from a fresh state whose automaton is init.
func (x *Exec) Run(root *ssa.Function, init map[string]*Term) {
	x.Root = root
	if len(root.Blocks) == 0 {
		fail("function %s has no body", FuncName(root))
	}
	fr := x.frame(nil, nil, root, false)
	st := &State{C: &Cont{F: fr, B: root.Blocks[0]}, Env: map[Key]*Term{}, Mem: map[*Term]*Term{},
		Facts: map[*Term]Fact{}, Defers: map[*Frame][]*Deferred{}, A: map[string]*Term{}}
	for k, v := range init {
		st.A[k] = v
	}
	for _, p := range root.Params {
		st.Env[Key{fr, p, 0}] = x.T.mk("param", p.Name(), nil, nil, p, p.Type())
	}
	for _, fv := range root.FreeVars {
		st.Env[Key{fr, fv, 0}] = x.T.mk("free", fv.Name(), nil, nil, fv, fv.Type())
	}
	x.FuncsSeen[root] = true
	x.push(st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.States++
		if x.States > x.Budget {
			fail("state budget exceeded while analysing %s", FuncName(root))
		}
		x.step(s)
	}
	if os.Getenv("VERIF_STATS") != "" {
		fmt.Fprintf(os.Stderr, "# %s: %d states, %d blocks, %d funcs, widened %d\n", FuncName(root), x.States, len(x.Blocks), len(x.FuncsSeen), x.Widened)
	}
}

func (x *Exec) push(st *State) {
	k := x.gc(st)
	if x.visited[k] {
		return
	}
	pp := k[:strings.Index(k, "#")]
	x.perPoint[pp]++
	if x.perPoint[pp] > 300 {
		// widen: forget branch facts at this point
		if len(st.Facts) > 0 {
			x.Widened++
			st.Facts = map[*Term]Fact{}
			k = x.gc(st)
			if x.visited[k] {
				return
			}
		}
	}
	x.visited[k] = true
	x.work = append(x.work, st)
}

// step runs st until it branches, calls or ends.
func (x *Exec) step(st *State) {
	for {
		c := st.C
		b := c.B
		if c.I >= len(b.Instrs) {
			return
		}
		x.Blocks[b] = true
		in := b.Instrs[c.I]
		fr := c.F
		if _, isPhi := in.(*ssa.Phi); isPhi {
			st.C = &Cont{F: fr, B: b, I: c.I + 1, next: c.next, retKey: c.retKey}
			continue
		}
		if x.H.OnInstr != nil {
			x.H.OnInstr(x, st, in)
			if st.dead {
				return
			}
		}
		adv := &Cont{F: fr, B: b, I: c.I + 1, next: c.next, retKey: c.retKey}
		switch in := in.(type) {
		case *ssa.If:
			cond := x.Val(st, in.Cond)
			for si, succ := range b.Succs {
				taken := si == 0
				n := st.clone()
				if !x.Assume(n, cond, taken) {
					continue
				}
				tt := "true"
				if !taken {
					tt = "false"
				}
				n.note(x.P.InstrPos(in), cond.Key()+" is "+tt)
				if x.H.OnBranch != nil {
					cc, tk := NormCond(cond, taken)
					x.H.OnBranch(x, n, cc, tk)
					if n.dead {
						continue
					}
				}
				x.goTo(n, b, succ, si)
			}
			return
		case *ssa.Jump:
			x.goTo(st, b, b.Succs[0], 0)
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range in.Results {
				res = append(res, x.Val(st, r))
			}
			if c.next == nil {
				if x.H.OnReturn != nil {
					x.H.OnReturn(x, st, res, in)
				}
				return
			}
			if x.H.OnPop != nil {
				x.H.OnPop(x, st, fr, res)
				if st.dead {
					return
				}
			}
			delete(st.Defers, fr)
			for k := range st.Env {
				if k.F == fr {
					delete(st.Env, k)
				}
			}
			st.C = c.next
			if c.retKey != nil {
				x.setResults(st, c.next.F, c.retKey, res)
			}
			// merge point after a call: dedup
			st.C = &Cont{F: c.next.F, B: c.next.B, I: c.next.I, next: c.next.next, retKey: c.next.retKey}
			x.push(st)
			return
		case *ssa.Panic:
			return
		case *ssa.RunDefers:
			ds := st.Defers[fr]
			if len(ds) == 0 {
				st.C = adv
				continue
			}
			d := ds[len(ds)-1]
			st.Defers[fr] = append([]*Deferred{}, ds[:len(ds)-1]...)
			ci := &CallInfo{Instr: d.instr, Name: d.name, Fn: d.fn, Callee: d.callee, Args: d.args, Binds: d.binds, Defer: true, Invoke: d.invoke, Frame: fr}
			same := &Cont{F: fr, B: b, I: c.I, next: c.next, retKey: c.retKey}
			if x.call(st, ci, same, nil) {
				return
			}
			continue
		case *ssa.Defer:
			ci := x.callInfo(st, fr, in, in.Common())
			d := &Deferred{instr: in, fn: ci.Fn, callee: ci.Callee, args: ci.Args, binds: ci.Binds, name: ci.Name, invoke: ci.Invoke}
			// a defer in a loop: two registrations stand for any number
			n := 0
			for _, o := range st.Defers[fr] {
				if o.instr == in {
					n++
				}
			}
			if n < 2 {
				st.Defers[fr] = append(append([]*Deferred{}, st.Defers[fr]...), d)
			}
			st.C = adv
			continue
		case *ssa.Go:
			ci := x.callInfo(st, fr, in, in.Common())
			ci.Go = true
			if x.call(st, ci, adv, nil) {
				return
			}
			continue
		case *ssa.Call:
			ci := x.callInfo(st, fr, in, in.Common())
			if x.call(st, ci, adv, in) {
				return
			}
			continue
		case *ssa.Store:
			x.store(st, x.Val(st, in.Addr), x.Val(st, in.Val))
			st.C = adv
			continue
		default:
			if v, ok := in.(ssa.Value); ok {
				x.define(st, fr, v, x.eval(st, fr, v))
			}
			st.C = adv
			continue
		}
	}
}

func (x *Exec) goTo(st *State, from, to *ssa.BasicBlock, si int) {
	c := st.C
	pi := -1
	seen := 0
	for i, p := range to.Preds {
		if p == from {
			// with duplicate edges (both If targets equal) use the matching one
			if from.Succs[0] == to && len(from.Succs) > 1 && from.Succs[1] == to {
				if seen == si {
					pi = i
					break
				}
				seen++
				continue
			}
			pi = i
			break
		}
	}
	if pi < 0 {
		pi = 0
	}
	header := false
	for _, p := range to.Preds {
		if to.Dominates(p) {
			header = true
			break
		}
	}
	type upd struct {
		k Key
		t *Term
	}
	var ups []upd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := x.Val(st, ph.Edges[pi])
		if header && !e.IsConst() && !loopStable(e, ph) {
			e = x.T.mk("phi", "", nil, c.F, ph, ph.Type())
		}
		ups = append(ups, upd{Key{c.F, ph, 0}, e})
	}
	for _, u := range ups {
		if u.t.Op == "phi" && u.t.V == u.k.V {
			x.kill(st, u.t)
		}
		st.Env[u.k] = u.t
	}
	st.C = &Cont{F: c.F, B: to, I: 0, next: c.next, retKey: c.retKey}
	if x.H.OnBlock != nil {
		x.H.OnBlock(x, st, from, to)
		if st.dead {
			return
		}
	}
	x.push(st)
}

// loopStable: a loop-carried value may keep its own term when that cannot grow from iteration to
// iteration: parameters, call results and loads that do not nest a previous value of themselves.
func loopStable(e *Term, ph *ssa.Phi) bool {
	if e.depth > 10 {
		return false
	}
	switch e.Op {
	case "param", "call", "extract", "load", "global", "func", "closure", "alloc", "assert":
	case "bin":
		// a comparison does not grow either
		if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			return false
		}
	default:
		return false
	}
	sites := map[ssa.Value]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if t == nil {
			return true
		}
		if t.Op == "phi" && t.V == ph {
			return false
		}
		if t.Op == "bin" && t != e || t.Op == "slice" || t.Op == "call" && t.Name == "builtin.append" {
			return false
		}
		if identOp(t) && t.V != nil {
			if sites[t.V] {
				return false
			}
			sites[t.V] = true
			defer delete(sites, t.V)
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(e)
}

func (x *Exec) kill(st *State, id *Term) {
	for t := range st.Facts {
		if t == id || t.Contains(func(s *Term) bool { return s == id }) {
			delete(st.Facts, t)
		}
	}
}

func identOp(t *Term) bool {
	switch t.Op {
	case "load", "call", "dyncall", "phi", "alloc", "make", "next", "select", "opaque", "recv", "range", "index", "lookup":
		return true
	}
	return false
}

func (x *Exec) define(st *State, fr *Frame, v ssa.Value, t *Term) {
	if identOp(t) && t.V == v && t.F == fr {
		x.kill(st, t)
		if x.H.Stable != nil {
			// a tracked field of a shared object keeps the value of the earlier instance
			for a, m := range st.Mem {
				if memRoot(a) == nil && (m == t || m.Contains(func(s *Term) bool { return s == t })) {
					delete(st.Mem, a)
					x.kill(st, x.T.mk("load", "", []*Term{a}, nil, nil, m.Typ))
				}
			}
		}
	}
	st.Env[Key{fr, v, 0}] = t
}

// setResults binds the results of a finished call.
func (x *Exec) setResults(st *State, fr *Frame, v ssa.Value, res []*Term) {
	if _, ok := v.Type().(*types.Tuple); ok {
		for i, r := range res {
			st.Env[Key{fr, v, i + 1}] = r
		}
		st.Env[Key{fr, v, 0}] = x.T.mk("tuple", "", res, nil, nil, nil)
		return
	}
	if len(res) == 1 {
		st.Env[Key{fr, v, 0}] = res[0]
	}
}

func (x *Exec) callInfo(st *State, fr *Frame, in ssa.Instruction, cm *ssa.CallCommon) *CallInfo {
	ci := &CallInfo{Instr: in, Frame: fr}
	if cm.IsInvoke() {
		ci.Invoke = true
		ci.Name = ObjName(cm.Method)
		ci.Args = append(ci.Args, x.Val(st, cm.Value))
	} else {
		switch f := cm.Value.(type) {
		case *ssa.Function:
			ci.Fn = f
			ci.Name = FuncName(f)
		case *ssa.Builtin:
			ci.Name = "builtin." + f.Name()
		default:
			ci.Callee = x.Val(st, cm.Value)
			x.resolveCallee(ci)
		}
	}
	for _, a := range cm.Args {
		ci.Args = append(ci.Args, x.Val(st, a))
	}
	return ci
}

func (x *Exec) resolveCallee(ci *CallInfo) {
	ci.Name = "dyn"
	switch ci.Callee.Op {
	case "func":
		if f, ok := ci.Callee.V.(*ssa.Function); ok {
			ci.Fn = f
			ci.Name = FuncName(f)
		}
	case "closure":
		if mk, ok := ci.Callee.V.(*ssa.MakeClosure); ok {
			ci.Fn = mk.Fn.(*ssa.Function)
			ci.Name = FuncName(ci.Fn)
			ci.Binds = ci.Callee.Args
		}
	}
}

// call executes a call; it returns true when st was consumed (pushed or ended).
func (x *Exec) call(st *State, ci *CallInfo, after *Cont, dst *ssa.Call) bool {
	act := ActDefault
	if x.H.OnCall != nil {
		act = x.H.OnCall(x, st, ci)
		if st.dead {
			return true
		}
	}
	if act == ActStop {
		return true
	}
	fr := ci.Frame
	canInline := ci.Fn != nil && x.P.InModule(ci.Fn) && fr.depth < x.H.MaxDepth && !x.onStack(st, ci.Fn)
	if ci.Fn != nil && ci.Fn.Synthetic != "" && len(ci.Fn.Blocks) > 0 && strings.Contains(ci.Fn.Synthetic, "bound") && x.P.InModule(ci.Fn) {
		// bound method wrapper: always look through
		if act == ActDefault {
			act = ActInline
		}
	}
	inline := canInline && (act == ActInline || act == ActDefault && (ci.Fn.Parent() != nil || x.H.Inline != nil && x.H.Inline(ci.Fn)))
	if ci.Go && inline {
		if x.H.SkipClosures != nil && x.H.SkipClosures(ci, ci.Callee) {
			inline = false
		} else {
			n := st.clone()
			n.C = after
			x.push(n)
		}
	}
	if inline {
		x.enter(st, ci, after, dst, ci.Go)
		return true
	}
	// opaque
	res := ci.Result
	if dst != nil {
		if res == nil && ci.Name == "builtin.len" && len(ci.Args) == 1 && ci.Args[0].IsNil() {
			res = x.T.mk("const", "0", nil, nil, nil, types.Typ[types.Int])
		}
		if res == nil {
			op := "call"
			args := ci.Args
			if ci.Name == "dyn" {
				op = "dyncall"
				args = append([]*Term{ci.Callee}, ci.Args...)
			}
			res = x.T.mk(op, ci.Name, args, fr, dst, dst.Type())
			x.kill(st, res)
		}
		if tup, ok := dst.Type().(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				st.Env[Key{fr, dst, i + 1}] = x.T.mk("extract", strconv.Itoa(i), []*Term{res}, nil, nil, tup.At(i).Type())
			}
		}
		st.Env[Key{fr, dst, 0}] = res
	}
	// closures handed over may run
	if x.H.SkipClosures == nil || !x.H.SkipClosures(ci, nil) {
		for _, a := range ci.Args {
			if a == nil {
				continue
			}
			sub := &CallInfo{Instr: ci.Instr, Callee: a, Frame: fr}
			if a.Op != "closure" && a.Op != "func" {
				continue
			}
			x.resolveCallee(sub)
			if sub.Fn == nil || !x.P.InModule(sub.Fn) || x.onStack(st, sub.Fn) || fr.depth >= x.H.MaxDepth {
				continue
			}
			if sub.Fn.Parent() == nil && sub.Fn.Synthetic == "" && (x.H.Inline == nil || !x.H.Inline(sub.Fn)) {
				continue
			}
			n := st.clone()
			for i, p := range sub.Fn.Params {
				sub.Args = append(sub.Args, x.T.mk("opaque", "cbarg"+strconv.Itoa(i), nil, fr, p, p.Type()))
			}
			x.enter(n, sub, after, nil, true)
		}
	}
	if !strings.HasPrefix(ci.Name, "builtin.") {
		for _, a := range ci.Args {
			x.havoc(st, a)
		}
	}
	if x.H.AfterCall != nil {
		x.H.AfterCall(x, st, ci, res)
		if st.dead {
			return true
		}
	}
	st.C = after
	return false
}

func (x *Exec) onStack(st *State, fn *ssa.Function) bool {
	for c := st.C; c != nil; c = c.next {
		if c.F.fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) enter(st *State, ci *CallInfo, after *Cont, dst *ssa.Call, async bool) {
	fn := ci.Fn
	x.FuncsSeen[fn] = true
	nf := x.frame(ci.Frame, ci.Instr, fn, async)
	for k := range st.Env {
		if k.F == nf {
			delete(st.Env, k)
		}
	}
	for i, p := range fn.Params {
		if i < len(ci.Args) && ci.Args[i] != nil {
			st.Env[Key{nf, p, 0}] = ci.Args[i]
		} else {
			st.Env[Key{nf, p, 0}] = x.T.mk("opaque", "arg", nil, nf, p, p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(ci.Binds) {
			st.Env[Key{nf, fv, 0}] = ci.Binds[i]
		} else {
			st.Env[Key{nf, fv, 0}] = x.T.mk("free", fv.Name(), nil, nf, fv, fv.Type())
		}
	}
	var rk ssa.Value
	if dst != nil {
		rk = dst
	}
	st.C = &Cont{F: nf, B: fn.Blocks[0], next: after, retKey: rk}
	if dst == nil {
		st.C.retKey = nil
	}
	x.push(st)
}

func (x *Exec) havoc(st *State, a *Term) {
	var roots []*Term
	var find func(t *Term, d int)
	find = func(t *Term, d int) {
		if t == nil || d > 4 {
			return
		}
		if r := memRoot(t); r != nil {
			roots = append(roots, r)
			return
		}
		if t.Op == "closure" {
			return
		}
	}
	find(a, 0)
	if a != nil && x.H.Stable != nil && (a.Op == "fieldaddr" || a.Op == "indexaddr") && memRoot(a) == nil && x.H.Stable(a) {
		st.Mem[a] = x.T.mk("opaque", "written", []*Term{a}, st.C.F, nil, nil)
		x.kill(st, x.T.mk("load", "", []*Term{a}, nil, nil, derefType2(a.Typ)))
	}
	for _, r := range roots {
		for addr := range st.Mem {
			if memRoot(addr) == r {
				delete(st.Mem, addr)
			}
		}
	}
}

// ---- memory ------------------------------------------------------------------------------------

func (x *Exec) store(st *State, addr, val *Term) {
	if memRoot(addr) == nil {
		if x.H.Stable != nil && x.H.Stable(addr) {
			st.Mem[addr] = val
			x.kill(st, x.T.mk("load", "", []*Term{addr}, nil, nil, val.Typ))
		}
		return
	}
	// drop deeper entries
	for a := range st.Mem {
		if a != addr && under(a, addr) {
			delete(st.Mem, a)
		}
	}
	boxed := false
	if addr.Typ != nil {
		if pt, ok := addr.Typ.Underlying().(*types.Pointer); ok {
			boxed = types.IsInterface(pt.Elem())
		}
	}
	if val.Op == "struct" && !boxed {
		stt, ok := derefType(val.Typ).Underlying().(*types.Struct)
		if ok {
			for i, fv := range val.Args {
				if fv == nil {
					continue
				}
				fa := x.T.mk("fieldaddr", stt.Field(i).Name(), []*Term{addr}, nil, nil, types.NewPointer(stt.Field(i).Type()))
				x.store(st, fa, fv)
			}
			return
		}
	}
	st.Mem[addr] = val
}

func under(a, base *Term) bool {
	for a != nil {
		if a == base {
			return true
		}
		switch a.Op {
		case "fieldaddr", "indexaddr":
			a = a.Args[0]
		default:
			return false
		}
	}
	return false
}

func derefType(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return t
}

func derefType2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return derefType(t)
}

func (x *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.T.mk("const", "false", nil, nil, nil, types.Typ[types.Bool])
		case u.Info()&types.IsString != 0:
			return x.T.mk("const", `""`, nil, nil, nil, t)
		default:
			return x.T.mk("const", "0", nil, nil, nil, t)
		}
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, x.zero(u.Field(i).Type()))
		}
		return x.T.mk("struct", TypeName(t), args, nil, nil, t)
	case *types.Array:
		return x.T.mk("const", "zero", nil, nil, nil, t)
	}
	return x.T.mk("nil", "", nil, nil, nil, nil)
}

// Load returns the known content of a tracked address, or nil.
func (x *Exec) Load(st *State, addr *Term, typ types.Type) *Term {
	root := memRoot(addr)
	if root == nil {
		if t, ok := st.Mem[addr]; ok && x.H.Stable != nil {
			return t
		}
		return nil
	}
	if t, ok := st.Mem[addr]; ok && t != x.fresh {
		_, isStruct := typ.Underlying().(*types.Struct)
		if !isStruct {
			return t
		}
		deeper := false
		for a := range st.Mem {
			if a != addr && under(a, addr) {
				deeper = true
				break
			}
		}
		if !deeper {
			return t
		}
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		// compose
		known := false
		if st.Mem[root] == x.fresh {
			known = true
		}
		for a := range st.Mem {
			if a != root && under(a, addr) {
				known = true
				break
			}
		}
		if known {
			var args []*Term
			for i := 0; i < s.NumFields(); i++ {
				fa := x.T.mk("fieldaddr", s.Field(i).Name(), []*Term{addr}, nil, nil, types.NewPointer(s.Field(i).Type()))
				ft := x.Load(st, fa, s.Field(i).Type())
				if ft == nil {
					ft = x.T.mk("field", s.Field(i).Name(), []*Term{x.T.mk("load", "", []*Term{addr}, nil, nil, nil)}, nil, nil, s.Field(i).Type())
				}
				args = append(args, ft)
			}
			return x.T.mk("struct", TypeName(typ), args, nil, nil, typ)
		}
	}
	// a field of a stored whole value
	for a := addr; a != nil && (a.Op == "fieldaddr" || a.Op == "indexaddr"); a = a.Args[0] {
		if a.Op != "fieldaddr" {
			break
		}
		if whole, ok := st.Mem[a.Args[0]]; ok && whole != x.fresh {
			// rebuild path below a.Args[0]
			var names []string
			for b := addr; b != a.Args[0]; b = b.Args[0] {
				names = append([]string{b.Name}, names...)
			}
			t := whole
			for i, n := range names {
				if i == len(names)-1 {
					t = x.fieldOf(t, n, typ)
				} else {
					t = x.fieldOf(t, n, nil)
				}
			}
			return t
		}
	}
	if st.Mem[root] == x.fresh {
		// any dynamic index store under the parent makes it unknown
		for a := addr; a != nil; {
			if a.Op == "indexaddr" {
				for m := range st.Mem {
					for m.Op == "fieldaddr" || m.Op == "indexaddr" && baseOf(m.Args[0]) != baseOf(a.Args[0]) {
						m = m.Args[0]
					}
					if m.Op == "indexaddr" && (m.Args[0] != a.Args[0] || m.Args[1].Op != "const" || a.Args[1].Op != "const" && m.Args[1] != a.Args[1]) {
						return nil
					}
				}
			}
			if a.Op == "fieldaddr" || a.Op == "indexaddr" {
				a = a.Args[0]
			} else {
				break
			}
		}
		if addr == root && addr.Typ != nil && !types.Identical(derefType2(addr.Typ), typ) {
			return nil // reinterpreted through an unsafe pointer
		}
		return x.zero(typ)
	}
	return nil
}

func (x *Exec) fieldOf(t *Term, name string, typ types.Type) *Term {
	if t.Op == "struct" {
		if s, ok := derefType(t.Typ).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name && i < len(t.Args) && t.Args[i] != nil {
					return t.Args[i]
				}
			}
		}
	}
	if t.Op == "const" && t.Name == "zero" && t.Typ != nil {
		if s, ok := t.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return x.zero(s.Field(i).Type())
				}
			}
		}
	}
	return x.T.mk("field", name, []*Term{t}, nil, nil, typ)
}

// ---- evaluation --------------------------------------------------------------------------------

// Val evaluates an operand in the current frame.
func (x *Exec) Val(st *State, v ssa.Value) *Term { return x.ValIn(st, st.C.F, v) }

func (x *Exec) ValIn(st *State, fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(x.T, v)
	case *ssa.Function:
		return x.T.mk("func", FuncName(v), nil, nil, v, nil)
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil {
			n = v.Pkg.Pkg.Name() + "." + n
		}
		return x.T.mk("global", n, nil, nil, v, v.Type())
	case *ssa.Builtin:
		return x.T.mk("func", "builtin."+v.Name(), nil, nil, nil, nil)
	}
	if t, ok := st.Env[Key{fr, v, 0}]; ok {
		return t
	}
	return x.T.mk("opaque", "undef", nil, fr, v, v.Type())
}

func fieldName(t types.Type, i int) string {
	if s, ok := derefType(t).Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?" + strconv.Itoa(i)
}

func (x *Exec) eval(st *State, fr *Frame, v ssa.Value) *Term {
	val := func(o ssa.Value) *Term { return x.ValIn(st, fr, o) }
	switch v := v.(type) {
	case *ssa.Alloc:
		t := x.T.mk("alloc", "", nil, fr, v, v.Type())
		for a := range st.Mem {
			if memRoot(a) == t {
				delete(st.Mem, a)
			}
		}
		x.kill(st, t)
		st.Mem[t] = x.fresh
		return t
	case *ssa.UnOp:
		a := val(v.X)
		switch v.Op {
		case token.MUL:
			if a.Op == "global" {
				return x.T.mk("load", "", []*Term{a}, fr, v, v.Type())
			}
			if t := x.Load(st, a, v.Type()); t != nil {
				return t
			}
			if x.H.Stable != nil && x.H.Stable(a) {
				return x.T.mk("load", "", []*Term{a}, nil, nil, v.Type())
			}
			if a.Op == "fieldaddr" {
				// keep site identity for facts, structural name for matching
				return x.T.mk("load", "", []*Term{a}, fr, v, v.Type())
			}
			return x.T.mk("load", "", []*Term{a}, fr, v, v.Type())
		case token.ARROW:
			return x.T.mk("recv", "", []*Term{a}, fr, v, v.Type())
		case token.NOT:
			if b, ok := a.ConstBool(); ok {
				return x.boolT(!b)
			}
			if a.Op == "un" && a.Name == "!" {
				return a.Args[0]
			}
		}
		return x.T.mk("un", v.Op.String(), []*Term{a}, nil, nil, v.Type())
	case *ssa.BinOp:
		a, b := val(v.X), val(v.Y)
		if r, ok := x.decideBin(st, v.Op, a, b); ok {
			return x.boolT(r)
		}
		if a.Op == "const" && b.Op == "const" {
			if t := x.fold(v, a, b); t != nil {
				return t
			}
		}
		return x.T.mk("bin", v.Op.String(), []*Term{a, b}, nil, nil, v.Type())
	case *ssa.FieldAddr:
		return x.T.mk("fieldaddr", fieldName(v.X.Type(), v.Field), []*Term{val(v.X)}, nil, nil, v.Type())
	case *ssa.Field:
		return x.fieldOf(val(v.X), fieldName(v.X.Type(), v.Field), v.Type())
	case *ssa.IndexAddr:
		return x.T.mk("indexaddr", "", []*Term{val(v.X), val(v.Index)}, nil, nil, v.Type())
	case *ssa.Index:
		return x.T.mk("index", "", []*Term{val(v.X), val(v.Index)}, fr, v, v.Type())
	case *ssa.Lookup:
		return x.T.mk("lookup", "", []*Term{val(v.X), val(v.Index)}, fr, v, v.Type())
	case *ssa.Extract:
		if t, ok := st.Env[Key{fr, v.Tuple, v.Index + 1}]; ok {
			return t
		}
		tt := val(v.Tuple)
		if tt.Op == "tuple" && v.Index < len(tt.Args) {
			return tt.Args[v.Index]
		}
		return x.T.mk("extract", strconv.Itoa(v.Index), []*Term{tt}, nil, nil, v.Type())
	case *ssa.ChangeType:
		return val(v.X)
	case *ssa.MakeInterface:
		return val(v.X)
	case *ssa.ChangeInterface:
		return val(v.X)
	case *ssa.Convert:
		a := val(v.X)
		if a.Op == "const" {
			return a
		}
		if isBasicNumeric(v.Type()) && isBasicNumeric(v.X.Type()) {
			return x.T.mk("conv", "", []*Term{a}, nil, nil, v.Type())
		}
		return a
	case *ssa.MultiConvert:
		return val(v.X)
	case *ssa.TypeAssert:
		a := val(v.X)
		if r := x.assertKnown(a, v); r != nil {
			return r
		}
		return x.T.mk("assert", "", []*Term{a}, nil, nil, v.AssertedType)
	case *ssa.MakeClosure:
		var binds []*Term
		for _, b := range v.Bindings {
			binds = append(binds, val(b))
		}
		return x.T.mk("closure", FuncName(v.Fn.(*ssa.Function)), binds, nil, v, nil)
	case *ssa.Slice:
		opt := func(o ssa.Value) *Term {
			if o == nil {
				return x.T.mk("const", "none", nil, nil, nil, nil)
			}
			return val(o)
		}
		return x.T.mk("slice", "", []*Term{val(v.X), opt(v.Low), opt(v.High), opt(v.Max)}, nil, nil, v.Type())
	case *ssa.MakeSlice:
		return x.T.mk("make", "slice", []*Term{val(v.Len), val(v.Cap)}, fr, v, v.Type())
	case *ssa.MakeMap:
		return x.T.mk("make", "map", nil, fr, v, v.Type())
	case *ssa.MakeChan:
		return x.T.mk("make", "chan", []*Term{val(v.Size)}, fr, v, v.Type())
	case *ssa.Range:
		return x.T.mk("range", "", []*Term{val(v.X)}, fr, v, v.Type())
	case *ssa.Next:
		return x.T.mk("next", "", []*Term{val(v.Iter)}, fr, v, v.Type())
	case *ssa.Select:
		var as []*Term
		for _, s := range v.States {
			as = append(as, val(s.Chan))
		}
		return x.T.mk("select", "", as, fr, v, v.Type())
	}
	return x.T.mk("opaque", fmt.Sprintf("%T", v), nil, fr, v, v.Type())
}

func isBasicNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (x *Exec) boolT(b bool) *Term {
	return x.T.mk("const", strconv.FormatBool(b), nil, nil, nil, types.Typ[types.Bool])
}

func (x *Exec) fold(v *ssa.BinOp, a, b *Term) *Term {
	ka, kb := parseConst(a), parseConst(b)
	if ka == nil || kb == nil || ka.Kind() != constant.Int || kb.Kind() != constant.Int {
		return nil
	}
	switch v.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x.boolT(constant.Compare(ka, v.Op, kb))
	case token.OR, token.AND:
		r := constant.BinaryOp(ka, v.Op, kb)
		return x.T.mk("const", r.ExactString(), nil, nil, nil, v.Type())
	}
	return nil
}

func parseConst(t *Term) constant.Value {
	if t.Op != "const" {
		return nil
	}
	if t.Name == "true" || t.Name == "false" {
		return constant.MakeBool(t.Name == "true")
	}
	if strings.HasPrefix(t.Name, `"`) {
		if s, err := strconv.Unquote(t.Name); err == nil {
			return constant.MakeString(s)
		}
		return nil
	}
	v := constant.MakeFromLiteral(t.Name, token.INT, 0)
	if v.Kind() == constant.Unknown {
		return nil
	}
	return v
}

func neverNil(t *Term) bool {
	switch t.Op {
	case "const", "alloc", "closure", "func", "make", "fieldaddr", "indexaddr", "struct":
		return true
	case "global":
		return true
	}
	return false
}

// decideBin decides == and != when the operands are known.
func (x *Exec) decideBin(st *State, op token.Token, a, b *Term) (res, ok bool) {
	if op != token.EQL && op != token.NEQ {
		return false, false
	}
	eq, known := x.equal(st, a, b)
	if !known {
		return false, false
	}
	if op == token.NEQ {
		return !eq, true
	}
	return eq, true
}

func (x *Exec) equal(st *State, a, b *Term) (eq, known bool) {
	if !a.IsConst() && b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		if a.Op == "nil" || b.Op == "nil" {
			return a.Op == b.Op, true
		}
		if a.Name == "zero" || b.Name == "zero" {
			return false, false
		}
		return a.Name == b.Name, true
	}
	if a.Op == "nil" && neverNil(b) {
		return false, true
	}
	if a.IsConst() {
		if f, ok := st.Facts[b]; ok {
			if f.Eq != nil {
				if f.Eq.Op == "nil" || a.Op == "nil" {
					return f.Eq.Op == a.Op, true
				}
				return f.Eq.Name == a.Name, true
			}
			for _, n := range f.Neq {
				if n.Op == a.Op && n.Name == a.Name {
					return false, true
				}
			}
		}
	}
	return false, false
}

// NormCond strips negations and turns != into ==.
func NormCond(c *Term, taken bool) (*Term, bool) {
	for c.Op == "un" && c.Name == "!" {
		c, taken = c.Args[0], !taken
	}
	return c, taken
}

// CmpOf interprets a (condition, taken) pair as an equality between two terms: it returns the
// operands and whether they are known equal on this branch.
func CmpOf(c *Term, taken bool) (a, b *Term, equal, ok bool) {
	c, taken = NormCond(c, taken)
	if c.Op != "bin" {
		return nil, nil, false, false
	}
	switch c.Name {
	case "==":
		return c.Args[0], c.Args[1], taken, true
	case "!=":
		return c.Args[0], c.Args[1], !taken, true
	}
	return nil, nil, false, false
}

// Assume adds cond==taken to the facts; it returns false when that contradicts what is known.
func (x *Exec) Assume(st *State, cond *Term, taken bool) bool {
	cond, taken = NormCond(cond, taken)
	if b, ok := cond.ConstBool(); ok {
		return b == taken
	}
	if f, ok := st.Facts[cond]; ok && f.Eq != nil {
		if b, ok := f.Eq.ConstBool(); ok {
			return b == taken
		}
	}
	if cond.Op == "bin" && (cond.Name == "==" || cond.Name == "!=") {
		eq := taken == (cond.Name == "==")
		if r, known := x.equal(st, cond.Args[0], cond.Args[1]); known {
			return r == eq
		}
		if !x.H.NoFacts {
			a, b := cond.Args[0], cond.Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() && b.Name != "zero" {
				f := st.Facts[a]
				if eq {
					f = Fact{Eq: b}
				} else {
					f = Fact{Neq: append(append([]*Term{}, f.Neq...), b)}
				}
				st.Facts[a] = f
			}
		}
	}
	if !x.H.NoFacts {
		st.Facts[cond] = Fact{Eq: x.boolT(taken)}
	}
	return true
}

// assertKnown decides a comma-ok assertion to a concrete type when the dynamic type is known.
func (x *Exec) assertKnown(a *Term, v *ssa.TypeAssert) *Term {
	if !v.CommaOk || types.IsInterface(v.AssertedType) {
		return nil
	}
	no := func() *Term {
		return x.T.mk("tuple", "", []*Term{x.zero(v.AssertedType), x.boolT(false)}, nil, nil, nil)
	}
	if a.IsNil() {
		return no()
	}
	if a.Typ == nil || types.IsInterface(a.Typ) || !(a.Op == "struct" || a.Op == "const" && a.Name == "zero") {
		return nil
	}
	if _, ok := a.Typ.Underlying().(*types.Struct); !ok {
		return nil
	}
	if types.Identical(a.Typ, v.AssertedType) {
		return x.T.mk("tuple", "", []*Term{a, x.boolT(true)}, nil, nil, nil)
	}
	return no()
}
