package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", "Lock-state dataflow: for every function of the module, over all its control-flow paths, the set of mutexes held at each instruction (named by access path: parameter, captured variable or global followed by fields), with interprocedural summaries of what is acquired, kept and released, interface calls resolved to every implementation and calls of function values to every function of that signature.", runP20)
}

func runP20(p *Program, r *Report) {
	r.Rule("release: a lock taken is released on every path out of the function that took it (a helper that takes or releases for its caller does so on all its paths), and in the mode it was taken; none is released that is not held")
	r.Rule("reacquire: no path acquires a lock it already holds, directly or through a call")
	r.Rule("order: the relation 'held while acquiring' over the mutex fields of the module has no cycle")
	r.Rule("wait: no lock is held at a channel send, receive or select that only another goroutine can end, directly or through a call")
	a := newLockAnalysis(p)
	waits := p20Waits(p, r, a)
	a.run()
	for _, f := range a.funcs {
		r.SawFn(f)
	}
	for in := range a.nlocks {
		r.Ob("lock-site", FuncName(in.Parent())+"@"+p.InstrPos(in))
	}
	for _, f := range a.funcs {
		s := a.sums[f]
		root := a.goTarget[f] || a.isTaken[f] || a.callers[f] == 0 || f.Object() != nil && f.Object().Exported()
		if root {
			for _, h := range s.hold {
				a.bad("release", FuncName(f)+" "+h.class, h.where, FuncName(f)+" returns holding "+h.class+", taken at "+h.where)
			}
			for _, h := range s.rel {
				a.bad("release", FuncName(f)+" unlock "+h.class, h.where, FuncName(f)+" releases "+h.class+" without holding it")
			}
		}
	}
	var ks []string
	for k := range a.find {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := a.find[k]
		r.Bad(f.rule, f.construct, f.where, f.msg)
	}
	p20Order(p, r, a)
	waits()
	r.Paths += a.nstates
	r.Min("lock-site", 100)
	r.Min("order", 20)
	r.Min("wait", 10)
}

func p20Order(p *Program, r *Report, a *lockAnalysis) {
	adj := map[string]map[string]lockEdge{}
	for _, e := range a.edges {
		if adj[e.from.class] == nil {
			adj[e.from.class] = map[string]lockEdge{}
		}
		if _, ok := adj[e.from.class][e.to.class]; !ok {
			adj[e.from.class][e.to.class] = e
		}
		r.Ob("order", e.from.class+" before "+e.to.class)
	}
	// cycles
	var path []string
	var dfs func(start, n string)
	dfs = func(start, n string) {
		for _, m := range sortedKeys(adj[n]) {
			if m == start {
				cyc := append(append([]string(nil), path...), start)
				min := 0
				for i := range path {
					if path[i] < path[min] {
						min = i
					}
				}
				if path[min] != start {
					continue
				}
				var tr []string
				for i := 0; i+1 < len(cyc); i++ {
					e := adj[cyc[i]][cyc[i+1]]
					tr = append(tr, e.from.class+" held (taken "+e.from.where+") while "+FuncName(e.fn)+" at "+e.where+" takes "+e.to.class+" via "+e.via+" ("+e.to.where+")")
				}
				r.Bad("order", strings.Join(cyc, " -> "), adj[cyc[0]][cyc[1]].where, "locks are taken in a circular order: "+strings.Join(cyc, " -> "), tr...)
				continue
			}
			if contains(path, m) || len(path) > 4 {
				continue
			}
			path = append(path, m)
			dfs(start, m)
			path = path[:len(path)-1]
		}
	}
	for _, n := range sortedKeys(adj) {
		path = []string{n}
		dfs(n, n)
	}
}

// p20Waits: no lock is held across a channel operation that can only be ended by another goroutine
// (a send, a receive, or a select without a default and without a case that ends by itself soon:
// the end of a context does not count, it would leave the lock held until the deadline).
func p20Waits(p *Program, r *Report, a *lockAnalysis) func() {
	own := func(in ssa.Instruction) string {
		switch v := in.(type) {
		case *ssa.Send:
			return "send"
		case *ssa.UnOp:
			if v.Op == token.ARROW && !endsByItself(v.X) {
				return "receive"
			}
		case *ssa.Select:
			if !v.Blocking {
				return ""
			}
			for _, s := range v.States {
				if s.Dir == types.RecvOnly && endsByItself(s.Chan) {
					return ""
				}
			}
			return "select"
		}
		return ""
	}
	type blk struct{ what, where, via string }
	blocks := map[*ssa.Function]blk{}
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if w := own(in); w != "" {
					blocks[f] = blk{w, p.InstrPos(in), ""}
				}
			}
		}
	}
	calleesOf := func(in ssa.Instruction) []*ssa.Function {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		if _, ok := in.(*ssa.Go); ok {
			return nil
		}
		fs, _, _ := a.callees(ci)
		mcs, plain := a.syncFuncArgs(ci)
		for _, m := range mcs {
			fs = append(fs, m.Fn.(*ssa.Function))
		}
		return append(fs, plain...)
	}
	for ch := true; ch; {
		ch = false
		for _, f := range a.funcs {
			if _, ok := blocks[f]; ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, g := range calleesOf(in) {
						if x, ok := blocks[g]; ok {
							if _, done := blocks[f]; !done {
								blocks[f] = blk{x.what, x.where, FuncName(g)}
								ch = true
							}
						}
					}
				}
			}
		}
	}
	type site struct{ rule, construct, where, msg string }
	bad := map[string]site{}
	n := map[ssa.Instruction]bool{}
	at := func(fn *ssa.Function, in ssa.Instruction, held map[string]lockRef, what, where, via string) {
		n[in] = true
		if len(held) == 0 {
			return
		}
		var hs []string
		for _, h := range held {
			hs = append(hs, h.class)
		}
		sort.Strings(hs)
		if via != "" {
			via = " through " + via
		}
		k := FuncName(fn) + " " + what
		bad[k] = site{"wait", k, p.InstrPos(in), FuncName(fn) + " waits" + via + " for another goroutine (channel " + what + " at " + where + ") while holding " + strings.Join(hs, ", ")}
	}
	a.onInstr = func(fn *ssa.Function, in ssa.Instruction, st *lockState) {
		if w := own(in); w != "" {
			at(fn, in, st.held, w, p.InstrPos(in), "")
		}
	}
	a.onCall = func(fn *ssa.Function, in ssa.CallInstruction, held map[string]lockRef) {
		for _, g := range calleesOf(in) {
			if x, ok := blocks[g]; ok {
				at(fn, in, held, x.what, x.where, FuncName(g))
			}
		}
	}
	return func() {
		for in := range n {
			r.Ob("wait", FuncName(in.Parent())+"@"+p.InstrPos(in))
		}
		for _, k := range sortedKeys(bad) {
			b := bad[k]
			r.Bad(b.rule, b.construct, b.where, b.msg)
		}
	}
}

// endsByItself: the channel of a context, a timer or a ticker, which needs no other goroutine of the
// module to become ready.
func endsByItself(c ssa.Value) bool {
	switch v := c.(type) {
	case *ssa.Call:
		n, _ := CallName(v.Common())
		return n == "time.After" || n == "time.Tick"
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			n := TypeName(derefType(fa.X.Type()))
			return n == "time.Timer" || n == "time.Ticker"
		}
	}
	return false
}
