package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// attached: an item enters and leaves what it observes while its own lock is held, so that a concurrent
// deletion or change cannot leave it behind; what was found out before the lock was given up is found
// out again.
func (c *p27) attached() {
	p, r := c.p, c.r
	attach := map[string]bool{"server.PollGroup.Subscribe": true, "server.ObjectNode.AddEventListener": true}
	detach := map[string]bool{"server.PollGroup.Unsubscribe": true, "server.ObjectNode.RemoveEventListener": true}
	isItem := func(f *ssa.Function) bool { return strings.HasSuffix(RecvType(f), "MonitoredItem") }
	reach := p.Reach(nil, func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok || !isItem(i.Parent()) && i.Parent().Parent() == nil && !strings.HasPrefix(i.Parent().Name(), "New") {
			return false
		}
		n, _ := CallName(ci.Common())
		return attach[n] || detach[n]
	})
	roots := map[*ssa.Function]bool{}
	for f := range reach {
		if f.Pkg != c.srv || f.Parent() != nil {
			continue
		}
		// what locks the item itself
		locks := false
		EachCall(f, func(ci ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "sync.RWMutex.Lock" || n == "sync.Mutex.Lock" {
				if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && strings.HasSuffix(TypeName(derefType(fa.X.Type())), "MonitoredItem") {
					locks = true
				}
			}
		})
		exported := f.Object() != nil && f.Object().Exported()
		if locks && (exported || !isItem(f)) {
			roots[f] = true
		}
	}
	one := func(x *Exec) *Term { return x.T.mk("const", "1", nil, nil, nil, nil) }
	for _, root := range sortedFns(roots) {
		root := root
		fn := FuncName(root)
		bad := func(what string, at ssa.Instruction, msg string, st *State) {
			r.Bad("attached", fn+" "+what, p.InstrPos(at), fn+" "+msg, st.Trace(8)...)
		}
		h := Hooks{MaxDepth: 5}
		h.Inline = func(g *ssa.Function) bool {
			return g != root && g.Pkg == c.srv && (isItem(g) || g.Parent() != nil || g.Signature.Recv() == nil) && reach[g]
		}
		isLock := func(ci *CallInfo, n string) bool {
			if !strings.HasSuffix(ci.Name, "Mutex."+n) || len(ci.Args) == 0 {
				return false
			}
			a := ci.Args[0].Strip()
			return a.Op == "fieldaddr" && strings.HasSuffix(TypeName(derefType(a.Args[0].Typ)), "MonitoredItem")
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case isLock(ci, "Lock"):
				st.Set("held", one(x))
				if st.Has("gave up") {
					st.Set("again", one(x))
				}
			case isLock(ci, "Unlock"):
				for _, k := range []string{"held", "again", "node", "mode", "interval"} {
					st.Del(k)
				}
				st.Set("gave up", one(x))
			case attach[ci.Name]:
				if !st.Has("held") {
					bad("attaches", ci.Instr, "attaches an item to what it observes without holding the lock of the item: a deletion in between leaves it attached for ever", st)
					break
				}
				ok := true
				if st.Has("again") {
					what := map[string]string{"node": "is deleted", "mode": "was disabled"}
					if ci.Name == "server.PollGroup.Subscribe" {
						what["interval"] = "has another sampling interval"
					}
					for _, k := range sortedKeys(what) {
						if !st.Has(k) {
							ok = false
							bad("attaches "+k, ci.Instr, "gives up the lock of an item and then attaches it without looking whether it meanwhile "+what[k], st)
						}
					}
				}
				if ok {
					r.Ob("attached", fn+" attaches at "+p.InstrPos(ci.Instr))
				}
			case detach[ci.Name]:
				if st.Has("held") {
					r.Ob("attached", fn+" detaches at "+p.InstrPos(ci.Instr))
				} else {
					bad("detaches", ci.Instr, "detaches an item from what it observes without holding the lock of the item: a change in between attaches it again", st)
				}
			}
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || !st.Has("held") {
				return
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok && strings.HasSuffix(TypeName(derefType(fa.X.Type())), "MonitoredItem") {
				switch fieldName(fa.X.Type(), fa.Field) {
				case "samplingInterval", "ti":
					st.Set("interval", one(x))
				}
			}
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			if !st.Has("held") {
				return
			}
			cd, tk := NormCond(cond, taken)
			if cd == nil {
				return
			}
			if a, b, eq, ok := CmpOf(cd, tk); ok {
				if !eq && (mentions(a, "node") || mentions(b, "node")) {
					st.Set("node", one(x))
				}
				if mentions(a, "monitoringMode") || mentions(b, "monitoringMode") {
					st.Set("mode", one(x))
				}
				if !eq && (mentions(a, "samplingInterval") || mentions(b, "samplingInterval") || mentions(a, "ti") || mentions(b, "ti")) {
					st.Del("interval")
				}
			}
			// the node is of the kind wanted: not nil
			if cd.Op == "extract" && cd.Name == "1" && tk && cd.Args[0].Op == "assert" && mentions(cd.Args[0], "node") {
				st.Set("node", one(x))
			}
		}
		x := NewExec(p, h)
		x.Run(root, nil)
		r.Saw(x)
	}
}
