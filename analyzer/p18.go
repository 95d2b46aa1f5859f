package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P18", "Typestate over every path of every function that touches the notification queue of a monitored item (helpers expanded): a notification is appended only when the queue is known to hold fewer than its revised size; one is removed unread only from a full queue, at the front when the client asked to discard the oldest and at the back otherwise, and then the neighbouring value gets the overflow bit unless the queue holds at most one; whatever else is removed comes from the front and is handed to the caller in that order; the queue is emptied only when the item is disabled or deleted; changing the size trims the queue. In the publish cycle only reporting or triggered items are read, and every notification read goes into the message, under its item's client handle.", runP18)
}

const dqPre = "deque.Deque."

// itemQueue: t is (the address of) the notification queue of a monitored item.
func itemQueue(t *Term) *Term {
	if t == nil {
		return nil
	}
	t = t.Strip()
	if t.Op == "fieldaddr" && t.Name == "queue" {
		return t.Args[0]
	}
	return nil
}

func isItemQueueCall(c ssa.CallInstruction, name string) bool {
	if !strings.HasPrefix(name, dqPre) || len(c.Common().Args) == 0 {
		return false
	}
	fa, ok := c.Common().Args[0].(*ssa.FieldAddr)
	return ok && fieldName(fa.X.Type(), fa.Field) == "queue"
}

func runP18(p *Program, r *Report) {
	r.Rule("bounded: a notification is appended only while the queue holds fewer than its revised size; a smaller size trims the queue")
	r.Rule("policy: an unread notification is discarded only from a full queue, from the end the client chose")
	r.Rule("overflow: a discard marks the neighbouring value with the overflow bit, unless the queue holds at most one; nothing else sets it")
	r.Rule("order: notifications are appended at the back and delivered from the front, all of them")
	r.Rule("cleared: the queue is emptied only when the item is disabled or deleted")
	r.Rule("published: only reporting or triggered items are read, and everything read goes into the message under the item's client handle")
	in := map[*ssa.Function]bool{}
	owner := func(f *ssa.Function) string { return RecvType(f) }
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "server" {
			continue
		}
		EachCall(f, func(c ssa.CallInstruction, n string, _ *ssa.Function) {
			if isItemQueueCall(c, n) {
				in[f] = true
			}
		})
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "queueSize" {
						in[f] = true
					}
				}
			}
		}
	}
	called := map[*ssa.Function]bool{}
	for f := range in {
		EachCall(f, func(_ ssa.CallInstruction, _ string, g *ssa.Function) {
			if g != nil && in[g] && g != f {
				called[g] = true
			}
		})
	}
	roots := map[*ssa.Function]bool{}
	kinds := map[string]bool{}
	for f := range in {
		if !called[f] {
			roots[f] = true
		}
		if o := owner(f); o != "" {
			kinds[o] = true
		}
	}
	for _, f := range sortedFns(roots) {
		p.p18Queue(r, f, in)
	}
	if len(kinds) < 2 {
		fail("the monitored items with a queue are not recognised")
	}
	r.Min("bounded", 4)
	r.Min("policy", 4)
	r.Min("overflow", 2)
	r.Min("order", 2)
	r.Min("cleared", 2)
	p.p18Publish(r)
	r.Min("published", 4)
}

func (p *Program) p18Queue(r *Report, root *ssa.Function, in map[*ssa.Function]bool) {
	name := FuncName(root)
	bad := func(rule, what string, at ssa.Instruction, msg string, st *State) {
		r.Bad(rule, name+"/"+what, p.InstrPos(at), msg, st.Trace(8)...)
	}
	disabled := int64(p.constVal("ua", "MonitoringModeDisabled"))
	bits := p.constVal("ua", "Overflow") | p.constVal("ua", "InfoTypeDataValue")
	h := Hooks{MaxDepth: 6}
	known := func(f *ssa.Function) bool { return in[f] }
	h.Inline = func(f *ssa.Function) bool {
		return in[f] || f.Parent() != nil && in[f.Parent()] || f != root && p.leafHelper(f, root.Pkg, known, 0)
	}
	h.Stable = func(a *Term) bool { return a.Op == "fieldaddr" && a.Name == "queueSize" }
	size := func(x *Exec, st *State, mi *Term) *Term {
		a := x.T.mk("fieldaddr", "queueSize", []*Term{mi}, nil, nil, types.NewPointer(types.Typ[types.Uint32]))
		if v := x.Load(st, a, types.Typ[types.Uint32]); v != nil {
			return v.Strip()
		}
		return x.T.mk("load", "", []*Term{a}, nil, nil, types.Typ[types.Uint32])
	}
	isSize := func(x *Exec, st *State, mi, t *Term) bool {
		if mi == nil || t == nil {
			return false
		}
		t = t.Strip()
		s := size(x, st, mi)
		if t == s {
			return true
		}
		if a, ok := numConst(t); ok {
			if b, ok := numConst(s); ok {
				return a == b
			}
		}
		b, f := loadField(t)
		return f == "queueSize" && b == mi && !st.Has("resized")
	}
	lenOf := func(t *Term) *Term {
		t = t.Strip()
		if t.IsCall(dqPre+"Len") && len(t.Args) > 0 {
			return itemQueue(t.Args[0])
		}
		return nil
	}
	// the length of the queue has one value between two modifications
	version := func(x *Exec, st *State) *Term {
		if v := st.Get("version"); v != nil {
			return v
		}
		return x.Int(0)
	}
	length := func(x *Exec, st *State, q *Term) *Term {
		return x.T.mk("call", dqPre+"Len", []*Term{q, version(x, st)}, nil, nil, types.Typ[types.Int])
	}
	modified := func(x *Exec, st *State, ci *CallInfo) {
		n, _ := numConst(version(x, st))
		st.Set("version", x.Int(int(n+1)%4))
		x.kill(st, length(x, st, ci.Args[0].Strip()))
	}
	forget := func(st *State) {
		for _, k := range []string{"room", "full", "over", "fits"} {
			st.Del(k)
		}
	}
	// settle: a discard that was not reported
	settle := func(x *Exec, st *State, at ssa.Instruction) {
		if k := st.Get("needbit"); k != nil {
			bad("overflow", "unmarked", at, "a notification was discarded, but the value next to it in the queue is not marked with the overflow bit", st)
			st.Del("needbit")
		}
	}
	marked := func(x *Exec, v *Term) bool {
		s := x.fieldOf(v, "StatusCode", types.Typ[types.Uint32])
		var or func(t *Term) uint64
		or = func(t *Term) uint64 {
			if t == nil {
				return 0
			}
			t = t.Strip()
			if n, ok := numConst(t); ok {
				return uint64(n)
			}
			if t.Op == "conv" {
				return or(t.Args[0])
			}
			if t.Op == "bin" && t.Name == "|" {
				return or(t.Args[0]) | or(t.Args[1])
			}
			return 0
		}
		return or(s)&bits == bits
	}
	h.OnInstr = func(x *Exec, st *State, i ssa.Instruction) {
		s, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		a := x.Val(st, s.Addr)
		if a == nil || a.Op != "fieldaddr" {
			return
		}
		switch a.Name {
		case "discardOldest":
			st.Del("oldest")
		case "queueSize":
			if memRoot(a) == nil {
				st.Set("resized", a.Args[0])
				forget(st)
			}
		case "node":
			if isNilT(x.Val(st, s.Val)) {
				st.Set("deleted", x.Flag())
			}
		case "monitoringMode":
			if n, ok := numConst(x.Val(st, s.Val).Strip()); ok && n == disabled {
				st.Set("off", x.Flag())
			}
			st.Set("mode", x.Val(st, s.Val).Strip())
		}
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		c, tk := NormCond(cond, taken)
		if c == nil {
			return
		}
		if _, f := loadField(c); f == "discardOldest" {
			if o := st.Get("oldest"); o != nil && (o.Name == "true") != tk {
				st.dead = true // it was read before, on this path, and not set since
				return
			}
			st.Set("oldest", x.boolT(tk))
			return
		}
		if a, b, e, ok := CmpOf(c, tk); ok && e {
			for _, pr := range [][2]*Term{{a, b}, {b, a}} {
				if n, ok := numConst(pr[1].Strip()); ok && n == disabled {
					if _, f := loadField(pr[0]); f == "monitoringMode" || pr[0].Strip() == st.Get("mode") || pr[0].Strip().Op == "param" && TypeName(pr[0].Strip().Typ) == "ua.MonitoringMode" {
						st.Set("off", x.Flag())
					}
				}
			}
		}
		if c.Op != "bin" || len(c.Args) != 2 {
			return
		}
		l, rr, op := c.Args[0], c.Args[1], c.Name
		if lenOf(l) == nil && lenOf(rr) != nil {
			l, rr, op = rr, l, flip(op)
		}
		if !tk {
			op = negate(op)
		}
		// length + a op size + b: the constants moved to one side, and away
		if lb, a := plusConst(l); lenOf(lb) != nil {
			if rb, b := plusConst(rr); isSize(x, st, lenOf(lb), rb) {
				switch k := b - a; {
				case k == 0:
					l, rr = lb, rb
				case k == -1 && op == ">":
					l, rr, op = lb, rb, ">="
				case k == -1 && op == "<=":
					l, rr, op = lb, rb, "<"
				case k == 1 && op == "<":
					l, rr, op = lb, rb, "<="
				case k == 1 && op == ">=":
					l, rr, op = lb, rb, ">"
				}
			}
		}
		if mi := lenOf(l); mi != nil {
			if t := l.Strip(); len(t.Args) != 2 || t.Args[1] != version(x, st) {
				return // of an earlier time
			}
			if isSize(x, st, mi, rr) {
				is := func(k string) bool { return st.Get(k) == mi }
				if is("fits") && op == ">" || is("room") && (op == ">" || op == ">=" || op == "==") || is("full") && op == "<" || is("over") && (op == "<" || op == "<=" || op == "==") {
					st.dead = true
					return
				}
				forget(st)
				switch op {
				case "<":
					st.Set("room", mi)
					st.Set("fits", mi)
				case "<=":
					st.Set("fits", mi)
				case ">=":
					st.Set("full", mi)
				case ">":
					st.Set("over", mi)
				case "==":
					st.Set("full", mi)
					st.Set("fits", mi)
				}
			}
			if n, ok := numConst(rr.Strip()); ok && (op == "<=" && n <= 1 || op == "<" && n <= 2 || op == "==" && n <= 1) {
				st.Del("needbit")
			}
			return
		}
		// a queue of size one has no neighbour
		if _, f := loadField(l); f == "queueSize" {
			if n, ok := numConst(rr.Strip()); ok && (op == "<=" && n <= 1 || op == "<" && n <= 2 || op == "==" && n <= 1) {
				st.Del("needbit")
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "builtin.append" && len(ci.Args) > 1 {
			if v := st.Get("popped"); v != nil {
				for _, e := range appended(x, st, ci.Args[1]) {
					if e.Strip() == v {
						st.Del("popped")
						st.Set("out", x.T.mk("opaque", "appends", nil, nil, ci.Instr.(ssa.Value), nil))
					}
				}
			}
			return ActDefault
		}
		if !strings.HasPrefix(ci.Name, dqPre) || len(ci.Args) == 0 {
			return ActDefault
		}
		mi := itemQueue(ci.Args[0])
		if mi == nil {
			return ActDefault
		}
		at := name + " at " + p.InstrPos(ci.Instr)
		isValue := strings.Contains(ci.Args[0].Typ.String(), "DataValue")
		switch strings.TrimPrefix(ci.Name, dqPre) {
		case "Len":
			ci.Result = length(x, st, ci.Args[0].Strip())
		case "Cap", "Grow", "SetBaseCap", "Front", "Back", "At", "Index", "RIndex":
		case "PushBack":
			r.Ob("bounded", at)
			if st.Get("room") != mi {
				bad("bounded", "push", ci.Instr, "a notification is queued although the queue may already hold its revised size", st)
			}
			forget(st)
			modified(x, st, ci)
			st.Set("fits", mi)
			if k := st.Get("needbit"); k != nil {
				if st.Has("pushed") {
					settle(x, st, ci.Instr)
				} else {
					st.Set("pushed", x.Flag())
					if k.Name == "newest" && marked(x, ci.Args[1].Strip()) {
						st.Del("needbit")
					}
				}
			} else if isValue && ci.Args[1].Strip().Op == "struct" && marked(x, ci.Args[1].Strip()) {
				bad("overflow", "unfounded", ci.Instr, "a value is marked with the overflow bit although nothing was discarded", st)
			}
		case "PopFront", "PopBack":
			front := ci.Name == dqPre+"PopFront"
			modified(x, st, ci)
			if st.Has("popped") {
				bad("order", "lost", ci.Instr, "a notification is taken from the queue and lost", st)
				st.Del("popped")
			}
			if st.Get("full") == mi || st.Get("over") == mi {
				r.Ob("policy", at)
				o := st.Get("oldest")
				switch {
				case o == nil:
					bad("policy", "choice", ci.Instr, "a notification is discarded without regard to the discard policy", st)
				case (o.Name == "true") != front:
					bad("policy", "end", ci.Instr, "a notification is discarded from the other end of the queue than the client chose", st)
				}
				if isValue {
					if !st.Has("needbit") || st.Has("pushed") {
						settle(x, st, ci.Instr)
					}
					k := "newest"
					if front {
						k = "oldest"
					}
					r.Ob("overflow", at)
					st.Set("needbit", x.T.mk("const", k, nil, nil, nil, nil))
					st.Del("pushed")
				}
				full := st.Get("full") == mi
				forget(st)
				if full {
					// it held its revised size at most
					st.Set("room", mi)
					st.Set("fits", mi)
				}
				st.Set("discarded", x.Flag())
			} else {
				r.Ob("order", at)
				if !front {
					bad("order", "back", ci.Instr, "a notification is taken from the back of the queue", st)
				}
				st.Set("take", x.Flag())
				forget(st)
			}
		case "Set":
			r.Ob("overflow", at)
			k := st.Get("needbit")
			v := ci.Args[2].Strip()
			switch {
			case k == nil:
				bad("overflow", "overwritten", ci.Instr, "a queued value is overwritten although nothing was discarded", st)
			case !marked(x, v):
				bad("overflow", "bits", ci.Instr, "the value put back does not carry the overflow bit", st)
			case !samePlace(x, k.Name, v, ci.Args[1].Strip(), lenOf):
				bad("overflow", "place", ci.Instr, "the overflow bit is set in a value other than the one next to the discarded one", st)
			}
			st.Del("needbit")
			st.Del("pushed")
		case "Clear":
			r.Ob("cleared", at)
			st.Set("emptied", x.Flag())
			st.Del("needbit")
			modified(x, st, ci)
		default:
			bad("order", "operation", ci.Instr, "the queue of notifications is rearranged", st)
		}
		return ActDefault
	}
	h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if strings.HasPrefix(ci.Name, dqPre+"Pop") && st.Has("take") && res != nil {
			st.Del("take")
			st.Set("popped", res.Strip())
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		settle(x, st, at)
		if st.Has("popped") {
			bad("order", "lost", at, "a notification is taken from the queue and lost", st)
		}
		if o := st.Get("out"); o != nil {
			if len(res) == 0 || !flowsInto(o.V, res[0]) {
				bad("order", "kept back", at, "notifications taken from the queue are not handed to the caller", st)
			}
		}
		if st.Has("emptied") && !st.Has("off") && !st.Has("deleted") {
			bad("cleared", "alive", at, "the queue of an item that is neither disabled nor deleted is emptied", st)
		}
		if mi := st.Get("resized"); mi != nil {
			r.Ob("bounded", name+" resized at "+p.InstrPos(at))
			if st.Get("fits") != mi && !st.Has("emptied") {
				bad("bounded", "trim", at, "the queue may hold more than its new size", st)
			}
		}
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
}

// samePlace: v is the value at the end of the queue that lies next to the discarded one, put back at the same place.
// plusConst: t as base + n.
func plusConst(t *Term) (*Term, int64) {
	t = t.Strip()
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0].Strip()
	}
	if t.Op == "bin" && len(t.Args) == 2 && (t.Name == "+" || t.Name == "-") {
		if n, ok := numConst(t.Args[1].Strip()); ok {
			b, m := plusConst(t.Args[0])
			if t.Name == "-" {
				n = -n
			}
			return b, m + int64(n)
		}
		if n, ok := numConst(t.Args[0].Strip()); ok && t.Name == "+" {
			b, m := plusConst(t.Args[1])
			return b, m + int64(n)
		}
	}
	return t, 0
}

func samePlace(x *Exec, kind string, v, idx *Term, lenOf func(*Term) *Term) bool {
	val := x.fieldOf(v, "Value", nil)
	if val == nil {
		return false
	}
	base, _ := loadField(val)
	if base == nil {
		return false
	}
	base = base.Strip()
	last := func(t *Term) bool {
		t = t.Strip()
		if t.Op != "bin" || t.Name != "-" {
			return false
		}
		n, ok := numConst(t.Args[1])
		return ok && n == 1 && lenOf(t.Args[0]) != nil
	}
	n, isC := numConst(idx)
	if kind == "oldest" {
		if !isC || n != 0 {
			return false
		}
		if base.IsCall(dqPre + "Front") {
			return true
		}
		if base.IsCall(dqPre + "At") {
			m, ok := numConst(base.Args[1].Strip())
			return ok && m == 0
		}
		return false
	}
	if !last(idx) {
		return false
	}
	return base.IsCall(dqPre+"Back") || base.IsCall(dqPre+"At") && last(base.Args[1])
}

// p18Publish: how the publish cycle reads the items.
func (p *Program) p18Publish(r *Report) {
	const take = ".notifications"
	isTake := func(n string) bool {
		return strings.HasPrefix(n, "server.") && strings.HasSuffix(n, take) && strings.Contains(n, "MonitoredItem")
	}
	reporting := int64(p.constVal("ua", "MonitoringModeReporting"))
	reach := map[*ssa.Function]bool{}
	all := p.Reach(func(n string, _ ssa.CallInstruction) bool { return isTake(n) }, nil)
	called := map[*ssa.Function]bool{}
	for f := range all {
		if ownedBy(f) {
			reach[f] = true
		} else if f.Pkg != nil && f.Pkg.Pkg.Name() == "server" {
			direct := false
			EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) { direct = direct || isTake(n) })
			if direct {
				reach[f] = true
			}
		}
	}
	for f := range reach {
		EachCall(f, func(_ ssa.CallInstruction, _ string, g *ssa.Function) {
			if g != nil && g != f && reach[g] {
				called[g] = true
			}
		})
	}
	roots := map[*ssa.Function]bool{}
	for f := range reach {
		if !called[f] && f.Parent() == nil {
			direct := false
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function)
			walk = func(g *ssa.Function) {
				if seen[g] {
					return
				}
				seen[g] = true
				EachCall(g, func(_ ssa.CallInstruction, n string, h *ssa.Function) {
					direct = direct || isTake(n)
					if h != nil && reach[h] {
						walk(h)
					}
				})
			}
			walk(f)
			if direct {
				roots[f] = true
			}
		}
	}
	for _, root := range sortedFns(roots) {
		root := root
		name := FuncName(root)
		bad := func(what string, at ssa.Instruction, msg string, st *State) {
			r.Bad("published", name+"/"+what, p.InstrPos(at), msg, st.Trace(8)...)
		}
		h := Hooks{MaxDepth: 6}
		h.Inline = func(f *ssa.Function) bool { return reach[f] || f.Parent() != nil && reach[f.Parent()] }
		item := func(t *Term) *Term {
			t = t.Strip()
			for t.Op == "extract" && t.Name == "0" && t.Args[0].Op == "assert" || t.Op == "assert" {
				if t.Op == "extract" {
					t = t.Args[0]
				}
				t = t.Args[0].Strip()
			}
			return t
		}
		// source: the call of notifications an element comes from
		source := func(t *Term) (call, elem *Term) {
			t = t.Strip()
			for t.Op == "extract" || t.Op == "assert" {
				t = t.Args[0].Strip()
			}
			elem = t
			if t.Op == "load" {
				t = t.Args[0]
			}
			if t.Op != "indexaddr" && t.Op != "index" {
				return nil, nil
			}
			b := t.Args[0].Strip()
			if b.Op == "extract" {
				b = b.Args[0]
			}
			if b.Op == "call" && isTake(b.Name) {
				return b, elem
			}
			return nil, nil
		}
		leave := func(x *Exec, st *State, at ssa.Instruction) {
			if st.Has("pending") {
				bad("rest", at, "not all notifications read from an item are put into the message", st)
				st.Del("pending")
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case isTake(ci.Name):
				leave(x, st, ci.Instr)
				r.Ob("published", name+" read at "+p.InstrPos(ci.Instr))
				it := item(ci.Args[0])
				if st.Get("mayreport") != it {
					bad("mode", ci.Instr, "notifications are taken from an item that is neither reporting nor triggered", st)
				}
				return ActOpaque
			case ci.Name == "builtin.append" && len(ci.Args) > 1:
				for _, e := range appendedStructs(x, st, ci.Args[1]) {
					var val *Term
					switch typeNameOfTerm(e) {
					case "MonitoredItemNotification":
						val = structField(e, "Value")
					case "EventFieldList":
						val = structField(e, "EventFields")
					default:
						continue
					}
					r.Ob("published", name+" put at "+p.InstrPos(ci.Instr))
					call, elem := source(val)
					if call == nil {
						bad("value", ci.Instr, "the message carries a notification that was not taken from an item's queue", st)
						continue
					}
					ch := structField(e, "ClientHandle")
					if ch == nil || !ch.Strip().IsMethod("ClientHandle") || item(ch.Strip().Args[0]) != item(call.Args[0]) {
						bad("handle", ci.Instr, "a notification is reported under another item's client handle", st)
					}
					st.Set("put", elem)
				}
			}
			return ActDefault
		}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if isTake(ci.Name) && res != nil {
				st.Set("pending", res)
			}
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			c, tk := NormCond(cond, taken)
			if c == nil {
				return
			}
			if c.Op == "bin" && len(c.Args) == 2 {
				// the loop over what was read has ended
				l, rr, op := c.Args[0].Strip(), c.Args[1].Strip(), c.Name
				if lenTerm(l) != nil {
					l, rr, op = rr, l, flip(op)
				}
				if !tk {
					op = negate(op)
				}
				if la := lenTerm(rr); la != nil && (op == ">=" || op == "==") {
					b := la.Strip()
					if b.Op == "extract" && b.Args[0] == st.Get("pending") {
						st.Del("pending")
					}
				}
			}
			if a, b, e, ok := CmpOf(c, tk); ok && e {
				for _, pr := range [][2]*Term{{a, b}, {b, a}} {
					if n, ok := numConst(pr[1].Strip()); ok && n == reporting && pr[0].Strip().IsMethod("MonitoringMode") {
						st.Set("mayreport", item(pr[0].Strip().Args[0]))
					}
				}
			}
			if tk && c.IsMethod("Triggered") {
				st.Set("mayreport", item(c.Args[0]))
			}
			// what is not of the item's kind may be skipped
			if c.Op == "extract" && c.Name == "1" && !tk && c.Args[0].Op == "assert" {
				if _, el := source(c.Args[0]); el != nil {
					st.Set("put", el)
				}
			}
		}
		h.OnBlock = func(x *Exec, st *State, from, to *ssa.BasicBlock) {
			if !to.Dominates(from) || !st.Has("pending") {
				return
			}
			if st.Has("put") {
				st.Del("put")
				return
			}
			// going round without having put anything
			if loopReads(from, to) {
				bad("skipped", from.Instrs[len(from.Instrs)-1], "a notification read from an item is left out of the message", st)
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, at ssa.Instruction) { leave(x, st, at) }
		x := NewExec(p, h)
		x.Run(root, nil)
		r.Saw(x)
	}
}

// loopReads: the loop goes over a slice of notifications.
func loopReads(from, header *ssa.BasicBlock) bool {
	for b := range loopBody(header, from) {
		for _, i := range b.Instrs {
			if ia, ok := i.(*ssa.IndexAddr); ok {
				if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && types.IsInterface(s.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

// appendedStructs: the struct elements of the variable part of an append call.
func appendedStructs(x *Exec, st *State, s *Term) (out []*Term) {
	s = s.Strip()
	if s.Op != "slice" {
		return nil
	}
	b := s.Args[0].Strip()
	at, ok := derefType(b.Typ).(*types.Array)
	if !ok {
		return nil
	}
	for i := int64(0); i < at.Len(); i++ {
		idx := x.T.mk("const", strconv.FormatInt(i, 10), nil, nil, nil, types.Typ[types.Int])
		if v := x.Load(st, x.T.mk("indexaddr", "", []*Term{b, idx}, nil, nil, types.NewPointer(at.Elem())), at.Elem()); v != nil {
			out = append(out, v)
		}
	}
	return
}

// lenTerm: the argument of a call of len.
func lenTerm(t *Term) *Term {
	t = t.Strip()
	if t.IsCall("builtin.len") && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}
