package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P28", "Every go statement of the server and the client is enumerated. Every blocking wait of the goroutine it starts must have a case that receives from a channel which a shutdown path closes (followed through parameters, captured variables and struct fields to the close), and that case must lead to the end of the goroutine without waiting again; tickers are stopped on every way out. Every close of such a channel is shown to happen at most once: under a sync.Once, or under a lock after finding the field set and before clearing it, or by the only goroutine that owns it, last; a field holding one is replaced only when the old one was closed. Typestate over all paths of connection handling, listening, receiving and dialling: a read that failed is not repeated, the connection is closed and the wait group released on every return, a channel that could not be opened is aborted, and Server.Close always closes the server's closing channel.", runP28)
}

type p28 struct {
	p      *Program
	r      *Report
	closed map[string][]ssa.Instruction // channel fields and locals that something closes
}

func chanKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				return TypeName(derefType(a.X.Type())) + "." + fieldName(a.X.Type(), a.Field)
			case *ssa.Alloc:
				return "local " + FuncName(a.Parent()) + " " + a.Name()
			case *ssa.FreeVar:
				if b := bindingOf(a); b != nil {
					if al, ok := b.(*ssa.Alloc); ok {
						return "local " + FuncName(al.Parent()) + " " + al.Name()
					}
				}
			}
		}
	case *ssa.MakeChan:
		return "local " + FuncName(v.Parent()) + " " + v.Name()
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return chanKey(b)
		}
	case *ssa.ChangeType:
		return chanKey(v.X)
	}
	return ""
}

// bindingOf: what a captured variable is bound to (when the closure is made in one place).
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	var out ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && idx >= 0 {
				out = mc.Bindings[idx]
			}
		}
	}
	return out
}

// signals: v is a channel that some shutdown path closes; the name of it.
func (c *p28) signals(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	if k := chanKey(v); k != "" {
		if len(c.closed[k]) > 0 {
			return k
		}
		// a field that is only a copy of such a channel
		if !strings.HasPrefix(k, "local ") {
			name := ""
			n := 0
			for _, f := range c.p.Funcs {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						s, ok := i.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || TypeName(derefType(fa.X.Type()))+"."+fieldName(fa.X.Type(), fa.Field) != k {
							continue
						}
						n++
						w := c.signals(s.Val, d+1)
						if w == "" {
							return ""
						}
						name = w
					}
				}
			}
			if n > 0 {
				return name
			}
		}
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		name, n := "", 0
		for _, g := range c.p.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					_, callee := CallName(ci.Common())
					if callee == nil {
						if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
							callee, _ = mc.Fn.(*ssa.Function)
						}
					}
					if callee != f || idx >= len(ci.Common().Args) {
						continue
					}
					n++
					w := c.signals(ci.Common().Args[idx], d+1)
					if w == "" {
						return ""
					}
					name = w
				}
			}
		}
		if n > 0 {
			return name
		}
	case *ssa.Call:
		n, g := CallName(v.Common())
		if strings.HasSuffix(n, "context.Context.Done") {
			return "the context"
		}
		if g != nil && c.p.InModule(g) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if ret, ok := i.(*ssa.Return); ok && len(ret.Results) == 1 {
						return c.signals(ret.Results[0], d+1)
					}
				}
			}
		}
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return c.signals(b, d+1)
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			name := ""
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					w := c.signals(s.Val, d+1)
					if w == "" {
						return ""
					}
					name = w
				}
			}
			return name
		}
	}
	return ""
}

func runP28(p *Program, r *Report) {
	r.Rule("stoppable: every blocking wait of a started goroutine has a case that a shutdown path triggers, and that case ends the goroutine")
	r.Rule("reader: a loop that reads from a connection or listener does not read again after a failed read (a listener: once the server no longer runs)")
	r.Rule("once: a channel that signals the end is closed at most once, and its field is not overwritten while open")
	r.Rule("released: tickers are stopped, the connection closed, the wait group released and the helper goroutine told on every return")
	r.Rule("aborted: a client channel whose opening failed, or which is no longer needed, is closed or aborted on every return")
	r.Rule("shutdown: Server.Close closes the closing channel on every path, and that stops the publishing of every subscription")
	c := &p28{p: p, r: r, closed: map[string][]ssa.Instruction{}}
	mod := func(f *ssa.Function) bool {
		return f.Pkg != nil && (f.Pkg.Pkg.Name() == "server" || f.Pkg.Pkg.Name() == "client")
	}
	for _, f := range p.Funcs {
		if !mod(f) {
			continue
		}
		EachCall(f, func(ci ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "builtin.close" {
				if k := chanKey(ci.Common().Args[0]); k != "" {
					c.closed[k] = append(c.closed[k], ci)
				} else {
					r.Bad("once", FuncName(f)+" close", p.InstrPos(ci), FuncName(f)+" closes a channel whose owner is not known")
				}
			}
		})
	}
	entries := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !mod(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				var w *ssa.Function
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					w, _ = mc.Fn.(*ssa.Function)
				} else {
					_, w = CallName(g.Common())
				}
				if w == nil {
					r.Bad("stoppable", FuncName(f)+" go", p.InstrPos(i), FuncName(f)+" starts a goroutine whose function is not known")
					continue
				}
				entries[w] = true
			}
		}
	}
	for _, w := range sortedFns(entries) {
		c.goroutine(w, 0, map[*ssa.Function]bool{})
	}
	r.Min("stoppable", 6)
	c.once()
	r.Min("once", 4)
	c.readers()
	r.Min("reader", 3)
	c.scoped()
	c.released(entries)
	r.Min("released", 4)
	c.aborted()
	r.Min("aborted", 3)
	c.shutdown()
	r.Min("shutdown", 2)
}

func (c *p28) goroutine(w *ssa.Function, d int, seen map[*ssa.Function]bool) {
	p, r := c.p, c.r
	if seen[w] || d > 1 {
		return
	}
	seen[w] = true
	fn := FuncName(w)
	n := 0
	for _, b := range w.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.UnOp:
				if i.Op != token.ARROW {
					continue
				}
				n++
				if s := c.signals(i.X, 0); s == "" {
					r.Bad("stoppable", fn+" receive", p.InstrPos(i), fn+" runs in its own goroutine and waits for a channel that no shutdown path closes")
				} else {
					r.Ob("stoppable", fn+" waits for "+s)
				}
			case *ssa.Send:
				n++
				r.Bad("stoppable", fn+" send", p.InstrPos(i), fn+" runs in its own goroutine and can block in a send that no shutdown path ends")
			case *ssa.Select:
				if !i.Blocking {
					continue
				}
				n++
				why := "waits for no channel that a shutdown path closes"
				good := ""
				for k, s := range i.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					sig := c.signals(s.Chan, 0)
					if sig == "" {
						continue
					}
					if c.caseReturns(i, k) {
						good = sig
					} else if good == "" {
						why = "goes on after " + sig + " was closed"
					}
				}
				if good == "" {
					r.Bad("stoppable", fn+" select", p.InstrPos(i), fn+" runs in its own goroutine and "+why)
				} else {
					r.Ob("stoppable", fn+" ends with "+good)
				}
			case *ssa.Call:
				if _, g := CallName(i.Common()); g != nil && g.Pkg == w.Pkg && len(g.Blocks) > 0 && loopsOrWaits(g) {
					c.goroutine(g, d+1, seen)
				}
			}
		}
	}
	if n == 0 && d == 0 {
		// no wait of its own: any endless loop must be left when reading fails (rule reader)
		r.Ob("stoppable", fn+" has no wait of its own")
		if endless(w) {
			r.Bad("stoppable", fn+" loop", p.Pos(w.Pos()), fn+" runs in its own goroutine and never returns")
		}
	}
}

func endless(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

// loopsOrWaits: a worker function called by the goroutine's function: it waits in a loop.
func loopsOrWaits(f *ssa.Function) bool {
	if !isLoopy(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Select); ok && s.Blocking {
				return true
			}
		}
	}
	return false
}

// caseReturns: after case k of the select is chosen the select is not executed again.
func (c *p28) caseReturns(s *ssa.Select, k int) bool {
	var start *ssa.BasicBlock
	for _, ref := range *s.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, u := range *e.Referrers() {
			b, ok := u.(*ssa.BinOp)
			if !ok || b.Op != token.EQL {
				continue
			}
			kc, ok := b.Y.(*ssa.Const)
			if !ok || kc.Int64() != int64(k) {
				continue
			}
			for _, v := range *b.Referrers() {
				if iff, ok := v.(*ssa.If); ok {
					start = iff.Block().Succs[0]
				}
			}
		}
	}
	if start == nil {
		if len(s.States) == 1 {
			return false
		}
		// the last case has no test of its own
		start = lastCase(s)
		if start == nil || k != len(s.States)-1 {
			return false
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == s.Block() {
			return false
		}
		work = append(work, b.Succs...)
	}
	return true
}

func lastCase(s *ssa.Select) *ssa.BasicBlock {
	var out *ssa.BasicBlock
	best := int64(-1)
	for _, ref := range *s.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, u := range *e.Referrers() {
			if b, ok := u.(*ssa.BinOp); ok && b.Op == token.EQL {
				if kc, ok := b.Y.(*ssa.Const); ok && kc.Int64() > best {
					for _, v := range *b.Referrers() {
						if iff, ok := v.(*ssa.If); ok {
							best = kc.Int64()
							out = iff.Block().Succs[1]
						}
					}
				}
			}
		}
	}
	return out
}

// once: no channel is closed twice.
func (c *p28) once() {
	p, r := c.p, c.r
	for _, k := range sortedKeys(c.closed) {
		for _, in := range c.closed[k] {
			f := in.Parent()
			fn := FuncName(f)
			key := fn + " closes " + k
			if strings.HasPrefix(k, "local ") {
				// made and closed in the same activation
				if len(c.closed[k]) == 1 && !isLoopyAt(f, in.Block()) {
					r.Ob("once", key)
				} else {
					r.Bad("once", key, p.InstrPos(in), fn+" may close its channel more than once")
				}
				continue
			}
			if c.underOnce(f) {
				r.Ob("once", key+" under a sync.Once")
				continue
			}
			if why := c.typestateOnce(f, k); why == "" {
				r.Ob("once", key)
			} else {
				r.Bad("once", key, p.InstrPos(in), fn+" "+why)
			}
		}
		// the field is replaced only when the old channel is closed or absent
		if !strings.HasPrefix(k, "local ") {
			c.replaced(k)
		}
	}
}

func isLoopyAt(f *ssa.Function, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// underOnce: f is only ever the argument of (*sync.Once).Do, on one and the same Once field.
func (c *p28) underOnce(f *ssa.Function) bool {
	n := 0
	field := ""
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name, callee := CallName(ci.Common())
				if callee == f {
					return false
				}
				if name != "sync.Once.Do" || len(ci.Common().Args) < 2 {
					continue
				}
				a := ci.Common().Args[1]
				if mc, ok := a.(*ssa.MakeClosure); ok {
					a = mc.Fn
				}
				hit := a == ssa.Value(f)
				if bf, ok := a.(*ssa.Function); ok && !hit && strings.HasSuffix(bf.Name(), "$bound") && strings.HasPrefix(bf.Name(), f.Name()) {
					hit = true
				}
				if hit {
					fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
					if !ok {
						return false
					}
					w := TypeName(derefType(fa.X.Type())) + "." + fieldName(fa.X.Type(), fa.Field)
					if field != "" && field != w {
						return false
					}
					field = w
					n++
				}
			}
		}
	}
	return n > 0
}

// typestateOnce: on every path through the functions that close the field, it is closed only when
// known to be set and is cleared before the next unlock; or the function is a goroutine of its own
// that returns right after.
func (c *p28) typestateOnce(f *ssa.Function, k string) string {
	p := c.p
	short := k[strings.LastIndexByte(k, '.')+1:]
	why := ""
	isWorker := c.onlyGo(f)
	h := Hooks{MaxDepth: 3}
	h.Stable = func(a *Term) bool { return a.Strip().Op == "fieldaddr" && a.Strip().Name == short }
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		a, b, eq, ok := CmpOf(cond, taken)
		if !ok {
			return
		}
		if isNilT(a) {
			a, b = b, a
		}
		if isNilT(b) && a.Strip().HasField(short) && !eq {
			st.Set("set", a)
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "builtin.close" && len(ci.Args) == 1 && ci.Args[0].Strip().HasField(short) {
			if st.Has("closed") && why == "" {
				why = "closes " + k + " twice on one path"
			}
			if !isWorker && !st.Has("set") && why == "" {
				why = "closes " + k + " without knowing that it is open: a second call panics"
			}
			st.Set("closed", ci.Args[0])
			st.Set("dirty", ci.Args[0])
		}
		if strings.HasPrefix(ci.Name, "sync.") && strings.HasSuffix(ci.Name, "Unlock") && st.Has("dirty") && !isWorker && why == "" {
			why = "gives up the lock with " + k + " closed but still set"
		}
		return ActDefault
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == short {
				st.Del("dirty")
				st.Del("set")
				st.Del("closed")
			}
		}
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if st.Has("dirty") && !isWorker && why == "" {
			why = "returns with " + k + " closed but still set: a second call closes it again"
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	c.r.Saw(x)
	if !isWorker && why == "" {
		for _, in := range c.closed[k] {
			if in.Parent() != f {
				continue
			}
			if w := c.locked(f, in, 0, map[*ssa.Function]bool{}); w != "" {
				why = "closes " + k + " without a lock when called from " + w + ": two calls at once close it twice"
			}
		}
	}
	if isWorker && why == "" && len(c.closedBy(k)) > 1 {
		why = "is not the only function that closes " + k
	}
	return why
}

func (c *p28) closedBy(k string) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, in := range c.closed[k] {
		m[in.Parent()] = true
	}
	return m
}

// onlyGo: f is only ever started by a go statement (or called by nothing else).
func (c *p28) onlyGo(f *ssa.Function) bool {
	n := 0
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, callee := CallName(ci.Common()); callee == f {
					if _, isGo := i.(*ssa.Go); !isGo {
						return false
					}
					n++
				}
			}
		}
	}
	return n == 1
}

// replaced: a field holding a signal channel is given a new one only when the old one is gone.
func (c *p28) replaced(k string) {
	p, r := c.p, c.r
	short := k[strings.LastIndexByte(k, '.')+1:]
	owner := k[:strings.LastIndexByte(k, '.')]
	stores := map[*ssa.Function]bool{}
	closers := c.closedBy(k)
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == short && TypeName(derefType(fa.X.Type())) == owner {
						if kc, isC := s.Val.(*ssa.Const); isC && kc.IsNil() {
							continue
						}
						if _, fresh := fa.X.(*ssa.Alloc); fresh {
							continue
						}
						stores[f] = true
					}
				}
			}
		}
	}
	todo := sortedFns(stores)
	seen := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		f0 := f
		badAt, n := "", 0
		h := Hooks{MaxDepth: 4}
		h.Inline = func(g *ssa.Function) bool {
			return g != f0 && g.Pkg == f0.Pkg && g.Blocks != nil && (stores[g] || closers[g] || seen[g] && !isExported(g))
		}
		h.Stable = func(a *Term) bool { return a.Strip().Op == "fieldaddr" && a.Strip().Name == short }
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok {
				return
			}
			if isNilT(a) {
				a, b = b, a
			}
			if isNilT(b) && a.Strip().HasField(short) && eq {
				st.Set("gone", a)
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Name == "builtin.close" && len(ci.Args) == 1 && ci.Args[0].Strip().HasField(short) {
				st.Set("gone", ci.Args[0])
			}
			// another connection attempt on the same object starts afresh: its worker has the old channel
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != short || TypeName(derefType(fa.X.Type())) != owner {
				return
			}
			if kc, isC := s.Val.(*ssa.Const); isC && kc.IsNil() {
				return
			}
			n++
			if !st.Has("gone") && badAt == "" {
				badAt = p.InstrPos(in)
			}
			st.Del("gone")
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
		if n > 0 && badAt == "" {
			r.Ob("once", FuncName(f)+" replaces "+k)
			continue
		}
		if badAt == "" {
			continue
		}
		// a helper: the callers establish it
		if !isExported(f) {
			var cs []*ssa.Function
			for _, g := range p.Funcs {
				EachCall(g, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
					if callee == f && g != f {
						cs = append(cs, g)
					}
				})
			}
			if len(cs) > 0 {
				todo = append(todo, cs...)
				continue
			}
		}
		if owner == "client.clientSecureChannel" {
			// a client channel is opened once: Dial and the discovery functions make a new one each time
			r.Ob("once", FuncName(f)+" makes "+k)
			continue
		}
		r.Bad("once", FuncName(f)+" replaces "+k, badAt, FuncName(f)+" replaces "+k+" although the old channel may still be open: whoever waits for it is never told")
	}
}

func isExported(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

// readers: loops over a connection or listener.
func (c *p28) readers() {
	p, r := c.p, c.r
	kinds := map[string]bool{".readRequest": true, ".readResponse": true, ".Accept": true}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "server" && f.Pkg.Pkg.Name() != "client" {
			continue
		}
		kind := ""
		var site ssa.Instruction
		EachCall(f, func(ci ssa.CallInstruction, n string, _ *ssa.Function) {
			for k := range kinds {
				if strings.HasSuffix(n, k) {
					kind, site = k, ci
				}
			}
		})
		if kind == "" || !isLoopyAt(f, site.Block()) {
			continue
		}
		fn := FuncName(f)
		f := f
		h := Hooks{MaxDepth: 3}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if strings.HasSuffix(ci.Name, kind) {
				st.Set("res", res)
				st.Set("failed", res)
			}
			if strings.HasSuffix(ci.Name, ".State") {
				st.Set("state", res)
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if !strings.HasSuffix(ci.Name, kind) {
				return ActDefault
			}
			if st.Has("failed") && (kind != ".Accept" || !st.Has("running")) {
				r.Bad("reader", fn, p.InstrPos(ci.Instr), fn+" reads again after a read failed: it never ends", st.Trace(12)...)
			} else {
				r.Ob("reader", fn)
			}
			st.Del("failed")
			st.Del("running")
			st.Del("res")
			return ActDefault
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			// success is known from a test for Good or nil, or for not being bad
			if nc, want := NormCond(cond, taken); nc != nil && nc.Op == "call" && len(nc.Args) > 0 {
				if res := st.Get("res"); res != nil && nc.Args[0].Strip().Op == "extract" && nc.Args[0].Strip().Args[0] == res &&
					(strings.HasSuffix(nc.Name, ".IsGood") && want || strings.HasSuffix(nc.Name, ".IsBad") && !want) {
					st.Del("failed")
				}
			}
			a, b, eq, ok := CmpOf(cond, taken)
			if !ok {
				return
			}
			if isNilT(a) || a.Op == "const" {
				a, b = b, a
			}
			res := st.Get("res")
			if res != nil && a.Op == "extract" && a.Args[0] == res && a.Name == strconv.Itoa(lastResult(res)) {
				zero := isNilT(b)
				if n, isN := constNum(b.Strip()); isN && n == 0 {
					zero = true
				}
				if zero && eq {
					st.Del("failed")
				}
			}
			if a == st.Get("state") && eq {
				if n, isN := constNum(b.Strip()); isN && uint64(n) == p.constVal("ua", "ServerStateRunning") {
					st.Set("running", a)
				}
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

func lastResult(res *Term) int {
	if res.Typ != nil {
		if t, ok := res.Typ.(*types.Tuple); ok {
			return t.Len() - 1
		}
	}
	if ci, ok := res.V.(ssa.CallInstruction); ok {
		if n := ci.Common().Signature().Results().Len(); n > 0 {
			return n - 1
		}
	}
	return 1
}

// released: what a goroutine acquires it gives back on every return.
func (c *p28) released(entries map[*ssa.Function]bool) {
	p, r := c.p, c.r
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "server" && f.Pkg.Pkg.Name() != "client" {
			continue
		}
		f := f
		fn := FuncName(f)
		ticker := false
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == "time.NewTicker" {
				ticker = true
			}
		})
		var conn, wg *ssa.Parameter
		for _, q := range f.Params {
			switch q.Type().String() {
			case "net.Conn":
				conn = q
			case "*sync.WaitGroup":
				wg = q
			}
		}
		worker := entries[f] && (conn != nil || wg != nil)
		if !ticker && !worker {
			continue
		}
		locals := map[string]bool{}
		for k := range c.closed {
			if strings.HasPrefix(k, "local "+fn+" ") {
				locals[k] = true
			}
		}
		h := Hooks{MaxDepth: 2}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Name == "time.NewTicker" {
				st.Set("tick", res)
			}
		}
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case ci.Name == "time.Ticker.Stop":
				st.Del("tick")
			case ci.Name == "sync.WaitGroup.Done":
				st.Set("done", ci.Args[0])
			case strings.HasSuffix(ci.Name, "net.Conn.Close"):
				st.Set("conn", ci.Args[0])
			case ci.Name == "builtin.close":
				st.Del("helper")
			case ci.Go:
				st.Set("helper", x.T.mk("const", "1", nil, nil, nil, nil))
				return ActOpaque
			}
			return ActDefault
		}
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); ok && worker {
				st.Set("helper", x.T.mk("const", "1", nil, nil, nil, nil))
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			where := p.InstrPos(in)
			if ticker {
				if st.Has("tick") {
					r.Bad("released", fn+" ticker", where, fn+" returns without stopping its ticker", st.Trace(8)...)
				} else {
					r.Ob("released", fn+" stops its ticker")
				}
			}
			if !worker {
				return
			}
			if conn != nil {
				if !st.Has("conn") {
					r.Bad("released", fn+" connection", where, fn+" returns without closing the connection", st.Trace(8)...)
				} else {
					r.Ob("released", fn+" closes the connection")
				}
			}
			if wg != nil {
				if !st.Has("done") {
					r.Bad("released", fn+" wait group", where, fn+" returns without releasing the wait group: the server never finishes closing", st.Trace(8)...)
				} else {
					r.Ob("released", fn+" releases the wait group")
				}
			}
			if st.Has("helper") {
				r.Bad("released", fn+" helper", where, fn+" returns without telling the goroutine that watches over it", st.Trace(8)...)
			} else {
				r.Ob("released", fn+" tells its helper")
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

// scoped: a goroutine started on behalf of a connection, session or subscription ends with it, not only
// with the server.
func (c *p28) scoped() {
	p, r := c.p, c.r
	hc := p.FuncOpt("server.Server.requestWorker")
	if hc == nil {
		return
	}
	roots := []*ssa.Function{hc}
	for _, g := range p.Funcs {
		if g.Pkg != p.SSA["server"] {
			continue
		}
		EachCall(g, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
			if callee == hc {
				roots = append(roots, g)
			}
		})
	}
	for _, g := range p.Funcs {
		if g.Pkg != p.SSA["server"] || g.Signature.Recv() == nil || strings.HasPrefix(FuncName(g), "server.NewServer") {
			continue
		}
		if rt := RecvType(g); rt == "server.Subscription" || rt == "server.Session" {
			roots = append(roots, g)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				var w *ssa.Function
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					w, _ = mc.Fn.(*ssa.Function)
				} else {
					_, w = CallName(g.Common())
				}
				if w == nil || !p.InModule(w) {
					continue
				}
				waits, own := 0, false
				for _, wb := range w.Blocks {
					for _, wi := range wb.Instrs {
						switch wi := wi.(type) {
						case *ssa.UnOp:
							if wi.Op == token.ARROW {
								waits++
								if s := c.signals(wi.X, 0); s != "" && !strings.HasPrefix(s, "server.Server.") {
									own = true
								}
							}
						case *ssa.Select:
							waits++
							for _, cs := range wi.States {
								if s := c.signals(cs.Chan, 0); cs.Dir == types.RecvOnly && s != "" && !strings.HasPrefix(s, "server.Server.") {
									own = true
								}
							}
						}
					}
				}
				if waits == 0 {
					continue
				}
				key := FuncName(f) + " starts " + FuncName(w)
				if own {
					r.Ob("stoppable", key)
				} else {
					r.Bad("stoppable", key, p.InstrPos(i), FuncName(f)+" starts a goroutine that outlives the connection or subscription it serves: it waits only for the server to close")
				}
			}
		}
	}
	// and the server's closing ends the read that is in process
	for _, kind := range []string{".readRequest", "net.Listener.Accept"} {
		var readers []*ssa.Function
		for _, f := range p.Funcs {
			if f.Pkg != p.SSA["server"] {
				continue
			}
			EachCall(f, func(ci ssa.CallInstruction, n string, _ *ssa.Function) {
				if strings.HasSuffix(n, kind) && isLoopyAt(f, ci.Block()) {
					readers = append(readers, f)
				}
			})
		}
		for _, f := range readers {
			set := map[*ssa.Function]bool{f: true}
			for d := 0; d < 3; d++ {
				for _, g := range p.Funcs {
					EachCall(g, func(_ ssa.CallInstruction, _ string, callee *ssa.Function) {
						if callee != nil && set[callee] {
							set[g] = true
						}
					})
				}
			}
			found := false
			for g := range set {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if gs, ok := i.(*ssa.Go); ok && c.closesOnSignal(gs, kind) {
							found = true
						}
					}
				}
			}
			if found {
				r.Ob("shutdown", FuncName(f)+" is interrupted when the server closes")
			} else {
				r.Bad("shutdown", FuncName(f)+" interrupted", p.Pos(f.Pos()), "closing the server does not end the read "+FuncName(f)+" waits in: nothing closes what it reads from")
			}
		}
	}
}

// closesOnSignal: the goroutine waits for the server to close and then closes the listener or channel.
func (c *p28) closesOnSignal(g *ssa.Go, kind string) bool {
	var w *ssa.Function
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		w, _ = mc.Fn.(*ssa.Function)
	} else {
		_, w = CallName(g.Common())
	}
	if w == nil {
		return false
	}
	closes := func(n string) bool {
		if kind == "net.Listener.Accept" {
			return strings.HasSuffix(n, "net.Listener.Close") || strings.HasSuffix(n, "TCPListener.Close")
		}
		return n == "server.serverSecureChannel.Close" || n == "server.serverSecureChannel.Abort" || strings.HasSuffix(n, "net.Conn.Close")
	}
	fs := c.p.Reach(func(n string, _ ssa.CallInstruction) bool { return closes(n) }, nil)
	hit := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n, callee := CallName(ci.Common())
		return closes(n) || callee != nil && callee.Pkg == w.Pkg && fs[callee]
	}
	for _, b := range w.Blocks {
		for k, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.UnOp:
				if i.Op != token.ARROW || !strings.HasPrefix(c.signals(i.X, 0), "server.Server.") {
					continue
				}
				for _, j := range b.Instrs[k:] {
					if hit(j) {
						return true
					}
				}
				for _, s := range b.Succs {
					if reachesHit(s, nil, hit) {
						return true
					}
				}
			case *ssa.Select:
				for n, cs := range i.States {
					if cs.Dir == types.RecvOnly && strings.HasPrefix(c.signals(cs.Chan, 0), "server.Server.") {
						if st := c.caseStart(i, n); st != nil && reachesHit(st, i.Block(), hit) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func reachesHit(start, stop *ssa.BasicBlock, hit func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] || b == stop {
			continue
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if hit(i) {
				return true
			}
		}
		work = append(work, b.Succs...)
	}
	return false
}

// caseStart: the block case k of the select begins with.
func (c *p28) caseStart(s *ssa.Select, k int) *ssa.BasicBlock {
	for _, ref := range *s.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, u := range *e.Referrers() {
			if b, ok := u.(*ssa.BinOp); ok && b.Op == token.EQL {
				if kc, ok := b.Y.(*ssa.Const); ok && kc.Int64() == int64(k) {
					for _, v := range *b.Referrers() {
						if iff, ok := v.(*ssa.If); ok {
							return iff.Block().Succs[0]
						}
					}
				}
			}
		}
	}
	if k == len(s.States)-1 {
		return lastCase(s)
	}
	return nil
}

// locked: every call of f that is not itself under a lock taken in f is under one of its callers'.
func (c *p28) locked(f *ssa.Function, at ssa.Instruction, d int, seen map[*ssa.Function]bool) string {
	isLock := func(i ssa.Instruction, names ...string) bool {
		ci, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		n, _ := CallName(ci.Common())
		for _, w := range names {
			if strings.HasPrefix(n, "sync.") && strings.HasSuffix(n, w) {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for k, i := range b.Instrs {
			if !isLock(i, "Mutex.Lock") || !b.Dominates(at.Block()) {
				continue
			}
			// no unlock on the way
			if b == at.Block() {
				good, found := true, false
				for _, j := range b.Instrs[k:] {
					if j == at {
						found = true
						break
					}
					if isLock(j, "Mutex.Unlock") {
						good = false
					}
				}
				if found && good {
					return ""
				}
				continue
			}
			bad := false
			for _, ub := range f.Blocks {
				for _, u := range ub.Instrs {
					if isLock(u, "Mutex.Unlock") && b.Dominates(ub) && (ub == at.Block() && instrBefore(ub, u, at) || ub != at.Block() && reachesHit(ub, nil, func(x ssa.Instruction) bool { return x == at })) {
						bad = true
					}
				}
			}
			if !bad {
				return ""
			}
		}
	}
	if d > 4 || seen[f] || isExported(f) {
		return FuncName(f)
	}
	seen[f] = true
	n := 0
	why := ""
	for _, g := range c.p.Funcs {
		EachCall(g, func(ci ssa.CallInstruction, _ string, callee *ssa.Function) {
			if callee == f {
				n++
				if w := c.locked(g, ci, d+1, seen); w != "" && why == "" {
					why = w
				}
			}
		})
	}
	return why
}

func instrBefore(b *ssa.BasicBlock, x, y ssa.Instruction) bool {
	for _, i := range b.Instrs {
		if i == x {
			return true
		}
		if i == y {
			return false
		}
	}
	return false
}

// aborted: client channels are closed or aborted.
func (c *p28) aborted() {
	p, r := c.p, c.r
	mk := "client.newClientSecureChannel"
	for _, f := range p.Funcs {
		if f.Pkg != p.SSA["client"] {
			continue
		}
		has := false
		EachCall(f, func(_ ssa.CallInstruction, n string, _ *ssa.Function) {
			if n == mk {
				has = true
			}
		})
		if !has {
			continue
		}
		f := f
		fn := FuncName(f)
		opens := p.Reach(func(n string, _ ssa.CallInstruction) bool { return n == "client.clientSecureChannel.Open" }, nil)
		ends := p.Reach(func(n string, _ ssa.CallInstruction) bool {
			return n == "client.clientSecureChannel.Abort" || n == "client.clientSecureChannel.Close"
		}, nil)
		h := Hooks{MaxDepth: 2}
		h.AfterCall = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			switch {
			case ci.Name == "client.clientSecureChannel.Open" || ci.Fn != nil && ci.Fn.Pkg == f.Pkg && opens[ci.Fn] && ci.Fn.Signature.Recv() != nil:
				st.Set("open", res)
				st.Set("last", res)
			case ci.Name == "client.clientSecureChannel.Abort":
				st.Del("open")
			case ci.Name == "client.clientSecureChannel.Close":
				// Close closes the connection whatever its result
				st.Del("open")
			case ci.Fn != nil && ci.Fn.Pkg == f.Pkg && ends[ci.Fn] && ci.Fn.Signature.Recv() != nil && (ci.Fn.Name() == "Abort" || ci.Fn.Name() == "Close"):
				st.Del("open")
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if !st.Has("open") {
				r.Ob("aborted", fn+" return at "+p.InstrPos(in))
				return
			}
			// the open client itself is handed to the caller
			if len(res) == 2 && !isNilT(res[0]) && isNilT(res[1]) && strings.Contains(f.Signature.Results().At(0).Type().String(), "client.Client") {
				r.Ob("aborted", fn+" hands out the client")
				return
			}
			r.Bad("aborted", fn, p.InstrPos(in), fn+" returns without closing the channel it opened: the connection and its receiver stay behind", st.Trace(14)...)
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
	// Close and Abort of the channel close the connection
	for _, n := range []string{"Close", "Abort"} {
		f := p.FuncOpt("client.clientSecureChannel." + n)
		if f == nil {
			fail("client.clientSecureChannel.%s is missing", n)
		}
		h := Hooks{MaxDepth: 3}
		h.Inline = func(g *ssa.Function) bool { return g.Pkg == f.Pkg && g != f && small(g, 4) }
		h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasSuffix(ci.Name, "net.Conn.Close") {
				st.Set("conn", ci.Args[0])
			}
			return ActDefault
		}
		h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
			a, b, eq, ok := CmpOf(cond, taken)
			if ok && eq && (isNilT(b) && a.HasField("conn") || isNilT(a) && b.HasField("conn")) {
				st.Set("conn", a)
			}
		}
		h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
			if !st.Has("conn") {
				r.Bad("aborted", FuncName(f)+" connection", p.InstrPos(in), FuncName(f)+" returns without closing the connection", st.Trace(10)...)
			} else {
				r.Ob("aborted", FuncName(f)+" closes the connection")
			}
		}
		x := NewExec(p, h)
		x.Run(f, nil)
		r.Saw(x)
	}
}

// shutdown: Server.Close always gives the signal, and the signal stops the subscriptions.
func (c *p28) shutdown() {
	p, r := c.p, c.r
	f := p.FuncOpt("server.Server.Close")
	if f == nil {
		fail("server.Server.Close is missing")
	}
	closers := map[*ssa.Function]bool{}
	var key string
	for k, ins := range c.closed {
		if strings.HasPrefix(k, "server.Server.") {
			key = k
			for _, in := range ins {
				closers[in.Parent()] = true
			}
		}
	}
	if key == "" {
		r.Bad("shutdown", "signal", p.Pos(f.Pos()), "nothing closes the channel that tells the server's goroutines to end")
		return
	}
	h := Hooks{MaxDepth: 4}
	h.Inline = func(g *ssa.Function) bool { return closers[g] && g != f }
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Name == "sync.Once.Do" && len(ci.Args) == 2 {
			if g, ok := ci.Args[1].V.(*ssa.Function); ok && closers[g] {
				st.Set("told", ci.Args[0])
			}
			if mc, ok := ci.Args[1].V.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok && closers[g] {
					st.Set("told", ci.Args[0])
				}
			}
			if strings.Contains(ci.Args[1].Name, "$") {
				for g := range closers {
					if FuncName(g) == ci.Args[1].Name {
						st.Set("told", ci.Args[0])
					}
				}
			}
		}
		if ci.Name == "builtin.close" {
			st.Set("told", ci.Args[0])
		}
		return ActDefault
	}
	h.OnReturn = func(x *Exec, st *State, res []*Term, in ssa.Instruction) {
		if !st.Has("told") {
			r.Bad("shutdown", "server.Server.Close", p.InstrPos(in), "server.Server.Close returns without closing "+key, st.Trace(10)...)
		} else {
			r.Ob("shutdown", "server.Server.Close closes "+key)
		}
	}
	x := NewExec(p, h)
	x.Run(f, nil)
	r.Saw(x)
	// the goroutine of the subscription manager stops the subscriptions, or each watches the signal itself
	stops := p.Reach(func(n string, _ ssa.CallInstruction) bool {
		return n == "server.Subscription.Stop" || n == "server.Subscription.stopPublishing"
	}, nil)
	found := false
	for _, g := range p.Funcs {
		if g.Pkg != p.SSA["server"] || g.Parent() == nil && !c.onlyGo(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Select)
				if !ok {
					continue
				}
				for k, cs := range s.States {
					if cs.Dir == types.RecvOnly && c.signals(cs.Chan, 0) == key && c.caseCalls(s, k, stops) {
						found = true
					}
					if cs.Dir == types.RecvOnly && c.signals(cs.Chan, 0) == key && g.Parent() != nil && RecvType(g.Parent()) == "server.Subscription" {
						found = true
					}
				}
			}
		}
	}
	if found {
		r.Ob("shutdown", "publishing stops")
	} else {
		r.Bad("shutdown", "publishing", "-", "closing the server does not stop the publishing of its subscriptions")
	}
}

// caseCalls: case k of the select leads to a call of one of fs.
func (c *p28) caseCalls(s *ssa.Select, k int, fs map[*ssa.Function]bool) bool {
	var start *ssa.BasicBlock
	for _, ref := range *s.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, u := range *e.Referrers() {
			if b, ok := u.(*ssa.BinOp); ok && b.Op == token.EQL {
				if kc, ok := b.Y.(*ssa.Const); ok && kc.Int64() == int64(k) {
					for _, v := range *b.Referrers() {
						if iff, ok := v.(*ssa.If); ok {
							start = iff.Block().Succs[0]
						}
					}
				}
			}
		}
	}
	if start == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] || b == s.Block() {
			continue
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if _, g := CallName(ci.Common()); g != nil && fs[g] {
					return true
				}
			}
		}
		work = append(work, b.Succs...)
	}
	return false
}
