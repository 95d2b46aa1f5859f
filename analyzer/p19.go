package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", "Lockset analysis: for every field of every structure of the server that has a mutex, every read and write in the module with the mutexes of that same object that are held there on all paths and in all callers; objects not yet reachable for other goroutines are recognised and left out.", runP19)
}

// guarded structs: structs of server and client with a mutex among their fields
func mutexFields(t types.Type) (ms []string, st *types.Struct) {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		switch TypeName(st.Field(i).Type()) {
		case "sync.Mutex", "sync.RWMutex":
			ms = append(ms, st.Field(i).Name())
		}
	}
	return ms, st
}

type access19 struct {
	fn    *ssa.Function
	in    ssa.Instruction
	base  ssa.Value
	path  string
	write bool
	what  string
	fresh bool
	locks map[string]byte // mutex field of the same object -> mode
	inc   bool
}

type p19 struct {
	p     *Program
	r     *Report
	a     *lockAnalysis
	entry map[*ssa.Function]map[string]byte // path -> mode must-held at entry
	known map[*ssa.Function]bool
	// parameters that are an unpublished object at every call seen
	freshParam map[*ssa.Function]map[int]bool
	pubs       map[*ssa.Function]map[int]bool
	acc        map[string][]access19
	atomicF    map[string]bool
	returnsNew map[*ssa.Function]bool
	// closures all of whose calls are known
	knownClosure map[*ssa.Function]bool
}

func runP19(p *Program, r *Report) {
	c := &p19{p: p, r: r, entry: map[*ssa.Function]map[string]byte{}, known: map[*ssa.Function]bool{}, freshParam: map[*ssa.Function]map[int]bool{},
		pubs: map[*ssa.Function]map[int]bool{}, acc: map[string][]access19{}, atomicF: map[string]bool{}, returnsNew: map[*ssa.Function]bool{}, knownClosure: map[*ssa.Function]bool{}}
	c.a = newLockAnalysis(p)
	for _, f := range c.a.funcs {
		r.SawFn(f)
	}
	r.Rule("access: any write of a field and any other access of it, made where the object may be shared, hold a common mutex of the object, the write exclusively; containers (maps, slices, lists, queues) in a field count as part of it")
	r.Rule("immutable: a field written only while its object is not yet shared needs no lock; counter: a field that is only ever incremented or decremented by one is a diagnostic count and is left out")
	c.publishes()
	c.a.run()
	c.entries()
	c.collect()
	c.judge()
}

// ---- publication of a fresh object

// publishes computes, for each function and parameter, whether the parameter is stored, sent, captured
// by a goroutine or otherwise made reachable for others.
func (c *p19) publishes() {
	for ch := true; ch; {
		ch = false
		for _, f := range c.a.funcs {
			for i, pv := range f.Params {
				if c.pubs[f][i] {
					continue
				}
				if _, ok := pv.Type().Underlying().(*types.Pointer); !ok && !types.IsInterface(pv.Type()) {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c.publishing(in, pv) {
							if c.pubs[f] == nil {
								c.pubs[f] = map[int]bool{}
							}
							if !c.pubs[f][i] {
								c.pubs[f][i] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	// constructors: every return yields an object made in the function and not published
	for _, f := range c.a.funcs {
		if f.Signature.Results().Len() == 0 || len(f.Blocks) == 0 {
			continue
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		ok := true
		n := 0
		for _, b := range f.Blocks {
			if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				v := ret.Results[0]
				if k, is := v.(*ssa.Const); is && k.Value == nil {
					continue
				}
				al, is := v.(*ssa.Alloc)
				if !is || !c.freshAt(al, ret) {
					ok = false
				}
				n++
			}
		}
		if ok && n > 0 {
			c.returnsNew[f] = true
		}
	}
}

func (c *p19) publishing(in ssa.Instruction, v ssa.Value) bool {
	same := func(x ssa.Value) bool {
		for i := 0; i < 6; i++ {
			if x == v {
				return true
			}
			switch y := x.(type) {
			case *ssa.MakeInterface:
				x = y.X
			case *ssa.ChangeInterface:
				x = y.X
			case *ssa.ChangeType:
				x = y.X
			case *ssa.TypeAssert:
				x = y.X
			default:
				return false
			}
		}
		return false
	}
	switch s := in.(type) {
	case *ssa.Store:
		if !same(s.Val) {
			return false
		}
		// into a local cell or another fresh object of this function: not published by that alone
		root := s.Addr
		for {
			switch y := root.(type) {
			case *ssa.FieldAddr:
				root = y.X
				continue
			case *ssa.IndexAddr:
				root = y.X
				continue
			}
			break
		}
		_, local := root.(*ssa.Alloc)
		return !local
	case *ssa.MapUpdate:
		return same(s.Value) || same(s.Key)
	case *ssa.Send:
		return same(s.X)
	case *ssa.Go:
		for _, x := range s.Call.Args {
			if same(x) {
				return true
			}
		}
		if mc, ok := s.Call.Value.(*ssa.MakeClosure); ok {
			for _, x := range mc.Bindings {
				if same(x) || captures(x, v) {
					return true
				}
			}
		}
	case *ssa.MakeClosure:
		if onlyCalled(s) {
			return false
		}
		if goOnly(s) {
			return false // judged at the go statement
		}
		for _, x := range s.Bindings {
			if same(x) || captures(x, v) {
				return true
			}
		}
	case ssa.CallInstruction:
		cm := s.Common()
		fs, _, _ := c.a.callees(s)
		args := cm.Args
		if cm.IsInvoke() {
			args = append([]ssa.Value{cm.Value}, cm.Args...)
		}
		for i, x := range args {
			if !same(x) {
				continue
			}
			for _, g := range fs {
				if g.Blocks == nil || !c.p.InModule(g) {
					continue
				}
				if c.pubs[g][i] {
					return true
				}
			}
		}
	}
	return false
}

// captures: x is the cell of a variable holding v.
func captures(x, v ssa.Value) bool {
	al, ok := x.(*ssa.Alloc)
	if !ok {
		return false
	}
	return singleStore(al) == v
}

func goOnly(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if g, ok := r.(*ssa.Go); !ok || g.Call.Value != ssa.Value(mc) {
			return false
		}
	}
	return true
}

// freshAt: no instruction publishing v can execute before in.
func (c *p19) freshAt(v ssa.Value, in ssa.Instruction) bool {
	fn := in.Parent()
	var pubsIn []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if c.publishing(x, v) {
				pubsIn = append(pubsIn, x)
			}
		}
	}
	for _, x := range pubsIn {
		if x == in {
			continue
		}
		if before(x, in) {
			return false
		}
	}
	return true
}

// before: x may execute before y in the same call of their function.
func before(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		ix, iy := -1, -1
		for i, in := range x.Block().Instrs {
			if in == x {
				ix = i
			}
			if in == y {
				iy = i
			}
		}
		if ix < iy {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), x.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == y.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

// fresh: the object v refers to was made in this function (or by a constructor it called, or by every
// caller) and is not yet reachable for others at in.
func (c *p19) fresh(v ssa.Value, in ssa.Instruction) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			if s := singleStore(x); s != nil {
				if _, ok := derefType(x.Type()).Underlying().(*types.Pointer); ok {
					v = s
					continue
				}
			}
			return c.freshAt(x, in)
		case *ssa.Call:
			_, g := CallName(x.Common())
			return g != nil && c.returnsNew[g] && c.freshAt(x, in)
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
				_, g := CallName(call.Common())
				return g != nil && c.returnsNew[g] && c.freshAt(x, in)
			}
			return false
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q == x {
					return c.freshParam[x.Parent()][i] && c.freshAt(x, in)
				}
			}
			return false
		case *ssa.FieldAddr:
			v = x.X // embedded by value
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					if s := singleStore(al); s != nil {
						v = s
						continue
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- locks held on entry

func (c *p19) isRoot(f *ssa.Function) bool {
	if c.knownClosure[f] {
		return false
	}
	if c.a.goTarget[f] || c.a.callers[f] == 0 {
		return true
	}
	if c.a.isTaken[f] {
		return !c.knownClosure[f]
	}
	if f.Object() != nil && f.Object().Exported() {
		// exported methods of unexported types cannot be called from outside
		if rv := f.Signature.Recv(); rv != nil {
			if n, ok := derefType(rv.Type()).(*types.Named); ok && !n.Obj().Exported() {
				return false
			}
		}
		return true
	}
	return false
}

type site19 struct {
	caller *ssa.Function
	in     ssa.CallInstruction
	held   map[string]lockRef
	mc     *ssa.MakeClosure // the closure called, when it is one
	direct bool             // called here, so that the arguments are its parameters
	inner  *site19          // the call of the parameter inside the function the closure is passed to
}

// passedTo: every use of the closure is a call of it, or passing it to a function that calls it before
// returning; then its calls are known.
func (c *p19) passedTo(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if _, ok := r.(*ssa.Go); ok {
			return false
		}
		ci, ok := r.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if ci.Common().Value == ssa.Value(mc) {
			continue
		}
		if len(c.syncUse(ci, mc)) == 0 {
			return false
		}
	}
	return true
}

// syncUse: the calls the closure gets when it is passed to ci: ci itself for a library function that
// runs it at once, or the calls of the parameter inside a module function.
func (c *p19) syncUse(ci ssa.CallInstruction, mc *ssa.MakeClosure) []ssa.CallInstruction {
	mcs, _ := c.a.syncFuncArgs(ci)
	for _, m := range mcs {
		if m == mc {
			return []ssa.CallInstruction{ci}
		}
	}
	_, g := CallName(ci.Common())
	if g == nil || g.Blocks == nil || !c.p.InModule(g) || ci.Common().IsInvoke() {
		return nil
	}
	var out []ssa.CallInstruction
	for j, x := range ci.Common().Args {
		if x != ssa.Value(mc) || j >= len(g.Params) {
			continue
		}
		pv := g.Params[j]
		for _, r := range *pv.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				if u.Common().Value != ssa.Value(pv) {
					return nil
				}
				out = append(out, u)
			case *ssa.Defer:
				if u.Common().Value != ssa.Value(pv) {
					return nil
				}
				out = append(out, u)
			default:
				return nil
			}
		}
	}
	return out
}

func (c *p19) entries() {
	sites := map[*ssa.Function][]site19{}
	type pending struct {
		g  *ssa.Function
		st site19
		u  ssa.CallInstruction
	}
	var pend []pending
	inner := map[ssa.CallInstruction][]site19{}
	for _, f := range c.a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && c.passedTo(mc) {
					c.knownClosure[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	c.a.final = true
	c.a.onCall = func(fn *ssa.Function, in ssa.CallInstruction, h map[string]lockRef) {
		fs, mc, dyn := c.a.callees(in)
		cp := map[string]lockRef{}
		for k, v := range h {
			cp[k] = v
		}
		if dyn {
			if _, ok := in.Common().Value.(*ssa.Parameter); ok {
				inner[in] = append(inner[in], site19{caller: fn, in: in, held: cp})
			}
		}
		for _, g := range fs {
			if g.Blocks == nil || !c.p.InModule(g) || dyn {
				continue
			}
			sites[g] = append(sites[g], site19{caller: fn, in: in, held: cp, mc: mc, direct: true})
		}
		for _, x := range in.Common().Args {
			if m, ok := x.(*ssa.MakeClosure); ok && c.knownClosure[m.Fn.(*ssa.Function)] {
				for _, u := range c.syncUse(in, m) {
					st := site19{caller: fn, in: in, held: cp, mc: m}
					if u == in {
						pend = append(pend, pending{m.Fn.(*ssa.Function), st, nil})
					} else {
						pend = append(pend, pending{m.Fn.(*ssa.Function), st, u})
					}
				}
			}
		}
	}
	for _, f := range c.a.funcs {
		c.a.analyse(f)
	}
	c.a.onCall = nil
	for _, pd := range pend {
		if pd.u == nil {
			sites[pd.g] = append(sites[pd.g], pd.st)
			continue
		}
		for _, is := range inner[pd.u] {
			is := is
			st := pd.st
			st.inner = &is
			sites[pd.g] = append(sites[pd.g], st)
		}
	}
	// dynamic calls: option functions and the like, called with a fresh object
	dynFresh := map[*ssa.Function]map[int]bool{}
	for _, f := range c.a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				fs, _, dyn := c.a.callees(ci)
				if !dyn {
					continue
				}
				for _, g := range fs {
					for i, x := range ci.Common().Args {
						if _, ok := x.Type().Underlying().(*types.Pointer); !ok {
							continue
						}
						fr := c.fresh(x, ci)
						if dynFresh[g] == nil {
							dynFresh[g] = map[int]bool{}
						}
						if old, seen := dynFresh[g][i]; seen {
							fr = fr && old
						}
						dynFresh[g][i] = fr
					}
				}
			}
		}
	}
	for g, m := range dynFresh {
		for i, fr := range m {
			if fr && c.a.callers[g] == 0 && !c.a.goTarget[g] {
				if c.freshParam[g] == nil {
					c.freshParam[g] = map[int]bool{}
				}
				c.freshParam[g][i] = true
			}
		}
	}
	// greatest fixpoint: start from "everything" (unknown) and intersect
	for round := 0; round < 30; round++ {
		ch := false
		for _, g := range c.a.funcs {
			var cur map[string]byte
			first := true
			freshAll := map[int]bool{}
			for i := range g.Params {
				freshAll[i] = true
			}
			if c.isRoot(g) {
				cur = map[string]byte{}
				first = false
				freshAll = map[int]bool{}
				for i := range c.freshParam[g] {
					if c.a.callers[g] == 0 {
						freshAll[i] = c.freshParam[g][i]
					}
				}
			}
			type tr struct {
				m  map[string]byte
				fr map[int]bool
			}
			var trs []tr
			for _, s := range sites[g] {
				if !c.isRoot(s.caller) && !c.known[s.caller] {
					continue // not yet known: assume it does not restrict
				}
				m := map[string]byte{}
				all := map[string]byte{}
				for k, v := range s.held {
					all[k] = v.mode
				}
				for k, v := range c.entry[s.caller] {
					if _, ok := all[k]; !ok {
						all[k] = v
					}
				}
				cm := s.in.Common()
				if s.inner != nil {
					// what the function holds when it calls its parameter, in the caller's terms
					for k, v := range s.inner.held {
						all[c.a.subst(k, cm, nil)] = v.mode
					}
					for k, v := range c.entry[s.inner.caller] {
						if nk := c.a.subst(k, cm, nil); all[nk] == 0 {
							all[nk] = v
						}
					}
				}
				args := cm.Args
				if cm.IsInvoke() {
					args = append([]ssa.Value{cm.Value}, cm.Args...)
				}
				if !s.direct {
					args = nil
				}
				fr := map[int]bool{}
				if s.mc != nil {
					for i, x := range s.mc.Bindings {
						ap := c.a.path(x)
						for k, v := range all {
							if strings.HasPrefix(k, ap+".") {
								m[fmt.Sprintf("f%d", i)+k[len(ap):]] = v
							}
						}
					}
				}
				for i, x := range args {
					ap := c.a.path(x)
					for k, v := range all {
						if strings.HasPrefix(k, ap+".") {
							m[fmt.Sprintf("p%d", i)+k[len(ap):]] = v
						}
					}
					fr[i] = c.fresh(x, s.in)
				}
				trs = append(trs, tr{m, fr})
			}
			for _, t := range trs {
				for i := range freshAll {
					if !t.fr[i] {
						freshAll[i] = false
					}
				}
			}
			for _, t := range trs {
				isFr := func(path string) bool {
					var n int
					if _, err := fmt.Sscanf(path, "p%d.", &n); err == nil {
						return t.fr[n]
					}
					return false
				}
				if first {
					cur = map[string]byte{}
					for _, t2 := range trs {
						for k, v := range t2.m {
							if o, ok := cur[k]; !ok || o == 'W' && v == 'R' {
								cur[k] = v
							}
						}
					}
					first = false
				}
				for k, v := range cur {
					if isFr(k) {
						continue
					}
					nv, ok := t.m[k]
					if !ok {
						delete(cur, k)
					} else if nv == 'R' && v == 'W' {
						cur[k] = 'R'
					}
				}
			}
			if first {
				continue // unknown yet
			}
			nf := map[int]bool{}
			for i, v := range freshAll {
				if v && len(trs) > 0 || v && c.freshParam[g][i] && len(sites[g]) == 0 {
					nf[i] = true
				}
			}
			if !c.known[g] || fmt.Sprint(c.entry[g]) != fmt.Sprint(cur) || fmt.Sprint(c.freshParam[g]) != fmt.Sprint(nf) {
				ch = true
			}
			c.known[g] = true
			c.entry[g] = cur
			c.freshParam[g] = nf
		}
		if !ch {
			break
		}
	}
}

// ---- accesses

func (c *p19) collect() {
	c.a.onInstr = func(fn *ssa.Function, in ssa.Instruction, st *lockState) {
		fa, ok := in.(*ssa.FieldAddr)
		content, cw := ssa.Value(nil), false
		if !ok {
			content, cw = contentOf(in)
			if content == nil {
				return
			}
			if fa = containerField(content, 0); fa == nil {
				return
			}
		}
		ms, stt := mutexFields(fa.X.Type())
		if len(ms) == 0 {
			return
		}
		owner := TypeName(derefType(fa.X.Type()))
		if !strings.HasPrefix(owner, "server.") && !strings.HasPrefix(owner, "client.") || c.isChannel(owner) {
			return
		}
		f := stt.Field(fa.Field)
		switch TypeName(f.Type()) {
		case "sync.Mutex", "sync.RWMutex":
			return
		}
		if strings.HasPrefix(TypeName(f.Type()), "sync.") || strings.HasPrefix(TypeName(f.Type()), "atomic.") || strings.HasPrefix(f.Type().String(), "sync/atomic.") {
			return
		}
		key := owner + "." + f.Name()
		base := c.a.path(fa.X)
		locks := map[string]byte{}
		for _, m := range ms {
			if h, ok := st.held[base+"."+m]; ok {
				locks[m] = h.mode
			} else if v, ok := c.entry[fn][base+"."+m]; ok {
				if _, rel := st.rel[base+"."+m]; !rel {
					locks[m] = v
				}
			}
		}
		if content != nil {
			what := "content read"
			if cw {
				what = "content write"
			}
			if _, ok := in.(*ssa.Return); ok {
				// the caller gets the container itself and uses it without the lock
				what, locks = "container handed out", map[string]byte{}
			}
			c.acc[key] = append(c.acc[key], access19{fn, in, fa.X, base, cw, what, c.fresh(fa.X, in) || c.initPhase(fn), locks, false})
			return
		}
		w, what, inc, atom := classifyUse(c.p, fa, 0)
		if atom {
			c.atomicF[key] = true
			return
		}
		c.acc[key] = append(c.acc[key], access19{fn, in, fa.X, base, w, what, c.fresh(fa.X, in) || c.initPhase(fn), locks, inc})
	}
	for _, f := range c.a.funcs {
		c.a.analyse(f)
	}
	c.a.onInstr = nil
}

// contentOf: the container an instruction looks into or changes.
func contentOf(in ssa.Instruction) (ssa.Value, bool) {
	switch v := in.(type) {
	case *ssa.Lookup:
		return v.X, false
	case *ssa.Range:
		return v.X, false
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			return r.X, false
		}
	case *ssa.MapUpdate:
		return v.Map, true
	case *ssa.Return:
		if len(v.Results) == 1 {
			return v.Results[0], false
		}
	case *ssa.Call:
		n, _ := CallName(v.Common())
		if len(v.Common().Args) > 0 && !v.Common().IsInvoke() {
			switch n {
			case "builtin.delete":
				return v.Common().Args[0], true
			case "builtin.len":
				return v.Common().Args[0], false
			}
			if isContainer(v.Common().Args[0].Type()) {
				return v.Common().Args[0], !readOnlyCall(n)
			}
		}
	}
	return nil, false
}

// containerField: the field a map, list or queue was loaded from.
func containerField(v ssa.Value, depth int) *ssa.FieldAddr {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		_, isMap := x.Type().Underlying().(*types.Map)
		if !isMap && !isContainer(x.Type()) {
			return nil
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return y
		case *ssa.Alloc:
			if s := singleStore(y); s != nil {
				return containerField(s, depth+1)
			}
		}
	case *ssa.FieldAddr:
		if isContainer(x.Type()) {
			return x
		}
	}
	return nil
}

// classifyUse: what is done with the address of a field.
func classifyUse(p *Program, addr ssa.Value, depth int) (write bool, what string, inc, atomic bool) {
	what = "read"
	inc = true
	any := false
	for _, r := range *addr.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			if u.Addr == addr {
				write = true
				what = "write"
				any = true
				if !isIncrement(u.Val, addr) {
					inc = false
				}
				continue
			}
			write, what, inc = true, "address taken", false
		case *ssa.UnOp:
			// loaded: the content may be changed through it
			if w, h := contentUse(p, u, 0); w {
				write, what, inc = true, h, false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if depth < 4 {
				w, h, i2, a2 := classifyUse(p, r.(ssa.Value), depth+1)
				if a2 {
					atomic = true
				}
				if w {
					write, what = true, h
					if !i2 {
						inc = false
					}
					any = true
				}
			}
		case ssa.CallInstruction:
			n, _ := CallName(u.Common())
			if strings.HasPrefix(n, "atomic.") || strings.HasPrefix(n, "sync/atomic.") {
				atomic = true
				continue
			}
			if readOnlyCall(n) {
				continue
			}
			write, what, inc = true, "call "+n, false
		default:
			// slices, closures, interfaces
		}
	}
	if write && !any {
		inc = false
	}
	return
}

func isIncrement(v, addr ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return false
	}
	if bt, ok := b.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	k, ok := b.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.ExactString() != "1" {
		return false
	}
	u, ok := b.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok1 := u.X.(*ssa.FieldAddr)
	fb, ok2 := addr.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field
}

// contentUse: a container (map, slice, list, deque) loaded from a field is changed.
func contentUse(p *Program, v ssa.Value, depth int) (bool, string) {
	t := v.Type().Underlying()
	switch t.(type) {
	case *types.Map, *types.Slice, *types.Pointer:
	default:
		return false, ""
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			if u.Map == v {
				return true, "map update"
			}
		case *ssa.IndexAddr:
			for _, rr := range *u.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(u) {
					return true, "element write"
				}
			}
		case ssa.CallInstruction:
			n, g := CallName(u.Common())
			if n == "builtin.delete" && u.Common().Args[0] == v {
				return true, "delete"
			}
			if n == "builtin.copy" && u.Common().Args[0] == v {
				return true, "copy"
			}
			if g != nil && !p.InModule(g) && len(u.Common().Args) > 0 && u.Common().Args[0] == v && g.Signature.Recv() != nil && isContainer(v.Type()) && !readOnlyCall(n) {
				return true, "call " + n
			}
		}
	}
	return false, ""
}

func isContainer(t types.Type) bool {
	n := TypeName(derefType(t))
	return strings.HasPrefix(n, "list.") || strings.HasPrefix(n, "deque.") || strings.HasPrefix(n, "container/list.")
}

func readOnlyCall(n string) bool {
	s := shortName(n)
	switch s {
	case "Len", "Front", "Back", "At", "Cap", "Next", "Prev", "Index":
		return true
	}
	return false
}

// isChannel: the secure channels, whose state is partly confined to one goroutine, are decided by P08,
// P09, P21 and P23.
func (c *p19) isChannel(owner string) bool {
	return strings.HasSuffix(owner, "SecureChannel")
}

// initPhase: the function works for a server that is still being made.
func (c *p19) initPhase(fn *ssa.Function) bool {
	for i, q := range fn.Params {
		if TypeName(derefType(q.Type())) == "server.Server" && c.freshParam[fn][i] {
			return true
		}
	}
	return false
}

func (c *p19) judge() {
	guarded := 0
	for _, k := range sortedKeys(c.acc) {
		as := c.acc[k]
		var live []access19
		nw := 0
		for _, a := range as {
			if a.fresh {
				continue
			}
			live = append(live, a)
			if a.write {
				nw++
			}
		}
		if nw == 0 {
			c.r.Ob("immutable", k)
			continue
		}
		allInc := true
		for _, a := range live {
			if a.write && !a.inc {
				allInc = false
			}
		}
		if allInc {
			c.r.Ob("counter", k)
			continue
		}
		if c.atomicF[k] {
			c.r.Bad("mixed", k, c.p.InstrPos(live[0].in), k+" is accessed both with and without atomic operations")
			continue
		}
		guarded++
		for _, a := range live {
			c.r.Ob("access", k+"@"+FuncName(a.fn)+"@"+c.p.InstrPos(a.in))
		}
		cf := c.conflicts(live)
		if len(cf) == 0 {
			continue
		}
		// name the access that lacks what the others hold
		best, score := access19{}, -1
		cnt := map[ssa.Instruction]int{}
		by := map[ssa.Instruction]access19{}
		other := map[ssa.Instruction]access19{}
		for _, p := range cf {
			for i := range p {
				cnt[p[i].in]++
				by[p[i].in] = p[i]
				other[p[i].in] = p[1-i]
			}
		}
		for in, n := range cnt {
			s := n*2 - len(by[in].locks)*2
			if s > score || s == score && in.Pos() < best.in.Pos() {
				best, score = by[in], s
			}
		}
		o := other[best.in]
		c.r.Bad("access", k+" in "+FuncName(best.fn), c.p.InstrPos(best.in),
			fmt.Sprintf("%s (%s) of %s with %s, while %s at %s (%s) has %s: no lock in common that excludes the two", FuncName(best.fn), best.what, k, locksText(best.locks), FuncName(o.fn), c.p.InstrPos(o.in), o.what, locksText(o.locks)))
	}
	c.r.Min("access", 200)
	if guarded < 30 {
		c.r.Bad("access", "coverage", "", fmt.Sprintf("only %d guarded fields were found", guarded))
	}
}

func locksText(m map[string]byte) string {
	if len(m) == 0 {
		return "no lock"
	}
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, k+" "+modeName(m[k]))
	}
	return strings.Join(s, ", ")
}

// conflicts: pairs of a write and another access without a common lock.
func (c *p19) conflicts(live []access19) (out [][2]access19) {
	for i, w := range live {
		if !w.write {
			continue
		}
		for j, a := range live {
			if a.write && j < i {
				continue
			}
			ok := false
			for m, md := range w.locks {
				if ad, has := a.locks[m]; has && (md == 'W' || !a.write && ad == 'W') && (!a.write || ad == 'W') {
					ok = true
				}
			}
			if !ok {
				out = append(out, [2]access19{w, a})
			}
		}
	}
	return
}
