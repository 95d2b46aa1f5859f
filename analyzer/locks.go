package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis: for every function, over all its paths, the set of locks held at each instruction,
// with locks named by access paths (parameter, free variable, global or local value, then fields).
// Callees are taken into account through summaries (locks acquired somewhere inside, locks held on
// return, locks released) translated to the caller's names; interface calls go to every
// implementation in the module, calls of function values to every function of that signature whose
// value is taken.

type lockRef struct {
	path  string // in the terms of the function the summary belongs to
	class string // struct type and field of the mutex
	mode  byte   // 'W' or 'R'
	where string
	// locks of the caller that are given up for the duration (released before, taken back after)
	without string
}

type lockSum struct {
	acq  map[string]lockRef // path|mode -> ref
	hold map[string]lockRef // held on every return
	rel  map[string]lockRef // released without having been acquired
}

type lockState struct {
	held   map[string]lockRef
	rel    map[string]lockRef
	defers []*ssa.Defer
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: map[string]lockRef{}, rel: map[string]lockRef{}, defers: append([]*ssa.Defer(nil), s.defers...)}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.rel {
		n.rel[k] = v
	}
	return n
}

func (s *lockState) key() string {
	var ks []string
	for k, v := range s.held {
		ks = append(ks, k+string(v.mode))
	}
	for k := range s.rel {
		ks = append(ks, "-"+k)
	}
	sort.Strings(ks)
	for _, d := range s.defers {
		ks = append(ks, fmt.Sprintf("d%d", d.Pos()))
	}
	return strings.Join(ks, ";")
}

type lockFinding struct{ rule, construct, where, msg string }

type lockEdge struct {
	from, to lockRef
	where    string
	fn       *ssa.Function
	via      string
}

type lockAnalysis struct {
	p        *Program
	sums     map[*ssa.Function]*lockSum
	retp     map[*ssa.Function]string
	taken    map[string][]*ssa.Function // functions whose value is taken, by signature
	isTaken  map[*ssa.Function]bool
	goTarget map[*ssa.Function]bool
	callers  map[*ssa.Function]int
	funcs    []*ssa.Function
	paths    map[ssa.Value]string
	onCall   func(fn *ssa.Function, in ssa.CallInstruction, held map[string]lockRef)
	onInstr  func(fn *ssa.Function, in ssa.Instruction, st *lockState)
	find     map[string]lockFinding
	edges    map[string]lockEdge
	nstates  int
	nlocks   map[ssa.Instruction]bool
	final    bool
	sites    map[*ssa.Function][]ssa.CallInstruction
	deps     map[*ssa.Function]map[*ssa.Function]bool // functions whose summary uses that of the key
	cur      *ssa.Function
}

func newLockAnalysis(p *Program) *lockAnalysis {
	a := &lockAnalysis{p: p, sums: map[*ssa.Function]*lockSum{}, retp: map[*ssa.Function]string{}, taken: map[string][]*ssa.Function{},
		isTaken: map[*ssa.Function]bool{}, goTarget: map[*ssa.Function]bool{}, callers: map[*ssa.Function]int{}, paths: map[ssa.Value]string{},
		find: map[string]lockFinding{}, edges: map[string]lockEdge{}, nlocks: map[ssa.Instruction]bool{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, deps: map[*ssa.Function]map[*ssa.Function]bool{}}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil && p.InModule(f) {
			seen[f] = true
			a.funcs = append(a.funcs, f)
		}
	}
	for _, f := range p.Funcs {
		add(f)
	}
	for i := 0; i < len(a.funcs); i++ {
		f := a.funcs[i]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var direct ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cm := c.Common()
					if !cm.IsInvoke() {
						direct = cm.Value
					} else {
						for _, g := range p.Implementors(cm.Method) {
							add(g)
						}
					}
					_, callee := CallName(cm)
					if callee != nil {
						add(callee)
						a.sites[callee] = append(a.sites[callee], c)
						if _, isGo := in.(*ssa.Go); isGo {
							a.goTarget[callee] = true
						} else {
							a.callers[callee]++
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == direct {
						continue
					}
					switch g := (*op).(type) {
					case *ssa.Function:
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
							// taken unless the closure is only called directly
							if !onlyCalled(mc) {
								a.isTaken[g] = true
								if !a.onlyPassedOut(mc) {
									a.take(g)
								}
							}
							add(g)
							continue
						}
						a.take(g)
						add(g)
					}
				}
			}
		}
	}
	return a
}

// onlyCalled: the closure value is used only as the callee of calls and defers in its function.
func onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		if _, ok := r.(*ssa.Go); ok {
			return false
		}
		if c.Common().Value != ssa.Value(mc) {
			return false
		}
		for _, x := range c.Common().Args {
			if x == ssa.Value(mc) {
				return false
			}
		}
	}
	return true
}

// onlyPassedOut: the closure is only handed to functions of other modules or started as a goroutine,
// so no call of a function value in this module can reach it.
func (a *lockAnalysis) onlyPassedOut(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if c.Common().Value == ssa.Value(mc) {
			continue
		}
		if c.Common().IsInvoke() {
			return false
		}
		f, ok := c.Common().Value.(*ssa.Function)
		if !ok || a.p.InModule(f) {
			return false
		}
	}
	return true
}

func (a *lockAnalysis) take(g *ssa.Function) {
	a.isTaken[g] = true
	s := sigKey(g.Signature)
	for _, h := range a.taken[s] {
		if h == g {
			return
		}
	}
	a.taken[s] = append(a.taken[s], g)
}

// sigKey identifies a signature by its parameter and result types only.
func sigKey(s *types.Signature) string {
	var sb strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		sb.WriteString(s.Params().At(i).Type().String() + ",")
	}
	if s.Variadic() {
		sb.WriteString("...")
	}
	sb.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		sb.WriteString(s.Results().At(i).Type().String() + ",")
	}
	return sb.String()
}

// path names a value (or the object an address refers to).
func (a *lockAnalysis) path(v ssa.Value) string {
	if s, ok := a.paths[v]; ok {
		return s
	}
	a.paths[v] = "v:" + v.Name() // recursion guard
	s := a.path1(v)
	if strings.Count(s, ".") > 7 {
		s = "v:" + v.Name()
	}
	a.paths[v] = s
	return s
}

func (a *lockAnalysis) path1(v ssa.Value) string {
	unk := "v:" + v.Name()
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				return fmt.Sprintf("f%d", i)
			}
		}
	case *ssa.Global:
		return "g:" + v.Pkg.Pkg.Name() + "/" + v.Name()
	case *ssa.Const:
		return "nil"
	case *ssa.UnOp:
		if v.Op.String() == "*" {
			switch x := v.X.(type) {
			case *ssa.FieldAddr:
				return a.path(x)
			case *ssa.FreeVar:
				return a.path(x)
			case *ssa.Global:
				return a.path(x)
			case *ssa.Alloc:
				if s := singleStore(x); s != nil {
					return a.path(s)
				}
			}
		}
	case *ssa.Alloc:
		// a captured variable: the cell stands for its only value
		if s := singleStore(v); s != nil {
			if _, ok := derefType(v.Type()).Underlying().(*types.Pointer); ok {
				return a.path(s)
			}
			if types.IsInterface(derefType(v.Type())) {
				return a.path(s)
			}
		}
		return unk
	case *ssa.FieldAddr:
		return a.path(v.X) + "." + fieldName(v.X.Type(), v.Field)
	case *ssa.Field:
		return a.path(v.X) + "." + fieldName(v.X.Type(), v.Field)
	case *ssa.ChangeType:
		return a.path(v.X)
	case *ssa.ChangeInterface:
		return a.path(v.X)
	case *ssa.MakeInterface:
		return a.path(v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return a.path(v.X)
		}
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return a.path(ta.X)
		}
	case *ssa.Phi:
		s := ""
		for _, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			t := a.path(e)
			if s != "" && t != s {
				return unk
			}
			s = t
		}
		if s != "" && !strings.HasPrefix(s, "v:") {
			return s
		}
	case *ssa.Call:
		_, callee := CallName(v.Common())
		if callee != nil && callee.Blocks != nil && callee.Signature.Results().Len() == 1 {
			if rp := a.retPath(callee); rp != "" {
				return a.subst(rp, v.Common(), nil)
			}
		}
	}
	return unk
}

func singleStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return val
}

// retPath: the access path, in terms of its parameters, every return of the function yields.
func (a *lockAnalysis) retPath(f *ssa.Function) string {
	if s, ok := a.retp[f]; ok {
		return s
	}
	a.retp[f] = ""
	if !a.p.InModule(f) || len(f.Blocks) > 6 {
		return ""
	}
	res := ""
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			v := r.Results[0]
			// results kept in a cell because of a defer
			s := a.path(v)
			if !strings.HasPrefix(s, "p") && !strings.HasPrefix(s, "g:") {
				return ""
			}
			if res != "" && res != s {
				return ""
			}
			res = s
		}
	}
	a.retp[f] = res
	return res
}

// subst translates a callee path into the caller's terms.
func (a *lockAnalysis) subst(path string, cm *ssa.CallCommon, mc *ssa.MakeClosure) string {
	head, rest := path, ""
	if i := strings.IndexByte(path, '.'); i >= 0 {
		head, rest = path[:i], path[i:]
	}
	var n int
	switch {
	case strings.HasPrefix(head, "g:"):
		return path
	case strings.HasPrefix(head, "p"):
		fmt.Sscanf(head[1:], "%d", &n)
		var args []ssa.Value
		if cm == nil {
			return "?" + rest
		}
		if cm.IsInvoke() {
			args = append([]ssa.Value{cm.Value}, cm.Args...)
		} else {
			args = cm.Args
		}
		if n < len(args) {
			return a.path(args[n]) + rest
		}
	case strings.HasPrefix(head, "f") && mc != nil:
		fmt.Sscanf(head[1:], "%d", &n)
		if n < len(mc.Bindings) {
			return a.path(mc.Bindings[n]) + rest
		}
	}
	return "?" + rest
}

func isUnknownPath(s string) bool { return strings.HasPrefix(s, "?") }

// lockOp classifies a call as an operation on a mutex.
func lockOp(cm *ssa.CallCommon) (op string, mu ssa.Value) {
	f, ok := cm.Value.(*ssa.Function)
	if !ok || len(cm.Args) == 0 {
		return "", nil
	}
	switch FuncName(f) {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		return "W+", cm.Args[0]
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		return "W-", cm.Args[0]
	case "sync.RWMutex.RLock":
		return "R+", cm.Args[0]
	case "sync.RWMutex.RUnlock":
		return "R-", cm.Args[0]
	}
	return "", nil
}

func lockClass(mu ssa.Value) string {
	switch m := mu.(type) {
	case *ssa.FieldAddr:
		return TypeName(derefType(m.X.Type())) + "." + fieldName(m.X.Type(), m.Field)
	case *ssa.Global:
		return m.Pkg.Pkg.Name() + "." + m.Name()
	case *ssa.UnOp:
		return lockClass(m.X)
	}
	return "local." + mu.Name()
}

// callees resolves a call to module functions; mc is the closure, when known.
func (a *lockAnalysis) callees(in ssa.CallInstruction) (fs []*ssa.Function, mc *ssa.MakeClosure, dyn bool) {
	cm := in.Common()
	if cm.IsInvoke() {
		return a.p.Implementors(cm.Method), nil, false
	}
	switch f := cm.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{f}, nil, false
	case *ssa.MakeClosure:
		return []*ssa.Function{f.Fn.(*ssa.Function)}, f, false
	case *ssa.Builtin:
		return nil, nil, false
	}
	s := cm.Value.Type().Underlying().(*types.Signature)
	// values made by other modules (a context's cancel function) are not module functions
	v := cm.Value
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	if c, ok := v.(*ssa.Call); ok {
		if _, cf := CallName(c.Common()); cf != nil && !a.p.InModule(cf) {
			return nil, nil, true
		}
	}
	if pv, ok := cm.Value.(*ssa.Parameter); ok {
		if gs, ok := a.argsFor(pv); ok {
			return gs, nil, true
		}
	}
	for _, g := range a.taken[sigKey(s)] {
		if g.Pkg == nil || in.Parent().Pkg == nil || g.Pkg == in.Parent().Pkg || g.Pkg.Pkg.Name() == "ua" {
			fs = append(fs, g)
		}
	}
	return fs, nil, true
}

// argsFor: the functions passed for a parameter, when every call of its function is known and passes
// a function or a closure outright.
func (a *lockAnalysis) argsFor(pv *ssa.Parameter) ([]*ssa.Function, bool) {
	fn := pv.Parent()
	if a.isTaken[fn] || len(a.sites[fn]) == 0 || fn.Object() != nil && fn.Object().Exported() {
		return nil, false
	}
	n := -1
	for i, q := range fn.Params {
		if q == pv {
			n = i
		}
	}
	var out []*ssa.Function
	for _, c := range a.sites[fn] {
		args := c.Common().Args
		if c.Common().IsInvoke() || n < 0 || n >= len(args) {
			return nil, false
		}
		x := args[n]
		if ct, ok := x.(*ssa.ChangeType); ok {
			x = ct.X
		}
		switch g := x.(type) {
		case *ssa.MakeClosure:
			out = append(out, g.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, g)
		case *ssa.Const:
		default:
			return nil, false
		}
	}
	return out, true
}

// syncFuncArgs: functions passed to library calls that run them before returning.
func (a *lockAnalysis) syncFuncArgs(in ssa.CallInstruction) (fs []*ssa.MakeClosure, plain []*ssa.Function) {
	cm := in.Common()
	n, callee := CallName(cm)
	if callee != nil && a.p.InModule(callee) || strings.HasPrefix(n, "builtin.") || n == "dyn" {
		return
	}
	if cm.IsInvoke() && a.p.Implementors(cm.Method) != nil {
		return
	}
	if strings.HasSuffix(n, ".Submit") || strings.Contains(n, "AfterFunc") {
		return
	}
	for _, x := range cm.Args {
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		switch g := x.(type) {
		case *ssa.MakeClosure:
			fs = append(fs, g)
		case *ssa.Function:
			plain = append(plain, g)
		}
	}
	return
}

func (a *lockAnalysis) bad(rule, construct, where, msg string) {
	if a.final {
		a.find[rule+"/"+construct] = lockFinding{rule, construct, where, msg}
	}
}

func (a *lockAnalysis) edge(fn *ssa.Function, from, to lockRef, where, via string) {
	if !a.final {
		return
	}
	k := from.class + string(from.mode) + ">" + to.class + string(to.mode)
	if _, ok := a.edges[k]; !ok {
		a.edges[k] = lockEdge{from, to, where, fn, via}
	}
}

func (a *lockAnalysis) sum(f *ssa.Function) *lockSum {
	if a.cur != nil && a.cur != f {
		m := a.deps[f]
		if m == nil {
			m = map[*ssa.Function]bool{}
			a.deps[f] = m
		}
		m[a.cur] = true
	}
	s := a.sums[f]
	if s == nil {
		s = &lockSum{map[string]lockRef{}, nil, map[string]lockRef{}}
		a.sums[f] = s
	}
	return s
}

// record adds an acquisition to the summary of fn.
func (a *lockAnalysis) record(fn *ssa.Function, st *lockState, ref lockRef) {
	if strings.HasPrefix(ref.path, "v:") {
		ref.path = "?"
	}
	var w []string
	if ref.without != "" {
		for _, x := range strings.Split(ref.without, ";") {
			if !strings.HasPrefix(x, "v:") && !isUnknownPath(x) {
				w = append(w, x)
			}
		}
	}
	for p := range st.rel {
		w = append(w, p)
	}
	sort.Strings(w)
	ref.without = strings.Join(w, ";")
	k := ref.path + "|" + string(ref.mode) + "|" + ref.without
	if isUnknownPath(ref.path) {
		k = "?" + ref.class + k
	}
	s := a.sum(fn)
	if _, ok := s.acq[k]; !ok && len(s.acq) < 600 {
		s.acq[k] = ref
	}
}

func (a *lockAnalysis) substAll(list string, cm *ssa.CallCommon, mc *ssa.MakeClosure) string {
	if list == "" {
		return ""
	}
	var w []string
	for _, x := range strings.Split(list, ";") {
		w = append(w, a.subst(x, cm, mc))
	}
	return strings.Join(w, ";")
}

func (a *lockAnalysis) acquire(fn *ssa.Function, st *lockState, ref lockRef, in ssa.Instruction, via string) {
	for hp, h := range st.held {
		if ref.without != "" && contains(strings.Split(ref.without, ";"), hp) {
			continue
		}
		if hp == ref.path && !isUnknownPath(hp) {
			what := "acquires"
			if via != "" {
				what = "calls " + via + ", which acquires"
			}
			a.bad("reacquire", FuncName(fn)+" "+ref.class, a.p.InstrPos(in), FuncName(fn)+" "+what+" "+ref.class+" ("+modeName(ref.mode)+") while already holding it ("+modeName(h.mode)+", taken at "+h.where+")")
			continue
		}
		a.edge(fn, h, ref, a.p.InstrPos(in), via)
	}
}

// otherSide: a lock of the server cannot be met by the client's use of the shared encoder, nor the
// other way round.
func otherSide(fn *ssa.Function, class string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Name() {
	case "client":
		return strings.HasPrefix(class, "server.")
	case "server":
		return strings.HasPrefix(class, "client.")
	}
	return false
}

func modeName(m byte) string {
	if m == 'R' {
		return "shared"
	}
	return "exclusive"
}

func (a *lockAnalysis) applyCall(fn *ssa.Function, st *lockState, in ssa.CallInstruction) {
	cm := in.Common()
	if op, mu := lockOp(cm); op != "" {
		path, class := a.path(mu), lockClass(mu)
		ref := lockRef{path, class, op[0], a.p.InstrPos(in), ""}
		if op[1] == '+' {
			a.nlocks[in] = true
			a.acquire(fn, st, ref, in, "")
			if r, ok := st.rel[path]; !ok || r.mode != op[0] {
				a.record(fn, st, ref)
			}
			if r, ok := st.rel[path]; ok && r.mode == op[0] {
				delete(st.rel, path)
			} else {
				st.held[path] = ref
			}
		} else {
			h, ok := st.held[path]
			if !ok {
				st.rel[path] = ref
			} else {
				if h.mode != op[0] {
					a.bad("mismatch", FuncName(fn)+" "+class, a.p.InstrPos(in), class+" was taken "+modeName(h.mode)+" at "+h.where+" and is released as "+modeName(op[0]))
				}
				delete(st.held, path)
			}
		}
		return
	}
	fs, mc, dyn := a.callees(in)
	for _, g := range fs {
		if g == nil || g.Blocks == nil || !a.p.InModule(g) {
			continue
		}
		s := a.sum(g)
		cmx := cm
		if dyn {
			cmx = nil
		}
		for _, ref := range s.acq {
			if otherSide(fn, ref.class) {
				continue
			}
			np := a.subst(ref.path, cmx, mc)
			if dyn && strings.HasPrefix(ref.path, "p") && g.Signature.Recv() == nil {
				np = a.subst(ref.path, cm, nil)
			}
			nr := lockRef{np, ref.class, ref.mode, ref.where, a.substAll(ref.without, cmx, mc)}
			a.acquire(fn, st, nr, in, FuncName(g))
			a.record(fn, st, nr)
		}
		if len(fs) == 1 && !dyn {
			for _, ref := range s.hold {
				np := a.subst(ref.path, cmx, mc)
				st.held[np] = lockRef{np, ref.class, ref.mode, a.p.InstrPos(in), ""}
			}
			for _, ref := range s.rel {
				np := a.subst(ref.path, cmx, mc)
				if h, ok := st.held[np]; ok {
					if h.mode != ref.mode {
						a.bad("mismatch", FuncName(fn)+" "+ref.class, a.p.InstrPos(in), ref.class+" was taken "+modeName(h.mode)+" at "+h.where+" and is released as "+modeName(ref.mode))
					}
					delete(st.held, np)
				} else {
					st.rel[np] = lockRef{np, ref.class, ref.mode, a.p.InstrPos(in), ""}
				}
			}
		}
	}
	mcs, plain := a.syncFuncArgs(in)
	for _, m := range mcs {
		g := m.Fn.(*ssa.Function)
		for _, ref := range a.sum(g).acq {
			nr := lockRef{a.subst(ref.path, nil, m), ref.class, ref.mode, ref.where, a.substAll(ref.without, nil, m)}
			a.acquire(fn, st, nr, in, FuncName(g))
			a.record(fn, st, nr)
		}
	}
	for _, g := range plain {
		for _, ref := range a.sum(g).acq {
			nr := lockRef{"?", ref.class, ref.mode, ref.where, ""}
			a.acquire(fn, st, nr, in, FuncName(g))
			a.record(fn, st, nr)
		}
	}
}

// analyse explores one function; reports whether its summary changed.
func (a *lockAnalysis) analyse(fn *ssa.Function) bool {
	a.cur = nil
	sum := a.sum(fn)
	a.cur = fn
	before := fmt.Sprint(len(sum.acq), len(sum.hold), len(sum.rel))
	type item struct {
		b  *ssa.BasicBlock
		st *lockState
	}
	seen := map[string]bool{}
	work := []item{{fn.Blocks[0], &lockState{held: map[string]lockRef{}, rel: map[string]lockRef{}}}}
	var exits []*lockState
	var exitPos []string
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d|%s", it.b.Index, it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		if a.final {
			a.nstates++
		}
		st := it.st.clone()
		for _, in := range it.b.Instrs {
			if a.final && a.onInstr != nil {
				a.onInstr(fn, in, st)
			}
			switch v := in.(type) {
			case *ssa.Defer:
				dup := false
				for _, d := range st.defers {
					if d == v {
						dup = true // a defer in a loop: modelled once
					}
				}
				if !dup {
					st.defers = append(st.defers, v)
				}
			case *ssa.Go:
			case *ssa.Call:
				if a.final && a.onCall != nil {
					a.onCall(fn, v, st.held)
				}
				a.applyCall(fn, st, v)
			case *ssa.RunDefers:
				for i := len(st.defers) - 1; i >= 0; i-- {
					if a.final && a.onCall != nil {
						a.onCall(fn, st.defers[i], st.held)
					}
					a.applyCall(fn, st, st.defers[i])
				}
				st.defers = nil
			case *ssa.Return:
				exits = append(exits, st)
				exitPos = append(exitPos, a.p.InstrPos(in))
			}
		}
		for _, s := range it.b.Succs {
			work = append(work, item{s, st})
		}
	}
	// exits must agree
	var hold map[string]lockRef
	for i, e := range exits {
		for p, h := range e.held {
			in := true
			for _, o := range exits {
				if _, ok := o.held[p]; !ok {
					in = false
				}
			}
			if !in {
				a.bad("release", FuncName(fn)+" "+h.class, exitPos[i], FuncName(fn)+" returns at "+exitPos[i]+" still holding "+h.class+" (taken at "+h.where+"), which other paths release")
			}
		}
		if hold == nil {
			hold = map[string]lockRef{}
			for p, h := range e.held {
				hold[p] = h
			}
		} else {
			for p := range hold {
				if _, ok := e.held[p]; !ok {
					delete(hold, p)
				}
			}
		}
		for p, h := range e.rel {
			for _, o := range exits {
				if _, ok := o.rel[p]; !ok {
					a.bad("release", FuncName(fn)+" unlock "+h.class, h.where, FuncName(fn)+" releases "+h.class+" without holding it on some of its paths")
				}
			}
			sum.rel[p] = h
		}
	}
	sum.hold = hold
	return before != fmt.Sprint(len(sum.acq), len(sum.hold), len(sum.rel))
}

func (a *lockAnalysis) run() {
	idx := map[*ssa.Function]int{}
	for i, f := range a.funcs {
		idx[f] = i
	}
	dirty := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), a.funcs...)
	for round := 0; round < 60 && len(work) > 0; round++ {
		for _, f := range work {
			if a.analyse(f) {
				if a.deps[f] != nil {
					for g := range a.deps[f] {
						dirty[g] = true
					}
				}
				// a recursive function uses its own summary
				dirty[f] = true
			}
		}
		work = work[:0]
		for f := range dirty {
			work = append(work, f)
		}
		sort.Slice(work, func(i, j int) bool { return idx[work[i]] < idx[work[j]] })
		dirty = map[*ssa.Function]bool{}
	}
	a.final = true
	for _, f := range a.funcs {
		a.analyse(f)
	}
	a.cur = nil
}
