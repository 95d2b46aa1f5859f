package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P25", "Every loop of the server that follows references from node to node (it looks nodes up or reads their references and is not a range over a collection fixed before it) is shown to terminate: a counter moves on every way round it and is tested against a bound with a way out, or every way round it (every node it queues) passes a failed membership test and the insertion of the same key in one set that outlives the turns. Every cycle of the server's call graph (static, interface and closure calls) is shown to have an integer argument that grows (or shrinks) on every recursive call and is tested against a bound. Every index into the operands of a filter element is dominated by a sufficient test of their number, every assertion on an operand checks its type, and no two values of unknown type are compared unless both are known to be comparable.", runP25)
}

type p25 struct {
	p    *Program
	r    *Report
	srv  *ssa.Package
	hops map[*ssa.Function]bool // functions that look up nodes or read references

	heldBy map[string]map[string]bool
	all    map[string]bool
}

func runP25(p *Program, r *Report) {
	r.Rule("walk: a loop that follows references ends on every graph")
	r.Rule("recursion: each cycle of calls has an argument that moves towards a tested bound")
	r.Rule("operands: a filter's operands are counted before they are indexed, and compared only if they can be")
	c := &p25{p: p, r: r, srv: p.SSA["server"], heldBy: map[string]map[string]bool{}}
	c.hops = p.Reach(func(n string, _ ssa.CallInstruction) bool { return strings.HasSuffix(n, "Node.References") }, func(i ssa.Instruction) bool {
		l, ok := i.(*ssa.Lookup)
		return ok && isNodeRegistry(l.X.Type())
	})
	for _, f := range p.Funcs {
		if f.Pkg == c.srv || f.Parent() != nil && outer(f).Pkg == c.srv {
			c.loops(f)
		}
	}
	r.Min("walk", 3)
	c.recursion()
	r.Min("recursion", 1)
	c.operands()
	r.Min("operands", 3)
}

func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// loops finds the walks of f.
func (c *p25) loops(f *ssa.Function) {
	p, r := c.p, c.r
	for _, h := range f.Blocks {
		var latches []*ssa.BasicBlock
		for _, q := range h.Preds {
			if h.Dominates(q) {
				latches = append(latches, q)
			}
		}
		if len(latches) == 0 {
			continue
		}
		l := naturalLoop(h)
		if !c.walks(l) || !carries(h, l) || c.fixedRange(h, l) || serves(l) {
			continue
		}
		name := FuncName(f) + " " + p.InstrPos(loopPos(h, l))
		switch {
		case c.counted(h, l, latches):
			r.Ob("walk", name+" counted")
		case c.visited(h, l, latches):
			r.Ob("walk", name+" visits once")
		default:
			r.Bad("walk", FuncName(f), p.InstrPos(loopPos(h, l)), FuncName(f)+" follows references in a loop that neither counts its turns nor remembers where it has been: on a cycle of references it never ends")
		}
	}
}

func loopPos(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) ssa.Instruction {
	for _, b := range h.Parent().Blocks {
		if !l[b] {
			continue
		}
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i
			}
		}
	}
	return h.Instrs[0]
}

// serves: the loop waits for something from outside (a worker's loop, P28 is about those).
func serves(l map[*ssa.BasicBlock]bool) bool {
	for b := range l {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return false
}

func (c *p25) walks(l map[*ssa.BasicBlock]bool) bool {
	for b := range l {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Lookup:
				if isNodeRegistry(i.X.Type()) {
					return true
				}
			case ssa.CallInstruction:
				n, g := CallName(i.Common())
				if strings.HasSuffix(n, "Node.References") || g != nil && c.hops[g] {
					return true
				}
			}
		}
	}
	return false
}

// carries: a node, or a collection of nodes, goes from one turn of the loop to the next.
func carries(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) bool {
	for _, i := range h.Instrs {
		if phi, ok := i.(*ssa.Phi); ok && nodes25(phi.Type()) {
			return true
		}
	}
	for b := range l {
		for _, i := range b.Instrs {
			if puts(i) {
				return true
			}
			if s, ok := i.(*ssa.Store); ok && nodes25(s.Val.Type()) {
				if a, ok := s.Addr.(*ssa.Alloc); ok && !l[a.Block()] {
					return true
				}
				if _, ok := s.Addr.(*ssa.FreeVar); ok {
					return true
				}
			}
		}
	}
	return false
}

func nodes25(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	return isNodeish(t)
}

// fixedRange: the loop ranges over a slice, map or channel that is fixed before it begins.
func (c *p25) fixedRange(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) bool {
	for _, i := range h.Instrs {
		if nx, ok := i.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && !l[rg.Block()] {
				// a map that the loop itself adds to may be ranged over for ever
				grows := false
				for b := range l {
					for _, j := range b.Instrs {
						if mu, ok := j.(*ssa.MapUpdate); ok && mu.Map == rg.X {
							grows = true
						}
					}
				}
				return !grows
			}
		}
	}
	// an index that goes up to the length of a slice fixed before the loop
	return c.indexLoop(h, l, func(bound ssa.Value) bool {
		call, ok := bound.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return invariant(call.Call.Args[0], l)
		}
		return false
	})
}

// invariant: the value is made outside the loop, and is not memory.
func invariant(v ssa.Value, l map[*ssa.BasicBlock]bool) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.Function, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL && l[v.Block()] {
			// a load inside the loop: from memory the loop does not write
			return c25Unwritten(v.X, l)
		}
	case *ssa.Convert:
		return invariant(v.X, l)
	}
	if i, ok := v.(ssa.Instruction); ok {
		return !l[i.Block()]
	}
	return false
}

// c25Unwritten: the loop has no store to the same field or variable.
func c25Unwritten(addr ssa.Value, l map[*ssa.BasicBlock]bool) bool {
	fa, isF := addr.(*ssa.FieldAddr)
	for b := range l {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == addr {
				return false
			}
			if sf, ok := s.Addr.(*ssa.FieldAddr); ok && isF && sf.Field == fa.Field && types.Identical(sf.X.Type(), fa.X.Type()) {
				return false
			}
		}
	}
	return true
}

// counted: an integer moves on every way round, and a test of it against a fixed bound, on every way round, leaves the loop.
func (c *p25) counted(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool, latches []*ssa.BasicBlock) bool {
	return c.indexLoop(h, l, func(b ssa.Value) bool { return invariant(b, l) })
}

func (c *p25) indexLoop(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool, fixed func(ssa.Value) bool) bool {
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		b, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		dir := 0
		for k, e := range phi.Edges {
			if !h.Dominates(h.Preds[k]) {
				continue
			}
			d := step(e, phi, l, map[ssa.Value]bool{})
			if d == 0 || dir != 0 && d != dir {
				dir = 0
				break
			}
			dir = d
		}
		if dir == 0 {
			continue
		}
		if c.tested(phi, dir, h, l, fixed) {
			return true
		}
	}
	return false
}

// step: by how much (its sign) v has moved from phi: +1, -1, or 0 when unknown or not at all.
func step(v ssa.Value, phi *ssa.Phi, l map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.BinOp:
		k, ok := v.Y.(*ssa.Const)
		x := v.X
		if !ok {
			if k, ok = v.X.(*ssa.Const); !ok || v.Op != token.ADD {
				return 0
			}
			x = v.Y
		}
		if k.Value == nil || k.Value.Kind() != constant.Int {
			return 0
		}
		s := constant.Sign(k.Value)
		switch v.Op {
		case token.SUB:
			s = -s
		case token.ADD:
		default:
			return 0
		}
		if s == 0 {
			return 0
		}
		if x == ssa.Value(phi) {
			return s
		}
		if d := step(x, phi, l, seen); d == s {
			return s
		}
	case *ssa.Phi:
		if v == phi || !l[v.Block()] {
			return 0
		}
		dir := 0
		for _, e := range v.Edges {
			if e == ssa.Value(v) {
				continue
			}
			d := step(e, phi, l, seen)
			if d == 0 || dir != 0 && d != dir {
				return 0
			}
			dir = d
		}
		return dir
	}
	return 0
}

// tested: a comparison of phi (or phi moved on) with a fixed bound, passed on every way round, leaves the loop on the side that dir leads to.
func (c *p25) tested(phi *ssa.Phi, dir int, h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool, fixed func(ssa.Value) bool) bool {
	derived := func(v ssa.Value) bool {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		return v == ssa.Value(phi) || step(v, phi, l, map[ssa.Value]bool{}) == dir
	}
	for b := range l {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		every := true
		for _, q := range h.Preds {
			if h.Dominates(q) && !b.Dominates(q) {
				every = false
			}
		}
		if !every {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		switch {
		case derived(cmp.X) && fixed(cmp.Y):
		case derived(cmp.Y) && fixed(cmp.X):
			op = flipTok(op)
		default:
			continue
		}
		// i op bound
		for k, s := range b.Succs {
			if l[s] {
				continue
			}
			o := op
			if k == 1 {
				o = negTok(op)
			}
			if dir > 0 && (o == token.GTR || o == token.GEQ) || dir < 0 && (o == token.LSS || o == token.LEQ) {
				return true
			}
			if o == token.EQL {
				return unitStep(phi, dir)
			}
		}
	}
	return false
}

// unitStep: phi moves by exactly one, so that it meets the bound.
func unitStep(phi *ssa.Phi, dir int) bool {
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(phi) {
			if k, ok := b.Y.(*ssa.Const); !ok || k.Value == nil || constant.Compare(k.Value, token.NEQ, constant.MakeInt64(1)) {
				return false
			}
		} else if _, ok := e.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

func flipTok(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return t
}

func negTok(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return t
}

// visited: see the description of the check.
func (c *p25) visited(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool, latches []*ssa.BasicBlock) bool {
	marks := c.marks(l)
	if len(marks) == 0 {
		return false
	}
	// a plain walk: each way round passes a mark
	marked := func(b *ssa.BasicBlock) bool {
		for _, m := range marks {
			if m.covers(b) {
				return true
			}
		}
		return false
	}
	all := true
	for _, q := range latches {
		all = all && marked(q)
	}
	if all {
		return true
	}
	// a queue: each turn takes one from it, and each node put into it is marked
	pops := false
	for b := range l {
		for _, i := range b.Instrs {
			if takes(i) {
				every := true
				for _, q := range latches {
					every = every && b.Dominates(q)
				}
				pops = pops || every
			}
		}
	}
	if !pops {
		return false
	}
	for b := range l {
		for _, i := range b.Instrs {
			if puts(i) && !marked(b) {
				return false
			}
		}
	}
	return true
}

func isNodeish(t types.Type) bool {
	n := TypeName(derefType(t))
	return n == "server.Node" || n == "ua.NodeID" || n == "ua.ExpandedNodeID" || strings.HasPrefix(n, "server.") && strings.HasSuffix(n, "Node")
}

// takes: an element leaves the queue.
func takes(i ssa.Instruction) bool {
	switch i := i.(type) {
	case ssa.CallInstruction:
		n, _ := CallName(i.Common())
		return strings.Contains(n, "Deque") && strings.Contains(n, ".Pop") || strings.HasSuffix(n, "list.List.Remove")
	case *ssa.Slice:
		// q = q[1:] or q = q[:len(q)-1]
		return i.Low != nil || i.High != nil
	}
	return false
}

// puts: a node is put into a collection that may be the queue.
func puts(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n, _ := CallName(ci.Common())
	if strings.Contains(n, "Deque") && strings.Contains(n, ".Push") || strings.HasSuffix(n, "list.List.PushBack") || strings.HasSuffix(n, "list.List.PushFront") {
		return true
	}
	if n == "builtin.append" {
		if s, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice); ok {
			return isNodeish(s.Elem())
		}
	}
	return false
}

// mark: the miss of a membership test with the insertion of the same key.
type mark25 struct {
	miss   *ssa.BasicBlock // entered only when the key was not in the set
	insert *ssa.BasicBlock
	at     int
	loop   map[*ssa.BasicBlock]bool
}

// covers: b is only reached in a turn after the miss, and the key is in the set by the end of the turn.
func (m mark25) covers(b *ssa.BasicBlock) bool {
	if !m.miss.Dominates(b) {
		return false
	}
	return m.insert.Dominates(b) || b.Dominates(m.insert) && postdominatesIn(b, m.insert, m.loop)
}

// postdominatesIn: every way from b inside the loop passes ins before it leaves or goes round.
func postdominatesIn(b, ins *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] || x == ins {
			continue
		}
		seen[x] = true
		if !l[x] || len(x.Succs) == 0 {
			continue
		}
		for _, s := range x.Succs {
			if s == b || l[s] && s.Dominates(x) {
				return false
			}
			work = append(work, s)
		}
	}
	return true
}

func (c *p25) marks(l map[*ssa.BasicBlock]bool) []mark25 {
	var out []mark25
	for _, b := range sortedBlocks(l) {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		set, key := member(cond)
		if set == nil || !c.outlives(set, l) {
			continue
		}
		miss := b.Succs[1]
		if neg {
			miss = b.Succs[0]
		}
		if len(miss.Preds) != 1 {
			continue
		}
		for _, ib := range sortedBlocks(l) {
			for k, i := range ib.Instrs {
				if mu, ok := i.(*ssa.MapUpdate); ok && sameSet(mu.Map, set) && sameVal25(mu.Key, key) && truthy(mu.Value) {
					if b.Dominates(ib) || ib == b {
						out = append(out, mark25{miss, ib, k, l})
					}
				}
			}
		}
	}
	return out
}

func truthy(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Bool {
		return true
	}
	return constant.BoolVal(k.Value)
}

func sortedBlocks(l map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range l {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

// member: v is "key is in set".
func member(v ssa.Value) (set, key ssa.Value) {
	switch v := v.(type) {
	case *ssa.Extract:
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 1 {
			return lk.X, lk.Index
		}
	case *ssa.Lookup:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return v.X, v.Index
		}
	}
	return nil, nil
}

// outlives: the set is made before the loop, and nothing is taken out of it.
func (c *p25) outlives(set ssa.Value, l map[*ssa.BasicBlock]bool) bool {
	if _, ok := set.Type().Underlying().(*types.Map); !ok || isNodeRegistry(set.Type()) {
		return false
	}
	if !invariant(set, l) {
		return false
	}
	for b := range l {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				n, _ := CallName(ci.Common())
				if (n == "builtin.delete" || n == "builtin.clear" || n == "maps.Clear") && sameSet(ci.Common().Args[0], set) {
					return false
				}
			}
		}
	}
	return true
}

func sameSet(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	return sameVal25(a, b)
}

// sameVal25: the same value, seen through conversions to interfaces, loads of one place and pure getters.
func sameVal25(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.MakeInterface:
		if y, ok := b.(*ssa.MakeInterface); ok {
			return sameVal25(x.X, y.X)
		}
	case *ssa.Convert:
		if y, ok := b.(*ssa.Convert); ok && types.Identical(x.Type(), y.Type()) {
			return sameVal25(x.X, y.X)
		}
	case *ssa.ChangeInterface:
		if y, ok := b.(*ssa.ChangeInterface); ok {
			return sameVal25(x.X, y.X)
		}
	case *ssa.UnOp:
		if y, ok := b.(*ssa.UnOp); ok && x.Op == y.Op {
			return sameVal25(x.X, y.X)
		}
	case *ssa.FieldAddr:
		if y, ok := b.(*ssa.FieldAddr); ok && x.Field == y.Field {
			return sameVal25(x.X, y.X)
		}
	case *ssa.Field:
		if y, ok := b.(*ssa.Field); ok && x.Field == y.Field {
			return sameVal25(x.X, y.X)
		}
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		n, _ := CallName(x.Common())
		m, _ := CallName(y.Common())
		if n != m || !(strings.HasSuffix(n, ".NodeID") || strings.HasSuffix(n, "ua.ToNodeID") || strings.HasSuffix(n, ".String")) || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		if x.Call.IsInvoke() != y.Call.IsInvoke() || x.Call.IsInvoke() && !sameVal25(x.Call.Value, y.Call.Value) {
			return false
		}
		for i := range x.Call.Args {
			if !sameVal25(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}
