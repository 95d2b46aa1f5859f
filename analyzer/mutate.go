package main

import (
	"sort"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// localRoot reports whether an address is rooted at a local allocation of its function.
func localRoot(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.Alloc:
			return true
		case *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

// Mutators returns the in-module functions that change state outside their own frame: stores to
// shared memory, map updates, channel sends, calls of function values, container mutations.
func (p *Program) Mutators() map[*ssa.Function]bool {
	return p.Reach(func(name string, in ssa.CallInstruction) bool {
		switch name {
		case "dyn":
			return true
		case "builtin.delete", "builtin.close":
			return true
		case "deque.Deque.PushBack", "deque.Deque.PushFront", "deque.Deque.PopFront", "deque.Deque.PopBack", "deque.Deque.Clear", "deque.Deque.Set",
			"list.List.PushBack", "list.List.PushFront", "list.List.Remove", "list.List.Init":
			return true
		}
		return false
	}, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			switch in.Addr.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return !localRoot(in.Addr)
			case *ssa.Alloc:
				return false
			}
			return true
		case *ssa.MapUpdate:
			return !localRoot(in.Map)
		case *ssa.Send:
			return true
		}
		return false
	})
}

// RecvType is the qualified name of the receiver's type, or "".
func RecvType(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil {
		return ""
	}
	return TypeName(f.Signature.Recv().Type())
}

var implCache = map[*types.Func][]*ssa.Function{}

// Implementors lists the module's concrete methods an interface call may reach.
func (p *Program) Implementors(m *types.Func) []*ssa.Function {
	sig, ok := m.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return nil
	}
	it, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if out, ok := implCache[m]; ok {
		return out
	}
	var out []*ssa.Function
	defer func() {
		sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
		implCache[m] = out
	}()
	for _, sp := range p.SSA {
		for _, mem := range sp.Members {
			t, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.Implements(tt, it) {
					continue
				}
				sel := p.Prog.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if f := p.Prog.MethodValue(sel); f != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}
