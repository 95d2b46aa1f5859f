package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallName returns the qualified name of the callee of a call instruction ("dyn" for values).
func CallName(cm *ssa.CallCommon) (string, *ssa.Function) {
	if cm.IsInvoke() {
		return ObjName(cm.Method), nil
	}
	switch f := cm.Value.(type) {
	case *ssa.Function:
		return FuncName(f), f
	case *ssa.Builtin:
		return "builtin." + f.Name(), nil
	case *ssa.MakeClosure:
		fn := f.Fn.(*ssa.Function)
		return FuncName(fn), fn
	}
	return "dyn", nil
}

// EachCall visits the calls of fn itself (not of its closures).
func EachCall(fn *ssa.Function, visit func(in ssa.CallInstruction, name string, callee *ssa.Function)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				n, f := CallName(ci.Common())
				visit(ci, n, f)
			}
		}
	}
}

// Reach returns the in-module functions that contain, directly or through in-module callees and
// their closures, a call or instruction satisfying the predicates.
func (p *Program) Reach(call func(name string, in ssa.CallInstruction) bool, instr func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if f != nil && !res[f] {
			res[f] = true
			work = append(work, f)
		}
	}
	for _, f := range p.Funcs {
		for _, a := range f.AnonFuncs {
			callers[a] = append(callers[a], f)
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n, callee := CallName(ci.Common())
					if call != nil && call(n, ci) {
						hit = true
					}
					if callee != nil {
						callers[callee] = append(callers[callee], f)
					}
				}
				if instr != nil && instr(in) {
					hit = true
				}
				// functions used as values
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != nil {
						if g.Synthetic != "" && strings.Contains(g.Synthetic, "bound") {
							// bound method: look through to the method
							EachCall(g, func(_ ssa.CallInstruction, _ string, c *ssa.Function) {
								if c != nil {
									callers[c] = append(callers[c], f)
								}
							})
						}
					}
				}
			}
		}
		if hit {
			mark(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range callers[f] {
			mark(c)
		}
	}
	return res
}

// Size is the number of basic blocks.
func small(f *ssa.Function, n int) bool { return len(f.Blocks) <= n }

// leafHelper: a small unexported function of the package, with or without a receiver, that calls only other packages' functions,
// functions for which known holds, and further leaf helpers: its body can be put in place of the call.
func (p *Program) leafHelper(g *ssa.Function, pkg *ssa.Package, known func(*ssa.Function) bool, depth int) bool {
	if g == nil || g.Pkg != pkg || len(g.Blocks) == 0 || len(g.Blocks) > 12 || depth > 3 || g.Parent() != nil || isExported(g) {
		return false
	}
	ok := true
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.Defer, *ssa.MakeClosure:
				ok = false
			case *ssa.Call:
				c := i.Common().StaticCallee()
				if c == nil {
					if _, isB := i.Common().Value.(*ssa.Builtin); !isB {
						ok = false
					}
				} else if c.Pkg == pkg && !(known != nil && known(c)) && !p.leafHelper(c, pkg, known, depth+1) {
					ok = false
				}
			}
		}
	}
	return ok
}
