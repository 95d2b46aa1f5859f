package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The standard's tables: binary encoding ids and structure fields by type name. They were taken from
// the base tree and cross-checked against the UA nodeset XML where that defines the type.
//
//go:embed oracle/encodings.json
var encodingsJSON []byte

//go:embed oracle/structs.json
var structsJSON []byte

func encodingOracle() map[string]uint64 {
	m := map[string]uint64{}
	if err := json.Unmarshal(encodingsJSON, &m); err != nil {
		fail("oracle: %v", err)
	}
	return m
}

func structOracle() map[string][][2]string {
	m := map[string][][2]string{}
	if err := json.Unmarshal(structsJSON, &m); err != nil {
		fail("oracle: %v", err)
	}
	return m
}

// EncodingVars evaluates the package-level variables of type NodeID that are initialised to a
// numeric id in namespace 0: variable name -> id.
func (p *Program) EncodingVars() map[string]uint64 {
	out := map[string]uint64{}
	bad := map[string]bool{}
	pk := p.SSA["ua"]
	for _, f := range p.Funcs {
		if f.Pkg != pk {
			continue
		}
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || TypeName(derefType(g.Type())) != "ua.NodeID" {
					continue
				}
				if !isInit {
					bad[g.Name()] = true // reassigned elsewhere: value unknown
					continue
				}
				if id, ok := numericNodeID(s.Val); ok {
					out[g.Name()] = id
				}
			}
		}
	}
	// synthetic package initialiser
	if init := pk.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && TypeName(derefType(g.Type())) == "ua.NodeID" {
						if id, ok := numericNodeID(s.Val); ok {
							out[g.Name()] = id
						}
					}
				}
			}
		}
	}
	for n := range bad {
		delete(out, n)
	}
	return out
}

func numericNodeID(v ssa.Value) (uint64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Call:
			n, _ := CallName(x.Common())
			if n != "ua.NewNodeIDNumeric" {
				return 0, false
			}
			ns, ok1 := x.Call.Args[0].(*ssa.Const)
			id, ok2 := x.Call.Args[1].(*ssa.Const)
			if !ok1 || !ok2 || ns.Uint64() != 0 {
				return 0, false
			}
			return id.Uint64(), true
		}
		return 0, false
	}
}

const encSuffix = "EncodingDefaultBinary"

func fieldTypes(p *Program, n *types.Named) [][2]string {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out [][2]string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		out = append(out, [2]string{f.Name(), types.TypeString(f.Type(), func(pk *types.Package) string { return pk.Name() })})
	}
	return out
}

// dumpOracle prints the tables of the current tree (development aid).
func dumpOracle(p *Program) {
	enc := map[string]uint64{}
	for g, id := range p.EncodingVars() {
		if strings.HasPrefix(g, "ObjectID") && strings.HasSuffix(g, encSuffix) {
			enc[strings.TrimSuffix(strings.TrimPrefix(g, "ObjectID"), encSuffix)] = id
		}
	}
	st := map[string][][2]string{}
	for name := range enc {
		if o := p.SSA["ua"].Pkg.Scope().Lookup(name); o != nil {
			if n, ok := o.Type().(*types.Named); ok {
				if f := fieldTypes(p, n); f != nil {
					st[name] = f
				}
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"enc": enc, "structs": st})
	fmt.Println(string(b))
}
