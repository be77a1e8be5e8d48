package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A field is stable if it is stored only into objects allocated by the storing
// function itself (constructors): later reads always see the same value.
// A global is stable if only package initialisation stores it.

var stableDone map[*Program]map[string]bool // unstable keys
var nonNilGlobals map[*ssa.Global]bool

func (P *Program) unstable() map[string]bool {
	if stableDone == nil {
		stableDone = map[*Program]map[string]bool{}
		nonNilGlobals = map[*ssa.Global]bool{}
	}
	if m, ok := stableDone[P]; ok {
		return m
	}
	m := map[string]bool{}
	for _, f := range P.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					P.markStore(m, f, x.Addr, x.Val.Type(), x)
				}
			}
		}
	}
	stableDone[P] = m
	return m
}

// allFuncs includes package initialisers.
func (P *Program) allFuncs() []*ssa.Function {
	out := append([]*ssa.Function(nil), P.funcs...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, sp := range P.spkgs {
		if f := sp.Func("init"); f != nil && !seen[f] {
			out = append(out, f)
		}
	}
	return out
}

func (P *Program) markStore(m map[string]bool, f *ssa.Function, addr ssa.Value, vt types.Type, st *ssa.Store) {
	// walk to the root
	root := addr
	var fields []*ssa.FieldAddr
	for {
		if fa, ok := root.(*ssa.FieldAddr); ok {
			fields = append(fields, fa)
			root = fa.X
			continue
		}
		if ia, ok := root.(*ssa.IndexAddr); ok {
			root = ia.X
			continue
		}
		break
	}
	if g, ok := root.(*ssa.Global); ok {
		if f.Name() == "init" || (f.Synthetic == "package initializer") {
			if st.Addr == root {
				nonNilGlobals[g] = true
			}
			return
		}
		m["global "+g.String()] = true
		return
	}
	if _, ok := root.(*ssa.Alloc); ok {
		return // the function's own object
	}
	for _, fa := range fields {
		pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
		if n, ok := types.Unalias(pt).(*types.Named); ok && n.Obj().Pkg() != nil {
			s := n.Underlying().(*types.Struct)
			m[shorten(n.Obj().Pkg().Path())+"."+n.Obj().Name()+"."+s.Field(fa.Field).Name()] = true
		}
	}
	if len(fields) == 0 {
		// whole object stored through a pointer
		if n, ok := types.Unalias(vt).(*types.Named); ok && n.Obj().Pkg() != nil {
			if s, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					m[shorten(n.Obj().Pkg().Path())+"."+n.Obj().Name()+"."+s.Field(i).Name()] = true
				}
			}
		}
	}
}

func (P *Program) isStable(base *V, path string) bool {
	u := P.unstable()
	if base.k == KGlobal {
		return !u["global "+base.g.String()] && path == ""
	}
	key := fieldKey(base, path)
	if key == "" {
		return false
	}
	return !u[key]
}

func (P *Program) initNonNil(g *ssa.Global) bool {
	P.unstable()
	return false
}
