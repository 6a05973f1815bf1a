package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modSet says which variables a function and everything it may call can change: fields of struct
// types and whole variables of a type. Unknown callees that are handed addresses make it total.
type modSet struct {
	all    bool
	fields map[string]bool
	types  map[string]bool
}

var modMemo = map[*ssa.Function]*modSet{}

func (m *modSet) mayChange(t types.Type) bool {
	if m.all || t == nil || m.types[t.String()] {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if m.fields[t.String()+"."+st.Field(i).Name()] || m.mayChange(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (m *modSet) store(a ssa.Value) {
	for base := a; ; { // memory this activation made itself is nobody else's
		switch x := base.(type) {
		case *ssa.Alloc:
			return
		case *ssa.FieldAddr:
			base = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				base = x.X
				continue
			}
		}
		break
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := pointee(x.X.Type())
		if t == nil {
			m.all = true
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			m.fields[t.String()+"."+st.Field(x.Field).Name()] = true
		}
		return
	}
	if t := pointee(a.Type()); t != nil {
		m.types[t.String()] = true
	} else {
		m.all = true
	}
}

// modOf computes the set over the call graph of static calls and closures.
func (s *Sim) modOf(fn *ssa.Function) *modSet {
	if m, ok := modMemo[fn]; ok {
		return m
	}
	m := &modSet{fields: map[string]bool{}, types: map[string]bool{}}
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 && !m.all {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					m.store(x.Addr)
				case *ssa.MakeClosure:
					if c := x.Fn.(*ssa.Function); !seen[c] {
						seen[c] = true
						work = append(work, c)
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if (bi.Name() == "copy" || bi.Name() == "clear" || bi.Name() == "append") && len(cc.Args) > 0 {
							if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
								m.types[sl.Elem().String()] = true
							}
						}
						continue
					}
					c := cc.StaticCallee()
					if c != nil && s.ownFn(c) {
						if !seen[c] {
							seen[c] = true
							work = append(work, c)
						}
						continue
					}
					n := ""
					if c != nil {
						n = c.String()
					}
					if c != nil && (readOnlyExt(n) || strings.HasPrefix(n, "math.")) {
						continue
					}
					if c == nil {
						// any function value of the signature
						if cc.IsInvoke() {
							m.all = true
							continue
						}
						for _, g := range s.takenWith(cc.Signature()) {
							if !s.ownFn(g) {
								m.all = true
							} else if !seen[g] {
								seen[g] = true
								work = append(work, g)
							}
						}
						continue
					}
					for _, a := range cc.Args {
						m.handed(a.Type())
					}
				}
			}
		}
	}
	modMemo[fn] = m
	return m
}

// handed: a library function is given a value of the type and may write through it.
func (m *modSet) handed(t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Map:
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.handed(u.Field(i).Type())
		}
	case *types.Pointer:
		m.types[u.Elem().String()] = true
	case *types.Slice:
		m.types[u.Elem().String()] = true
	default:
		m.all = true
	}
}

var takenFns map[string][]*ssa.Function

// takenWith gives the functions of a signature whose value is used other than by calling it.
func (s *Sim) takenWith(sig *types.Signature) []*ssa.Function {
	k := func(g *types.Signature) string {
		var b strings.Builder
		for _, t := range []*types.Tuple{g.Params(), g.Results()} {
			for i := 0; i < t.Len(); i++ {
				b.WriteString(t.At(i).Type().String() + ",")
			}
			b.WriteString(";")
		}
		return b.String()
	}
	if takenFns == nil {
		takenFns = map[string][]*ssa.Function{}
		have := map[*ssa.Function]bool{}
		for fn := range ssautil.AllFunctions(s.p.prog) {
			if !s.p.inRepo(pkgOfFn(fn)) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var callee ssa.Value
					if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						callee = ci.Common().Value
					}
					for _, op := range ins.Operands(nil) {
						f, ok := (*op).(*ssa.Function)
						if ok && ssa.Value(f) != callee && !have[f] {
							have[f] = true
							takenFns[k(f.Signature)] = append(takenFns[k(f.Signature)], f)
						}
					}
				}
			}
		}
	}
	return takenFns[k(sig)]
}
