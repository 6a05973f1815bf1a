package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// countedLoop describes a loop that counts from `first` in steps of one up to, not including, a
// bound: the variable is the phi at its header, a memory cell that phi points to (a variable of
// each iteration captured by a closure), or the phi plus one (range over a collection).
type countedLoop struct {
	phi   *ssa.Phi
	iter  ssa.Value // the value of the iteration: phi, phi+1, or nil for a cell
	first int64     // the first value of the iteration
	bound ssa.Value
	cell  bool
}

func intConst(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	if b, ok := k.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	return k.Int64(), true
}

func plusOne(v ssa.Value) (ssa.Value, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return nil, false
	}
	if isOne(b.Y) {
		return b.X, true
	}
	if isOne(b.X) {
		return b.Y, true
	}
	return nil, false
}

// less gives the sides of a condition x < y.
func less(v ssa.Value) (ssa.Value, ssa.Value, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return nil, nil, false
	}
	switch b.Op {
	case token.LSS:
		return b.X, b.Y, true
	case token.GTR:
		return b.Y, b.X, true
	}
	return nil, nil, false
}

func loadOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return nil
}

// countedBy analyses the loop of a phi; nil when it is not a counted loop.
func countedBy(ph *ssa.Phi) *countedLoop {
	h := ph.Block()
	back := map[int]bool{}
	for j, p := range h.Preds {
		back[j] = h.Dominates(p)
	}
	l := &countedLoop{phi: ph}
	_, l.cell = ph.Type().Underlying().(*types.Pointer)
	started := false
	start := func(n int64, ok bool) bool {
		if !ok || started && l.first != n {
			return false
		}
		started = true
		l.first = n
		return true
	}
	loops := false
	for j, e := range ph.Edges {
		if l.cell {
			a, ok := e.(*ssa.Alloc)
			if !ok {
				return nil
			}
			var sts []*ssa.Store
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					sts = append(sts, s)
				}
			}
			if !back[j] {
				if len(sts) != 1 || !start(intConst(sts[0].Val)) {
					return nil
				}
				continue
			}
			loops = true
			copied, stepped := false, false
			for _, s := range sts {
				if loadOf(s.Val) == ssa.Value(ph) {
					copied = true
				} else if b, ok := plusOne(s.Val); ok && loadOf(b) == ssa.Value(a) {
					stepped = true
				} else {
					return nil
				}
			}
			if !copied || !stepped || len(sts) != 2 {
				return nil
			}
			continue
		}
		if !back[j] {
			if !start(intConst(e)) {
				return nil
			}
			continue
		}
		loops = true
		if b, ok := plusOne(e); !ok || b != ssa.Value(ph) {
			return nil
		}
	}
	if !loops || !started {
		return nil
	}
	if l.cell { // nothing else changes the variable
		for _, r := range *ph.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(ph) {
				return nil
			}
			if m, ok := r.(*ssa.MakeClosure); ok {
				f := m.Fn.(*ssa.Function)
				for i, b := range m.Bindings {
					if b == ssa.Value(ph) && writesFree(f, f.FreeVars[i]) {
						return nil
					}
				}
			}
		}
	}
	if i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		if x, y, ok := less(i.Cond); ok && h.Succs[0] != h && !inBody(h, h.Succs[1]) && inBody(h, h.Succs[0]) {
			switch {
			case l.cell && loadOf(x) == ssa.Value(ph), !l.cell && x == ssa.Value(ph):
				l.bound, l.iter = y, x
				if l.cell {
					l.iter = nil
				}
				return l
			case !l.cell:
				if b, ok := plusOne(x); ok && b == ssa.Value(ph) {
					l.bound, l.iter = y, x
					l.first++
					return l
				}
			}
		}
	}
	if l.cell {
		return nil
	}
	// the test at the end of the iteration and before the first
	for j, p := range h.Preds {
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != h {
			return nil
		}
		x, y, ok := less(i.Cond)
		if !ok || l.bound != nil && y != l.bound {
			return nil
		}
		l.bound = y
		if back[j] {
			if x != ph.Edges[j] {
				return nil
			}
		} else if n, ok := intConst(x); !ok || n != l.first {
			return nil
		}
	}
	l.iter = ph
	return l
}

// inBody reports whether a block belongs to the loop of a header.
func inBody(h, b *ssa.BasicBlock) bool {
	if b == h {
		return true
	}
	if !h.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for _, s := range x.Succs {
			if s == h {
				return true
			}
			if h.Dominates(s) && !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}
