package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: what is written does not depend on map order, scheduling, time or randomness. An information
// flow analysis from those sources to the bytes written.

type detRegion struct {
	desc   string
	pos    token.Pos
	goroot bool                     // the bodies of several goroutines
	blocks map[*ssa.BasicBlock]bool // the loop itself
	header *ssa.BasicBlock
	fns    map[*ssa.Function]bool // functions run from inside
	next   *ssa.Next
	goIns  *ssa.Go
	once   *ssa.Function
	locked bool
}

type detAn struct {
	c       *Check
	a       *Pts
	root    *ssa.Function
	stdout  bool // output is what is printed; otherwise what is written to any writer
	regions []*detRegion
	tv      map[ssa.Value]string
	tm      map[ptLoc]string
	tb      map[*ssa.BasicBlock]string
	tf      map[*ssa.Function]string
	bad     map[string]bool
	changed bool
	outputs int
	sorters map[[2]interface{}]bool
	into    map[*ssa.Function][]ssa.CallInstruction // call sites of a function
	callees map[ssa.Instruction][]*ssa.Function
	cregion map[*ssa.If][]*ssa.BasicBlock
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !r[p] {
			r[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !r[p] {
				r[p] = true
				work = append(work, p)
			}
		}
	}
	return r
}

func newDet(c *Check, root *ssa.Function, stdout bool) *detAn {
	d := &detAn{c: c, root: root, stdout: stdout, tv: map[ssa.Value]string{}, tm: map[ptLoc]string{}, tb: map[*ssa.BasicBlock]string{},
		tf: map[*ssa.Function]string{}, bad: map[string]bool{}, sorters: map[[2]interface{}]bool{}, into: map[*ssa.Function][]ssa.CallInstruction{},
		callees: map[ssa.Instruction][]*ssa.Function{}, cregion: map[*ssa.If][]*ssa.BasicBlock{}}
	d.a = NewPts(c.p)
	d.a.Root(root)
	for _, f := range d.a.fns {
		for _, e := range d.a.edges[f] {
			d.callees[e.site] = append(d.callees[e.site], e.to)
			if ci, ok := e.site.(ssa.CallInstruction); ok {
				d.into[e.to] = append(d.into[e.to], ci)
			}
		}
	}
	return d
}

// reach collects the functions run from a set of instructions.
func (d *detAn) reach(ins []ssa.Instruction) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if r[f] {
			return
		}
		r[f] = true
		for _, e := range d.a.edges[f] {
			visit(e.to)
		}
	}
	for _, i := range ins {
		for _, f := range d.callees[i] {
			visit(f)
		}
	}
	return r
}

func locksIn(fns map[*ssa.Function]bool) bool {
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(s.Name(), "Lock") {
						return true
					}
				}
			}
		}
	}
	return false
}

// ours says whether a function is the repository's; libraries are trusted to be deterministic, but for
// the calls sourceCall names and the helpers that hand out map keys.
func (d *detAn) ours(f *ssa.Function) bool {
	pk := pkgOfFn(f)
	return pk == nil || pk.Path() != glPath
}

func (d *detAn) findRegions() {
	for _, f := range d.a.fns {
		if !d.ours(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Next:
					r, ok := x.Iter.(*ssa.Range)
					if !ok {
						continue
					}
					if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					rg := &detRegion{desc: "the iteration order of the map in " + d.c.p.fnName(f), pos: r.Pos(), blocks: naturalLoop(b), header: b, next: x}
					var cs []ssa.Instruction
					for lb := range rg.blocks {
						for _, i := range lb.Instrs {
							if _, ok := i.(ssa.CallInstruction); ok {
								cs = append(cs, i)
							}
						}
					}
					rg.fns = d.reach(cs)
					d.regions = append(d.regions, rg)
				case *ssa.Go:
					if !inLoop(ins) && len(d.into[f]) < 2 && !d.calledInLoop(f, map[*ssa.Function]bool{}) {
						continue
					}
					rg := &detRegion{desc: "the order in which the goroutines of " + d.c.p.fnName(f) + " run", pos: x.Pos(), goroot: true, goIns: x, blocks: map[*ssa.BasicBlock]bool{}}
					rg.fns = d.reach([]ssa.Instruction{x})
					if !inLoop(ins) {
						rg.once = f
					}
					rg.locked = locksIn(rg.fns)
					d.regions = append(d.regions, rg)
				}
			}
		}
	}
}

func (d *detAn) calledInLoop(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, ci := range d.into[f] {
		if inLoop(ci) || d.calledInLoop(ci.Parent(), seen) {
			return true
		}
	}
	return len(d.into[f]) > 1
}

func (r *detRegion) has(ins ssa.Instruction) bool {
	return r.blocks[ins.Block()] || r.fns[ins.Parent()]
}

// fresh objects are made anew in each iteration.
func (r *detRegion) fresh(o *ptObj) bool {
	if r.once != nil && o.in == r.once {
		return true // one goroutine per call of the function that made it
	}
	return o.site != nil && r.has(o.site)
}

func (d *detAn) taint(v ssa.Value, why string) {
	if _, ok := d.tv[v]; !ok {
		d.tv[v] = why
		d.changed = true
	}
}

func (d *detAn) taintLoc(l ptLoc, why string) {
	if _, ok := d.tm[l]; !ok {
		d.tm[l] = why
		d.changed = true
	}
}

func (d *detAn) locsOf(v ssa.Value, path string) []ptLoc {
	var r []ptLoc
	if n, ok := d.a.keys[ptKey{v, ""}]; ok {
		for _, l := range d.a.nodes[n].order {
			r = append(r, ptLoc{l.o, l.path + path})
		}
	} else if _, ok := v.(*ssa.Global); ok {
		r = append(r, ptLoc{d.a.global(v.(*ssa.Global)), path})
	}
	return r
}

// sameAddr says whether two addresses are always the same place.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && sameAddr(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// commutes says whether an update of an accumulator gives the same result in any order: is says
// which values stand for the old content.
func commutes(v ssa.Value, at *ssa.BasicBlock, is func(ssa.Value) bool) bool {
	konst := ""
	seen := map[ssa.Value]bool{}
	var uses func(v ssa.Value, d int) bool // does it depend on the old content
	uses = func(v ssa.Value, n int) bool {
		if is(v) {
			return true
		}
		if n == 0 {
			return false
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range ins.Operands(nil) {
			if op != nil && *op != nil && uses(*op, n-1) {
				return true
			}
		}
		return false
	}
	op := ""
	setOp := func(o string) bool {
		if op == "" {
			op = o
		}
		return op == o
	}
	var ok func(v ssa.Value, at *ssa.BasicBlock) bool
	ok = func(v ssa.Value, at *ssa.BasicBlock) bool {
		if is(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const:
			k := "nil"
			if x.Value != nil {
				k = x.Value.ExactString()
			}
			if konst == "" {
				konst = k
			}
			return konst == k && setOp("const")
		case *ssa.Phi:
			if seen[x] {
				return true
			}
			seen[x] = true
			for i, e := range x.Edges {
				if !ok(e, x.Block().Preds[i]) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if intType(x.Type()) {
					o := x.Op.String()
					if ok(x.X, x.Block()) && !uses(x.Y, 6) {
						return setOp(o)
					}
					if ok(x.Y, x.Block()) && !uses(x.X, 6) {
						return setOp(o)
					}
				}
			case token.SUB:
				if intType(x.Type()) && ok(x.X, x.Block()) && !uses(x.Y, 6) {
					return setOp("+")
				}
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && (b.Name() == "max" || b.Name() == "min") {
				n := 0
				for _, q := range x.Call.Args {
					if is(q) {
						n++
					} else if uses(q, 6) {
						return false
					}
				}
				return n == 1 && setOp(b.Name())
			}
		}
		// the larger or smaller of the old content and v
		if at != nil && !uses(v, 6) {
			for b := at; b != nil; b = b.Idom() {
				for _, p := range b.Preds {
					iff, isIf := p.Instrs[len(p.Instrs)-1].(*ssa.If)
					if !isIf || len(b.Preds) != 1 {
						continue
					}
					cmp, isB := iff.Cond.(*ssa.BinOp)
					if !isB {
						continue
					}
					rel := cmp.Op
					l, r := cmp.X, cmp.Y
					if same(l, v) && is(r) {
					} else if same(r, v) && is(l) {
						switch rel {
						case token.LSS:
							rel = token.GTR
						case token.GTR:
							rel = token.LSS
						case token.LEQ:
							rel = token.GEQ
						case token.GEQ:
							rel = token.LEQ
						}
					} else {
						continue
					}
					if p.Succs[0] != b {
						switch rel {
						case token.LSS, token.LEQ:
							rel = token.GTR
						case token.GTR, token.GEQ:
							rel = token.LSS
						}
					}
					switch rel {
					case token.GTR, token.GEQ:
						return setOp("max")
					case token.LSS, token.LEQ:
						return setOp("min")
					}
				}
			}
		}
		return false
	}
	return ok(v, at)
}

// same says whether two values are certainly equal within one iteration (the same value, or the same
// field of the same value).
func same(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && same(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && (sameAddr(x.X, y.X) || same(x.X, y.X))
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && x.Tuple == y.Tuple
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && same(x.X, y.X)
	}
	return false
}

// isKey says whether a value takes another value in each iteration of a map loop.
func (r *detRegion) isKey(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	return ok && r.next != nil && e.Tuple == ssa.Value(r.next) && e.Index == 1
}

// region applies the rules of one region: what leaves it must not depend on the order.
func (d *detAn) region(r *detRegion) {
	why := r.desc
	if r.header != nil {
		for _, ins := range r.header.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range ph.Edges {
				if !r.blocks[r.header.Preds[i]] {
					continue
				}
				if !commutes(e, r.header.Preds[i], func(v ssa.Value) bool { return v == ssa.Value(ph) }) {
					d.taint(ph, why)
				}
			}
		}
		// values chosen by leaving the loop early
		for b := range r.blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi && b == r.header {
					continue
				}
				if !d.varies(r, v, map[ssa.Value]bool{}) {
					continue
				}
				for _, u := range *v.Referrers() {
					if r.blocks[u.Block()] {
						continue
					}
					d.taint(v, why)
				}
			}
		}
	}
	if r.goroot {
		if _, ok := d.output(r.goIns); ok {
			d.bad[fmt.Sprintf("%s at %s writes in an order that depends on %s", d.c.p.fnName(r.goIns.Parent()), d.c.p.posStr(r.goIns.Pos()), why)] = true
		}
	}
	visit := func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Store:
			for _, l := range d.locsOf(x.Addr, "") {
				if r.fresh(l.o) {
					continue
				}
				if r.goroot && !r.locked {
					continue // places of their own, or a data race (C13)
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && (r.goroot || r.isKey(ia.Index)) {
					continue
				}
				if !d.variesIn(r, x.Val) && !constLike(x.Val) {
					// the same in every iteration
					continue
				}
				if commutes(x.Val, x.Block(), func(v ssa.Value) bool {
					u, ok := v.(*ssa.UnOp)
					return ok && u.Op == token.MUL && sameAddr(u.X, x.Addr)
				}) {
					continue
				}
				d.taintLoc(l, why)
			}
		case *ssa.MapUpdate:
			if constLike(x.Value) || r.isKey(x.Key) || !d.variesIn(r, x.Value) {
				return
			}
			if commutes(x.Value, x.Block(), func(v ssa.Value) bool {
				if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
					v = e.Tuple
				}
				l, ok := v.(*ssa.Lookup)
				return ok && sameAddr(l.X, x.Map) && eqKey(l.Index, x.Key)
			}) {
				return
			}
			for _, l := range d.locsOf(x.Map, ".v") {
				if !r.fresh(l.o) {
					d.taintLoc(l, why)
				}
			}
		case *ssa.Send:
			if constLike(x.X) {
				return
			}
			for _, l := range d.locsOf(x.Chan, ".c") {
				if !r.fresh(l.o) {
					d.taintLoc(l, why)
				}
			}
		case ssa.CallInstruction:
			if _, isGo := x.(*ssa.Go); isGo {
				return
			}
			if w, ok := d.output(x); ok {
				d.bad[fmt.Sprintf("%s at %s writes in an order that depends on %s", d.c.p.fnName(ins.Parent()), d.c.p.posStr(ins.Pos()), why)] = true
				_ = w
			}
			for _, l := range d.extTargets(x) {
				if !r.fresh(l.o) {
					d.taintLoc(l, why)
				}
			}
		}
	}
	for b := range r.blocks {
		for _, ins := range b.Instrs {
			visit(ins)
		}
	}
	for f := range r.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				visit(ins)
			}
		}
	}
}

func constLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		// a composite value that was never filled, as struct{}{}
		if st, ok := v.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
			return true
		}
	case *ssa.MakeInterface:
		return constLike(x.X)
	}
	return false
}

func eqKey(a, b ssa.Value) bool {
	if same(a, b) {
		return true
	}
	// composite literals with equal fields
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	aa, ok1 := la.X.(*ssa.Alloc)
	ab, ok2 := lb.X.(*ssa.Alloc)
	if !ok1 || !ok2 {
		return false
	}
	fa, fb := litFields(aa), litFields(ab)
	if fa == nil || len(fa) != len(fb) {
		return false
	}
	for k, v := range fa {
		w := fb[k]
		if w == nil || !eqVal(v, w) {
			return false
		}
	}
	return true
}

func eqVal(a, b ssa.Value) bool {
	if same(a, b) || sameAddr(a, b) {
		return true
	}
	x, ok1 := a.(*ssa.BinOp)
	y, ok2 := b.(*ssa.BinOp)
	return ok1 && ok2 && x.Op == y.Op && eqVal(x.X, y.X) && eqVal(x.Y, y.Y)
}

func litFields(al *ssa.Alloc) map[int]ssa.Value {
	r := map[int]ssa.Value{}
	for _, u := range *al.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, s := range *fa.Referrers() {
			if st, ok := s.(*ssa.Store); ok {
				if r[fa.Field] != nil {
					return nil
				}
				r[fa.Field] = st.Val
			}
		}
	}
	return r
}

// varies says whether a value defined in the loop depends on the iteration.
func (d *detAn) varies(r *detRegion, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	ins, ok := v.(ssa.Instruction)
	if !ok || !r.blocks[ins.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Next, *ssa.Phi:
		if e, isN := x.(*ssa.Next); isN {
			return e == r.next
		}
		return true
	case *ssa.Extract:
		if x.Tuple == ssa.Value(r.next) {
			return x.Index > 0
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return d.varies(r, x.Call.Args[0], seen)
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return true
	}
	for _, op := range ins.Operands(nil) {
		if op != nil && *op != nil && d.varies(r, *op, seen) {
			return true
		}
	}
	return false
}

// variesIn is varies for any place of the region; in functions run from it everything that is not
// constant may vary.
func (d *detAn) variesIn(r *detRegion, v ssa.Value) bool {
	if constLike(v) {
		return false
	}
	if ins, ok := v.(ssa.Instruction); ok {
		if r.blocks[ins.Block()] {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				return true // content may change
			}
			return d.varies(r, v, map[ssa.Value]bool{})
		}
		return r.fns[ins.Parent()]
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return r.fns[p.Parent()]
	}
	if p, ok := v.(*ssa.FreeVar); ok {
		return r.fns[p.Parent()]
	}
	return false
}

// ---------------------------------------------------------------- outputs and library calls

func detName(x ssa.CallInstruction) string {
	cc := x.Common()
	if cc.IsInvoke() {
		return "(" + cc.Value.Type().String() + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.String()
	}
	return ""
}

func isStderr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return isStderr(x.X)
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && g.String() == "os.Stderr"
	case *ssa.ChangeInterface:
		return isStderr(x.X)
	}
	return false
}

func isStdout(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return isStdout(x.X)
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && g.String() == "os.Stdout"
	case *ssa.ChangeInterface:
		return isStdout(x.X)
	}
	return false
}

// memWriter says whether a writer collects in memory.
func memWriter(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	switch v.Type().String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

// output recognises the calls that write what the property is about, and gives their data.
func (d *detAn) output(x ssa.CallInstruction) ([]ssa.Value, bool) {
	cc := x.Common()
	if len(d.callees[x]) > 0 && !d.onlyExternal(x) {
		return nil, false
	}
	n := detName(x)
	var w ssa.Value
	var data []ssa.Value
	switch {
	case n == "fmt.Print" || n == "fmt.Printf" || n == "fmt.Println":
		return cc.Args, true
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString", n == "io.Copy", n == "io.CopyN", n == "encoding/binary.Write":
		w, data = cc.Args[0], cc.Args[1:]
	case cc.IsInvoke() && (cc.Method.Name() == "Write" || cc.Method.Name() == "WriteString" || cc.Method.Name() == "ReadFrom" || cc.Method.Name() == "WriteByte"):
		w, data = cc.Value, cc.Args
	case strings.HasPrefix(n, "(*os.File).Write"), strings.HasPrefix(n, "(*bufio.Writer).Write"):
		w, data = cc.Args[0], cc.Args[1:]
	default:
		return nil, false
	}
	if isStderr(w) || memWriter(w) {
		return nil, false
	}
	if d.stdout && !isStdout(w) {
		if _, isIface := w.Type().Underlying().(*types.Interface); !isIface {
			return nil, false
		}
		// a writer that may be the standard output
		if !d.mayBeStdout(w) {
			return nil, false
		}
	}
	return data, true
}

func (d *detAn) onlyExternal(x ssa.CallInstruction) bool {
	for _, f := range d.callees[x] {
		if d.a.done[f] {
			return false
		}
	}
	return true
}

func (d *detAn) mayBeStdout(w ssa.Value) bool {
	// followed back through parameters
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if isStdout(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, ci := range d.into[x.Parent()] {
					as := ci.Common().Args
					if ci.Common().IsInvoke() {
						i--
					}
					if i >= 0 && i < len(as) && walk(as[i]) {
						return true
					}
				}
			}
		case *ssa.FreeVar:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.MakeInterface:
			return walk(x.X)
		case *ssa.ChangeInterface:
			return walk(x.X)
		case *ssa.Call:
			// bufio.NewWriter and the like
			for _, q := range x.Call.Args {
				if walk(q) {
					return true
				}
			}
		case *ssa.UnOp:
			for _, l := range d.locsOf(x.X, "") {
				for _, f := range d.a.fns {
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							if st, ok := ins.(*ssa.Store); ok {
								for _, m := range d.locsOf(st.Addr, "") {
									if m == l && walk(st.Val) {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	return walk(w)
}

// extTargets lists what a library call may write to in memory, beyond what it returns.
func (d *detAn) extTargets(x ssa.CallInstruction) []ptLoc {
	cc := x.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		if b := cc.Value.(*ssa.Builtin).Name(); b == "copy" {
			return d.locsOf(cc.Args[0], ".[]")
		}
		return nil
	}
	if len(d.callees[x]) > 0 && !d.onlyExternal(x) {
		return nil
	}
	n := detName(x)
	if strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync/atomic.Add") || n == "" {
		return nil
	}
	var r []ptLoc
	if strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder).") {
		return d.locsOf(cc.Args[0], "")
	}
	if len(cc.Args) > 0 && memWriter(cc.Args[0]) {
		v := cc.Args[0]
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		return d.locsOf(v, "")
	}
	ws, path := extWrites(n)
	if path == "*" {
		path = ""
	}
	if strings.HasPrefix(n, "sort.") {
		return nil
	}
	for _, i := range ws {
		if i < len(cc.Args) {
			v := cc.Args[i]
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			r = append(r, d.locsOf(v, path)...)
		}
	}
	return r
}

// sourceCall names what makes the result of a library call vary from run to run.
func sourceCall(n string) string {
	switch {
	case n == "time.Now" || n == "time.Since" || n == "time.Until":
		return "the time"
	case strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "(*math/rand") || strings.HasPrefix(n, "crypto/rand") || strings.HasPrefix(n, "(*crypto/rand") || strings.HasPrefix(n, "hash/maphash") || strings.HasPrefix(n, "(*hash/maphash"):
		return "randomness"
	case n == "os.Getpid" || n == "os.Getppid" || n == "os.CreateTemp" || n == "os.MkdirTemp" || n == "runtime.NumGoroutine":
		return "the process"
	case strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ".Add"):
		return "scheduling"
	}
	return ""
}

// printsAddress says whether formatting a value of the type prints an address.
func printsAddress(t types.Type, top bool, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	ms := types.NewMethodSet(t)
	for _, m := range []string{"String", "Error", "Format"} {
		if s := ms.Lookup(nil, m); s != nil {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if top {
			switch e := u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return printsAddress(e, false, seen)
			}
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(u.Field(i).Type(), false, seen) {
				return true
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), false, seen)
	case *types.Array:
		return printsAddress(u.Elem(), false, seen)
	case *types.Map:
		return printsAddress(u.Key(), false, seen) || printsAddress(u.Elem(), false, seen)
	}
	return false
}

// ---------------------------------------------------------------- sorting

// sorterArg gives the slice a call puts into an order that depends on its elements only.
func (d *detAn) sorterArg(ci ssa.CallInstruction) (ssa.Value, bool) {
	if _, ok := ci.(*ssa.Call); !ok {
		return nil, false
	}
	cc := ci.Common()
	n := detName(ci)
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return cc.Args[0], true
	case "sort.Sort", "sort.Stable":
		if m, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			switch m.X.Type().String() {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				v := m.X
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				return v, true
			}
		}
	case "sort.Slice", "sort.SliceStable":
		if m, ok := cc.Args[0].(*ssa.MakeInterface); ok && d.plainLess(cc.Args[1]) {
			return m.X, true
		}
	case "slices.SortFunc", "slices.SortStableFunc":
		if f := fnValue(cc.Args[1]); f != nil {
			if o := f.Origin(); o != nil {
				f = o
			}
			if s := f.String(); s == "strings.Compare" || s == "cmp.Compare" {
				return cc.Args[0], true
			}
			if len(f.Blocks) == 1 && len(f.Params) == 2 {
				if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok {
					if c, ok := r.Results[0].(*ssa.Call); ok && len(c.Call.Args) == 2 && plainParam(c.Call.Args[0], f) && plainParam(c.Call.Args[1], f) {
						if s := detName(c); s == "strings.Compare" || s == "cmp.Compare" {
							return cc.Args[0], true
						}
					}
				}
			}
		}
	}
	for _, f := range d.callees[ci] {
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok && len(d.callees[ci]) == 1 && i < len(cc.Args) && !cc.IsInvoke() && d.sortsParam(f, p) {
				return cc.Args[i], true
			}
		}
	}
	return nil, false
}

func fnValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return fnValue(x.X)
	}
	return nil
}

func plainParam(v ssa.Value, f *ssa.Function) bool {
	p, ok := v.(*ssa.Parameter)
	return ok && p.Parent() == f
}

func (d *detAn) sortsParam(f *ssa.Function, p *ssa.Parameter) bool {
	k := [2]interface{}{f, p}
	if v, ok := d.sorters[k]; ok {
		return v
	}
	d.sorters[k] = false
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			v, ok := d.sorterArg(ci)
			if !ok || v != ssa.Value(p) {
				continue
			}
			all := true
			for _, rb := range f.Blocks {
				if _, isR := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); isR && !b.Dominates(rb) {
					all = false
				}
			}
			if all {
				d.sorters[k] = true
				return true
			}
		}
	}
	return false
}

// plainLess recognises func(i, j int) bool { return x[i] < x[j] } on elements ordered as a whole.
func (d *detAn) plainLess(v ssa.Value) bool {
	f := fnValue(v)
	if f == nil || len(f.Params) != 2 || len(f.Blocks) != 1 {
		return false
	}
	r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	c, ok := r.Results[0].(*ssa.BinOp)
	if !ok || c.Op != token.LSS && c.Op != token.GTR {
		return false
	}
	elem := func(v ssa.Value, p *ssa.Parameter) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		return ok && ia.Index == ssa.Value(p)
	}
	return elem(c.X, f.Params[0]) && elem(c.Y, f.Params[1]) || elem(c.X, f.Params[1]) && elem(c.Y, f.Params[0])
}

// sortedAt says whether a slice has been sorted whenever control is at an instruction.
func (d *detAn) sortedAt(v ssa.Value, at ssa.Instruction) bool {
	f := at.Parent()
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			s, ok := d.sorterArg(ci)
			if !ok {
				continue
			}
			dom := b != at.Block() && b.Dominates(at.Block())
			if b == at.Block() {
				for j, y := range b.Instrs {
					if y == at && j > i {
						dom = true
					}
				}
			}
			if ins == at {
				return s == v || sameLoad(s, v) // the sort itself does not care
			}
			if !dom {
				continue
			}
			if s == v {
				return true
			}
			if sameLoad(s, v) && !storedBetween(s.(*ssa.UnOp).X, ins, at) {
				return true
			}
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

func storedBetween(addr ssa.Value, from, to ssa.Instruction) bool {
	for _, b := range from.Parent().Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && sameAddr(st.Addr, addr) && reachesInstr(from, st) && reachesInstr(st, to) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- propagation

func (d *detAn) get(v ssa.Value, at ssa.Instruction) (string, bool) {
	w, ok := d.tv[v]
	if !ok {
		return "", false
	}
	if _, isS := v.Type().Underlying().(*types.Slice); isS && at != nil && d.sortedAt(v, at) {
		return "", false
	}
	return w, true
}

func (d *detAn) memTaint(v ssa.Value, path string) (string, bool) {
	for _, l := range d.locsOf(v, path) {
		if w, ok := d.tm[l]; ok {
			return w, true
		}
	}
	return "", false
}

// below looks for anything reachable through a pointer, slice or interface handed to the library.
func (d *detAn) below(v ssa.Value) (string, bool) {
	seen := map[*ptObj]bool{}
	var visit func(l ptLoc, n int) (string, bool)
	visit = func(l ptLoc, n int) (string, bool) {
		for k, w := range d.tm {
			if k.o == l.o && strings.HasPrefix(k.path, l.path) {
				return w, true
			}
		}
		if n == 0 || seen[l.o] {
			return "", false
		}
		seen[l.o] = true
		for _, nd := range d.a.contentNodes(l.o) {
			for _, m := range d.a.nodes[nd].order {
				if w, ok := visit(m, n-1); ok {
					return w, true
				}
			}
		}
		return "", false
	}
	if len(d.tm) == 0 {
		return "", false
	}
	for _, lf := range d.a.leaves(v.Type()) {
		if n, ok := d.a.keys[ptKey{v, lf.path}]; ok {
			for _, l := range d.a.nodes[n].order {
				if w, ok := visit(l, 3); ok {
					return w, true
				}
			}
		}
	}
	return "", false
}

func nilCompare(x *ssa.BinOp) bool {
	n := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
	return (x.Op == token.EQL || x.Op == token.NEQ) && (n(x.X) || n(x.Y))
}

func (d *detAn) step(ins ssa.Instruction) {
	f := ins.Parent()
	from := func(v ssa.Value, ops ...ssa.Value) {
		for _, o := range ops {
			if o == nil {
				continue
			}
			if w, ok := d.get(o, ins); ok {
				d.taint(v, w)
				return
			}
		}
	}
	ctl, isCtl := d.tb[ins.Block()]
	if !isCtl {
		ctl, isCtl = d.tf[f]
	}
	switch x := ins.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if w, ok := d.get(e, p.Instrs[len(p.Instrs)-1]); ok {
				d.taint(x, w)
			}
			if w, ok := d.tb[p]; ok {
				if _, me := d.tb[x.Block()]; !me && !allSame(x.Edges) {
					d.taint(x, w)
				}
			}
		}
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w, ok := d.memTaint(x.X, ""); ok {
				d.taint(x, w)
			}
			// a field of a whole tainted value
			for _, l := range d.locsOf(x.X, "") {
				for i := len(l.path) - 1; i > 0; i-- {
					if l.path[i] == '.' {
						if w, ok := d.tm[ptLoc{l.o, l.path[:i]}]; ok {
							d.taint(x, w)
						}
					}
				}
				if w, ok := d.tm[ptLoc{l.o, ""}]; ok {
					d.taint(x, w)
				}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				from(x, ia.X, ia.Index)
			}
			return
		}
		if x.Op == token.ARROW {
			if w, ok := d.memTaint(x.X, ".c"); ok {
				d.taint(x, w)
			}
			return
		}
		from(x, x.X)
	case *ssa.BinOp:
		if nilCompare(x) {
			return
		}
		from(x, x.X, x.Y)
	case *ssa.Lookup:
		if w, ok := d.memTaint(x.X, ".v"); ok {
			d.taint(x, w)
		}
		from(x, x.Index, x.X)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			if w, ok := d.memTaint(r.X, ".k"); ok {
				d.taint(x, w)
			}
			if w, ok := d.memTaint(r.X, ".v"); ok {
				for _, u := range *x.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == 2 {
						d.taint(e, w)
					}
				}
			}
			from(x, r.X)
		}
	case *ssa.Select:
		n := 0
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				n++
			}
		}
		if len(x.States) > 1 || !x.Blocking {
			d.taint(x, "scheduling")
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if w, ok := d.get(b, ins); ok {
				d.taint(g.FreeVars[i], w)
			}
		}
	case *ssa.Store:
		w, ok := d.get(x.Val, ins)
		if !ok && isCtl {
			w, ok = ctl, true
		}
		if ok {
			for _, l := range d.locsOf(x.Addr, "") {
				d.taintLoc(l, w)
			}
		}
	case *ssa.MapUpdate:
		w, ok := d.get(x.Value, ins)
		k, kok := d.get(x.Key, ins)
		if !kok && isCtl {
			k, kok = ctl, true
		}
		if kok {
			w, ok = k, true
			for _, l := range d.locsOf(x.Map, ".k") {
				d.taintLoc(l, k)
			}
		}
		if ok {
			for _, l := range d.locsOf(x.Map, ".v") {
				d.taintLoc(l, w)
			}
		}
	case *ssa.Send:
		w, ok := d.get(x.X, ins)
		if !ok && isCtl {
			w, ok = ctl, true
		}
		if ok {
			for _, l := range d.locsOf(x.Chan, ".c") {
				d.taintLoc(l, w)
			}
		}
	case *ssa.If:
		if w, ok := d.get(x.Cond, ins); ok {
			for _, b := range d.controlled(x) {
				if _, done := d.tb[b]; !done {
					d.tb[b] = w
					d.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		d.call(x, ctl, isCtl)
	case ssa.Value:
		var ops []ssa.Value
		for _, o := range ins.Operands(nil) {
			if o != nil && *o != nil {
				ops = append(ops, *o)
			}
		}
		from(x, ops...)
	}
}

func allSame(vs []ssa.Value) bool {
	for _, v := range vs {
		if v != vs[0] && !(sameAddr(v, vs[0])) {
			return false
		}
	}
	return true
}

func (d *detAn) call(x ssa.CallInstruction, ctl string, isCtl bool) {
	cc := x.Common()
	res, _ := x.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			// the number does not depend on the order
			if w, ok := d.get(cc.Args[0], x); ok && res != nil && !strings.HasPrefix(w, "the ") {
				d.taint(res, w)
			}
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok && res != nil {
				if w, ok := d.memTaint(cc.Args[0], ".k"); ok {
					d.taint(res, w)
				}
			}
		case "copy":
			w, ok := d.get(cc.Args[1], x)
			if !ok {
				w, ok = d.memTaint(cc.Args[1], ".[]")
			}
			if ok {
				for _, l := range d.locsOf(cc.Args[0], ".[]") {
					d.taintLoc(l, w)
				}
			}
		default:
			if res == nil {
				return
			}
			for _, a := range cc.Args {
				if w, ok := d.get(a, x); ok {
					d.taint(res, w)
				}
				if b.Name() == "append" {
					if w, ok := d.memTaint(a, ".[]"); ok {
						d.taint(res, w)
					}
				}
			}
		}
		return
	}
	if data, ok := d.output(x); ok {
		at := fmt.Sprintf("%s at %s", d.c.p.fnName(x.Parent()), d.c.p.posStr(x.Pos()))
		if isCtl {
			d.bad[at+" writes or not depending on "+ctl] = true
		}
		for _, v := range data {
			w, ok := d.get(v, x)
			if !ok {
				w, ok = d.below(v)
			}
			if ok {
				d.bad[at+" writes bytes that depend on "+w] = true
			}
			if d.addressArg(x, v) {
				d.bad[at+" writes the address of an object"] = true
			}
		}
	}
	internal := false
	for _, g := range d.callees[x] {
		if !d.a.done[g] {
			continue
		}
		if strings.HasPrefix(detName(x), "slices.Sorted") {
			continue
		}
		internal = true
		ps := g.Params
		args := cc.Args
		if cc.IsInvoke() && len(ps) > 0 {
			if w, ok := d.get(cc.Value, x); ok {
				d.taint(ps[0], w)
			}
			ps = ps[1:]
		}
		for i, p := range ps {
			if i < len(args) && len(ps) == len(args) {
				if w, ok := d.get(args[i], x); ok {
					d.taint(p, w)
				}
			}
		}
		if isCtl {
			if _, ok := d.tf[g]; !ok {
				d.tf[g] = ctl
				d.changed = true
			}
		}
		if res == nil {
			continue
		}
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range r.Results {
				w, ok := d.get(v, r)
				if !ok {
					w, ok = d.tb[b]
				}
				if !ok {
					continue
				}
				if len(r.Results) == 1 {
					d.taint(res, w)
					continue
				}
				for _, u := range *res.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						d.taint(e, w)
					}
				}
			}
		}
	}
	if internal || d.c == nil {
		return
	}
	n := detName(x)
	if w := sourceCall(n); w != "" && res != nil {
		d.taint(res, w)
		return
	}
	if strings.HasPrefix(n, "slices.Sorted") || strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
		return
	}
	w, ok := "", false
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, v := range args {
		if w, ok = d.get(v, x); ok {
			break
		}
		if w, ok = d.below(v); ok {
			break
		}
		if strings.HasPrefix(n, "fmt.") && d.addressArg(x, v) {
			w, ok = "the address of an object", true
			break
		}
	}
	if !ok && isCtl && len(d.extTargets(x)) > 0 {
		w, ok = ctl, true
	}
	if !ok {
		return
	}
	if res != nil {
		d.taint(res, w)
	}
	for _, l := range d.extTargets(x) {
		d.taintLoc(l, w)
	}
}

// addressArg says whether a formatting call is handed something it prints as an address.
func (d *detAn) addressArg(x ssa.CallInstruction, v ssa.Value) bool {
	n := detName(x)
	if !strings.HasPrefix(n, "fmt.") {
		return false
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, s := range *ia.Referrers() {
			st, ok := s.(*ssa.Store)
			if !ok {
				continue
			}
			if m, ok := st.Val.(*ssa.MakeInterface); ok && printsAddress(m.X.Type(), true, map[types.Type]bool{}) {
				return true
			}
		}
	}
	return false
}

// controlled lists the blocks that run or not depending on a branch.
func (d *detAn) controlled(iff *ssa.If) []*ssa.BasicBlock {
	if r, ok := d.cregion[iff]; ok {
		return r
	}
	b := iff.Block()
	reach := func(s *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		r := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock)
		walk = func(x *ssa.BasicBlock) {
			if r[x] {
				return
			}
			r[x] = true
			for _, y := range x.Succs {
				walk(y)
			}
		}
		walk(s)
		return r
	}
	// a block is not controlled when every way out of the branch passes through it
	exits := func(avoid *ssa.BasicBlock) bool { // can the function end without passing avoid
		r := map[*ssa.BasicBlock]bool{avoid: true}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if r[x] {
				return false
			}
			r[x] = true
			if len(x.Succs) == 0 {
				return true
			}
			for _, y := range x.Succs {
				if walk(y) {
					return true
				}
			}
			return false
		}
		for _, s := range b.Succs {
			if s != avoid && walk(s) {
				return true
			}
		}
		return false
	}
	all := reach(b.Succs[0])
	for k := range reach(b.Succs[1]) {
		all[k] = true
	}
	var out []*ssa.BasicBlock
	for _, x := range b.Parent().Blocks {
		if all[x] && exits(x) {
			out = append(out, x)
		}
	}
	d.cregion[iff] = out
	return out
}

// threads: what several goroutines send to one channel or print arrives in any order.
func (d *detAn) threads() {
	type th struct {
		name string
		fns  map[*ssa.Function]bool
	}
	var ts []th
	gos := map[ssa.Instruction]bool{}
	for _, f := range d.a.fns {
		if !d.ours(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					gos[ins] = true
					ts = append(ts, th{d.c.p.fnName(f), d.reach([]ssa.Instruction{ins})})
				}
			}
		}
	}
	main := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if main[f] {
			return
		}
		main[f] = true
		for _, e := range d.a.edges[f] {
			if !gos[e.site] {
				visit(e.to)
			}
		}
	}
	visit(d.root)
	d.c.counts["goroutine starts"] += len(ts)
	senders := map[*ptObj]map[int]bool{}
	prints := map[int]bool{}
	for i, t := range append(ts, th{"", main}) {
		for f := range t.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Send:
						if constLike(x.X) {
							continue
						}
						for _, l := range d.locsOf(x.Chan, "") {
							if senders[l.o] == nil {
								senders[l.o] = map[int]bool{}
							}
							senders[l.o][i] = true
						}
					case ssa.CallInstruction:
						if _, ok := d.output(x); ok && i < len(ts) {
							prints[i] = true
						}
					}
				}
			}
		}
	}
	for o, m := range senders {
		if len(m) > 1 {
			d.taintLoc(ptLoc{o, ".c"}, "the order in which goroutines send")
		}
	}
	if len(prints) > 1 {
		d.bad["several goroutines write the output"] = true
	}
}

func (d *detAn) run() {
	d.findRegions()
	d.threads()
	for _, r := range d.regions {
		d.region(r)
	}
	for {
		d.changed = false
		for _, f := range d.a.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					d.step(ins)
				}
			}
		}
		if !d.changed {
			break
		}
	}
	for _, f := range d.a.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if _, ok := d.output(ci); ok {
						d.outputs++
					}
				}
			}
		}
	}
}

func checkC22(c *Check) {
	c.rule("information flow: sources are map iteration, goroutines started more than once, several senders, select, time, randomness and addresses; what leaves a map loop or a set of goroutines must be the same in any order (commutative updates, sets) or be sorted; no source may reach the bytes written or decide whether they are written.")
	type rt struct {
		pkg, fn string
		stdout  bool
	}
	for _, r := range []rt{
		{"binvox", "BinVOX.Write", false}, {"vshell", "VShell.Write", false},
		{"cmd/stldice", "main", true}, {"cmd/voxcut-dice", "main", true}, {"cmd/binvox-dice", "main", true},
	} {
		key := "root:" + r.pkg + "." + r.fn
		fn := c.p.Fn(r.pkg, r.fn)
		if fn == nil {
			c.ob("anchor:"+key, false, 0, "%s.%s not found", r.pkg, r.fn)
			continue
		}
		d := newDet(c, fn, r.stdout)
		d.run()
		c.counts["functions"] += len(d.a.fns)
		c.counts["order-dependent regions"] += len(d.regions)
		c.counts["outputs"] += d.outputs
		c.counts["outputs of "+r.pkg] += d.outputs
		c.ob(key, len(d.bad) == 0, fn.Pos(), "%s: %s", c.p.fnName(fn), joinSet(d.bad))
		c.atLeast("outputs of "+r.pkg, 1)
		var ds []string
		for _, g := range d.regions {
			ds = append(ds, g.desc+" at "+c.p.posStr(g.pos))
		}
		sort.Strings(ds)
		for _, s := range ds {
			c.counts["region: "+s]++
		}
	}
	c.atLeast("order-dependent regions", 1)
}

func init() { checks["C22"] = checkC22 }
