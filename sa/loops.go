package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- function information

type fnInfo struct {
	short   string
	instrNo map[ssa.Instruction]int
	liveIn  map[*ssa.BasicBlock][]ssa.Value
	rpo     []*ssa.BasicBlock
	header  map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fninfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{short: e.p.fnName(fn), instrNo: map[ssa.Instruction]int{}, liveIn: map[*ssa.BasicBlock][]ssa.Value{}, header: map[*ssa.BasicBlock]*loopInfo{}}
	e.fninfo[fn] = fi
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			fi.instrNo[i] = n
			n++
		}
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit the loop-exit successor first so that bodies come before what follows
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := fi.header[s]
			if l == nil {
				l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				fi.header[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	// liveness (phi definitions are treated as made on the incoming edges)
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	interesting := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
					if live[s][ph] && interesting(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
				for v := range live[s] {
					if !phis[v] {
						cur[v] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil && interesting(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(live[b]) {
				live[b] = cur
				changed = true
			}
		}
	}
	for b, m := range live {
		var vs []ssa.Value
		for v := range m {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		fi.liveIn[b] = vs
	}
	return fi
}

// ---------------------------------------------------------------- loop summaries

// PhiInfo is one loop-carried location: a phi or a piece of memory.
type PhiInfo struct {
	name string
	sym  *Term // value at the loop header in iteration n
	init *Term
	typ  types.Type
	base *Term
}

// IterPath is one way through the body back to the header.
type IterPath struct {
	events []*Event
	facts  *Facts
	back   map[*Term]*Term
	heap   map[*Term]*Term
	st     *State
}

// Loop is the summary of a loop: one generic iteration.
type Loop struct {
	id     string
	marker string
	n      *Term
	fn     *ssa.Function
	pos    token.Pos
	phis   []*PhiInfo
	iters  []*IterPath
	facts  *Facts // at the header
	entry  *Facts
	exits  []*Facts // where it is left
	trace0 *TNode
	heap0  map[*Term]*Term
}

func (it *IterPath) newFacts(l *Loop) []*Term { return it.facts.Without(l.facts) }

// phi finds the carried location with the given header value.
func (l *Loop) phi(sym *Term) *PhiInfo {
	for _, p := range l.phis {
		if p.sym == sym {
			return p
		}
	}
	return nil
}

// Summary tells how the symbol standing for a loop-carried value was built.
type Summary struct {
	loop *Loop
	phi  *PhiInfo
}

const (
	vConst = iota
	vSym
	vInd
)

type lvar struct {
	name  string
	typ   types.Type
	phi   *ssa.Phi
	base  *Term
	path  []*Term
	init  *Term
	class int
	tried bool
	delta *Term
	sym   *Term
	cell  *Term // the variable is a cell of its own in each iteration
}

func (v *lvar) header(n *Term) *Term {
	switch v.class {
	case vConst:
		return v.init
	case vInd:
		return Add(v.init, Mul(v.delta, n))
	}
	return v.sym
}

func hasMarker(t *Term, m string) bool {
	return mentions(t, func(x *Term) bool {
		return (x.op == OSym || x.op == OObj) && strings.Contains(x.s, m)
	})
}

// getLeaf and setLeaf address parts of structural values.
func getLeaf(c *Term, path []*Term, typ types.Type) *Term {
	for _, s := range path {
		if isFieldStep(s) {
			i := fieldStepIndex(s)
			var ft types.Type
			if st, ok := under(typ).(*types.Struct); ok && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			c = fieldOf(c, i, ft)
			typ = ft
		} else {
			i, _ := constInt(s.args[0])
			if c.op == OArray && int(i) < len(c.args) {
				c = c.args[i]
			} else {
				c = elemOf(c, s.args[0], elemType(typ), nil)
			}
			typ = elemType(typ)
		}
	}
	return c
}

func leafType(path []*Term, typ types.Type) types.Type {
	for _, s := range path {
		if isFieldStep(s) {
			i := fieldStepIndex(s)
			if st, ok := under(typ).(*types.Struct); ok && i < st.NumFields() {
				typ = st.Field(i).Type()
			} else if ch, ok := under(typ).(*types.Chan); ok {
				switch i {
				case 0:
					typ = types.NewSlice(ch.Elem())
				case 1:
					typ = types.Typ[types.Bool]
				default:
					typ = types.Typ[types.Int]
				}
			} else {
				typ = nil
			}
		} else {
			typ = elemType(typ)
		}
	}
	return typ
}

func setLeaf(c *Term, path []*Term, v *Term, typ types.Type) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if isFieldStep(s) {
		i := fieldStepIndex(s)
		if c.op != OStruct {
			if st, ok := under(typ).(*types.Struct); ok {
				c = expandStruct2(c, st, typ)
			} else {
				return App("upd", typ, c, s, v)
			}
		}
		as := append([]*Term{}, c.args...)
		var ft types.Type
		if st, ok := under(typ).(*types.Struct); ok && i < st.NumFields() {
			ft = st.Field(i).Type()
		}
		as[i] = setLeaf(as[i], path[1:], v, ft)
		return Struct(c.typ, as...)
	}
	i, _ := constInt(s.args[0])
	as := append([]*Term{}, c.args...)
	as[i] = setLeaf(as[i], path[1:], v, elemType(typ))
	return Array(c.typ, as...)
}

func expandStruct2(o *Term, str *types.Struct, typ types.Type) *Term {
	fs := make([]*Term, str.NumFields())
	for i := range fs {
		fs[i] = fieldOf(o, i, str.Field(i).Type())
	}
	return Struct(typ, fs...)
}

// diffLeaves lists the paths below which a and b differ.
func diffLeaves(a, b *Term, typ types.Type, path []*Term, out *[][]*Term) {
	if a == b {
		return
	}
	if b.op == OStruct && a.op != OStruct {
		if st, ok := under(typ).(*types.Struct); ok && len(b.args) == st.NumFields() {
			a = expandStruct2(a, st, typ)
		}
	}
	if a.op == OStruct && b.op != OStruct {
		if st, ok := under(typ).(*types.Struct); ok && len(a.args) == st.NumFields() {
			b = expandStruct2(b, st, typ)
		}
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		for i := range a.args {
			var ft types.Type
			if st, ok := under(typ).(*types.Struct); ok && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			diffLeaves(a.args[i], b.args[i], ft, append(append([]*Term{}, path...), FieldStep(i)), out)
		}
		return
	}
	if a.op == OArray && b.op == OArray && len(a.args) == len(b.args) && len(a.args) <= 64 && a.typ != nil {
		for i := range a.args {
			diffLeaves(a.args[i], b.args[i], elemType(typ), append(append([]*Term{}, path...), IndexStep(Int(int64(i)))), out)
		}
		return
	}
	*out = append(*out, path)
}

func pathKey(b *Term, path []*Term) string {
	return strconv.Itoa(b.id) + idsKey(path)
}

// loop interprets a loop entered along the given edges.
func (e *Eng) loop(fr *Frame, il *loopInfo, es []edge) []edge {
	states := e.mergePS(fr, il.head, e.phis(fr, il.head, es))
	if out, ok := e.unroll(fr, il, states); ok {
		return out
	}
	states = e.feed(states, il)
	if len(states) > e.joinAbove {
		states = []*PS{e.joinAll(fr, il.head, states)}
	}
	var out []edge
	for _, p := range states {
		out = append(out, e.generic(fr, il, p)...)
	}
	return out
}

// unroll executes loops whose continuation is decided by constants.
func (e *Eng) unroll(fr *Frame, il *loopInfo, states []*PS) ([]edge, bool) {
	iff, ok := il.head.Instrs[len(il.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	in0, in1 := il.blocks[il.head.Succs[0]], il.blocks[il.head.Succs[1]]
	if in0 == in1 {
		return nil, false
	}
	so, sa, fo := len(e.obls), len(e.accs), len(fr.outs)
	rollback := func() ([]edge, bool) {
		e.obls, e.accs, fr.outs = e.obls[:so], e.accs[:sa], fr.outs[:fo]
		return nil, false
	}
	var out []edge
	cur := make([]*PS, len(states))
	for i, s := range states {
		cur[i] = s.clone()
	}
	for iter := 0; len(cur) > 0; iter++ {
		if iter > 300 {
			return rollback()
		}
		// peek at the header decision
		o1, a1, f1 := len(e.obls), len(e.accs), len(fr.outs)
		decided := true
		for _, s := range cur {
			if !e.headDecided(fr, il.head, iff, s.clone()) {
				decided = false
				break
			}
		}
		e.obls, e.accs, fr.outs = e.obls[:o1], e.accs[:a1], fr.outs[:f1]
		if !decided {
			return rollback()
		}
		var ins []edge
		for _, s := range cur {
			ins = append(ins, edge{nil, il.head, s})
		}
		exits, backs := e.region(fr, il, ins)
		out = append(out, exits...)
		cur = e.mergePS(fr, il.head, e.phis(fr, il.head, backs))
		if len(cur) > e.unrollCap {
			cur = []*PS{e.joinAll(fr, il.head, cur)}
		}
	}
	return out, true
}

// decided replaces a condition by its value if that follows from the facts.
func (e *Eng) decided(s *PS, v *Term) *Term {
	if v.op == OBool || !e.factLoops {
		return v
	}
	if s.facts.Entails(v) {
		return Bool(true)
	}
	if s.facts.Entails(Not(v)) {
		return Bool(false)
	}
	return v
}

// headDecided evaluates the header block and reports whether its branch is constant.
func (e *Eng) headDecided(fr *Frame, b *ssa.BasicBlock, iff *ssa.If, s *PS) bool {
	cur := []*PS{s}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if ins == ssa.Instruction(iff) {
			for _, q := range cur {
				if v := e.decided(q, e.val(q, iff.Cond)); v.op != OBool || v != e.decided(cur[0], e.val(cur[0], iff.Cond)) {
					return false
				}
			}
			return len(cur) > 0
		}
		switch ins.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.ChangeType, *ssa.DebugRef, *ssa.Next:
		case *ssa.Call:
			c := ins.(*ssa.Call)
			if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
		if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
		var next []*PS
		for _, q := range cur {
			next = append(next, e.instr(fr, q, ins)...)
		}
		cur = next
	}
	return false
}

func (e *Eng) loopID(key string) string {
	if n, ok := e.loops[key]; ok {
		return "L" + strconv.Itoa(n)
	}
	n := len(e.loops) + 1
	e.loops[key] = n
	return "L" + strconv.Itoa(n)
}

// entryNo tells apart the states in which a loop is entered: the symbols of its summary belong
// to one of them.
func (e *Eng) entryNo(key string, p *PS, il *loopInfo) string {
	var sb strings.Builder
	for _, ins := range il.head.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			if t := p.env[ph]; t != nil {
				fmt.Fprintf(&sb, "%d,", t.id)
			}
		}
	}
	var hs []int
	for k, v := range p.heap {
		hs = append(hs, k.id, v.id)
	}
	sb.WriteString(";")
	var ps [][2]int
	for i := 0; i < len(hs); i += 2 {
		ps = append(ps, [2]int{hs[i], hs[i+1]})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
	for _, q := range ps {
		fmt.Fprintf(&sb, "%d=%d,", q[0], q[1])
	}
	for _, l := range p.facts.lits {
		fmt.Fprintf(&sb, ";%d", l.id)
	}
	sig := sb.String()
	for i, x := range e.entries[key] {
		if x == sig {
			return entrySuffix(i)
		}
	}
	e.entries[key] = append(e.entries[key], sig)
	return entrySuffix(len(e.entries[key]) - 1)
}

func entrySuffix(i int) string {
	if i == 0 {
		return ""
	}
	return "/" + strconv.Itoa(i)
}

// generic interprets one representative iteration.
func (e *Eng) generic(fr *Frame, il *loopInfo, p0 *PS) []edge {
	key := fr.info.short + "." + strconv.Itoa(il.head.Index) + "^" + fr.ctx + e.scope
	p0 = p0.clone()
	c := p0.count("L:" + key)
	id := e.loopID(key + "#" + strconv.Itoa(c) + e.entryNo(key+"#"+strconv.Itoa(c), p0, il))
	marker := "~" + id + ";"
	n := Sym("iter:"+id+e.scope+marker, types.Typ[types.Int])

	var vars []*lvar
	have := map[string]*lvar{}
	addVar := func(v *lvar) {
		v.sym = Sym(v.name+e.scope+marker, v.typ)
		vars = append(vars, v)
	}
	for _, ins := range il.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := &lvar{name: phiName(ph), typ: ph.Type(), phi: ph, init: p0.env[ph], class: vSym}
		if isCellPhi(ph) && v.init.op == OPtr {
			v.typ = pointee(ph.Type())
			v.init = e.load(p0.State, v.init)
			v.cell = Obj("cell:"+v.name+e.scope+marker, v.typ)
			addVar(v)
			continue
		}
		addVar(v)
		if d := e.syntacticStep(p0, il, ph); d != nil {
			v.class = vInd
			v.delta = d
		}
	}
	so, sa, fo := len(e.obls), len(e.accs), len(fr.outs)
	var invs []*Term
	var h *PS
	var exits, backs []edge
	var bps []*PS
	root := &TNode{}
	conds := map[*Term]bool{}
	invPhase := false
	dead := map[*Term]bool{} // rejected candidates
	stable := false
	var backOf func(v *lvar, b *PS) *Term
	for attempt := 0; attempt < 60; attempt++ {
		e.obls, e.accs, fr.outs = e.obls[:so], e.accs[:sa], fr.outs[:fo]
		for k := range e.entries {
			if strings.Contains(k, marker) {
				delete(e.entries, k)
			}
		}
		h = p0.clone()
		root = &TNode{}
		h.trace = root
		for _, v := range vars {
			if v.cell != nil {
				h.env[v.phi] = Ptr(v.cell)
				h.set(v.cell, v.header(n))
			} else if v.phi != nil {
				h.env[v.phi] = v.header(n)
			} else {
				h.set(v.base, setLeaf(e.content(h.State, v.base), v.path, v.header(n), baseType(v.base)))
			}
		}
		facts := []*Term{GE(n)}
		facts = append(facts, invs...)
		h.facts = h.facts.AddAll(facts)
		old, oldLog := e.scope, e.condLog
		e.scope += marker
		e.condLog = map[*Term]bool{}
		if e.debug {
			fmt.Fprintf(os.Stderr, "%sloop %s attempt %d %s vars=%d invs=%d\n", strings.Repeat(" ", e.depth), id, attempt, fr.fn.Name(), len(vars), len(invs))
		}
		exits, backs = e.region(fr, il, []edge{{nil, il.head, h.clone()}})
		for c := range e.condLog {
			conds[c] = true
			if oldLog != nil {
				oldLog[c] = true
			}
		}
		e.scope, e.condLog = old, oldLog
		bps = e.phis(fr, il.head, backs)
		bps = e.flushTasks(bps, marker)
		changed := false
		// memory changed by the body
		for _, b := range bps {
			for _, base := range heapDiff(h.heap, b.heap) {
				if hasMarker(base, marker) {
					continue
				}
				bc := e.content(b.State, base)
				hc := e.content(h.State, base)
				var paths [][]*Term
				diffLeaves(hc, bc, baseType(base), nil, &paths)
				for _, p := range paths {
					k := pathKey(base, p)
					if have[k] != nil {
						continue
					}
					lt := leafType(p, baseType(base))
					v := &lvar{name: "mem:" + termStr(base, 8) + stepsStr(p), typ: lt, base: base, path: p, class: vSym}
					v.init = getLeaf(e.content(p0.State, base), p, baseType(base))
					have[k] = v
					addVar(v)
					changed = true
				}
			}
		}
		if changed {
			invs, dead = nil, map[*Term]bool{}
			continue
		}
		backOf = func(v *lvar, b *PS) *Term {
			if v.cell != nil {
				return e.load(b.State, b.env[v.phi])
			}
			if v.phi != nil {
				return b.env[v.phi]
			}
			return getLeaf(e.content(b.State, v.base), v.path, baseType(v.base))
		}
		// steps
		for _, v := range vars {
			switch v.class {
			case vInd:
				want := Add(v.init, Mul(v.delta, Add(n, Int(1))))
				for _, b := range bps {
					if got := backOf(v, b); got != want && !(isNumeric(got) && b.facts.EqTerm(got, want)) {
						v.class = vSym
						v.tried = true
						changed = true
						break
					}
				}
			case vConst:
				for _, b := range bps {
					if backOf(v, b) != v.init {
						v.class = vSym
						changed = true
						break
					}
				}
			}
		}
		if changed {
			invs, dead = nil, map[*Term]bool{}
			continue
		}
		for _, v := range vars {
			if v.class != vSym || v.tried || len(bps) == 0 {
				continue
			}
			v.tried = true
			var d *Term
			same, num := true, isNumeric(v.sym)
			okc := true
			for _, b := range bps {
				x := backOf(v, b)
				if x != v.sym {
					same = false
				}
				if !num || !isNumeric(x) {
					okc = false
					continue
				}
				dd := Sub(x, v.sym)
				if d == nil {
					d = dd
				} else if d != dd {
					okc = false
				}
			}
			if same {
				v.class = vConst
				changed = true
				continue
			}
			if okc && d != nil && !hasMarker(d, marker) {
				v.class = vInd
				v.delta = d
				changed = true
			}
		}
		if changed {
			invs, dead = nil, map[*Term]bool{}
			continue
		}
		// invariants
		mapInit := map[*Term]*Term{n: Int(0)}
		for _, v := range vars {
			if v.class == vSym {
				mapInit[v.sym] = v.init
			}
		}
		if !invPhase {
			invPhase = true
		}
		var cand []*Term
		seen := map[*Term]bool{}
		addC := func(l *Term) {
			if l.op != OCmp || seen[l] || dead[l] {
				return
			}
			seen[l] = true
			if foreign(l, marker, mapInit) {
				return
			}
			if !p0.facts.Entails(subst(l, mapInit, map[*Term]*Term{})) {
				dead[l] = true
				return
			}
			cand = append(cand, l)
		}
		if len(invs) == 0 {
			for _, v := range vars {
				if v.class == vSym && isNumeric(v.sym) && isNumeric(v.init) {
					addC(GE(Sub(v.sym, v.init)))
					addC(GE(Sub(v.init, v.sym)))
					addC(GE(v.sym))
				}
			}
			var cs []*Term
			for c := range conds {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
			for _, c := range cs {
				for _, p := range condPolys(c) {
					if !hasMarker(p, marker) {
						continue
					}
					// an inner loop carries the same variable on
					if y := oneSym(p); y != nil {
						for _, v := range vars {
							if v.class == vSym && y != v.sym && isNumeric(v.sym) && baseName(y) == baseName(v.sym) {
								p = subst(p, map[*Term]*Term{y: v.sym}, map[*Term]*Term{})
								break
							}
						}
					}
					addC(GE(p))
					addC(GE(Add(p, Int(1))))
					addC(GE(Neg(p)))
					addC(GE(Sub(Int(-1), p)))
					addC(GE(Sub(Int(1), p)))
				}
			}
			if len(cand) > 0 {
				invs = cand
				changed = true
			}
		} else {
			var keep []*Term
			for _, l := range invs {
				ok := true
				for _, b := range bps {
					m := map[*Term]*Term{n: Add(n, Int(1))}
					for _, v := range vars {
						if v.class == vSym {
							m[v.sym] = backOf(v, b)
						}
					}
					if !b.facts.Entails(subst(l, m, map[*Term]*Term{})) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, l)
				} else {
					dead[l] = true
				}
			}
			if len(keep) != len(invs) {
				invs = keep
				changed = true
			}
		}
		if changed && !(len(invs) == 0 && len(cand) == 0 && len(dead) == 0) {
			if len(invs) == 0 {
				// all rejected: one more run without them
				invs = []*Term{GE(n)}
			}
			continue
		}
		stable = true
		break
	}
	if !stable {
		e.fail("no loop invariant found in %v", fr.fn)
	}
	lp := &Loop{id: id, marker: marker, n: n, fn: fr.fn, pos: loopPos(il), facts: h.facts, entry: p0.facts, trace0: p0.trace, heap0: p0.heap}
	for _, v := range vars {
		if v.class == vConst {
			continue
		}
		ph := &PhiInfo{name: v.name, sym: v.header(n), init: v.init, typ: v.typ, base: v.base}
		lp.phis = append(lp.phis, ph)
		if v.class == vSym {
			e.summ[v.sym] = &Summary{loop: lp, phi: ph}
		}
	}
	anyEv := false
	for _, b := range bps {
		it := &IterPath{events: b.trace.since(root), facts: b.facts, back: map[*Term]*Term{}, heap: b.heap, st: b.State}
		if len(it.events) > 0 {
			anyEv = true
		}
		for _, v := range vars {
			if v.class == vConst {
				continue
			}
			it.back[v.header(n)] = e.seqView(b.State, backOf(v, b), v.typ)
		}
		lp.iters = append(lp.iters, it)
		if locksKey(b.locks) != locksKey(p0.locks) {
			e.obls = append(e.obls, &Obl{kind: "lock-balance", pos: lp.pos, in: fr.fn, what: Bool(false), facts: b.facts, task: b.task})
		}
	}
	for _, ph := range lp.phis {
		ph.init = e.seqView(p0.State, ph.init, ph.typ)
	}
	e.allLoops = append(e.allLoops, lp)
	memo := map[*TNode]*TNode{}
	var lev *TNode
	pre := p0.trace
	if anyEv {
		nn := 0
		if pre != nil {
			nn = pre.n + 1
		}
		lev = &TNode{prev: pre, ev: &Event{kind: "loop", loop: lp, pos: lp.pos, in: fr.fn, facts: h.facts, locks: p0.locks, task: p0.task}, n: nn}
		pre = lev
	}
	memo[root] = pre
	var retrace func(t *TNode) *TNode
	retrace = func(t *TNode) *TNode {
		if t == nil {
			return pre
		}
		if x, ok := memo[t]; ok {
			return x
		}
		pr := retrace(t.prev)
		nn := 0
		if pr != nil {
			nn = pr.n + 1
		}
		x := &TNode{prev: pr, ev: t.ev, n: nn}
		memo[t] = x
		return x
	}
	var out []edge
	for _, x := range exits {
		q := x.ps.clone()
		q.trace = retrace(q.trace)
		lp.exits = append(lp.exits, q.facts)
		out = append(out, edge{x.from, x.to, q})
	}
	for i := fo; i < len(fr.outs); i++ {
		s := fr.outs[i].st.clone()
		s.trace = retrace(s.trace)
		lp.exits = append(lp.exits, s.facts)
		fr.outs[i].st = s
	}
	return out
}

// isCellPhi: a per-iteration loop variable that lives in memory: one cell before the loop and
// one made in every iteration, none of them used otherwise than to start the next.
func isCellPhi(ph *ssa.Phi) bool {
	for _, x := range ph.Edges {
		al, ok := x.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != al || y.Val == al {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Phi:
				if y != ph {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func loopPos(il *loopInfo) token.Pos {
	for _, i := range il.head.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range il.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func stepsStr(p []*Term) string {
	s := ""
	for _, x := range p {
		if isFieldStep(x) {
			s += "." + x.s[3:]
		} else {
			s += "[" + termStr(x.args[0], 10) + "]"
		}
	}
	return s
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

// seqView replaces a slice value by its element sequence.
func (e *Eng) seqView(s *State, v *Term, typ types.Type) *Term {
	if _, ok := under(typ).(*types.Slice); ok && v != nil {
		return e.seqOf(s, v)
	}
	return v
}

// foreign reports whether l mentions iteration symbols that are not loop-carried.
func foreign(l *Term, marker string, known map[*Term]*Term) bool {
	return mentions(l, func(x *Term) bool {
		if x.op != OSym && x.op != OObj {
			return false
		}
		if !strings.Contains(x.s, marker) {
			return false
		}
		_, ok := known[x]
		return !ok
	})
}

// oneSym is the only symbol of a term.
func oneSym(t *Term) *Term {
	var r *Term
	if mentions(t, func(y *Term) bool {
		if y.op == OSym && r == nil {
			r = y
		}
		return y.op == OSym && y != r
	}) {
		return nil
	}
	return r
}

// baseName is the name of a carried variable without its loops.
func baseName(t *Term) string {
	n, _, _ := strings.Cut(t.s, "~")
	return n
}

func condPolys(c *Term) []*Term {
	switch c.op {
	case OCmp:
		return []*Term{c.args[0]}
	case ONot:
		return condPolys(c.args[0])
	case OApp:
		if c.s == "and" {
			var out []*Term
			for _, a := range c.args {
				out = append(out, condPolys(a)...)
			}
			return out
		}
	}
	return nil
}

// syntacticStep recognises phi nodes stepped by a constant on every back edge.
func (e *Eng) syntacticStep(p0 *PS, il *loopInfo, ph *ssa.Phi) *Term {
	if !isNumType(ph.Type()) {
		return nil
	}
	var d *Term
	for i, p := range ph.Block().Preds {
		if !il.blocks[p] {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return nil
		}
		var c *ssa.Const
		if b.X == ssa.Value(ph) {
			c, _ = b.Y.(*ssa.Const)
		} else if b.Y == ssa.Value(ph) && b.Op == token.ADD {
			c, _ = b.X.(*ssa.Const)
		}
		if c == nil || c.Value == nil {
			return nil
		}
		k := constTerm(c.Value, c.Type())
		if b.Op == token.SUB {
			k = Neg(k)
		}
		if d != nil && d != k {
			return nil
		}
		d = k
	}
	if p0.env[ph] == nil || !isNumeric(p0.env[ph]) {
		return nil
	}
	return d
}

// ---------------------------------------------------------------- joins

// joinAll merges states into one, replacing what differs by fresh symbols.
func (e *Eng) joinAll(fr *Frame, b *ssa.BasicBlock, in []*PS) *PS {
	if len(in) == 1 {
		return in[0]
	}
	n := in[0].clone()
	base := in[0].facts
	for _, p := range in[1:] {
		base = base.Intersect(p.facts)
	}
	n.facts = base
	site := fr.info.short + "." + strconv.Itoa(b.Index) + "^" + fr.ctx
	mkJoin := func(name string, typ types.Type, vals []*Term) *Term {
		same := true
		for _, v := range vals {
			if v != vals[0] {
				same = false
			}
		}
		if same {
			return vals[0]
		}
		var fs []*Facts
		for _, p := range in {
			fs = append(fs, p.facts)
		}
		if t := joinExtreme(vals, fs); t != nil {
			return t
		}
		if vals[0].op == OStruct || vals[0].op == OTuple {
			ok := true
			for _, v := range vals {
				if v.op != vals[0].op || len(v.args) != len(vals[0].args) {
					ok = false
				}
			}
			if ok {
				var out []*Term
				for i := range vals[0].args {
					var vs []*Term
					for _, v := range vals {
						vs = append(vs, v.args[i])
					}
					out = append(out, e.joinVal(n, site, name+"."+strconv.Itoa(i), nil, vs, in))
				}
				return mk(vals[0].op, "", vals[0].typ, out...)
			}
		}
		return e.joinVal(n, site, name, typ, vals, in)
	}
	for _, v := range fr.info.liveIn[b] {
		var vals []*Term
		for _, p := range in {
			if t, ok := p.env[v]; ok {
				vals = append(vals, t)
			}
		}
		if len(vals) != len(in) {
			delete(n.env, v)
			if len(vals) > 0 {
				n.env[v] = vals[0]
			}
			continue
		}
		n.env[v] = mkJoin(v.Name(), v.Type(), vals)
	}
	// values defined earlier in this very block
	for _, ins := range b.Instrs {
		v, ok := ins.(ssa.Value)
		if !ok {
			continue
		}
		var vals []*Term
		for _, p := range in {
			if t, ok := p.env[v]; ok {
				vals = append(vals, t)
			}
		}
		if len(vals) == len(in) {
			n.env[v] = mkJoin(v.Name(), v.Type(), vals)
		}
	}
	bases := map[*Term]bool{}
	for _, p := range in {
		for k := range p.heap {
			bases[k] = true
		}
	}
	var bl []*Term
	for k := range bases {
		bl = append(bl, k)
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].id < bl[j].id })
	for _, k := range bl {
		var vals []*Term
		all := true
		for _, p := range in {
			if c, ok := p.heap[k]; ok {
				vals = append(vals, c)
			} else if k.op == OObj && !strings.HasPrefix(k.s, "global:") {
				all = false // allocated on some paths only
			} else {
				vals = append(vals, e.content(p.State, k))
			}
		}
		if !all {
			if len(vals) > 0 {
				n.set(k, vals[0])
			}
			continue
		}
		n.set(k, mkJoin("mem:"+termStr(k, 9), baseType(k), vals))
	}
	// traces
	lca := in[0].trace
	for _, p := range in[1:] {
		lca = traceLCA(lca, p.trace)
	}
	diff := false
	for _, p := range in {
		if p.trace != lca {
			diff = true
		}
	}
	n.trace = lca
	if diff {
		ev := &Event{kind: "branch", in: fr.fn}
		for _, p := range in {
			ev.alts = append(ev.alts, p.trace.since(lca))
		}
		n.emit(ev)
	}
	for _, p := range in[1:] {
		if locksKey(p.locks) != locksKey(in[0].locks) {
			e.obls = append(e.obls, &Obl{kind: "lock-balance", in: fr.fn, what: Bool(false), facts: p.facts, task: p.task})
		}
		for _, t := range p.pending {
			found := false
			for _, u := range n.pending {
				if u.id == t.id {
					found = true
				}
			}
			if !found {
				n.pending = append(append([]*Task{}, n.pending...), t)
			}
		}
		for _, t := range p.active {
			found := false
			for _, u := range n.active {
				if u.id == t.id {
					found = true
				}
			}
			if !found {
				n.active = append(append([]*Task{}, n.active...), t)
			}
		}
		for k, c := range p.counts {
			if c > n.counts[k] {
				for n.counts[k] < c {
					n.count(k)
				}
			}
		}
	}
	return n
}

func (e *Eng) joinVal(n *PS, site, name string, typ types.Type, vals []*Term, in []*PS) *Term {
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
		}
		if typ == nil && v.typ != nil {
			typ = v.typ
		}
	}
	if same {
		return vals[0]
	}
	isIter := true
	for _, v := range vals {
		isIter = isIter && v.op == OApp && v.s == "iter" && len(v.args) == len(vals[0].args)
	}
	if isIter { // of one of several maps
		var as []*Term
		for i := range vals[0].args {
			var vs []*Term
			for _, v := range vals {
				vs = append(vs, v.args[i])
			}
			as = append(as, e.joinVal(n, site, name+"."+strconv.Itoa(i), nil, vs, in))
		}
		return App("iter", vals[0].typ, as...)
	}
	if typ == nil && isNumeric(vals[0]) {
		typ = types.Typ[types.Float64]
		allInt := true
		for _, v := range vals {
			if !polyIsInt(P(v)) {
				allInt = false
			}
		}
		if allInt {
			typ = types.Typ[types.Int]
		}
	}
	s := e.freshSym(n.State, "join:"+name+"@"+site, typ)
	var alts []joinAlt
	base := n.facts
	num := isNumeric(s)
	for i, v := range vals {
		alts = append(alts, joinAlt{facts: in[i].facts.Without(base), val: v, group: n.State})
		if !isNumeric(v) {
			num = false
		}
	}
	e.joins[s] = alts
	if num {
		// bounds that hold for every alternative
		for _, v := range vals {
			if _, ok := constNum(v); !ok {
				continue
			}
			lo, hi := true, true
			for j, w := range vals {
				if !in[j].facts.Entails(GE(Sub(w, v))) {
					lo = false
				}
				if !in[j].facts.Entails(GE(Sub(v, w))) {
					hi = false
				}
			}
			if lo {
				n.facts = n.facts.AddAll([]*Term{GE(Sub(s, v))})
			}
			if hi {
				n.facts = n.facts.AddAll([]*Term{GE(Sub(v, s))})
			}
		}
	}
	return s
}

func traceLCA(a, b *TNode) *TNode {
	for a != b {
		switch {
		case a == nil || b == nil:
			return nil
		case a.n > b.n:
			a = a.prev
		case b.n > a.n:
			b = b.prev
		default:
			a, b = a.prev, b.prev
		}
	}
	return a
}
