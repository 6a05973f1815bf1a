package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eng is one abstract interpretation run.
type Eng struct {
	p      *Program
	base   map[*Term]*Term // contents of globals after package initialisation
	inits  map[*ssa.Package]bool
	opaque func(fn *ssa.Function) bool // boundary: treat as an opaque call
	hook   func(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool)

	scope       string // markers of the generic loops being executed
	depth       int
	stack       []*ssa.Function
	cap         int
	steps       int
	limit       int
	giveup      string
	fninfo      map[*ssa.Function]*fnInfo
	obls        []*Obl
	accs        []*Access
	summ        map[*Term]*Summary // container symbols -> how they were built
	joins       map[*Term][]joinAlt
	loops       map[string]int
	quiet       int
	untrust     func(t *Term) bool
	enum        bool // enumerate small-domain map values at range
	inlineGL    bool
	curPos      token.Pos
	debug       bool
	trackMem    bool
	noMaxJoin   bool
	noSplit     bool
	entries     map[string][]string
	noMerge     bool // ways that meet are kept apart
	keepOr      bool // keep what distinguishes merged ways as a disjunction
	joinAbove   int  // states kept apart before a loop
	factLoops   bool // unroll loops whose continuation follows from the facts
	unrollCap   int  // states kept apart between the iterations of an unrolled loop
	condLog     map[*Term]bool
	allLoops    []*Loop
	pairErr     map[*Term]*Term // opaque results and the error returned with them
	callLog     map[*ssa.Function]bool
	goExits     []Outcome
	exits       []*Event
	flagDefault map[string]*Term
	onLock      func(ps *PS, m *Term)
	onIter      func(ps *PS, c, k, v *Term, mt *types.Map) []iterAlt
	onGet       func(ps *PS, c, k *Term, mt types.Type) (v, ok *Term)
}

type joinAlt struct {
	facts []*Term
	val   *Term
	group *State // values joined together have their alternatives in the same order
}

// Obl is a safety obligation met during interpretation.
type Obl struct {
	kind  string
	ok    bool
	pos   token.Pos
	in    *ssa.Function
	what  *Term
	facts *Facts
	task  *Task
}

// Access is a memory access to a possibly shared location.
type Access struct {
	base   *Term
	steps  string
	write  bool
	task   *Task
	locks  []*Term
	active []*Task
	pos    token.Pos
	in     *ssa.Function
	scope  string
}

func NewEng(p *Program) *Eng {
	e := &Eng{p: p, base: map[*Term]*Term{}, inits: map[*ssa.Package]bool{}, fninfo: map[*ssa.Function]*fnInfo{},
		summ: map[*Term]*Summary{}, entries: map[string][]string{}, joins: map[*Term][]joinAlt{}, loops: map[string]int{}, cap: 48, unrollCap: 4, joinAbove: 3, limit: 40_000_000,
		pairErr: map[*Term]*Term{}, callLog: map[*ssa.Function]bool{}, flagDefault: map[string]*Term{}}
	e.debug = os.Getenv("SA_DEBUG") != ""
	return e
}

type bail struct{ msg string }

func (e *Eng) fail(f string, a ...interface{}) {
	panic(bail{fmt.Sprintf(f, a...)})
}

// Frame is an activation of a function.
type Frame struct {
	fn   *ssa.Function
	ctx  string
	info *fnInfo
	outs []Outcome
}

type edge struct {
	from, to *ssa.BasicBlock
	ps       *PS
}

func (e *Eng) siteID(i ssa.Instruction) string {
	b := i.Block()
	if b == nil {
		return "?"
	}
	fi := e.info(b.Parent())
	return fi.short + ":" + strconv.Itoa(fi.instrNo[i])
}

// newState is an empty state with the given facts.
func (e *Eng) newState(facts *Facts) *State {
	return &State{heap: map[*Term]*Term{}, facts: facts, counts: map[string]int{}, task: &Task{id: "main"}, trace: &TNode{}}
}

// Run interprets fn on the arguments.
func (e *Eng) Run(fn *ssa.Function, args []*Term, st *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(bail); ok {
				err = fmt.Errorf("%s", b.msg)
				return
			}
			panic(r)
		}
	}()
	e.ensureInit(fn)
	outs = e.execFn(fn, args, nil, st, "")
	// goroutines that nobody waits for run at the end
	var res []Outcome
	for _, o := range outs {
		if len(o.st.pending) == 0 || o.kind == "exit" {
			res = append(res, o)
			continue
		}
		for _, s := range e.runPending(o.st, func(*Task) bool { return true }) {
			n := o
			n.st = s
			res = append(res, n)
		}
	}
	return res, nil
}

func (e *Eng) execFn(fn *ssa.Function, args, binds []*Term, st *State, ctx string) []Outcome {
	if len(fn.Blocks) == 0 {
		e.fail("no body: %v", fn)
	}
	e.depth++
	e.stack = append(e.stack, fn)
	defer func() { e.depth--; e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, ctx: ctx, info: e.info(fn)}
	ps := &PS{State: st, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			ps.env[p] = args[i]
		} else {
			ps.env[p] = Sym("arg:"+p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			ps.env[v] = binds[i]
		} else {
			ps.env[v] = Sym("free:"+v.Name(), v.Type())
		}
	}
	exits, backs := e.region(fr, nil, []edge{{nil, fn.Blocks[0], ps}})
	if len(exits)+len(backs) > 0 {
		e.fail("irreducible control flow in %v", fn)
	}
	return e.mergeOuts(fr.outs)
}

// mergeOuts merges outcomes that agree on everything but facts.
func (e *Eng) mergeOuts(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []Outcome
	idx := map[string][]int{}
	for _, o := range outs {
		k := o.kind + "|" + idsKey(o.res) + "|" + e.stKey(o.st)
		merged := false
		for _, i := range idx[k] {
			if sameHeap(res[i].st.heap, o.st.heap) {
				n := res[i].st.clone()
				n.facts = n.facts.Intersect(o.st.facts)
				res[i].st = n
				merged = true
				break
			}
		}
		if !merged {
			idx[k] = append(idx[k], len(res))
			res = append(res, o)
		}
	}
	k := len(res)
	if k > 1 && !e.noMaxJoin {
		res = e.maxJoinOuts(res)
	}
	if e.noMerge && len(res) == k && len(outs) <= e.cap {
		return outs
	}
	return res
}

// maxJoinOuts merges outcomes that differ in one numeric result which is everywhere the
// maximum (or minimum) of the alternatives.
func (e *Eng) maxJoinOuts(outs []Outcome) []Outcome {
	groups := map[string][]int{}
	var order []string
	for i, o := range outs {
		k := o.kind + "|" + strconv.Itoa(len(o.res)) + "|" + e.stKey(o.st)
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 || len(g) > 8 || outs[g[0]].kind != "ret" {
			for _, i := range g {
				res = append(res, outs[i])
			}
			continue
		}
		cur := []Outcome{}
		for _, i := range g {
			cur = append(cur, outs[i])
		}
		// try to merge the whole group
		ok := true
		for _, o := range cur[1:] {
			if !sameHeap(cur[0].st.heap, o.st.heap) {
				ok = false
			}
		}
		if ok {
			rs := make([]*Term, len(cur[0].res))
			for j := range rs {
				var vs []*Term
				var fs []*Facts
				for _, o := range cur {
					vs = append(vs, o.res[j])
					fs = append(fs, o.st.facts)
				}
				rs[j] = joinExtreme(vs, fs)
				if rs[j] == nil {
					ok = false
					break
				}
			}
			if ok {
				n := cur[0].st.clone()
				for _, o := range cur[1:] {
					n.facts = n.facts.Intersect(o.st.facts)
				}
				res = append(res, Outcome{st: n, kind: "ret", res: rs, pos: cur[0].pos})
				continue
			}
		}
		res = append(res, cur...)
	}
	return res
}

// joinExtreme recognises values that are the max or the min of all alternatives.
func joinExtreme(vs []*Term, fs []*Facts) *Term {
	same := true
	for _, v := range vs {
		if v != vs[0] {
			same = false
		}
		if !isNumeric(v) {
			for _, w := range vs {
				if w != vs[0] {
					return nil
				}
			}
			return vs[0]
		}
	}
	if same {
		return vs[0]
	}
	for _, f := range []string{"max", "min"} {
		ok := true
		for i, v := range vs {
			for j, w := range vs {
				if i == j || v == w {
					continue
				}
				d := Sub(v, w)
				if f == "min" {
					d = Neg(d)
				}
				if !fs[i].Entails(GE(d)) {
					ok = false
				}
			}
		}
		if ok {
			// at least one alternative must be unconditional on the others: sound because each
			// path's value is the extreme of the set
			return MaxMin(f, vs...)
		}
	}
	return nil
}

func (e *Eng) stKey(s *State) string {
	var tr *TNode = s.trace
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p|%s|", tr, locksKey(s.locks))
	for _, t := range s.pending {
		sb.WriteString(t.id + ",")
	}
	sb.WriteByte('|')
	for _, t := range s.active {
		sb.WriteString(t.id + ",")
	}
	fmt.Fprintf(&sb, "|%s|%d", s.task.id, len(s.heap))
	return sb.String()
}

// mergePS merges states at the entry of block b.
func (e *Eng) mergePS(fr *Frame, b *ssa.BasicBlock, in []*PS) []*PS {
	if len(in) < 2 {
		return in
	}
	live := fr.info.liveIn[b]
	envKey := func(p *PS) string {
		var sb strings.Builder
		for _, v := range live {
			if t, ok := p.env[v]; ok {
				sb.WriteString(strconv.Itoa(t.id))
			}
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "|%d", len(p.defers))
		return sb.String()
	}
	var out []*PS
	idx := map[string][]int{}
	for _, p := range in {
		k := envKey(p) + "|" + e.stKey(p.State)
		merged := false
		for _, i := range idx[k] {
			if sameHeap(out[i].heap, p.heap) {
				n := out[i].clone()
				n.facts = n.facts.Intersect(p.facts)
				if e.keepOr {
					if l := eitherOf(out[i].facts.Without(p.facts), p.facts.Without(out[i].facts)); l != nil {
						n.facts = n.facts.AddAll([]*Term{l})
					}
				}
				out[i] = n
				merged = true
				break
			}
		}
		if !merged {
			idx[k] = append(idx[k], len(out))
			out = append(out, p)
		}
	}
	k := len(out)
	if k > 1 && !e.noMaxJoin {
		out = e.maxJoinPS(live, out)
	}
	if e.noMerge && len(out) == k && len(in) <= e.cap {
		return in
	}
	if len(out) > e.cap {
		out = []*PS{e.joinAll(fr, b, out)}
	}
	return out
}

// eitherOf: what is known where two ways meet beyond what holds on both.
func eitherOf(a, b []*Term) *Term {
	if len(a) == 0 || len(b) == 0 || len(a) > 8 || len(b) > 8 {
		return nil
	}
	// what the opposite of one side implies need not be said on the other
	drop := func(a, b []*Term) []*Term {
		if len(a) != 1 {
			return b
		}
		f, ok := emptyFacts.Assume(Not(a[0]))
		if !ok {
			return b
		}
		var r []*Term
		for _, l := range b {
			if !f.Entails(l) {
				r = append(r, l)
			}
		}
		return r
	}
	b = drop(a, b)
	a = drop(b, a)
	if len(a) > 3 || len(b) > 3 {
		return nil
	}
	l := Or(And(a...), And(b...))
	if l.op == OBool {
		return nil
	}
	return l
}

func (e *Eng) maxJoinPS(live []ssa.Value, in []*PS) []*PS {
	groups := map[string][]*PS{}
	var order []string
	for _, p := range in {
		k := e.stKey(p.State) + fmt.Sprint(len(p.defers))
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	var res []*PS
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 || len(g) > 8 {
			res = append(res, g...)
			continue
		}
		ok := true
		for _, p := range g[1:] {
			if !sameHeap(g[0].heap, p.heap) {
				ok = false
			}
		}
		if !ok {
			res = append(res, g...)
			continue
		}
		n := g[0].clone()
		for _, v := range live {
			var vs []*Term
			var fs []*Facts
			for _, p := range g {
				t := p.env[v]
				if t == nil {
					break
				}
				vs = append(vs, t)
				fs = append(fs, p.facts)
			}
			if len(vs) != len(g) {
				same := true
				for _, p := range g {
					if p.env[v] != g[0].env[v] {
						same = false
					}
				}
				if !same {
					ok = false
				}
				continue
			}
			t := joinExtreme(vs, fs)
			if t == nil {
				ok = false
				break
			}
			n.env[v] = t
		}
		if !ok {
			res = append(res, g...)
			continue
		}
		for _, p := range g[1:] {
			n.facts = n.facts.Intersect(p.facts)
		}
		res = append(res, n)
	}
	return res
}

// ---------------------------------------------------------------- regions

// region interprets the blocks of a loop body (or of the whole function when l is nil).
func (e *Eng) region(fr *Frame, l *loopInfo, ins []edge) (exits, backs []edge) {
	pend := map[*ssa.BasicBlock][]edge{}
	for _, x := range ins {
		pend[x.to] = append(pend[x.to], x)
	}
	inRegion := func(b *ssa.BasicBlock) bool { return l == nil || l.blocks[b] }
	started := false
	for _, b := range fr.info.rpo {
		if !inRegion(b) {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		delete(pend, b)
		var next []edge
		if il := fr.info.header[b]; il != nil && il != l {
			next = e.loop(fr, il, es)
		} else {
			next = e.block(fr, b, es)
		}
		for _, n := range next {
			switch {
			case l != nil && n.to == l.head:
				backs = append(backs, n)
			case !inRegion(n.to):
				exits = append(exits, n)
			default:
				pend[n.to] = append(pend[n.to], n)
			}
		}
		started = true
	}
	_ = started
	for b, es := range pend {
		if len(es) > 0 {
			e.fail("unreached block %v in %v", b, fr.fn)
		}
	}
	return exits, backs
}

// phis applies the phi nodes of b for each incoming edge.
func (e *Eng) phis(fr *Frame, b *ssa.BasicBlock, es []edge) []*PS {
	var out []*PS
	for _, x := range es {
		ps := x.ps
		if x.from != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == x.from {
					pi = i
				}
			}
			var vals []*Term
			var phis []*ssa.Phi
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, e.val(ps, ph.Edges[pi]))
			}
			if len(phis) > 0 {
				ps = ps.clone()
				for i, ph := range phis {
					ps.env[ph] = vals[i]
				}
			}
		}
		out = append(out, ps)
	}
	return out
}

func (e *Eng) block(fr *Frame, b *ssa.BasicBlock, es []edge) []edge {
	return e.runBlock(fr, b, e.mergePS(fr, b, e.phis(fr, b, es)))
}

func (e *Eng) runBlock(fr *Frame, b *ssa.BasicBlock, states []*PS) []edge {
	var out []edge
	cur := states
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if len(cur) == 0 {
			return out
		}
		e.steps += len(cur)
		if e.steps > e.limit {
			e.fail("step budget exhausted in %v", fr.fn)
		}
		e.curPos = ins.Pos()
		switch x := ins.(type) {
		case *ssa.If:
			for _, ps := range cur {
				c := e.val(ps, x.Cond)
				t, f := true, true
				if e.condLog != nil && c.op != OBool {
					e.condLog[c] = true
				}
				if c.op == OBool {
					t, f = c.b, !c.b
				} else if ps.facts.Entails(c) {
					f = false
				} else if ps.facts.Entails(Not(c)) {
					t = false
				}
				if t && f {
					p2 := ps.clone()
					if ps.clone().assume(c) {
						q := ps.clone()
						q.assume(c)
						out = append(out, edge{b, b.Succs[0], q})
					}
					if p2.assume(Not(c)) {
						out = append(out, edge{b, b.Succs[1], p2})
					}
				} else if t {
					out = append(out, edge{b, b.Succs[0], ps.clone()})
				} else {
					out = append(out, edge{b, b.Succs[1], ps.clone()})
				}
			}
			return out
		case *ssa.Jump:
			for _, ps := range cur {
				out = append(out, edge{b, b.Succs[0], ps})
			}
			return out
		case *ssa.Return:
			for _, ps := range cur {
				var rs []*Term
				for _, r := range x.Results {
					rs = append(rs, e.val(ps, r))
				}
				fr.outs = append(fr.outs, Outcome{st: ps.State, kind: "ret", res: rs, pos: x.Pos()})
			}
			return out
		case *ssa.Panic:
			for _, ps := range cur {
				e.oblige(ps, "panic", Bool(false), x.Pos(), fr.fn)
				fr.outs = append(fr.outs, Outcome{st: ps.State, kind: "panic", pos: x.Pos()})
			}
			return out
		default:
			var next []*PS
			for _, ps := range cur {
				next = append(next, e.instr(fr, ps, ins)...)
			}
			cur = next
			if len(cur) > 2*e.cap {
				cur = []*PS{e.joinAll(fr, b, cur)}
			}
		}
	}
	return out
}

// val evaluates an operand.
func (e *Eng) val(ps *PS, v ssa.Value) *Term {
	if t, ok := ps.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroValue(x.Type())
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Function:
		return Closure(x)
	case *ssa.Global:
		e.ensurePkg(x.Pkg)
		return Ptr(globalObj(x))
	case *ssa.Builtin:
		return Sym("builtin:"+x.Name(), nil)
	}
	// value from an unexecuted path (should not happen)
	return Sym("undef:"+v.Name(), v.Type())
}

func globalObj(g *ssa.Global) *Term {
	return Obj("global:"+g.Pkg.Pkg.Path()+"."+g.Name(), pointee(g.Type()))
}

// ---------------------------------------------------------------- instructions

func (e *Eng) oblige(ps *PS, kind string, cond *Term, pos token.Pos, in *ssa.Function) {
	if cond.op == OBool && cond.b {
		return
	}
	ok := false
	if cond.op != OBool {
		ok = ps.facts.Entails(cond)
	}
	e.obls = append(e.obls, &Obl{kind: kind, ok: ok, pos: pos, in: in, what: cond, facts: ps.facts, task: ps.task})
}

func (e *Eng) access(ps *PS, p *Term, write bool, pos token.Pos, in *ssa.Function) {
	if !e.trackMem {
		return
	}
	b, st := splitPtr(p)
	key := ""
	for _, s := range st {
		if isFieldStep(s) {
			key += "." + s.s[3:]
		} else {
			key += "[" + strconv.Itoa(s.args[0].id) + "]"
		}
	}
	e.accs = append(e.accs, &Access{base: b, steps: key, write: write, task: ps.task, locks: ps.locks, active: ps.active, pos: pos, in: in, scope: e.scope})
}

func (e *Eng) nilCheck(ps *PS, p *Term, pos token.Pos, in *ssa.Function) {
	if neverNil(p) {
		return
	}
	if p.op == ONil {
		e.oblige(ps, "nil-deref", Bool(false), pos, in)
		return
	}
	e.oblige(ps, "nil-deref", Not(Eq(p, Nil(p.typ))), pos, in)
}

func (e *Eng) instr(fr *Frame, ps *PS, ins ssa.Instruction) []*PS {
	set := func(v ssa.Value, t *Term) { ps.env[v] = t }
	one := func() []*PS { return []*PS{ps} }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		typ := pointee(x.Type())
		o := e.newObj(ps.State, "new@"+e.siteID(x)+"^"+fr.ctx, typ, zeroValue(typ))
		set(x, Ptr(o))
	case *ssa.BinOp:
		set(x, e.binop(ps, x))
	case *ssa.UnOp:
		return e.unop(fr, ps, x)
	case *ssa.ChangeType:
		set(x, e.val(ps, x.X))
	case *ssa.ChangeInterface:
		set(x, e.val(ps, x.X))
	case *ssa.Convert:
		set(x, e.convert(ps, e.val(ps, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, App("conv", x.Type(), e.val(ps, x.X)))
	case *ssa.MakeInterface:
		set(x, Iface(x.X.Type(), e.val(ps, x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(ps, b))
		}
		set(x, Closure(x.Fn.(*ssa.Function), bs...))
	case *ssa.MakeMap:
		o := e.newObj(ps.State, "map@"+e.siteID(x)+"^"+fr.ctx, x.Type(), App("map0", x.Type()))
		set(x, o)
	case *ssa.MakeChan:
		sz := e.val(ps, x.Size)
		e.oblige(ps, "chan-size", GE(sz), x.Pos(), fr.fn)
		o := e.newObj(ps.State, "chan@"+e.siteID(x)+"^"+fr.ctx, x.Type(), Struct(nil, Array(nil), Bool(false), sz, Int(0)))
		ps.emit(&Event{kind: "mkchan", args: []*Term{o, sz}, pos: x.Pos(), in: fr.fn})
		set(x, o)
	case *ssa.MakeSlice:
		n := e.val(ps, x.Len)
		e.oblige(ps, "make-len", GE(n), x.Pos(), fr.fn)
		et := elemType(x.Type())
		var seq *Term
		if c, ok := constInt(n); ok && c >= 0 && c <= 1024 {
			z := zeroValue(et)
			es := make([]*Term, c)
			for i := range es {
				es[i] = z
			}
			seq = Array(nil, es...)
		} else {
			seq = App("zeros", x.Type(), n)
		}
		ps.emit(&Event{kind: "mkslice", args: []*Term{n}, pos: x.Pos(), in: fr.fn})
		set(x, e.mkSlice(ps.State, "mk@"+e.siteID(x)+"^"+fr.ctx, et, seq))
	case *ssa.FieldAddr:
		p := e.val(ps, x.X)
		e.nilCheck(ps, p, x.Pos(), fr.fn)
		set(x, addStep(p, FieldStep(x.Field)))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		set(x, fieldOf(e.val(ps, x.X), x.Field, st.Field(x.Field).Type()))
	case *ssa.IndexAddr:
		b := e.val(ps, x.X)
		i := e.val(ps, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer: // *array
			n := u.Elem().Underlying().(*types.Array).Len()
			e.bounds(ps, i, Int(n), x.Pos(), fr.fn)
			set(x, addStep(b, IndexStep(i)))
		default:
			if b.op == OSlice {
				e.bounds(ps, i, b.args[2], x.Pos(), fr.fn)
				set(x, Ptr(b.args[0], IndexStep(Add(b.args[1], i))))
			} else {
				e.bounds(ps, i, Len(b), x.Pos(), fr.fn)
				set(x, Ptr(arrOf(b), IndexStep(i)))
			}
		}
	case *ssa.Index:
		b := e.val(ps, x.X)
		i := e.val(ps, x.Index)
		var n *Term
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			n = Int(at.Len())
		} else {
			n = Len(b)
		}
		e.bounds(ps, i, n, x.Pos(), fr.fn)
		set(x, elemOf(b, i, x.Type(), ps.facts))
	case *ssa.Slice:
		return e.slice(fr, ps, x)
	case *ssa.SliceToArrayPointer:
		s := e.val(ps, x.X)
		if s.op == OSlice {
			set(x, Ptr(s.args[0]))
		} else {
			set(x, Ptr(arrOf(s)))
		}
	case *ssa.Store:
		p := e.val(ps, x.Addr)
		e.nilCheck(ps, p, x.Pos(), fr.fn)
		v := e.val(ps, x.Val)
		e.access(ps, p, true, x.Pos(), fr.fn)
		b, _ := splitPtr(p)
		if b.op != OObj || strings.HasPrefix(b.s, "global:") {
			ps.emit(&Event{kind: "store", args: []*Term{p, v}, pos: x.Pos(), in: fr.fn})
		}
		e.store(ps.State, p, v)
	case *ssa.Lookup:
		m := e.val(ps, x.X)
		k := e.val(ps, x.Index)
		mt, isMap := x.X.Type().Underlying().(*types.Map)
		if !isMap { // string index
			e.bounds(ps, k, Len(m), x.Pos(), fr.fn)
			set(x, elemOf(m, k, types.Typ[types.Uint8], ps.facts))
			break
		}
		e.access(ps, Ptr(mapBase(m)), false, x.Pos(), fr.fn)
		return e.lookup(fr, ps, x, m, k, mt.Elem(), x.CommaOk)
	case *ssa.MapUpdate:
		m := e.val(ps, x.Map)
		if m.op == ONil {
			e.oblige(ps, "nil-map-write", Bool(false), x.Pos(), fr.fn)
		} else if m.op != OObj {
			e.oblige(ps, "nil-map-write", Not(Eq(m, Nil(m.typ))), x.Pos(), fr.fn)
		}
		k, v := e.val(ps, x.Key), e.val(ps, x.Value)
		e.access(ps, Ptr(mapBase(m)), true, x.Pos(), fr.fn)
		e.mapUpdate(fr, ps, m, k, v, x.Pos())
	case *ssa.Range:
		m := e.val(ps, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.access(ps, Ptr(mapBase(m)), false, x.Pos(), fr.fn)
			// the set of keys is taken at the start; the content identifies it
			set(x, App("iter", x.X.Type(), m, e.mapContent(ps.State, m)))
		} else {
			set(x, App("striter", x.X.Type(), m))
		}
	case *ssa.Next:
		return e.next(fr, ps, x)
	case *ssa.Extract:
		t := e.val(ps, x.Tuple)
		set(x, fieldOf(t, x.Index, x.Type()))
	case *ssa.TypeAssert:
		return e.typeAssert(fr, ps, x)
	case *ssa.Call:
		outs := e.call(fr, ps, &x.Call, x, ctxAt(e, fr, x))
		return e.resume(fr, ps, x, outs)
	case *ssa.Defer:
		d := &deferred{call: &x.Call, pos: x.Pos(), site: x}
		if !x.Call.IsInvoke() {
			d.fnv = e.val(ps, x.Call.Value)
		} else {
			d.fnv = e.val(ps, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(ps, a))
		}
		ps.defers = append(append([]*deferred{}, ps.defers...), d)
		ps.emit(&Event{kind: "defer", fn: e.calleeName(d.call, d.fnv), args: append([]*Term{d.fnv}, d.args...), pos: x.Pos(), in: fr.fn})
	case *ssa.RunDefers:
		cur := []*PS{ps}
		ds := ps.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*PS
			for _, q := range cur {
				outs := e.callValue(fr, q, ds[i].call, ds[i].fnv, ds[i].args, ds[i].site, ctxAt(e, fr, ds[i].site)+"!defer")
				next = append(next, e.resume(fr, q, nil, outs)...)
			}
			cur = next
		}
		for _, q := range cur {
			q.defers = nil
		}
		return cur
	case *ssa.Go:
		e.spawn(fr, ps, x)
	case *ssa.Send:
		ch := e.val(ps, x.Chan)
		e.access(ps, Ptr(mapBase(ch)), false, x.Pos(), fr.fn)
		e.send(ps, ch, e.val(ps, x.X), x.Pos(), fr.fn)
	case *ssa.Select:
		return e.selectStmt(fr, ps, x)
	default:
		e.fail("unhandled instruction %T in %v", ins, fr.fn)
	}
	return one()
}

func ctxAt(e *Eng, fr *Frame, i ssa.Instruction) string {
	c := fr.ctx + "/" + e.siteID(i)
	return c
}

// resume continues after a call with its outcomes.
func (e *Eng) resume(fr *Frame, ps *PS, v ssa.Value, outs []Outcome) []*PS {
	var res []*PS
	for _, o := range outs {
		if o.kind != "ret" {
			if o.kind == "panic" && len(ps.defers) > 0 {
				// deferred calls run; recover is not modelled
			}
			fr.outs = append(fr.outs, o)
			continue
		}
		q := ps
		if len(outs) > 1 {
			env := make(map[ssa.Value]*Term, len(ps.env)+1)
			for k, t := range ps.env {
				env[k] = t
			}
			q = &PS{env: env, defers: ps.defers}
		}
		q = &PS{State: o.st, env: q.env, defers: ps.defers}
		if v != nil {
			switch len(o.res) {
			case 0:
			case 1:
				q.env[v] = o.res[0]
			default:
				q.env[v] = Tuple(o.res...)
			}
		}
		res = append(res, q)
	}
	return res
}

func (e *Eng) bounds(ps *PS, i, n *Term, pos token.Pos, in *ssa.Function) {
	e.oblige(ps, "index", And(GE(i), GE(Sub(Sub(n, i), Int(1)))), pos, in)
}

func (e *Eng) lookup(fr *Frame, ps *PS, x *ssa.Lookup, m, k *Term, vt types.Type, commaOk bool) []*PS {
	c := e.mapContent(ps.State, m)
	v, ok := mapGet(c, k, vt, ps.facts)
	if e.onGet != nil {
		if w, known := e.onGet(ps, c, k, vt); w != nil {
			v, ok = w, known
		}
	}
	ps.emit(&Event{kind: "mapget", args: []*Term{m, k, c}, res: []*Term{v, ok}, pos: x.Pos(), in: fr.fn})
	if ok.op == OBool {
		if commaOk {
			ps.env[x] = Tuple(v, ok)
		} else {
			ps.env[x] = v
		}
		return []*PS{ps}
	}
	// content known to have been built by a summarised loop or chain: case split on the writer
	if alts := e.lookupAlts(ps, c, k, vt); alts != nil {
		var out []*PS
		for _, a := range alts {
			q := ps.clone()
			feas := true
			for _, l := range a.facts {
				if !q.assume(l) {
					feas = false
					break
				}
			}
			if !feas {
				continue
			}
			for b, cc := range a.install {
				q.set(b, cc)
			}
			if commaOk {
				q.env[x] = Tuple(a.v, a.ok)
			} else {
				q.env[x] = a.v
			}
			out = append(out, q)
		}
		return out
	}
	if commaOk {
		ps.env[x] = Tuple(v, ok)
	} else {
		// value is the zero value when absent: keep symbolic unless numeric/bool is needed
		ps.env[x] = App("mgetz", vt, c, k)
		if ps.facts.Entails(ok) {
			ps.env[x] = v
		} else if ps.facts.Entails(Not(ok)) {
			ps.env[x] = zeroValue(vt)
		}
	}
	return []*PS{ps}
}

func (e *Eng) mapUpdate(fr *Frame, ps *PS, m, k, v *Term, pos token.Pos) {
	c := e.mapContent(ps.State, m)
	ps.emit(&Event{kind: "mapset", args: []*Term{m, k, v, c}, pos: pos, in: fr.fn})
	// same key written twice in a row
	for c.op == OApp && c.s == "mset" && c.args[1] == k {
		c = c.args[0]
	}
	ps.set(mapBase(m), App("mset", c.typ, c, k, v))
}

func (e *Eng) slice(fr *Frame, ps *PS, x *ssa.Slice) []*PS {
	b := e.val(ps, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = e.val(ps, x.Low)
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(ps, x.High)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		n := u.Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = Int(n)
		}
		e.oblige(ps, "slice", And(GE(lo), GE(Sub(hi, lo)), GE(Sub(Int(n), hi))), x.Pos(), fr.fn)
		base, st := splitPtr(b)
		if len(st) > 0 {
			// slice of an array field: copy view
			seq := e.load(ps.State, b)
			if seq.op == OArray {
				seq = Array(nil, seq.args...)
			}
			ps.env[x] = e.mkSlice(ps.State, "sl@"+e.siteID(x)+"^"+fr.ctx, elemType(x.Type()), subSeq(seq, lo, hi))
			return []*PS{ps}
		}
		ps.env[x] = mk(OSlice, "", nil, base, lo, Sub(hi, lo))
	default:
		ln := Len(b)
		if hi == nil {
			hi = ln
			e.oblige(ps, "slice", And(GE(lo), GE(Sub(hi, lo))), x.Pos(), fr.fn)
		} else {
			e.oblige(ps, "slice", And(GE(lo), GE(Sub(hi, lo)), GE(Sub(ln, hi))), x.Pos(), fr.fn)
		}
		if l, ok := constInt(lo); ok && l == 0 && hi == ln {
			ps.env[x] = b
			break
		}
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			ps.env[x] = subSeq(b, lo, hi)
			break
		}
		switch b.op {
		case OSlice:
			ps.env[x] = mk(OSlice, "", nil, b.args[0], Add(b.args[1], lo), Sub(hi, lo))
		case ONil:
			ps.env[x] = b
		default:
			ps.env[x] = mk(OSlice, "", nil, arrOf(b), lo, Sub(hi, lo))
		}
	}
	return []*PS{ps}
}

func (e *Eng) typeAssert(fr *Frame, ps *PS, x *ssa.TypeAssert) []*PS {
	v := e.val(ps, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if v.op == OIface {
		ok := false
		if toIface {
			ok = types.AssertableTo(x.AssertedType.Underlying().(*types.Interface), v.typ) &&
				types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.typ, x.AssertedType)
		}
		r := v.args[0]
		if toIface {
			r = v
		}
		if !ok {
			r = zeroValue(x.AssertedType)
		}
		if x.CommaOk {
			ps.env[x] = Tuple(r, Bool(ok))
		} else {
			e.oblige(ps, "type-assert", Bool(ok), x.Pos(), fr.fn)
			if !ok {
				return nil
			}
			ps.env[x] = r
		}
		return []*PS{ps}
	}
	isT := App("is:"+typKey(x.AssertedType), types.Typ[types.Bool], v)
	r := App("as:"+typKey(x.AssertedType), x.AssertedType, v)
	if x.CommaOk {
		if v.op == ONil {
			ps.env[x] = Tuple(zeroValue(x.AssertedType), Bool(false))
			return []*PS{ps}
		}
		q := ps.clone()
		var out []*PS
		if ps.assume(isT) {
			ps.env[x] = Tuple(r, Bool(true))
			out = append(out, ps)
		}
		if q.assume(Not(isT)) {
			q.env[x] = Tuple(zeroValue(x.AssertedType), Bool(false))
			out = append(out, q)
		}
		return out
	}
	e.oblige(ps, "type-assert", isT, x.Pos(), fr.fn)
	ps.env[x] = r
	return []*PS{ps}
}

func (e *Eng) unop(fr *Frame, ps *PS, x *ssa.UnOp) []*PS {
	v := e.val(ps, x.X)
	switch x.Op {
	case token.MUL:
		e.nilCheck(ps, v, x.Pos(), fr.fn)
		e.access(ps, v, false, x.Pos(), fr.fn)
		r := e.load(ps.State, v)
		ps.env[x] = r
	case token.SUB:
		ps.env[x] = e.narrow(ps, Neg(v), x.Type())
	case token.NOT:
		ps.env[x] = Not(v)
	case token.XOR:
		if c, ok := constInt(v); ok {
			_, hi := typeRange(x.Type())
			if lo, _ := typeRange(x.Type()); lo != nil && lo.Sign() == 0 {
				ps.env[x] = Rat(new(big.Rat).SetInt(new(big.Int).Sub(hi, big.NewInt(c))))
			} else {
				ps.env[x] = Int(^c)
			}
		} else {
			ps.env[x] = App("bnot", x.Type(), v)
		}
	case token.ARROW:
		return e.recv(fr, ps, x, v, x.CommaOk)
	default:
		e.fail("unop %v", x.Op)
	}
	return []*PS{ps}
}

// narrow wraps integer results that may exceed their type.
func (e *Eng) narrow(ps *PS, t *Term, typ types.Type) *Term {
	lo, hi := typeRange(typ)
	if lo == nil {
		return t
	}
	if r, ok := constNum(t); ok && r.IsInt() {
		n := r.Num()
		if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		n = new(big.Int).Mod(new(big.Int).Sub(n, lo), m)
		return Rat(new(big.Rat).SetInt(n.Add(n, lo)))
	}
	if hi.BitLen() > 32 {
		// 64-bit arithmetic on indices and sizes is treated as exact
		if lo.Sign() == 0 && !ps.facts.Entails(GE(t)) {
			return App("wrap", typ, t)
		}
		return t
	}
	if ps.facts.Entails(GE(Sub(t, Rat(new(big.Rat).SetInt(lo))))) && ps.facts.Entails(GE(Sub(Rat(new(big.Rat).SetInt(hi)), t))) {
		return t
	}
	return App("wrap", typ, t)
}

func (e *Eng) convert(ps *PS, v *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			lo, hi := typeRange(to)
			flo, fhi := typeRange(from)
			if lo != nil && flo != nil && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return v
			}
			// truncation of an unsigned value: low bits
			if lo.Sign() == 0 && hi.BitLen() < 64 {
				if _, ok := constNum(v); !ok {
					if e.inRange(ps, v, lo, hi) {
						return v
					}
					if flo.Sign() == 0 {
						return Bits(v, 0, hi.BitLen())
					}
				}
			}
			return e.narrow(ps, v, to)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := Rounding("trunc", v)
			if v.op == OApp && (v.s == "floor" || v.s == "ceil" || v.s == "round") {
				return v
			}
			return r
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return App("f32", types.Typ[types.Float64], v)
			}
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsString != 0:
			return App("chr", to, v)
		}
		return v
	}
	if tok && tb.Info()&types.IsString != 0 { // []byte -> string
		return e.seqOf(ps.State, v)
	}
	if fok && fb.Info()&types.IsString != 0 { // string -> []byte
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return e.mkSlice(ps.State, "bytes", sl.Elem(), v)
		}
	}
	return v
}

func (e *Eng) inRange(ps *PS, v *Term, lo, hi *big.Int) bool {
	return ps.facts.Entails(GE(Sub(v, Rat(new(big.Rat).SetInt(lo))))) && ps.facts.Entails(GE(Sub(Rat(new(big.Rat).SetInt(hi)), v)))
}

// Bits is bits lo..lo+w-1 of v.
func Bits(v *Term, lo, w int) *Term {
	if r, ok := constNum(v); ok && r.IsInt() && r.Sign() >= 0 {
		n := new(big.Int).Rsh(r.Num(), uint(lo))
		n.And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
		return Rat(new(big.Rat).SetInt(n))
	}
	if v.op == OApp && v.s == "bits" {
		l0, _ := constInt(v.args[1])
		w0, _ := constInt(v.args[2])
		if lo >= int(w0) {
			return Int(0)
		}
		if lo+w > int(w0) {
			w = int(w0) - lo
		}
		return Bits(v.args[0], int(l0)+lo, w)
	}
	if lo == 0 {
		if l, h := typeRange(v.typ); l != nil && l.Sign() == 0 && w >= h.BitLen() {
			return v
		}
	}
	if l, h := typeRange(v.typ); l != nil && l.Sign() == 0 {
		if lo >= h.BitLen() {
			return Int(0)
		}
		if lo+w > h.BitLen() {
			w = h.BitLen() - lo
		}
	}
	if v.op == OApp && v.s == "bor" {
		var as []*Term
		for _, a := range v.args {
			as = append(as, Bits(a, lo, w))
		}
		return BOr(as...)
	}
	return mk(OApp, "bits", nil, v, Int(int64(lo)), Int(int64(w)))
}

func isMask(n *big.Int) (int, bool) { // 2^k-1
	k := n.BitLen()
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(1))
	return k, m.Cmp(n) == 0
}

func (e *Eng) binop(ps *PS, x *ssa.BinOp) *Term {
	a, b := e.val(ps, x.X), e.val(ps, x.Y)
	return e.binopT(ps, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type(), x.Pos(), x.Parent())
}

func (e *Eng) binopT(ps *PS, op token.Token, a, b *Term, xt, yt, rt types.Type, pos token.Pos, in *ssa.Function) *Term {
	isStr := false
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	num := isNumType(xt)
	switch op {
	case token.ADD:
		if isStr {
			return Cat(a, b)
		}
		if !num {
			break
		}
		return e.narrow(ps, Add(a, b), rt)
	case token.SUB:
		return e.narrow(ps, Sub(a, b), rt)
	case token.MUL:
		return e.narrow(ps, Mul(a, b), rt)
	case token.QUO:
		if isIntType(xt) {
			e.oblige(ps, "div-zero", Not(EQ0(b)), pos, in)
			return IDiv(a, b, ps.facts)
		}
		return Div(a, b)
	case token.REM:
		e.oblige(ps, "div-zero", Not(EQ0(b)), pos, in)
		return Mod(a, b, ps.facts)
	case token.SHL:
		if n, ok := constInt(b); ok && n >= 0 && n < 63 {
			return e.narrow(ps, Mul(a, Rat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))), rt)
		}
		return App("shl", rt, a, b)
	case token.SHR:
		if n, ok := constInt(b); ok && n >= 0 {
			if lo, hi := typeRange(xt); lo != nil && lo.Sign() == 0 {
				return Bits(a, int(n), hi.BitLen()-int(n))
			}
			if c, ok := constInt(a); ok {
				return Int(c >> uint(n))
			}
			if n < 62 && ps.facts.Entails(GE(a)) {
				return IDiv(a, Int(1<<uint(n)), ps.facts)
			}
		}
		return App("shr", rt, a, b)
	case token.OR:
		return BOr(a, b)
	case token.AND, token.AND_NOT:
		if op == token.AND_NOT {
			if c, ok := constNum(b); ok && c.IsInt() {
				if lo, hi := typeRange(xt); lo != nil && lo.Sign() == 0 {
					b = Rat(new(big.Rat).SetInt(new(big.Int).AndNot(hi, c.Num())))
				} else if ca, ok := constInt(a); ok {
					return Int(ca &^ c.Num().Int64())
				}
			} else {
				return App("bandnot", rt, a, b)
			}
		}
		return BAnd(a, b, rt)
	case token.XOR:
		if c, ok := constNum(a); ok && c.IsInt() {
			if d, ok := constNum(b); ok && d.IsInt() {
				return Rat(new(big.Rat).SetInt(new(big.Int).Xor(c.Num(), d.Num())))
			}
		}
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			return Not(Eq(a, b))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return App("bxor", rt, a, b)
	case token.EQL, token.NEQ:
		r := e.equal(ps, a, b, xt, yt)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			if op == token.GTR {
				return App("strlt", rt, b, a)
			}
			if op == token.LSS {
				return App("strlt", rt, a, b)
			}
			if op == token.GEQ {
				return Not(App("strlt", rt, a, b))
			}
			return Not(App("strlt", rt, b, a))
		}
		switch op {
		case token.LSS:
			return GT(Sub(b, a))
		case token.LEQ:
			return GE(Sub(b, a))
		case token.GTR:
			return GT(Sub(a, b))
		default:
			return GE(Sub(a, b))
		}
	}
	return App("op"+op.String(), rt, a, b)
}

// BAnd is bitwise and.
func BAnd(a, b *Term, rt types.Type) *Term {
	if _, ok := constNum(a); ok {
		a, b = b, a
	}
	if c, ok := constNum(b); ok && c.IsInt() && c.Sign() >= 0 {
		if d, ok := constNum(a); ok && d.IsInt() && d.Sign() >= 0 {
			return Rat(new(big.Rat).SetInt(new(big.Int).And(c.Num(), d.Num())))
		}
		if c.Sign() == 0 {
			return Int(0)
		}
		if k, ok := isMask(c.Num()); ok {
			if lo, _ := typeRange(a.typ); lo != nil && lo.Sign() == 0 || a.op == OApp && (a.s == "bits" || a.s == "bor") {
				return Bits(a, 0, k)
			}
		}
		// distribute over or: keep only the terms that can have the bits
		if a.op == OApp && a.s == "bor" {
			var as []*Term
			for _, x := range a.args {
				as = append(as, BAnd(x, b, rt))
			}
			return BOr(as...)
		}
		if a.op == OApp && a.s == "gate" {
			return Gate(a.args[0], BAnd(a.args[1], b, rt))
		}
		if a.op == OApp && a.s == "band" && len(a.args) == 2 {
			if d, ok := constNum(a.args[1]); ok {
				return BAnd(a.args[0], Rat(new(big.Rat).SetInt(new(big.Int).And(c.Num(), d.Num()))), rt)
			}
		}
		return mk(OApp, "band", nil, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OApp, "band", nil, a, b)
}

// Gate is v when the condition holds and 0 otherwise.
func Gate(c, v *Term) *Term {
	if c.op == OBool {
		if c.b {
			return v
		}
		return Int(0)
	}
	if k, ok := constInt(v); ok && k == 0 {
		return v
	}
	return mk(OApp, "gate", types.Typ[types.Uint64], c, v)
}

func (e *Eng) equal(ps *PS, a, b *Term, xt, yt types.Type) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi && b.op != ONil && b.op != OIface {
		b = Iface(yt, b)
	}
	if yi && !xi && a.op != ONil && a.op != OIface {
		a = Iface(xt, a)
	}
	// slices compare only with nil
	if _, ok := xt.Underlying().(*types.Slice); ok {
		if a.op == ONil {
			a, b = b, a
		}
		if a.op == ONil {
			return Bool(true)
		}
		if a.op == OSlice {
			if n, ok := constInt(a.args[2]); ok && n > 0 {
				return Bool(false)
			}
			return App("isnil", types.Typ[types.Bool], a)
		}
	}
	if m := mgetzNil(a, b, ps.facts); m != nil {
		return m
	}
	return Eq(a, b)
}

// mgetzNil compares a map read (zero when absent) with nil.
func mgetzNil(a, b *Term, f *Facts) *Term {
	if a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil && a.op == OApp && a.s == "mgetz" && neverNilType(a) {
		return nil
	}
	return nil
}

func neverNilType(t *Term) bool { return false }

// ---------------------------------------------------------------- package initialisation

func (e *Eng) ensureInit(fn *ssa.Function) {
	if fn.Pkg != nil {
		e.ensurePkg(fn.Pkg)
	}
}

func (e *Eng) ensurePkg(pk *ssa.Package) {
	if pk == nil || e.inits[pk] {
		return
	}
	e.inits[pk] = true
	if pk.Pkg.Path() != glPath && !e.p.inRepo(pk.Pkg) {
		return
	}
	init := pk.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	// initialise globals to zero first
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := pointee(g.Type())
			e.base[globalObj(g)] = zeroValue(t)
		}
	}
	if pk.Pkg.Name() != "main" && (strings.HasSuffix(pk.Pkg.Path(), "/proto") || strings.HasSuffix(pk.Pkg.Path(), "/mr") || strings.HasSuffix(pk.Pkg.Path(), "/ms") || strings.HasSuffix(pk.Pkg.Path(), "/stldice")) {
		return // generated message registration
	}
	sub := *e
	e.opaque, e.hook, e.scope, e.condLog, e.onIter, e.trackMem = nil, nil, "", nil, nil, false
	so, sa := e.obls, e.accs
	st := e.newState(emptyFacts)
	outs := func() (outs []Outcome) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(bail); !ok {
					panic(r)
				}
			}
		}()
		return e.execFn(init, nil, nil, st, "init:"+pk.Pkg.Name())
	}()
	steps := e.steps
	*e = sub
	e.steps, e.obls, e.accs = steps, so, sa
	mut := e.mutatedGlobals(pk)
	if len(outs) >= 1 {
		for k, v := range outs[0].st.heap {
			e.base[k] = v
		}
	}
	for g := range mut {
		e.base[globalObj(g)] = Sym("gvar:"+g.Pkg.Pkg.Path()+"."+g.Name(), pointee(g.Type()))
	}
}

// mutatedGlobals finds globals written (or whose address escapes) outside package initialisation.
func (e *Eng) mutatedGlobals(pk *ssa.Package) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	var fns []*ssa.Function
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && f.Name() != "init" {
			fns = append(fns, f)
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := e.p.prog.MethodSets.MethodSet(typ)
				for i := 0; i < ms.Len(); i++ {
					if f := e.p.prog.MethodValue(ms.At(i)); f != nil {
						fns = append(fns, f)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						out[g] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, f := range fns {
		if !strings.HasPrefix(f.Name(), "init#") {
			walk(f)
		}
	}
	return out
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// fresh is an engine that shares what package initialisation gave.
func (e *Eng) fresh() *Eng {
	n := NewEng(e.p)
	n.base, n.inits, n.fninfo = e.base, e.inits, e.fninfo
	return n
}
