package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive typestate simulator over SSA (property simulation): it follows every path of
// a root function through its repository callees, closures and goroutines, with numbers and
// strings abstracted to symbols of their defining instruction. It tracks nil-ness and truth of
// those symbols, the memory cells of variables, and per-object states set by a client.

type avKind uint8

const (
	aNil avKind = iota
	aConst
	aSym    // result of an instruction; s = site, n = 0 latest instance, 1 any older instance
	aParam  // parameter of the root
	aClos   // function value with bindings
	aAlloc  // address of a variable; s = site
	aGlobal // address of a global
	aFldAdr // address of field n of the struct at args[0]
	aElmAdr // address of some element of args[0]
	aFld    // field n of args[0]
	aDeref  // initial content of address args[0]
	aIface  // interface holding args[0] of type typ
	aTuple
	aOp // s = operator
	aSet
)

type AV struct {
	id    int
	k     avKind
	s     string
	n     int
	typ   types.Type
	fn    *ssa.Function
	args  []*AV
	syms  map[*AV]bool // site symbols and allocations mentioned
	depth int
}

type simTab struct {
	m    map[string]*AV
	next int
}

var avTab = &simTab{m: map[string]*AV{}}

func mkAV(k avKind, s string, n int, typ types.Type, fn *ssa.Function, args ...*AV) *AV {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%p|", k, s, n, fn)
	if k == aIface || k == aParam && typ != nil {
		sb.WriteString(typ.String())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if v, ok := avTab.m[key]; ok {
		return v
	}
	avTab.next++
	v := &AV{id: avTab.next, k: k, s: s, n: n, typ: typ, fn: fn, args: args}
	if k == aSym || k == aAlloc {
		v.syms = map[*AV]bool{v: true}
	}
	for _, a := range args {
		if a.depth >= v.depth {
			v.depth = a.depth + 1
		}
		if len(a.syms) == 0 {
			continue
		}
		if v.syms == nil {
			v.syms = a.syms
			continue
		}
		nm := map[*AV]bool{}
		for x := range v.syms {
			nm[x] = true
		}
		for x := range a.syms {
			nm[x] = true
		}
		v.syms = nm
	}
	avTab.m[key] = v
	return v
}

var avNil = mkAV(aNil, "", 0, nil, nil)

func avBool(b bool) *AV { return mkAV(aConst, strconv.FormatBool(b), 0, types.Typ[types.Bool], nil) }

var avTrue, avFalse = avBool(true), avBool(false)

func (v *AV) String() string {
	var as []string
	for _, a := range v.args {
		as = append(as, a.String())
	}
	in := strings.Join(as, ",")
	sh := v.s
	if i := strings.LastIndex(sh, "/"); i >= 0 {
		sh = sh[i+1:]
	}
	switch v.k {
	case aNil:
		return "nil"
	case aConst:
		return v.s
	case aSym:
		return "$" + sh + strings.Repeat("'", v.n)
	case aParam:
		return v.s
	case aClos:
		return "func:" + v.fn.Name()
	case aAlloc:
		return "&" + sh + strings.Repeat("'", v.n)
	case aGlobal:
		return "&" + v.s
	case aFldAdr:
		return "&" + in + "." + strconv.Itoa(v.n)
	case aElmAdr:
		return "&" + in + "[]"
	case aFld:
		return in + "." + strconv.Itoa(v.n)
	case aDeref:
		return "*(" + in + ")"
	case aIface:
		return in
	}
	return v.s + "(" + in + ")"
}

// strip removes interface wrappers.
func (v *AV) strip() *AV {
	for v.k == aIface {
		v = v.args[0]
	}
	return v
}

type simDefer struct {
	cc   *ssa.CallCommon
	fnv  *AV
	args []*AV
	site ssa.Instruction
}

type SimSt struct {
	mem   map[*AV]*AV
	facts map[*AV]bool // condition -> truth
	ts    map[*AV]string
	tag   map[string]string // client notes of the path
	trail []string
}

func newSimSt() *SimSt {
	return &SimSt{mem: map[*AV]*AV{}, facts: map[*AV]bool{}, ts: map[*AV]string{}, tag: map[string]string{}}
}

func (s *SimSt) clone() *SimSt {
	n := &SimSt{mem: make(map[*AV]*AV, len(s.mem)), facts: make(map[*AV]bool, len(s.facts)), ts: make(map[*AV]string, len(s.ts)), tag: make(map[string]string, len(s.tag)), trail: s.trail[:len(s.trail):len(s.trail)]}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ts {
		n.ts[k] = v
	}
	for k, v := range s.tag {
		n.tag[k] = v
	}
	return n
}

type simOut struct {
	kind string // ret, panic, exitfail, exit0
	res  []*AV
	st   *SimSt
	pos  token.Pos
}

// SimCall is a call to a function the simulator does not follow.
type SimCall struct {
	sim  *Sim
	st   *SimSt
	name string
	fn   *ssa.Function // static callee, if any
	cc   *ssa.CallCommon
	args []*AV
	site ssa.Instruction
	in   *ssa.Function
	key  string // site key
	res  []*AV
	mode string // call, defer, go
}

type Sim struct {
	p         *Program
	interest  func(name string, cc *ssa.CallCommon, in *ssa.Function) bool // external calls the client wants
	onCall    func(c *SimCall) []*SimSt                                    // after the results are made; may fork
	onEnter   func(fn *ssa.Function, args []*AV, st *SimSt)
	onInstr   func(st *SimSt, ins ssa.Instruction, env map[ssa.Value]*AV, key string) []*SimSt
	onLeave   func(in, fn *ssa.Function, site ssa.Instruction, key string, args []*AV, st *SimSt, o *simOut)
	onSpawn   func(st *SimSt, site ssa.Instruction, in, fn *ssa.Function, args []*AV, env map[ssa.Value]*AV) func(*SimSt) // returns what to do after
	depth     int                                                                                                         // goroutines entered
	gofns     []*ssa.Function                                                                                             // their functions
	inline    func(fn *ssa.Function) bool                                                                                 // further functions to follow
	onBranch  func(st *SimSt, cond *AV, v bool)
	keep      func(fn *ssa.Function, x *ssa.If) bool // conditions whose truth the client needs
	onBuiltin func(st *SimSt, name string, args []*AV)
	mods      *modSet                // what the callee being skipped may change
	coarse    func(ph *ssa.Phi) bool // numbers of a loop the client does not need
	onCoarse  func(st *SimSt, ph *ssa.Phi, v *AV, back bool)
	dead      bool                   // set by onBranch: the branch cannot be taken
	onMake    func(st *SimSt, v *AV) // a channel is made
	onRecv    func(st *SimSt, x *ssa.UnOp, ch, v, ok *AV)
	cur       ssa.Instruction // the instruction being followed
	curEnv    map[ssa.Value]*AV
	onElem    func(st *SimSt, coll, v *AV) // a value is put into a collection
	onAppend  func(st *SimSt, args []*AV, res *AV)
	opaque    func(fn *ssa.Function) bool
	relMemo   map[*ssa.Function]int
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	stack     []map[ssa.Value]*AV
	dstack    [][]simDefer
	fstack    []*ssa.Function
	steps     int
	max       int
	inlined   map[*ssa.Function]int
	condMemo  map[*ssa.Function]map[string]int
	globMemo  map[string]int
	calls     int
}

func NewSim(p *Program) *Sim {
	return &Sim{p: p, relMemo: map[*ssa.Function]int{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, max: 1200000, inlined: map[*ssa.Function]int{}}
}

// liveness of SSA values at block entry.
func (s *Sim) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := s.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, sc := range b.Succs {
				for v := range in[sc] {
					out[v] = true
				}
				pi := -1
				for j, p := range sc.Preds {
					if p == b {
						pi = j
					}
				}
				for _, ins := range sc.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						delete(out, ph)
						_ = pi
					}
				}
				for _, ins := range sc.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						for j, p := range sc.Preds {
							if p == b {
								out[ph.Edges[j]] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						out[*op] = true
					}
				}
			}
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					out[ph] = true // phis are set on entry
				}
			}
			if len(out) != len(in[b]) {
				in[b] = out
				changed = true
			}
		}
	}
	s.live[fn] = in
	return in
}

type simItem struct {
	b    *ssa.BasicBlock
	env  map[ssa.Value]*AV
	st   *SimSt
	defs []simDefer
}

type simBail struct{ msg string }

func (s *Sim) exec(fn *ssa.Function, args, binds []*AV, st *SimSt, ctx string) []simOut {
	s.inlined[fn]++
	env := map[ssa.Value]*AV{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			env[f] = binds[i]
		}
	}
	if s.onEnter != nil {
		s.onEnter(fn, args, st)
	}
	live := s.liveIn(fn)
	seen := map[string]bool{}
	var outs []simOut
	before := map[*AV]bool{}
	for k, v := range st.facts {
		before[k] = v
	}
	outSeen := map[string]bool{}
	done := 0
	work := []simItem{{b: fn.Blocks[0], env: env, st: st}}
	s.fstack = append(s.fstack, fn)
	defer func() { s.fstack = s.fstack[:len(s.fstack)-1] }()
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		// prune the environment and the state to what is still reachable
		for v := range it.env {
			if !live[it.b][v] {
				delete(it.env, v)
			}
		}
		s.gc(it.st, it.env, it.defs)
		k := s.key(it, fn)
		if seen[k] {
			continue
		}
		seen[k] = true
		s.steps++
		if simDebug && os.Getenv("SIM_DEBUG") == fn.Name() {
			fmt.Println("STATE", it.b.Index, it.env, it.st.mem, it.st.facts, it.st.ts, it.defs)
		}
		if s.steps > s.max {
			panic(bail{fmt.Sprintf("more than %d states while following %s", s.max, s.p.fnName(fn))})
		}
		items := s.block(fn, it, ctx, &outs)
		work = append(work, items...)
		var n []simOut
		for i, o := range outs {
			if i < done {
				n = append(n, o)
				continue
			}
			dropLocal(o.st, before)
			e := map[ssa.Value]*AV{}
			for i, r := range o.res {
				if i < len(resKeys) {
					e[resKeys[i]] = r
				}
			}
			s.gc(o.st, e, nil)
			k := outKey(o)
			if !outSeen[k] {
				outSeen[k] = true
				n = append(n, o)
			}
		}
		outs = n
		done = len(outs)
	}
	if simDebug {
		fmt.Println(strings.Repeat(" ", len(s.fstack)), s.p.fnName(fn), "outs", len(outs), "states", len(seen), "steps", s.steps)
	}
	return outs
}

var simDebug = os.Getenv("SIM_DEBUG") != ""

var resKeys = []ssa.Value{new(ssa.Phi), new(ssa.Phi), new(ssa.Phi), new(ssa.Phi), new(ssa.Phi), new(ssa.Phi), new(ssa.Phi)}

func contains2(n []simOut, k string) bool {
	for _, x := range n {
		if outKey(x) == k {
			return true
		}
	}
	return false
}

func stKeyStr(st *SimSt) string {
	var ls []string
	for k, v := range st.mem {
		ls = append(ls, fmt.Sprintf("m%d=%d", k.id, v.id))
	}
	for k, v := range st.facts {
		ls = append(ls, fmt.Sprintf("f%d=%v", k.id, v))
	}
	for k, v := range st.ts {
		ls = append(ls, fmt.Sprintf("t%d=%s", k.id, v))
	}
	for k, v := range st.tag {
		ls = append(ls, "g"+k+"="+v)
	}
	sort.Strings(ls)
	return strings.Join(ls, ";")
}

func outKey(o simOut) string {
	var sb strings.Builder
	sb.WriteString(o.kind)
	for _, r := range o.res {
		fmt.Fprintf(&sb, ",%d", r.id)
	}
	sb.WriteString("|" + stKeyStr(o.st))
	return sb.String()
}

func (s *Sim) key(it simItem, fn *ssa.Function) string {
	var ls []string
	for v, a := range it.env {
		ls = append(ls, fmt.Sprintf("%s=%d", v.Name(), a.id))
	}
	sort.Strings(ls)
	var ds []string
	for _, d := range it.defs {
		x := fmt.Sprintf("d%p:%d", d.site, d.fnv.id)
		for _, a := range d.args {
			x += fmt.Sprintf(",%d", a.id)
		}
		ds = append(ds, x)
	}
	return fmt.Sprintf("%d|%s|%s|%s", it.b.Index, strings.Join(ls, ";"), strings.Join(ds, ";"), stKeyStr(it.st))
}

// gc drops memory cells and facts about symbols that can no longer be reached.
func (s *Sim) gc(st *SimSt, env map[ssa.Value]*AV, defs []simDefer) {
	reach := map[*AV]bool{}
	var mark func(v *AV)
	var queue []*AV
	mark = func(v *AV) {
		for x := range v.syms {
			if !reach[x] {
				reach[x] = true
				queue = append(queue, x)
			}
		}
	}
	markEnv := func(e map[ssa.Value]*AV) {
		for _, v := range e {
			mark(v)
		}
	}
	markDefs := func(ds []simDefer) {
		for _, d := range ds {
			mark(d.fnv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	markEnv(env)
	markDefs(defs)
	for _, e := range s.stack {
		markEnv(e)
	}
	for _, d := range s.dstack {
		markDefs(d)
	}
	for k := range st.ts {
		mark(k)
	}
	okCell := func(a *AV) bool {
		for x := range a.syms {
			if !reach[x] {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		n := len(reach)
		for k, v := range st.mem {
			if okCell(k) {
				mark(v)
			}
		}
		if len(reach) != n {
			changed = true
		}
	}
	for k := range st.mem {
		if !okCell(k) {
			delete(st.mem, k)
		}
	}
	for k := range st.facts {
		if !okCell(k) {
			delete(st.facts, k)
		}
	}
}

// fresh makes the latest instance of a site symbol; an older live instance becomes the summary.
func (s *Sim) fresh(st *SimSt, env map[ssa.Value]*AV, defs []simDefer, k avKind, site string, typ types.Type) *AV {
	v := mkAV(k, site, 0, typ, nil)
	old := mkAV(k, site, 1, typ, nil)
	s.rename(st, env, defs, v, old)
	return v
}

func hasSym(a, v *AV) bool { return a.syms != nil && a.syms[v] }

func replAV(a, v, w *AV) *AV {
	if a == v {
		return w
	}
	if !hasSym(a, v) {
		return a
	}
	as := make([]*AV, len(a.args))
	for i, x := range a.args {
		as[i] = replAV(x, v, w)
	}
	return mkAV(a.k, a.s, a.n, a.typ, a.fn, as...)
}

func (s *Sim) rename(st *SimSt, env map[ssa.Value]*AV, defs []simDefer, v, old *AV) {
	used := false
	chk := func(a *AV) {
		if hasSym(a, v) {
			used = true
		}
	}
	each := func(e map[ssa.Value]*AV, f func(*AV)) {
		for _, a := range e {
			f(a)
		}
	}
	for k, a := range st.mem {
		chk(k)
		chk(a)
	}
	for k := range st.facts {
		chk(k)
	}
	for k := range st.ts {
		chk(k)
	}
	each(env, chk)
	if !used {
		for _, d := range defs {
			chk(d.fnv)
			for _, a := range d.args {
				chk(a)
			}
		}
	}
	if !used {
		return
	}
	oldUsed := mentionsAny(st, old)
	each(env, func(a *AV) {
		if hasSym(a, old) {
			oldUsed = true
		}
	})
	for k, a := range env {
		env[k] = replAV(a, v, old)
	}
	for i, d := range defs {
		nd := simDefer{cc: d.cc, fnv: replAV(d.fnv, v, old), site: d.site}
		for _, a := range d.args {
			nd.args = append(nd.args, replAV(a, v, old))
		}
		defs[i] = nd
	}
	nm := map[*AV]*AV{}
	for k, a := range st.mem {
		if !hasSym(k, v) {
			nm[k] = replAV(a, v, old)
		}
	}
	for k, a := range st.mem {
		if hasSym(k, v) {
			nk, na := replAV(k, v, old), replAV(a, v, old)
			if ex, ok := nm[nk]; ok && ex != na {
				na = mkAV(aSym, "merge"+strconv.Itoa(nk.id), 0, nil, nil)
			}
			nm[nk] = na
		}
	}
	st.mem = nm
	nf := map[*AV]bool{}
	drop := map[*AV]bool{}
	for k, b := range st.facts {
		if !hasSym(k, v) {
			if hasSym(k, old) {
				// the summary now covers one more instance: keep only what holds for both
				if nb, ok := st.facts[replAV(k, old, v)]; !ok || nb != b {
					if _, live := st.ts[old]; !live {
						continue
					}
				}
			}
			nf[k] = b
		}
	}
	for k, b := range st.facts {
		if hasSym(k, v) {
			nk := replAV(k, v, old)
			if ex, ok := nf[nk]; ok && ex != b {
				drop[nk] = true
			}
			if _, had := st.facts[nk]; !had && oldUsed {
				continue
			}
			nf[nk] = b
		}
	}
	for k := range drop {
		delete(nf, k)
	}
	st.facts = nf
	nt := map[*AV]string{}
	for k, x := range st.ts {
		if !hasSym(k, v) {
			nt[k] = x
		}
	}
	for k, x := range st.ts {
		if hasSym(k, v) {
			nk := replAV(k, v, old)
			if ex, ok := nt[nk]; !ok || strings.HasPrefix(x, "!") || ex == x {
				nt[nk] = x // states starting with "!" are obligations and win
			}
		}
	}
	st.ts = nt
}

// mentionsAny reports whether the summary symbol already stands for an instance.
func mentionsAny(st *SimSt, old *AV) bool {
	for k, a := range st.mem {
		if hasSym(k, old) || hasSym(a, old) {
			return true
		}
	}
	for k := range st.ts {
		if hasSym(k, old) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- conditions

func avIsNil(v *AV) *AV {
	switch v.k {
	case aNil:
		return avTrue
	case aConst, aClos, aAlloc, aGlobal, aFldAdr, aElmAdr, aIface, aTuple:
		return avFalse
	}
	return mkAV(aOp, "isnil", 0, types.Typ[types.Bool], nil, v)
}

func avNot(c *AV) *AV {
	if c == avTrue {
		return avFalse
	}
	if c == avFalse {
		return avTrue
	}
	if c.k == aOp && c.s == "not" {
		return c.args[0]
	}
	return mkAV(aOp, "not", 0, types.Typ[types.Bool], nil, c)
}

func ltZero(x *AV) *AV {
	return mkAV(aOp, "<", 0, types.Typ[types.Bool], nil, mkAV(aConst, "0", 0, nil, nil), x)
}

// truth of a condition: 1 true, -1 false, 0 unknown.
func (st *SimSt) truth(c *AV) int {
	if c == avTrue {
		return 1
	}
	if c == avFalse {
		return -1
	}
	if c.k == aOp && c.s == "not" {
		return -st.truth(c.args[0])
	}
	if b, ok := st.facts[c]; ok {
		if b {
			return 1
		}
		return -1
	}
	if c.k == aOp && c.s == "<" {
		if c.args[0].k == aConst && c.args[0].s == "0" { // 0 < x
			x := c.args[1]
			if b, ok := st.facts[mkAV(aOp, "<", 0, nil, nil, x, mkAV(aConst, "1", 0, nil, nil))]; ok {
				if b {
					return -1
				}
				return 1
			}
			if b, ok := st.facts[mkAV(aOp, "==", 0, nil, nil, order2(c.args[0], x)...)]; ok {
				if b {
					return -1
				}
				if x.k == aOp && x.s == "len" {
					return 1
				}
			}
		}
		if c.args[1].k == aConst && c.args[1].s == "1" && st.facts[ltZero(c.args[0])] {
			return -1 // x < 1 when 0 < x
		}
	}
	if c.k == aOp && c.s == "==" {
		a, b := c.args[0], c.args[1]
		if a.k == aConst && a.s == "0" && st.facts[ltZero(b)] || b.k == aConst && b.s == "0" && st.facts[ltZero(a)] {
			return -1
		}
		// x == y is false when x is nil and y is not
		na, nb := st.truth(avIsNil(a)), st.truth(avIsNil(b))
		if na*nb < 0 {
			return -1
		}
		if a.k == aConst || b.k == aConst { // distinct constants
			k, x := a, b
			if b.k == aConst {
				k, x = b, a
			}
			for f, v := range st.facts {
				if v && f.k == aOp && f.s == "==" {
					if f.args[0] == x && f.args[1].k == aConst && f.args[1] != k || f.args[1] == x && f.args[0].k == aConst && f.args[0] != k {
						return -1
					}
				}
			}
		}
	}
	return 0
}

func (st *SimSt) assume(c *AV, v bool) bool {
	switch st.truth(c) {
	case 1:
		return v
	case -1:
		return !v
	}
	for c.k == aOp && c.s == "not" {
		c, v = c.args[0], !v
	}
	st.facts[c] = v
	return true
}

func constAV(c *ssa.Const) *AV {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return mkAV(aConst, "zero:"+c.Type().String(), 0, c.Type(), nil)
		}
		return avNil
	}
	if c.Value.Kind() == constant.Bool {
		return avBool(constant.BoolVal(c.Value))
	}
	return mkAV(aConst, c.Value.ExactString(), 0, c.Type(), nil)
}

func zeroAV(t types.Type) *AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return avFalse
		case u.Info()&types.IsString != 0:
			return mkAV(aConst, `""`, 0, t, nil)
		case u.Info()&types.IsNumeric != 0:
			return mkAV(aConst, "0", 0, t, nil)
		}
		return avNil
	case *types.Struct, *types.Array:
		return mkAV(aConst, "zero:"+t.String(), 0, t, nil)
	}
	return avNil
}

func avFieldOf(v *AV, i int, t types.Type) *AV {
	if v.k == aConst && strings.HasPrefix(v.s, "zero:") {
		return zeroAV(t)
	}
	if v.k == aTuple && i < len(v.args) {
		return v.args[i]
	}
	return mkAV(aFld, "", i, t, nil, v)
}

func (s *Sim) loadAV(st *SimSt, a *AV, t types.Type) *AV {
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch a.k {
	case aAlloc:
		if a.n == 0 {
			if t == nil {
				return avNil
			}
			return zeroAV(t)
		}
	case aFldAdr:
		b := a.args[0]
		// only look through to the parent when it has content of its own
		if root := rootAdr(b); root.k == aAlloc || s.hasMem(st, b) {
			var pt types.Type
			if b.typ != nil {
				pt = pointee(b.typ)
			}
			if pt == nil {
				return mkAV(aDeref, "", 0, t, nil, a)
			}
			if _, ok := st.mem[b]; ok || b.k == aAlloc || b.k == aFldAdr {
				return avFieldOf(s.loadAV(st, b, pt), a.n, t)
			}
		}
	}
	return mkAV(aDeref, "", 0, t, nil, a)
}

func rootAdr(a *AV) *AV {
	for a.k == aFldAdr || a.k == aElmAdr {
		a = a.args[0]
	}
	return a
}

func (s *Sim) hasMem(st *SimSt, a *AV) bool {
	for {
		if _, ok := st.mem[a]; ok {
			return true
		}
		if a.k != aFldAdr {
			return false
		}
		a = a.args[0]
	}
}

func (s *Sim) storeAV(st *SimSt, a, v *AV) {
	// drop cells below the address
	for k := range st.mem {
		for x := k; x.k == aFldAdr || x.k == aElmAdr; {
			x = x.args[0]
			if x == a {
				delete(st.mem, k)
				break
			}
		}
	}
	st.mem[a] = v
}

// havoc forgets what an opaque callee may change.
func (s *Sim) havocAV(st *SimSt, a *AV, key string, seen map[*AV]bool) {
	a = a.strip()
	if seen[a] {
		return
	}
	seen[a] = true
	switch a.k {
	case aAlloc, aGlobal, aFldAdr, aElmAdr:
		if v, ok := st.mem[a]; ok {
			s.havocAV(st, v, key, seen)
		}
		var t types.Type
		if a.typ != nil {
			t = pointee(a.typ)
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
			return // never read but by its methods
		}
		if (a.k == aAlloc || a.k == aFldAdr) && (s.mods == nil || s.mods.mayChange(t)) {
			s.storeAV(st, a, mkAV(aSym, key+"/havoc"+strconv.Itoa(a.id), 0, t, nil))
		}
	case aClos:
		for i, b := range a.args {
			if a.fn != nil && i < len(a.fn.FreeVars) && !writesFree(a.fn, a.fn.FreeVars[i]) {
				continue
			}
			s.havocAV(st, b, key, seen)
		}
	}
}

var writesMemo = map[*ssa.FreeVar]int{}

// writesFree reports whether a closure may change a captured variable itself.
func writesFree(fn *ssa.Function, v *ssa.FreeVar) bool {
	if r, ok := writesMemo[v]; ok {
		return r == 1
	}
	writesMemo[v] = 0
	r := false
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			r = true
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && writesFree(f, f.FreeVars[i]) {
					r = true
				}
			}
		case *ssa.DebugRef:
		default:
			r = true
		}
	}
	if r {
		writesMemo[v] = 1
	}
	return r
}

// ---------------------------------------------------------------- blocks

func (s *Sim) get(env map[ssa.Value]*AV, v ssa.Value) *AV {
	switch x := v.(type) {
	case *ssa.Const:
		return constAV(x)
	case *ssa.Function:
		return mkAV(aClos, "", 0, x.Type(), x)
	case *ssa.Global:
		return mkAV(aGlobal, x.Pkg.Pkg.Path()+"."+x.Name(), 0, x.Type(), nil)
	case *ssa.Builtin:
		return mkAV(aConst, "builtin:"+x.Name(), 0, nil, nil)
	}
	if a, ok := env[v]; ok {
		return a
	}
	return mkAV(aSym, "?"+v.Parent().String()+v.Name(), 0, v.Type(), nil)
}

type simCont struct {
	env  map[ssa.Value]*AV
	st   *SimSt
	defs []simDefer
}

func copyEnv(e map[ssa.Value]*AV) map[ssa.Value]*AV {
	n := make(map[ssa.Value]*AV, len(e)+4)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (s *Sim) block(fn *ssa.Function, it simItem, ctx string, outs *[]simOut) []simItem {
	b := it.b
	conts := []simCont{{it.env, it.st, it.defs}}
	for idx, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		site := ctx + "/" + fn.String() + "#" + strconv.Itoa(b.Index) + "." + strconv.Itoa(idx)
		switch x := ins.(type) {
		case *ssa.Jump:
			var r []simItem
			for _, c := range conts {
				r = append(r, s.edge(c, b, b.Succs[0]))
			}
			return r
		case *ssa.If:
			var r []simItem
			for _, c := range conts {
				cond := s.get(c.env, x.Cond)
				for i, v := range []bool{true, false} {
					n := simCont{copyEnv(c.env), c.st.clone(), append([]simDefer(nil), c.defs...)}
					known := n.st.truth(cond) != 0
					if n.st.assume(cond, v) {
						s.cur, s.curEnv = x, n.env
						if s.onBranch != nil {
							s.onBranch(n.st, cond, v)
						}
						if s.dead {
							s.dead = false
							continue
						}
						if !known && !(s.keep != nil && s.keep(fn, x)) && !s.worthKeeping(fn, x) {
							forget(n.st, cond)
						}
						if len(n.st.trail) < 60 {
							n.st.trail = append(n.st.trail, fmt.Sprintf("%s:%v", s.p.posStr(condPos(x)), v))
						}
						r = append(r, s.edge(n, b, b.Succs[i]))
					}
				}
			}
			return r
		case *ssa.Return:
			for _, c := range conts {
				var rs []*AV
				for _, v := range x.Results {
					rs = append(rs, s.get(c.env, v))
				}
				*outs = append(*outs, simOut{kind: "ret", res: rs, st: c.st, pos: x.Pos()})
			}
			return nil
		case *ssa.Panic:
			for _, c := range conts {
				*outs = append(*outs, simOut{kind: "panic", st: c.st, pos: x.Pos()})
			}
			return nil
		}
		var next []simCont
		for _, c := range conts {
			next = append(next, s.step(fn, c, ins, site, ctx, outs)...)
		}
		conts = dedupConts(s, next, fn, b)
		if len(conts) == 0 {
			return nil
		}
	}
	return nil
}

func dedupConts(s *Sim, cs []simCont, fn *ssa.Function, b *ssa.BasicBlock) []simCont {
	if len(cs) < 2 {
		return cs
	}
	seen := map[string]bool{}
	var r []simCont
	for _, c := range cs {
		k := s.key(simItem{b: b, env: c.env, st: c.st, defs: c.defs}, fn)
		if !seen[k] {
			seen[k] = true
			r = append(r, c)
		}
	}
	return r
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	return x.Pos()
}

func forget(st *SimSt, c *AV) {
	for c.k == aOp && c.s == "not" {
		c = c.args[0]
	}
	delete(st.facts, c)
}

// worthKeeping: the truth of a condition is recorded when it can decide another branch: it is a
// nil test, a truth value, about a global, or its shape occurs in a second branch of the function.
func (s *Sim) worthKeeping(fn *ssa.Function, x *ssa.If) bool {
	if s.condMemo == nil {
		s.condMemo = map[*ssa.Function]map[string]int{}
	}
	m, ok := s.condMemo[fn]
	if !ok {
		m = map[string]int{}
		for _, b := range fn.Blocks {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				m[condShape(i.Cond)]++
			}
		}
		s.condMemo[fn] = m
	}
	k := condShape(x.Cond)
	if strings.Contains(k, "@") {
		if s.globMemo == nil {
			s.globMemo = map[string]int{}
			for _, pk := range s.p.repo {
				for _, f := range s.p.fnsOf(pk) {
					for _, b := range f.Blocks {
						if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
							s.globMemo[f.Pkg.Pkg.Path()+condShape(i.Cond)]++
						}
					}
				}
			}
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != nil && s.globMemo[root.Pkg.Pkg.Path()+k] > 1 {
			return true
		}
	}
	return m[k] > 1 || strings.Contains(k, "nil,") || strings.Contains(k, ",nil")
}

func condShape(v ssa.Value) string { return condShapeN(v, 6) }

func condShapeN(v ssa.Value, d int) string {
	if d == 0 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Global:
		return "@" + x.Name()
	case *ssa.Phi:
		return "i"
	case *ssa.BinOp:
		a, b := condShapeN(x.X, d-1), condShapeN(x.Y, d-1)
		switch x.Op {
		case token.ADD, token.SUB:
			return "i"
		case token.EQL, token.NEQ:
			if a > b {
				a, b = b, a
			}
			return "eq(" + a + "," + b + ")"
		case token.GTR, token.LEQ:
			return "lt(" + b + "," + a + ")"
		case token.LSS, token.GEQ:
			return "lt(" + a + "," + b + ")"
		}
		return x.Op.String() + "(" + a + "," + b + ")"
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return condShapeN(x.X, d-1)
		}
		return x.Op.String() + condShapeN(x.X, d-1)
	case *ssa.FieldAddr:
		return condShapeN(x.X, d-1) + "." + strconv.Itoa(x.Field)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + condShapeN(x.Call.Args[0], d-1) + ")"
		}
		return "v" + x.Name()
	case *ssa.Extract:
		return "v" + x.Name()
	}
	return v.Name()
}

// dropLocal forgets facts of a finished callee that no longer matter to its caller.
func dropLocal(st *SimSt, before map[*AV]bool) {
	for f := range st.facts {
		if _, ok := before[f]; ok {
			continue
		}
		if f.k == aOp && f.s == "isnil" || len(f.syms) > 0 {
			continue // symbols are collected when they become unreachable
		}
		if mentionsKind(f, aGlobal) {
			continue
		}
		delete(st.facts, f)
	}
}

func mentionsKind(v *AV, k avKind) bool {
	if v.k == k {
		return true
	}
	for _, a := range v.args {
		if mentionsKind(a, k) {
			return true
		}
	}
	return false
}

func (s *Sim) edge(c simCont, from, to *ssa.BasicBlock) simItem {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []*AV
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, s.get(c.env, ph.Edges[pi]))
	}
	for i, ph := range phis {
		c.env[ph] = vals[i]
		if s.coarse != nil && isNumber(ph.Type()) && s.coarse(ph) {
			// any number: what is known of an earlier value of the variable no longer holds
			v := mkAV(aSym, "phi:"+ph.Parent().String()+ph.Name(), 0, ph.Type(), nil)
			for f := range c.st.facts {
				if hasSym(f, v) {
					delete(c.st.facts, f)
				}
			}
			c.env[ph] = v
			if s.onCoarse != nil {
				s.onCoarse(c.st, ph, v, to.Dominates(from))
			}
		}
		if pt := pointee(ph.Type()); s.coarse != nil && pt != nil && isNumber(pt) && vals[i].k == aAlloc && s.coarse(ph) {
			// the same for a variable that each iteration has its own copy of
			v := mkAV(aSym, "phi:"+ph.Parent().String()+ph.Name(), 0, pt, nil)
			for f := range c.st.facts {
				if hasSym(f, v) {
					delete(c.st.facts, f)
				}
			}
			s.storeAV(c.st, vals[i], v)
			if s.onCoarse != nil {
				s.onCoarse(c.st, ph, v, to.Dominates(from))
			}
		}
	}
	return simItem{b: to, env: c.env, st: c.st, defs: c.defs}
}

func (s *Sim) step(fn *ssa.Function, c simCont, ins ssa.Instruction, site, ctx string, outs *[]simOut) []simCont {
	env, st := c.env, c.st
	s.cur, s.curEnv = ins, env
	g := func(v ssa.Value) *AV { return s.get(env, v) }
	if s.onInstr != nil {
		if sts := s.onInstr(st, ins, env, site); sts != nil {
			if len(sts) != 1 || sts[0] != st {
				var r []simCont
				for _, n := range sts {
					r = append(r, s.step1(fn, simCont{copyEnv(env), n, append([]simDefer(nil), c.defs...)}, ins, site, ctx, outs)...)
				}
				return r
			}
		}
	}
	_ = g
	return s.step1(fn, c, ins, site, ctx, outs)
}

func (s *Sim) step1(fn *ssa.Function, c simCont, ins ssa.Instruction, site, ctx string, outs *[]simOut) []simCont {
	env, st := c.env, c.st
	g := func(v ssa.Value) *AV { return s.get(env, v) }
	one := []simCont{c}
	sym := func(t types.Type) *AV { return s.fresh(st, env, c.defs, aSym, site, t) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		v := s.fresh(st, env, c.defs, aAlloc, site, x.Type())
		for k := range st.mem {
			if rootAdr(k) == v {
				delete(st.mem, k)
			}
		}
		env[x] = v
	case *ssa.Store:
		a, v := g(x.Addr), g(x.Val)
		if a.k == aElmAdr || inElem(a) && isErrType(x.Val.Type()) {
			return s.weakStore(c, a, v, site)
		}
		s.storeAV(st, a, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := g(x.X)
			if a.k == aElmAdr {
				env[x] = s.weakLoad(c, a, site, x.Type())
			} else {
				env[x] = s.loadAV(st, a, x.Type())
			}
		case token.NOT:
			env[x] = avNot(g(x.X))
		case token.ARROW:
			return s.recv(c, x, site)
		default:
			env[x] = mkAV(aOp, x.Op.String(), 0, x.Type(), nil, g(x.X))
		}
	case *ssa.BinOp:
		env[x] = s.binop(c, x, site)
	case *ssa.FieldAddr:
		if v := g(x.X); v.depth > 12 {
			env[x] = sym(x.Type())
		} else {
			env[x] = mkAV(aFldAdr, "", x.Field, x.Type(), nil, v)
		}
	case *ssa.Field:
		env[x] = avFieldOf(g(x.X), x.Field, x.Type())
	case *ssa.IndexAddr:
		env[x] = mkAV(aElmAdr, "", 0, x.Type(), nil, g(x.X))
	case *ssa.Index:
		env[x] = sym(x.Type())
	case *ssa.Lookup, *ssa.Next, *ssa.Select:
		v := ins.(ssa.Value)
		if x, ok := ins.(*ssa.Select); ok {
			// a channel known to hold an error is received from
			for i, ss := range x.States {
				if ss.Dir != types.RecvOnly || !isErrType(ss.Chan.Type().Underlying().(*types.Chan).Elem()) {
					continue
				}
				a := mkAV(aElmAdr, "", 0, nil, nil, g(ss.Chan))
				e, has := st.mem[a]
				if !has {
					continue
				}
				delete(st.mem, a)
				t := v.Type().(*types.Tuple)
				as := []*AV{mkAV(aConst, strconv.Itoa(i), 0, t.At(0).Type(), nil), avTrue}
				n := 0
				for j, sj := range x.States {
					if sj.Dir != types.RecvOnly {
						continue
					}
					if j == i {
						as = append(as, e)
					} else {
						as = append(as, zeroAV(t.At(2+n).Type()))
					}
					n++
				}
				env[v] = mkAV(aTuple, "", 0, v.Type(), nil, as...)
				return one
			}
		}
		if t, ok := v.Type().(*types.Tuple); ok {
			var as []*AV
			for i := 0; i < t.Len(); i++ {
				as = append(as, s.fresh(st, env, c.defs, aSym, site+"."+strconv.Itoa(i), t.At(i).Type()))
			}
			env[v] = mkAV(aTuple, "", 0, v.Type(), nil, as...)
		} else {
			env[v] = sym(v.Type())
		}
	case *ssa.Extract:
		t := g(x.Tuple)
		if t.k == aTuple && x.Index < len(t.args) {
			env[x] = t.args[x.Index]
		} else {
			env[x] = avFieldOf(t, x.Index, x.Type())
		}
	case *ssa.MakeClosure:
		var bs []*AV
		for _, b := range x.Bindings {
			bs = append(bs, g(b))
		}
		env[x] = mkAV(aClos, "", 0, x.Type(), x.Fn.(*ssa.Function), bs...)
	case *ssa.MakeInterface:
		v := g(x.X)
		env[x] = mkAV(aIface, "", 0, x.X.Type(), nil, v)
	case *ssa.ChangeInterface:
		env[x] = g(x.X)
	case *ssa.ChangeType:
		env[x] = g(x.X)
	case *ssa.Convert:
		v := g(x.X)
		if v.k == aConst || isInt64(x.Type()) && isInt64(x.X.Type()) {
			env[x] = v
		} else {
			env[x] = mkAV(aOp, "conv", 0, x.Type(), nil, v)
		}
	case *ssa.TypeAssert:
		v := g(x.X)
		if v.k == aIface && types.Identical(v.typ, x.AssertedType) {
			if x.CommaOk {
				env[x] = mkAV(aTuple, "", 0, x.Type(), nil, v.args[0], avTrue)
			} else {
				env[x] = v.args[0]
			}
		} else if x.CommaOk {
			env[x] = mkAV(aTuple, "", 0, x.Type(), nil, s.fresh(st, env, c.defs, aSym, site+".0", x.AssertedType), s.fresh(st, env, c.defs, aSym, site+".1", types.Typ[types.Bool]))
		} else {
			env[x] = mkAV(aOp, "assert:"+x.AssertedType.String(), 0, x.Type(), nil, v)
		}
	case *ssa.Slice:
		v := g(x.X)
		env[x] = v
		if h, ok := x.High.(*ssa.Const); ok && x.Low == nil && h.Value != nil && h.Value.ExactString() == "0" {
			env[x] = sym(x.Type())
			st.facts[mkAV(aOp, "==", 0, types.Typ[types.Bool], nil, order2(mkAV(aConst, "0", 0, nil, nil), mkAV(aOp, "len", 0, nil, nil, env[x]))...)] = true
			return one
		}
		if x.Low != nil || x.High != nil {
			if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
				env[x] = sym(x.Type())
			}
		}
	case *ssa.MakeSlice:
		v := s.fresh(st, env, c.defs, aAlloc, site, x.Type())
		env[x] = v
		st.mem[mkAV(aOp, "lencell", 0, nil, nil, v)] = g(x.Len)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := ins.(ssa.Value)
		env[v] = s.fresh(st, env, c.defs, aAlloc, site, v.Type())
		if x, ok := ins.(*ssa.MakeChan); ok {
			st.mem[mkAV(aOp, "capcell", 0, nil, nil, env[v])] = g(x.Size)
			if s.onMake != nil {
				s.onMake(st, env[v])
			}
		}
	case *ssa.MapUpdate:
		a := mkAV(aElmAdr, "", 0, nil, nil, g(x.Map))
		return s.weakStore(c, a, g(x.Value), site)
	case *ssa.Send:
		a := mkAV(aElmAdr, "", 0, nil, nil, g(x.Chan))
		return s.weakStore(c, a, g(x.X), site)
	case *ssa.Range:
		env[x] = mkAV(aOp, "range", 0, x.Type(), nil, g(x.X))
	case *ssa.Defer:
		d := simDefer{cc: &x.Call, site: x}
		d.fnv, d.args = s.callArgs(env, &x.Call)
		for _, e := range c.defs {
			if e.site == d.site && e.fnv == d.fnv && sameAVs(e.args, d.args) {
				return one
			}
		}
		c.defs = append(append([]simDefer(nil), c.defs...), d)
		return []simCont{c}
	case *ssa.RunDefers:
		cs := []simCont{c}
		for i := len(c.defs) - 1; i >= 0; i-- {
			var n []simCont
			for _, y := range cs {
				d := y.defs[len(y.defs)-1]
				y.defs = y.defs[:len(y.defs)-1]
				n = append(n, s.call(fn, y, d.cc, d.fnv, d.args, d.site, nil, site+"d"+strconv.Itoa(i), "defer", outs)...)
			}
			cs = n
		}
		return cs
	case *ssa.Go:
		fv, as := s.callArgs(env, &x.Call)
		return s.spawn(fn, c, &x.Call, fv, as, x, site, outs)
	case *ssa.Call:
		fv, as := s.callArgs(env, &x.Call)
		return s.call(fn, c, &x.Call, fv, as, x, x, site, "call", outs)
	case *ssa.DebugRef:
	default:
		if v, ok := ins.(ssa.Value); ok {
			env[v] = sym(v.Type())
		}
	}
	return one
}

// spawn follows a goroutine where it is started.
func (s *Sim) spawn(fn *ssa.Function, c simCont, cc *ssa.CallCommon, fv *AV, as []*AV, x ssa.Instruction, site string, outs *[]simOut) []simCont {
	var after func(*SimSt)
	if s.onSpawn != nil {
		after = s.onSpawn(c.st, x, fn, closFn(fv), as, c.env)
	}
	s.depth++
	s.gofns = append(s.gofns, closFn(fv))
	var sink []simOut
	r := s.call(fn, c, cc, fv, as, x, nil, site, "go", &sink)
	s.gofns = s.gofns[:len(s.gofns)-1]
	s.depth--
	for _, o := range sink {
		if o.kind == "exitfail" || o.kind == "exit0" {
			*outs = append(*outs, o)
		}
	}
	if after != nil {
		for _, y := range r {
			after(y.st)
		}
	}
	return r
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func closFn(v *AV) *ssa.Function {
	if v.k == aClos {
		return v.fn
	}
	return nil
}

func sameAVs(a, b []*AV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *Sim) binop(c simCont, x *ssa.BinOp, site string) *AV {
	a, b := s.get(c.env, x.X), s.get(c.env, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := s.equalAV(a, b)
		if x.Op == token.NEQ {
			r = avNot(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := x.Op
		if op == token.GTR {
			op, a, b = token.LSS, b, a
		} else if op == token.GEQ {
			op, a, b = token.LEQ, b, a
		}
		if a.k == aConst && b.k == aConst {
			av, e1 := strconv.ParseFloat(a.s, 64)
			bv, e2 := strconv.ParseFloat(b.s, 64)
			if e1 == nil && e2 == nil {
				return avBool(op == token.LSS && av < bv || op == token.LEQ && av <= bv)
			}
		}
		if op == token.LEQ { // a <= b is !(b < a)
			return avNot(mkAV(aOp, "<", 0, types.Typ[types.Bool], nil, b, a))
		}
		return mkAV(aOp, "<", 0, types.Typ[types.Bool], nil, a, b)
	}
	if (x.Op == token.ADD || x.Op == token.SUB) && a.k == aConst && b.k == aConst {
		av, e1 := strconv.ParseInt(a.s, 10, 64)
		bv, e2 := strconv.ParseInt(b.s, 10, 64)
		if e1 == nil && e2 == nil {
			if x.Op == token.SUB {
				bv = -bv
			}
			if r := av + bv; r <= 0 { // range loops start at -1
				return mkAV(aConst, strconv.FormatInt(r, 10), 0, x.Type(), nil)
			}
		}
	}
	if x.Op == token.ADD || x.Op == token.AND || x.Op == token.OR {
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if r := mkAV(aOp, "+", 0, x.Type(), nil, a, s.get(c.env, x.Y)); r.depth < 6 {
				return r
			}
		}
	}
	pos := x.Op == token.SUB && b.k == aConst && b.s == "1" && c.st.facts[ltZero(a)]
	r := s.fresh(c.st, c.env, c.defs, aSym, site, x.Type())
	if pos { // one less than a positive number is not negative
		c.st.facts[mkAV(aOp, "<", 0, types.Typ[types.Bool], nil, r, mkAV(aConst, "0", 0, nil, nil))] = false
	}
	return r
}

func (s *Sim) equalAV(a, b *AV) *AV {
	if a == b {
		return avTrue
	}
	if a.k == aNil {
		return avIsNil(b)
	}
	if b.k == aNil {
		return avIsNil(a)
	}
	if a.k == aConst && b.k == aConst {
		return avFalse
	}
	if a == avTrue || a == avFalse {
		a, b = b, a
	}
	if b == avTrue {
		return a
	}
	if b == avFalse {
		return avNot(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkAV(aOp, "==", 0, types.Typ[types.Bool], nil, a, b)
}

func order2(a, b *AV) []*AV {
	if a.id > b.id {
		a, b = b, a
	}
	return []*AV{a, b}
}

func isErrAV(v *AV) bool { return v.typ != nil && isErrType(v.typ) }

// weakStore keeps error values put into a collection or channel.
func (s *Sim) weakStore(c simCont, a, v *AV, site string) []simCont {
	if s.onElem != nil && a.k == aElmAdr {
		s.onElem(c.st, a.args[0], v)
	}
	if !(isErrAV(v) || v.k == aIface) {
		return []simCont{c}
	}
	switch c.st.truth(avIsNil(v)) {
	case 1:
		return []simCont{c}
	case 0:
		n := simCont{copyEnv(c.env), c.st.clone(), append([]simDefer(nil), c.defs...)}
		n.st.assume(avIsNil(v), true)
		c.st.assume(avIsNil(v), false)
		c.st.mem[a] = v
		return []simCont{c, n}
	}
	c.st.mem[a] = v
	return []simCont{c}
}

func (s *Sim) weakLoad(c simCont, a *AV, site string, t types.Type) *AV {
	if v, ok := c.st.mem[a]; ok && (isErrType(t) || v.k == aIface) {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		// a structure of which an error is known
		var fs []*AV
		some := false
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			v, ok := c.st.mem[mkAV(aFldAdr, "", i, types.NewPointer(ft), nil, a)]
			if ok {
				some = true
			} else {
				v = s.fresh(c.st, c.env, c.defs, aSym, site+"."+st.Field(i).Name(), ft)
			}
			fs = append(fs, v)
		}
		if some {
			return mkAV(aTuple, "", 0, t, nil, fs...)
		}
	}
	return s.fresh(c.st, c.env, c.defs, aSym, site, t)
}

// holdsElem: something is known of an element of the list.
func holdsElem(st *SimSt, v *AV) bool {
	e := mkAV(aElmAdr, "", 0, nil, nil, v)
	if _, ok := st.mem[e]; ok {
		return true
	}
	for k, x := range st.mem {
		if k.k == aFldAdr && k.args[0] == e && isErrAV(x) {
			return true
		}
	}
	return false
}

// inElem: the address lies in an element of a list.
func inElem(a *AV) bool {
	for ; a.k == aFldAdr || a.k == aElmAdr; a = a.args[0] {
		if a.k == aElmAdr {
			return true
		}
	}
	return false
}

func (s *Sim) recv(c simCont, x *ssa.UnOp, site string) []simCont {
	ch := s.get(c.env, x.X)
	a := mkAV(aElmAdr, "", 0, nil, nil, ch)
	t := x.X.Type().Underlying().(*types.Chan).Elem()
	var v *AV
	ok := s.fresh(c.st, c.env, c.defs, aSym, site+".ok", types.Typ[types.Bool])
	if w, has := c.st.mem[a]; has && isErrType(t) {
		v = w
		delete(c.st.mem, a)
		ok = avTrue
	} else {
		v = s.fresh(c.st, c.env, c.defs, aSym, site, t)
	}
	if s.onRecv != nil {
		s.onRecv(c.st, x, ch, v, ok)
	}
	if x.CommaOk {
		c.env[x] = mkAV(aTuple, "", 0, x.Type(), nil, v, ok)
	} else {
		c.env[x] = v
	}
	return []simCont{c}
}

// ---------------------------------------------------------------- calls

func (s *Sim) callArgs(env map[ssa.Value]*AV, cc *ssa.CallCommon) (*AV, []*AV) {
	var as []*AV
	if cc.IsInvoke() {
		as = append(as, s.get(env, cc.Value))
	}
	for _, a := range cc.Args {
		as = append(as, s.get(env, a))
	}
	if cc.IsInvoke() {
		return avNil, as
	}
	return s.get(env, cc.Value), as
}

// extName names the callee of a call the simulator does not follow.
func extName(cc *ssa.CallCommon, fn *ssa.Function) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if fn != nil {
		if o := fn.Object(); o != nil {
			return o.(*types.Func).FullName()
		}
		return fn.String()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

var exitFail = map[string]bool{"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true}
var panicFns = map[string]bool{"log.Panic": true, "log.Panicf": true, "log.Panicln": true}

func (s *Sim) resolve(cc *ssa.CallCommon, fnv *AV, args []*AV) (*ssa.Function, []*AV, []*AV) {
	if cc.IsInvoke() {
		if len(args) > 0 && args[0].k == aIface {
			t := args[0].typ
			if sel := s.p.prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				f := s.p.prog.MethodValue(sel)
				if f != nil {
					return f, append([]*AV{args[0].args[0]}, args[1:]...), nil
				}
			}
		}
		return nil, args, nil
	}
	if fnv.k == aClos {
		return fnv.fn, args, fnv.args
	}
	return nil, args, nil
}

func generatedFn(p *Program, fn *ssa.Function) bool {
	if fn.Pos().IsValid() {
		return strings.HasSuffix(p.fset.Position(fn.Pos()).Filename, ".pb.go")
	}
	return false
}

func (s *Sim) ownFn(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && s.p.inRepo(pkgOfFn(fn)) && !generatedFn(s.p, fn)
}

// relevant functions are followed; others are opaque.
func (s *Sim) relevant(fn *ssa.Function) bool {
	if !s.ownFn(fn) || s.opaque != nil && s.opaque(fn) {
		return false
	}
	if r, ok := s.relMemo[fn]; ok {
		return r == 1
	}
	// breadth-first over static callees and closures
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if s.directlyRelevant(f) || s.relMemo[f] == 1 {
			s.relMemo[fn] = 1
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var c *ssa.Function
				switch x := ins.(type) {
				case ssa.CallInstruction:
					c = x.Common().StaticCallee()
				case *ssa.MakeClosure:
					c = x.Fn.(*ssa.Function)
				}
				if c != nil && s.ownFn(c) && !seen[c] {
					seen[c] = true
					work = append(work, c)
				}
			}
		}
	}
	s.relMemo[fn] = 0
	return false
}

// relevantArg reports a function value among the arguments that must be followed.
func (s *Sim) relevantArg(as []*AV) bool {
	for _, a := range as {
		if a.k == aClos && a.fn != nil && s.relevant(a.fn) {
			return true
		}
	}
	return false
}

// holdsErr reports an error, or a collection, channel or variable of errors.
func holdsErr(t types.Type) bool {
	if isErrType(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return false
		}
		return holdsErr(u.Elem())
	case *types.Slice:
		return holdsErr(u.Elem())
	case *types.Array:
		return holdsErr(u.Elem())
	case *types.Map:
		return holdsErr(u.Elem())
	case *types.Chan:
		return holdsErr(u.Elem())
	}
	return false
}

func (s *Sim) directlyRelevant(f *ssa.Function) bool {
	if s.inline != nil && s.inline(f) {
		return true
	}
	for _, p := range f.Params {
		if holdsErr(p.Type()) {
			return true
		}
	}
	for _, p := range f.FreeVars {
		if holdsErr(p.Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			x, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := x.Common()
			c := cc.StaticCallee()
			if c != nil && s.ownFn(c) {
				continue
			}
			n := extName(cc, c)
			if exitFail[n] || panicFns[n] || n == "os.Exit" || s.interest != nil && s.interest(n, cc, f) {
				return true
			}
		}
	}
	return false
}

func (s *Sim) call(in *ssa.Function, c simCont, cc *ssa.CallCommon, fnv *AV, args []*AV, site ssa.Instruction, res ssa.Value, key, mode string, outs *[]simOut) []simCont {
	fn, as, binds := s.resolve(cc, fnv, args)
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return s.builtin(c, b, args, res, key)
	}
	name := extName(cc, fn)
	if name == "(*sync.WaitGroup).Go" && len(args) == 2 && args[1].k == aClos && mode != "wg" {
		// the counter goes up and down once around the call
		var after func(*SimSt)
		if s.onSpawn != nil {
			after = s.onSpawn(c.st, site, in, args[1].fn, nil, c.env)
		}
		s.depth++
		s.gofns = append(s.gofns, args[1].fn)
		var sink []simOut
		r := s.call(in, c, &ssa.CallCommon{Value: args[1].fn}, args[1], nil, site, nil, key, "wg", &sink)
		s.gofns = s.gofns[:len(s.gofns)-1]
		s.depth--
		for _, o := range sink {
			if o.kind == "exitfail" || o.kind == "exit0" {
				*outs = append(*outs, o)
			}
		}
		if after != nil {
			for _, y := range r {
				after(y.st)
			}
		}
		return r
	}
	if name == "(*sync.Once).Do" && len(args) == 2 && args[1].k == aClos && mode != "wg" {
		return s.call(in, c, &ssa.CallCommon{Value: args[1].fn}, args[1], nil, site, nil, key, "wg", outs)
	}
	if fn != nil && s.ownFn(fn) && (s.relevant(fn) || s.relevantArg(as)) {
		rec := 0
		for _, f := range s.fstack {
			if f == fn {
				rec++
			}
		}
		if rec == 0 {
			s.renamePrefix(&c, key+"/")
			if mode != "defer" && mode != "wg" {
				fnv, args = s.callArgs(c.env, cc)
				fn, as, binds = s.resolve(cc, fnv, args)
			}
			s.stack = append(s.stack, c.env)
			s.dstack = append(s.dstack, c.defs)
			d := len(s.stack) - 1
			os := s.exec(fn, as, binds, c.st, key)
			cenv := s.stack[d]
			s.stack = s.stack[:d]
			s.dstack = s.dstack[:d]
			var r []simCont
			for i := range os {
				o := os[i]
				if o.kind != "ret" {
					if s.depth == 0 || o.kind != "panic" {
						*outs = append(*outs, o)
					}
					continue
				}
				if s.onLeave != nil {
					s.onLeave(in, fn, site, key, as, o.st, &o)
				}
				n := simCont{copyEnv(cenv), o.st, append([]simDefer(nil), c.defs...)}
				if res != nil {
					if len(o.res) == 1 {
						n.env[res] = o.res[0]
					} else {
						n.env[res] = mkAV(aTuple, "", 0, res.Type(), nil, o.res...)
					}
				}
				r = append(r, n)
			}
			return r
		}
	}
	s.calls++
	switch {
	case exitFail[name]:
		*outs = append(*outs, simOut{kind: "exitfail", st: c.st, pos: site.Pos()})
		return nil
	case panicFns[name]:
		*outs = append(*outs, simOut{kind: "panic", st: c.st, pos: site.Pos()})
		return nil
	case name == "os.Exit":
		k := "exitfail"
		if args[0].k == aConst && args[0].s == "0" {
			k = "exit0"
		}
		*outs = append(*outs, simOut{kind: k, st: c.st, pos: site.Pos()})
		return nil
	}
	// opaque
	sig := cc.Signature()
	var rs []*AV
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rs = append(rs, s.fresh(c.st, c.env, c.defs, aSym, key+"."+strconv.Itoa(i), t))
	}
	args = remapArgs(s, c, cc, args, mode)
	switch name {
	case "fmt.Errorf", "errors.New":
		c.st.facts[avIsNil(rs[0])] = false
	case "flag.Args", "flag.Arg", "flag.NArg", "path/filepath.Clean", "fmt.Sprintf", "strings.TrimSuffix", "os.IsNotExist", "os.IsExist", "errors.Is", "strings.HasPrefix", "strings.HasSuffix", "path/filepath.Base":
		// functions of their arguments
		if name != "fmt.Sprintf" {
			rs[0] = mkAV(aOp, name, 0, sig.Results().At(0).Type(), nil, args...)
		}
	default:
		seen := map[*AV]bool{}
		if !(fn != nil && s.ownFn(fn)) && readOnlyExt(name) {
			break
		}
		s.mods = nil
		if fn != nil && s.ownFn(fn) {
			s.mods = s.modOf(fn)
		}
		for _, a := range args {
			s.havocAV(c.st, a, key, seen)
		}
		s.mods = nil
	}
	sts := []*SimSt{c.st}
	sc := &SimCall{sim: s, st: c.st, name: name, fn: fn, cc: cc, args: args, site: site, in: in, key: key, res: rs, mode: mode}
	if s.onCall != nil {
		if r := s.onCall(sc); r != nil {
			sts = r
		}
	}
	rs = sc.res
	var r []simCont
	for i, st := range sts {
		n := simCont{c.env, st, c.defs}
		if i > 0 {
			n.env, n.defs = copyEnv(c.env), append([]simDefer(nil), c.defs...)
		}
		if res != nil {
			if len(rs) == 1 {
				n.env[res] = rs[0]
			} else {
				n.env[res] = mkAV(aTuple, "", 0, res.Type(), nil, rs...)
			}
		}
		r = append(r, n)
	}
	return r
}

// remapArgs reads the arguments again after the results were renamed.
func remapArgs(s *Sim, c simCont, cc *ssa.CallCommon, args []*AV, mode string) []*AV {
	if mode == "defer" || mode == "wg" {
		return args
	}
	_, as := s.callArgs(c.env, cc)
	return as
}

func readOnlyExt(n string) bool {
	return strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "encoding/binary.Write")
}

func (s *Sim) builtin(c simCont, b *ssa.Builtin, args []*AV, res ssa.Value, key string) []simCont {
	if s.onBuiltin != nil {
		s.onBuiltin(c.st, b.Name(), args)
	}
	if res == nil {
		return []simCont{c}
	}
	switch b.Name() {
	case "max":
		v := s.fresh(c.st, c.env, c.defs, aSym, key, res.Type())
		c.env[res] = v
		for _, a := range args {
			if n, err := strconv.Atoi(a.s); a.k == aConst && err == nil && n >= 1 || c.st.truth(ltZero(a)) == 1 {
				c.st.facts[mkAV(aOp, "<", 0, types.Typ[types.Bool], nil, v, mkAV(aConst, "1", 0, nil, nil))] = false
			}
		}
		return []simCont{c}
	case "len":
		v := args[0]
		defer func() {
			if holdsElem(c.st, v) && c.env[res].k != aConst {
				c.st.facts[ltZero(c.env[res])] = true // it holds an element
			}
		}()
		if l, ok := c.st.mem[mkAV(aOp, "lencell", 0, nil, nil, v)]; ok {
			c.env[res] = l
			return []simCont{c}
		}
		if v.k == aNil {
			c.env[res] = mkAV(aConst, "0", 0, res.Type(), nil)
			return []simCont{c}
		}
		if v.k == aConst && strings.HasPrefix(v.s, `"`) {
			if x, err := strconv.Unquote(v.s); err == nil {
				c.env[res] = mkAV(aConst, strconv.Itoa(len(x)), 0, res.Type(), nil)
				return []simCont{c}
			}
		}
		c.env[res] = mkAV(aOp, "len", 0, res.Type(), nil, v)
		return []simCont{c}
	case "append":
		if len(args) == 2 && args[0].k != aNil {
			// appending may put an error into a slice of errors
			if v, ok := c.st.mem[mkAV(aElmAdr, "", 0, nil, nil, args[1])]; ok {
				c.st.mem[mkAV(aElmAdr, "", 0, nil, nil, args[0])] = v
			}
		}
		v := s.fresh(c.st, c.env, c.defs, aSym, key, res.Type())
		a0 := s.get(c.env, res.(*ssa.Call).Call.Args[0])
		a1 := s.get(c.env, res.(*ssa.Call).Call.Args[1])
		for _, a := range []*AV{a0, a1} {
			if x, ok := c.st.mem[mkAV(aElmAdr, "", 0, nil, nil, a)]; ok {
				c.st.mem[mkAV(aElmAdr, "", 0, nil, nil, v)] = x
			}
			for k, x := range c.st.mem {
				if k.k == aFldAdr && k.args[0].k == aElmAdr && k.args[0].args[0] == a && isErrAV(x) {
					c.st.mem[mkAV(aFldAdr, "", k.n, k.typ, nil, mkAV(aElmAdr, "", 0, nil, nil, v))] = x
				}
			}
		}
		c.env[res] = v
		if s.onAppend != nil {
			s.onAppend(c.st, []*AV{a0, a1}, v)
		}
		return []simCont{c}
	}
	c.env[res] = s.fresh(c.st, c.env, c.defs, aSym, key, res.Type())
	return []simCont{c}
}

// RunRoot follows every path of a root function.
func (s *Sim) RunRoot(fn *ssa.Function) []simOut {
	var as []*AV
	st := newSimSt()
	for _, p := range fn.Params {
		as = append(as, mkAV(aParam, p.Name(), 0, p.Type(), nil))
	}
	s.steps = 0
	return s.exec(fn, as, nil, st, "")
}

// renamePrefix turns the symbols made by an earlier execution of a call into summaries.
func (s *Sim) renamePrefix(c *simCont, pre string) {
	vs := map[*AV]bool{}
	add := func(a *AV) {
		for x := range a.syms {
			if x.n == 0 && strings.HasPrefix(x.s, pre) {
				vs[x] = true
			}
		}
	}
	for k, a := range c.st.mem {
		add(k)
		add(a)
	}
	for k := range c.st.facts {
		add(k)
	}
	for k := range c.st.ts {
		add(k)
	}
	for _, a := range c.env {
		add(a)
	}
	for _, d := range c.defs {
		add(d.fnv)
		for _, a := range d.args {
			add(a)
		}
	}
	var l []*AV
	for v := range vs {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, v := range l {
		s.rename(c.st, c.env, c.defs, v, mkAV(v.k, v.s, 1, v.typ, nil))
	}
}
