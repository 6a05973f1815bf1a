package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: memory that two goroutines may access at once, one of them writing, is guarded by a common
// lock or ordered by channels, wait groups or publication.

func init() { checks["C13"] = checkC13 }

type raceAcc struct {
	ins   ssa.Instruction
	fn    *ssa.Function
	addr  ssa.Value
	write bool
	what  string
	atom  bool // sync/atomic
	locs  []ptLoc
}

type raceGo struct {
	site   ssa.Instruction
	fn     *ssa.Function // where it is started
	bodies []*ssa.Function
	region map[*ssa.Function]bool
	joins  []*raceJoin
	multi  bool
	entry  []int // nodes of the values handed over
	conc   map[string]*raceConc
}

// raceJoin is a way for the spawner to learn that a goroutine passed some points.
type raceJoin struct {
	name  string
	rel   []ssa.Instruction // in the goroutine
	ins   map[ssa.Instruction]bool
	edges map[[2]*ssa.BasicBlock]bool
}

type raceConc struct {
	ins map[ssa.Instruction]bool
}

type raceAn struct {
	c       *Check
	p       *Program
	a       *Pts
	callees map[ssa.Instruction][]*ssa.Function
	into    map[*ssa.Function][]ssa.Instruction
	reachM  map[*ssa.Function]map[*ssa.Function]bool
	acc     []*raceAcc
	byFn    map[*ssa.Function][]*raceAcc
	gos     []*raceGo
	goAt    map[ssa.Instruction]*raceGo
	short   map[*ptObj]bool
	bad     map[string]map[string]bool
	joinsM  map[string]map[*ssa.Function]bool
	posM    map[posKey][]ssa.Instruction
	fieldsM map[*ptObj][]int
	pairs   int
	pubM    map[string][]ssa.Instruction
	objsAt  map[int]map[*ptObj]bool
	summ    map[*ssa.Function]*lockSumm
	atoms   int
}

type posKey struct {
	f *ssa.Function
	i ssa.Instruction
}

// unsafe types of libraries that must not be used by two goroutines at once.
func raceUnsafe(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if types.IsInterface(t) {
		return false
	}
	pp := n.Obj().Pkg().Path()
	switch pp {
	case "bufio", "bytes", "strings", "math/rand", "math/rand/v2", "text/tabwriter", "encoding/binary":
		return true
	}
	for _, p := range []string{"archive/", "container/", "compress/", "encoding/", "hash"} {
		if strings.HasPrefix(pp, p) {
			return true
		}
	}
	return false
}

func newRaceAn(c *Check, roots []*ssa.Function, oneObject bool) *raceAn {
	r := &raceAn{c: c, p: c.p, callees: map[ssa.Instruction][]*ssa.Function{}, into: map[*ssa.Function][]ssa.Instruction{},
		reachM: map[*ssa.Function]map[*ssa.Function]bool{}, byFn: map[*ssa.Function][]*raceAcc{}, goAt: map[ssa.Instruction]*raceGo{},
		bad: map[string]map[string]bool{}, joinsM: map[string]map[*ssa.Function]bool{}, posM: map[posKey][]ssa.Instruction{},
		fieldsM: map[*ptObj][]int{}, pubM: map[string][]ssa.Instruction{}, objsAt: map[int]map[*ptObj]bool{}, summ: map[*ssa.Function]*lockSumm{}}
	a := NewPts(c.p)
	r.a = a
	a.follow = func(fn *ssa.Function) bool {
		pk := pkgOfFn(fn)
		if pk == nil {
			return true
		}
		if c.p.inRepo(pk) {
			return !generatedFn(c.p, fn) || strings.HasPrefix(fn.Name(), "Get")
		}
		switch pk.Path() {
		case glPath, "maps", "slices", "cmp", "iter":
			return true
		}
		return false
	}
	a.derive = raceUnsafe
	a.globals = true
	for i, f := range roots {
		var on *ssa.Parameter
		if i > 0 && oneObject {
			on = roots[0].Params[0]
		}
		a.RootOn(f, on)
	}
	return r
}

// prepare indexes the call graph and the accesses.
func (r *raceAn) prepare() {
	a := r.a
	seen := map[string]bool{}
	for _, f := range a.fns {
		for _, e := range a.edges[f] {
			k := siteKey(e.site) + ">" + e.to.String()
			if seen[k] {
				continue
			}
			seen[k] = true
			r.callees[e.site] = append(r.callees[e.site], e.to)
			r.into[e.to] = append(r.into[e.to], e.site)
		}
	}
	add := func(w ptWrite, write bool) {
		if isInitFn(w.fn) {
			return
		}
		if st, ok := w.ins.(*ssa.Store); ok && selfStore(st) {
			return
		}
		x := &raceAcc{ins: w.ins, fn: w.fn, write: write, what: w.kind, locs: a.locs(w)}
		switch i := w.ins.(type) {
		case *ssa.Store:
			x.addr = i.Addr
		case *ssa.UnOp:
			x.addr = i.X
		}
		if len(x.locs) == 0 {
			return
		}
		r.acc = append(r.acc, x)
		r.byFn[w.fn] = append(r.byFn[w.fn], x)
	}
	for _, w := range a.writes {
		if w.kind == "append" {
			// only a slice that ends before its array does is overwritten
			if r.short == nil {
				r.short = a.shortened()
			}
			any := false
			for _, l := range a.locs(w) {
				any = any || r.short[l.o]
			}
			if !any {
				continue
			}
		}
		add(w, true)
	}
	for _, w := range a.reads {
		add(w, false)
	}
	for _, f := range a.fns {
		if pk := pkgOfFn(f); pk != nil && pk.Path() == glPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				r.external(f, ci)
				if _, ok := ci.(*ssa.Go); ok || isWGGo(ci) {
					g := &raceGo{site: ins, fn: f, bodies: r.callees[ins], conc: map[string]*raceConc{}}
					if len(g.bodies) == 0 {
						continue // runs library code
					}
					r.gos = append(r.gos, g)
					r.goAt[ins] = g
				}
			}
		}
	}
	for _, g := range r.gos {
		g.region = map[*ssa.Function]bool{}
		for _, b := range g.bodies {
			for f := range r.reach(b) {
				g.region[f] = true
			}
		}
		cc := g.site.(ssa.CallInstruction).Common()
		val := func(v ssa.Value) {
			for _, lf := range a.leaves(v.Type()) {
				g.entry = append(g.entry, a.node(v, lf.path))
			}
		}
		for _, v := range cc.Args {
			val(v)
		}
		if cc.IsInvoke() {
			val(cc.Value)
		} else if cc.StaticCallee() == nil || len(cc.StaticCallee().FreeVars) > 0 {
			for _, b := range g.bodies {
				for _, v := range b.FreeVars {
					val(v)
				}
			}
		}
	}
	for _, g := range r.gos {
		r.findJoins(g)
	}
	for _, g := range r.gos {
		g.multi = r.concOf(g, g.joins, nil).ins[g.site]
	}
}

// selfStore: a named result returned as it is; no code is made for it.
func selfStore(st *ssa.Store) bool {
	u, ok := st.Val.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.X != st.Addr || u.Block() != st.Block() {
		return false
	}
	on := false
	for _, ins := range st.Block().Instrs {
		if ins == ssa.Instruction(u) {
			on = true
		}
		if ins == ssa.Instruction(st) {
			return on
		}
		if on {
			switch x := ins.(type) {
			case *ssa.Store:
				if x.Addr == st.Addr {
					return false
				}
			case ssa.CallInstruction:
				return false
			}
		}
	}
	return false
}

func isWGGo(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	return f != nil && f.String() == "(*sync.WaitGroup).Go"
}

// external records what a library call does to objects that are not safe for concurrent use.
func (r *raceAn) external(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	name, recv := "", false
	args := cc.Args
	if cc.IsInvoke() {
		name, recv = cc.Method.Name(), true
		args = append([]ssa.Value{cc.Value}, args...)
	} else if s := cc.StaticCallee(); s != nil {
		if r.a.follows(s) {
			return
		}
		name, recv = s.Name(), s.Signature.Recv() != nil
		if s.Pkg != nil && s.Pkg.Pkg.Path() == "sync/atomic" && len(args) > 0 {
			if n, ok := r.a.keys[ptKey{args[0], ""}]; ok {
				r.atoms++
				x := &raceAcc{ins: ci, fn: f, addr: args[0], write: !strings.HasPrefix(name, "Load"), what: "atomic", atom: true, locs: r.a.locs(ptWrite{node: n})}
				if len(x.locs) > 0 {
					r.acc = append(r.acc, x)
					r.byFn[f] = append(r.byFn[f], x)
				}
			}
			return
		}
	} else {
		return
	}
	if strings.HasPrefix(name, "New") {
		return
	}
	ro := false
	switch name {
	case "Bytes", "Len", "String", "Cap", "Available", "Buffered", "Size":
		ro = recv
	}
	for i, v := range args {
		if i > 0 && recv && !types.IsInterface(v.Type()) {
			continue
		}
		var locs []ptLoc
		add := func(l ptLoc) { locs = append(locs, ptLoc{l.o, l.path + ".~"}) }
		n, ok := r.a.keys[ptKey{v, ""}]
		if !ok {
			continue
		}
		if t := pointee(v.Type()); t != nil {
			if raceUnsafe(t) && (recv && i == 0 || strings.Contains(name, "rite") || strings.Contains(name, "ead")) {
				for _, l := range r.a.nodes[n].order {
					add(l)
				}
			}
		} else if types.IsInterface(v.Type()) {
			if !(recv && i == 0) && !isReaderWriter(v.Type()) {
				continue
			}
			for _, l := range r.a.nodes[n].order {
				if l.o.kind == "box" {
					if t := pointee(l.o.typ); t != nil && raceUnsafe(t) {
						for _, m := range r.a.nodes[r.a.node(l.o, "")].order {
							add(m)
						}
					}
				} else if r.a.derived[l] {
					add(l)
				}
			}
		}
		if len(locs) > 0 {
			x := &raceAcc{ins: ci, fn: f, write: !ro, what: "use", locs: locs}
			r.acc = append(r.acc, x)
			r.byFn[f] = append(r.byFn[f], x)
		}
	}
}

func isReaderWriter(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		switch i.Method(k).Name() {
		case "Write", "Read", "WriteByte", "ReadByte":
			return true
		}
	}
	return false
}

func (r *raceAn) reach(f *ssa.Function) map[*ssa.Function]bool {
	if m, ok := r.reachM[f]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if m[g] {
			return
		}
		m[g] = true
		for _, e := range r.a.edges[g] {
			visit(e.to)
		}
	}
	visit(f)
	r.reachM[f] = m
	return m
}

// runs gives the functions an instruction runs before it completes; deferred calls run at the end.
func (r *raceAn) runs(ins ssa.Instruction) []*ssa.Function {
	switch ins.(type) {
	case *ssa.Defer:
		return nil
	case *ssa.RunDefers:
		var fs []*ssa.Function
		for _, b := range ins.Parent().Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Defer); ok {
					fs = append(fs, r.callees[i]...)
				}
			}
		}
		return fs
	}
	return r.callees[ins]
}

// positions are the instructions of f during which i is executed.
func (r *raceAn) positions(f *ssa.Function, i ssa.Instruction) []ssa.Instruction {
	k := posKey{f, i}
	if ps, ok := r.posM[k]; ok {
		return ps
	}
	var ps []ssa.Instruction
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if x == i {
				if _, ok := i.(*ssa.Defer); !ok {
					ps = append(ps, x)
				}
				continue
			}
			hit := false
			for _, g := range r.runs(x) {
				hit = hit || r.reach(g)[i.Parent()]
			}
			if _, ok := x.(*ssa.RunDefers); ok && !hit {
				if d, ok := i.(*ssa.Defer); ok && d.Parent() == f {
					hit = true
				}
			}
			if hit {
				ps = append(ps, x)
			}
		}
	}
	r.posM[k] = ps
	return ps
}

// flow walks forward from an instruction (or the entry of a function) until stopped.
func flow(f *ssa.Function, start ssa.Instruction, stop func(ssa.Instruction) bool, edge func(a, b *ssa.BasicBlock) bool) (map[ssa.Instruction]bool, bool) {
	set := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	exits := false
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			set[ins] = true
			if stop != nil && stop(ins) {
				return
			}
			if _, ok := ins.(*ssa.Return); ok {
				exits = true
			}
		}
		for _, s := range b.Succs {
			if edge != nil && edge(b, s) || seen[s] {
				continue
			}
			seen[s] = true
			walk(s, 0)
		}
	}
	if start == nil {
		if len(f.Blocks) > 0 {
			seen[f.Blocks[0]] = true
			walk(f.Blocks[0], 0)
		}
		return set, exits
	}
	for i, ins := range start.Block().Instrs {
		if ins == start {
			walk(start.Block(), i+1)
		}
	}
	return set, exits
}

// concOf collects the instructions that may run between the start of a goroutine and its join, by
// whoever started it; a new allocation of kill ends the walk.
func (r *raceAn) concOf(g *raceGo, joins []*raceJoin, kill ssa.Instruction) *raceConc {
	key := ""
	for _, j := range joins {
		key += j.name + ";"
	}
	k2 := key
	if kill != nil {
		k2 += "!" + siteKey(kill)
	}
	if c, ok := g.conc[k2]; ok {
		return c
	}
	must := r.mustJoin(siteKey(g.site)+"/"+key, joins)
	killed := map[ssa.Instruction]bool{}
	stop := func(ins ssa.Instruction) bool {
		for _, j := range joins {
			if j.ins[ins] {
				return true
			}
		}
		if ins == kill {
			return true
		}
		fs := r.runs(ins)
		if len(fs) > 0 {
			if _, ok := ins.(*ssa.Go); !ok {
				all := true
				for _, f := range fs {
					all = all && must[f]
				}
				if _, ok := ins.(*ssa.RunDefers); ok {
					all = false
				}
				if all {
					return true
				}
			}
			if kill != nil && ins != g.site {
				for _, f := range fs {
					if r.reach(f)[kill.Parent()] && kill.Parent() != ins.Parent() && !r.reach(f)[g.fn] {
						killed[ins] = true
						return true
					}
				}
			}
		}
		if _, ok := ins.(*ssa.RunDefers); ok {
			for _, f := range fs {
				if must[f] {
					return true
				}
			}
		}
		return false
	}
	edge := func(a, b *ssa.BasicBlock) bool {
		for _, j := range joins {
			if j.edges[[2]*ssa.BasicBlock{a, b}] {
				return true
			}
		}
		return false
	}
	res := &raceConc{ins: map[ssa.Instruction]bool{}}
	entered := map[*ssa.Function]bool{}
	from := map[ssa.Instruction]bool{}
	var enter func(f *ssa.Function)
	take := func(set map[ssa.Instruction]bool) {
		for ins := range set {
			if res.ins[ins] {
				continue
			}
			res.ins[ins] = true
			if ins == g.site {
				continue
			}
			for _, f := range r.runs(ins) {
				enter(f)
			}
		}
	}
	enter = func(f *ssa.Function) {
		if entered[f] {
			return
		}
		entered[f] = true
		set, _ := flow(f, nil, stop, edge)
		take(set)
	}
	var after func(ins ssa.Instruction)
	after = func(ins ssa.Instruction) {
		if from[ins] {
			return
		}
		from[ins] = true
		f := ins.Parent()
		set, exits := flow(f, ins, stop, edge)
		take(set)
		if exits {
			for _, s := range r.into[f] {
				for _, q := range r.sitePos(s) {
					after(q)
				}
			}
		}
	}
	after(g.site)
	g.conc[k2] = res
	return res
}

// sitePos is where the function called at a site returns to.
func (r *raceAn) sitePos(s ssa.Instruction) []ssa.Instruction {
	if _, ok := s.(*ssa.Defer); !ok {
		return []ssa.Instruction{s}
	}
	var ps []ssa.Instruction
	for _, b := range s.Parent().Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.RunDefers); ok {
				ps = append(ps, i)
			}
		}
	}
	return ps
}

// mustJoin are the functions that never return without passing a join.
func (r *raceAn) mustJoin(key string, joins []*raceJoin) map[*ssa.Function]bool {
	if m, ok := r.joinsM[key]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	r.joinsM[key] = m
	if len(joins) == 0 {
		return m
	}
	for changed := true; changed; {
		changed = false
		for _, f := range r.a.fns {
			if m[f] || len(f.Blocks) == 0 {
				continue
			}
			_, exits := flow(f, nil, func(ins ssa.Instruction) bool {
				for _, j := range joins {
					if j.ins[ins] {
						return true
					}
				}
				if _, ok := ins.(*ssa.Go); ok {
					return false
				}
				fs := r.runs(ins)
				if _, ok := ins.(*ssa.RunDefers); ok {
					return false
				}
				for _, f := range fs {
					if !m[f] {
						return false
					}
				}
				return len(fs) > 0
			}, func(a, b *ssa.BasicBlock) bool {
				for _, j := range joins {
					if j.edges[[2]*ssa.BasicBlock{a, b}] {
						return true
					}
				}
				return false
			})
			if !exits && r.returns(f) {
				m[f] = true
				changed = true
			}
		}
	}
	return m
}

func (r *raceAn) returns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// locOf is the one place an address may be.
func (r *raceAn) locOf(v ssa.Value) string {
	n, ok := r.a.keys[ptKey{v, ""}]
	if !ok {
		if g, ok := v.(*ssa.Global); ok {
			return strconv.Itoa(r.a.global(g).id) + "@"
		}
		return ""
	}
	var s []string
	for _, l := range r.a.nodes[n].order {
		if l.o.kind == "box" {
			for _, m := range r.a.nodes[r.a.node(l.o, "")].order {
				s = append(s, strconv.Itoa(m.o.id)+"@"+m.path)
			}
			continue
		}
		s = append(s, strconv.Itoa(l.o.id)+"@"+l.path)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func syncCall(ins ssa.Instruction) (string, ssa.Value) {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		if cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "sync" {
			return "Mutex." + cc.Method.Name(), cc.Value
		}
		return "", nil
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || f.Signature.Recv() == nil || len(cc.Args) == 0 {
		return "", nil
	}
	t := pointee(f.Signature.Recv().Type())
	n, ok := t.(*types.Named)
	if !ok {
		return "", nil
	}
	return n.Obj().Name() + "." + f.Name(), cc.Args[0]
}

// findJoins lists the ways in which the end of a goroutine is noticed.
func (r *raceAn) findJoins(g *raceGo) {
	if isWGGo(g.site.(ssa.CallInstruction)) {
		_, wg := syncCall(g.site)
		j := &raceJoin{name: "wg.Go", ins: map[ssa.Instruction]bool{}}
		r.eachIns(func(f *ssa.Function, ins ssa.Instruction) {
			if n, v := syncCall(ins); n == "WaitGroup.Wait" && r.sameLoc(v, wg) && !g.region[f] {
				for _, q := range r.sitePos(ins) {
					j.ins[q] = true
				}
			}
		})
		g.joins = append(g.joins, j)
	}
	// wait groups
	done := map[string][]ssa.Instruction{}
	var order []string
	for f := range g.region {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if n, v := syncCall(ins); n == "WaitGroup.Done" {
					k := r.locOf(v)
					if len(done[k]) == 0 {
						order = append(order, k)
					}
					done[k] = append(done[k], ins)
				}
			}
		}
	}
	sort.Strings(order)
	for _, k := range order {
		j := &raceJoin{name: "wg" + k, ins: map[ssa.Instruction]bool{}, rel: done[k]}
		added, inside := false, false
		r.eachIns(func(f *ssa.Function, ins ssa.Instruction) {
			n, v := syncCall(ins)
			if v == nil || r.locOf(v) != k {
				return
			}
			switch n {
			case "WaitGroup.Wait":
				if g.region[f] {
					return
				}
				for _, q := range r.sitePos(ins) {
					j.ins[q] = true
				}
			case "WaitGroup.Add":
				if g.region[f] {
					inside = true
					return
				}
				if f != g.fn || r.allPass(g.site, ins) {
					added = true
				}
			}
		})
		if added && !inside && k != "" && len(j.ins) > 0 {
			g.joins = append(g.joins, j)
		}
	}
	// channels
	type chUse struct{ closes, sends []ssa.Instruction }
	used := map[string]*chUse{}
	out := map[string]bool{} // also sent to or closed elsewhere
	r.eachIns(func(f *ssa.Function, ins ssa.Instruction) {
		var ch ssa.Value
		cl := false
		switch x := ins.(type) {
		case *ssa.Send:
			ch = x.Chan
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				ch, cl = x.Common().Args[0], true
			}
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly {
					out[r.locOf(st.Chan)] = true
				}
			}
		}
		if ch == nil {
			return
		}
		k := r.locOf(ch)
		if !g.region[f] {
			out[k] = true
			return
		}
		u := used[k]
		if u == nil {
			u = &chUse{}
			used[k] = u
		}
		if cl {
			u.closes = append(u.closes, ins)
		} else {
			u.sends = append(u.sends, ins)
		}
	})
	var ks []string
	for k := range used {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	multi := r.concOf(g, nil, nil).ins[g.site]
	for _, k := range ks {
		u := used[k]
		if out[k] || k == "" || strings.Contains(k, ",") {
			continue
		}
		switch {
		case len(u.closes) > 0 && !multi:
			j := &raceJoin{name: "close" + k, rel: u.closes, ins: map[ssa.Instruction]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}}
			r.eachIns(func(f *ssa.Function, ins ssa.Instruction) {
				x, ok := ins.(*ssa.UnOp)
				if !ok || x.Op != token.ARROW || g.region[f] || r.locOf(x.X) != k {
					return
				}
				if len(u.sends) == 0 {
					j.ins[ins] = true
				}
				if !x.CommaOk {
					return
				}
				for _, e := range *x.Referrers() {
					ex, ok := e.(*ssa.Extract)
					if !ok || ex.Index != 1 {
						continue
					}
					for _, q := range *ex.Referrers() {
						if i, ok := q.(*ssa.If); ok {
							j.edges[[2]*ssa.BasicBlock{i.Block(), i.Block().Succs[1]}] = true
						}
						if n, ok := q.(*ssa.UnOp); ok && n.Op == token.NOT {
							for _, q := range *n.Referrers() {
								if i, ok := q.(*ssa.If); ok {
									j.edges[[2]*ssa.BasicBlock{i.Block(), i.Block().Succs[0]}] = true
								}
							}
						}
					}
				}
			})
			g.joins = append(g.joins, j)
		case len(u.closes) == 0:
			j := &raceJoin{name: "send" + k, rel: u.sends, ins: map[ssa.Instruction]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}}
			once := len(u.sends) >= 1
			for _, s := range u.sends {
				once = once && !inLoop(s)
				for _, t := range u.sends {
					if s != t && r.mayFollow(g.region, []ssa.Instruction{s}, t, nil) {
						once = false
					}
				}
			}
			if !once {
				continue
			}
			r.eachIns(func(f *ssa.Function, ins ssa.Instruction) {
				x, ok := ins.(*ssa.UnOp)
				if !ok || x.Op != token.ARROW || g.region[f] || r.locOf(x.X) != k {
					return
				}
				if !multi {
					j.ins[ins] = true
					return
				}
				// as many receives as goroutines
				gb := r.countOf(g.site)
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						ph, ok := i.(*ssa.Phi)
						if !ok || !naturalLoop(b)[ins.Block()] || len(naturalLoop(b)) < 2 {
							continue
						}
						l := countedBy(ph)
						if l == nil || gb == nil || l.bound == nil || l.first != gb.first || !sameAddr(l.bound, gb.bound) && !sameLen(l.bound, gb.bound) || !r.everyTurn(b, ins.Block()) {
							continue
						}
						lp := naturalLoop(b)
						for q := range lp {
							for _, s := range q.Succs {
								if !lp[s] && q == b {
									j.edges[[2]*ssa.BasicBlock{q, s}] = true
								}
							}
						}
					}
				}
			})
			g.joins = append(g.joins, j)
		}
	}
}

// everyTurn says whether each turn of a loop passes a block.
func (r *raceAn) everyTurn(h, b *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) && !b.Dominates(p) {
			return false
		}
	}
	return true
}

func sameLen(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok || !ok2 {
		return false
	}
	p, ok := x.Call.Value.(*ssa.Builtin)
	q, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok && ok2 && p.Name() == "len" && q.Name() == "len" && sameAddr(x.Call.Args[0], y.Call.Args[0])
}

// countOf is the counted loop in which a goroutine is started on every turn.
func (r *raceAn) countOf(s ssa.Instruction) *countedLoop {
	for _, b := range s.Parent().Blocks {
		lp := naturalLoop(b)
		if len(lp) < 2 || !lp[s.Block()] {
			continue
		}
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				if l := countedBy(ph); l != nil && l.bound != nil {
					return l
				}
			}
		}
	}
	return nil
}

func (r *raceAn) sameLoc(a, b ssa.Value) bool {
	x := r.locOf(a)
	return x != "" && x == r.locOf(b)
}

func (r *raceAn) eachIns(do func(f *ssa.Function, ins ssa.Instruction)) {
	for _, f := range r.a.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				do(f, ins)
			}
		}
	}
}

// allPass: every path to site passes ins before.
func (r *raceAn) allPass(site, ins ssa.Instruction) bool {
	set, _ := flow(site.Parent(), nil, func(i ssa.Instruction) bool { return i == ins }, nil)
	return !set[site]
}

// mayFollow says whether, in code of the region, x may run after one of the instructions ps without
// passing kill in between.
func (r *raceAn) mayFollow(region map[*ssa.Function]bool, ps []ssa.Instruction, x ssa.Instruction, kill ssa.Instruction) bool {
	for _, p := range ps {
		for f := range region {
			pp := r.positions(f, p)
			if len(pp) == 0 {
				continue
			}
			xp := r.positions(f, x)
			if len(xp) == 0 {
				continue
			}
			at := map[ssa.Instruction]bool{}
			for _, i := range xp {
				at[i] = true
			}
			kp := map[ssa.Instruction]bool{}
			if kill != nil {
				for _, i := range r.positions(f, kill) {
					kp[i] = true
				}
			}
			for _, i := range pp {
				hit := false
				set, _ := flow(f, i, func(q ssa.Instruction) bool { return kp[q] }, nil)
				for q := range set {
					if at[q] && !kp[q] {
						if q == i {
							if _, ok := q.(*ssa.RunDefers); ok {
								continue
							}
						}
						hit = true
					}
				}
				if !hit {
					if rd, ok := i.(*ssa.RunDefers); ok && at[i] && p != x {
						hit = r.deferOrder(rd, p, x)
					}
				}
				if hit {
					return true
				}
			}
		}
	}
	return false
}

// deferOrder: among deferred calls, whether x may run after p (last deferred runs first).
func (r *raceAn) deferOrder(rd *ssa.RunDefers, p, x ssa.Instruction) bool {
	in := func(d ssa.Instruction, i ssa.Instruction) bool {
		if d == i {
			return true
		}
		for _, f := range r.callees[d] {
			if r.reach(f)[i.Parent()] {
				return true
			}
		}
		return false
	}
	for _, b := range rd.Parent().Blocks {
		for _, d := range b.Instrs {
			if _, ok := d.(*ssa.Defer); !ok || !in(d, p) {
				continue
			}
			for _, b2 := range rd.Parent().Blocks {
				for _, e := range b2.Instrs {
					if _, ok := e.(*ssa.Defer); ok && e != d && in(e, x) && reachesInstr(e, d) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- objects shared

// holds lists the objects stored in an object.
func (r *raceAn) holds(o *ptObj) []*ptObj {
	if len(r.fieldsM) == 0 {
		for k, n := range r.a.keys {
			if x, ok := k.v.(*ptObj); ok {
				r.fieldsM[x] = append(r.fieldsM[x], n)
			}
		}
		r.fieldsM[nil] = nil
	}
	var os []*ptObj
	for _, n := range r.fieldsM[o] {
		for _, l := range r.a.nodes[n].order {
			os = append(os, l.o)
		}
	}
	if o.kind == "fn" && o.fn != nil {
		for _, v := range o.fn.FreeVars {
			for _, lf := range r.a.leaves(v.Type()) {
				if n, ok := r.a.keys[ptKey{v, lf.path}]; ok {
					for _, l := range r.a.nodes[n].order {
						os = append(os, l.o)
					}
				}
			}
		}
	}
	return os
}

// shared collects the objects reachable from values, but for those made anew for each goroutine.
func (r *raceAn) shared(nodes []int, own func(*ptObj) bool) map[*ptObj]bool {
	res := map[*ptObj]bool{}
	private := map[*ptObj]bool{}
	var visit func(o *ptObj, via bool)
	visit = func(o *ptObj, via bool) {
		if res[o] || !via && private[o] {
			return
		}
		if !via && own != nil && own(o) {
			private[o] = true
			for _, q := range r.holds(o) {
				visit(q, false)
			}
			return
		}
		res[o] = true
		for _, q := range r.holds(o) {
			visit(q, true)
		}
	}
	for _, n := range nodes {
		for _, l := range r.a.nodes[n].order {
			visit(l.o, false)
		}
	}
	for _, o := range r.a.objs {
		if o.kind == "global" {
			visit(o, true)
		}
	}
	return res
}

// fresh: an object is made by the code of the region, and only by it.
func (r *raceAn) fresh(o *ptObj, in func(ssa.Instruction) bool, only map[*ssa.Function]bool) bool {
	return o.site != nil && o.kind != "global" && in(o.site)
}

// publishes lists where an object made in the code of a region becomes known outside, or is obtained
// from outside.
func (r *raceAn) publishes(o *ptObj, key string, in func(ssa.Instruction) bool, region map[*ssa.Function]bool, sh map[*ptObj]bool) []ssa.Instruction {
	k := key + "#" + strconv.Itoa(o.id)
	if p, ok := r.pubM[k]; ok {
		return p
	}
	leads := func(v ssa.Value) bool {
		for _, lf := range r.a.leaves(v.Type()) {
			n, ok := r.a.keys[ptKey{v, lf.path}]
			if !ok {
				continue
			}
			if r.leadsTo(n)[o] {
				return true
			}
		}
		return false
	}
	outside := func(addr ssa.Value) bool {
		n, ok := r.a.keys[ptKey{addr, ""}]
		if !ok {
			_, g := addr.(*ssa.Global)
			return g
		}
		for _, l := range r.a.nodes[n].order {
			if sh[l.o] && !(l.o.site != nil && l.o.kind != "global" && in(l.o.site)) {
				return true
			}
		}
		return false
	}
	var ps []ssa.Instruction
	for f := range region {
		if pk := pkgOfFn(f); pk != nil && pk.Path() == glPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if !in(ins) {
					continue
				}
				hit := false
				switch x := ins.(type) {
				case *ssa.Send:
					hit = leads(x.X)
				case *ssa.Store:
					hit = leads(x.Val) && outside(x.Addr)
				case *ssa.MapUpdate:
					hit = (leads(x.Key) || leads(x.Value)) && outside(x.Map)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						hit = leads(x) && outside(x.X)
					} else if x.Op == token.ARROW {
						hit = leads(x)
					}
				case *ssa.Lookup:
					hit = leads(x) && outside(x.X)
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok {
						hit = leads(x) && outside(rg.X)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") {
						for _, v := range x.Call.Args {
							hit = hit || leads(v)
						}
						hit = hit && outside(x.Call.Args[0])
					}
				}
				if hit {
					ps = append(ps, ins)
				}
			}
		}
	}
	r.pubM[k] = ps
	return ps
}

func (r *raceAn) leadsTo(n int) map[*ptObj]bool {
	if m, ok := r.objsAt[n]; ok {
		return m
	}
	m := map[*ptObj]bool{}
	var visit func(o *ptObj)
	visit = func(o *ptObj) {
		if m[o] {
			return
		}
		m[o] = true
		for _, q := range r.holds(o) {
			visit(q)
		}
	}
	for _, l := range r.a.nodes[n].order {
		visit(l.o)
	}
	r.objsAt[n] = m
	return m
}

// ---------------------------------------------------------------- locks

type lockSet map[string]bool // place#mode

func (s lockSet) clone() lockSet {
	c := lockSet{}
	for k := range s {
		c[k] = true
	}
	return c
}

type lockSumm struct {
	gen, kill lockSet
	busy      bool
}

type lockView struct {
	r      *raceAn
	region map[*ssa.Function]bool // nil: everything
	roots  map[*ssa.Function]bool
	hand   bool // goroutines inherit what their starter holds until they are joined
	entry  map[*ssa.Function]lockSet
	at     map[ssa.Instruction]lockSet
}

func lockName(r *raceAn, v ssa.Value) string {
	k := r.locOf(v)
	if strings.Contains(k, ",") {
		k += "%" + strconv.Itoa(int(rootOf(v).Pos()))
	}
	return k
}

// rootOf is the variable or parameter an address is computed from.
func rootOf(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// step applies an instruction to the set of locks held.
func (r *raceAn) lockStep(s lockSet, ins ssa.Instruction) lockSet {
	switch ins.(type) {
	case *ssa.Go, *ssa.Defer:
		return s
	case *ssa.RunDefers:
		s = s.clone()
		for _, b := range ins.Parent().Blocks {
			for _, i := range b.Instrs {
				if d, ok := i.(*ssa.Defer); ok {
					s = r.lockOp(s, d)
					s = r.lockCalls(s, d)
				}
			}
		}
		return s
	}
	if _, ok := ins.(ssa.CallInstruction); !ok {
		return s
	}
	s = r.lockOp(s, ins)
	return r.lockCalls(s, ins)
}

func (r *raceAn) lockOp(s lockSet, ins ssa.Instruction) lockSet {
	n, v := syncCall(ins)
	if v == nil {
		return s
	}
	k := lockName(r, v)
	if k == "" {
		return s
	}
	switch n {
	case "Mutex.Lock", "RWMutex.Lock":
		s = s.clone()
		s[k+"#w"] = true
	case "RWMutex.RLock":
		s = s.clone()
		s[k+"#r"] = true
	case "Mutex.Unlock", "RWMutex.Unlock", "RWMutex.RUnlock":
		s = s.clone()
		l := r.locOf(v)
		for q := range s {
			if q == k+"#w" || q == k+"#r" || overlapLocs(l, q) {
				delete(s, q)
			}
		}
	case "Once.Do":
		s = s.clone()
		s["once:"+k+"#r"] = true
	}
	return s
}

func overlapLocs(l, q string) bool {
	q = strings.SplitN(strings.SplitN(q, "#", 2)[0], "%", 2)[0]
	for _, a := range strings.Split(l, ",") {
		for _, b := range strings.Split(q, ",") {
			if a == b {
				return true
			}
		}
	}
	return false
}

func (r *raceAn) lockCalls(s lockSet, ins ssa.Instruction) lockSet {
	fs := r.callees[ins]
	if len(fs) == 0 {
		return s
	}
	var gen lockSet
	s = s.clone()
	for _, f := range fs {
		m := r.lockSummary(f)
		for k := range m.kill {
			for q := range s {
				if overlapLocs(k, q) && !strings.HasPrefix(q, "once:") {
					delete(s, q)
				}
			}
		}
		if gen == nil {
			gen = m.gen.clone()
		} else {
			for k := range gen {
				if !m.gen[k] {
					delete(gen, k)
				}
			}
		}
	}
	for k := range gen {
		s[k] = true
	}
	return s
}

func (r *raceAn) lockSummary(f *ssa.Function) *lockSumm {
	if m, ok := r.summ[f]; ok {
		return m
	}
	m := &lockSumm{gen: lockSet{}, kill: lockSet{}}
	r.summ[f] = m
	if pk := pkgOfFn(f); pk != nil && pk.Path() == glPath {
		return m
	}
	if len(f.Blocks) == 0 {
		return m
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if n, v := syncCall(ins); strings.HasSuffix(n, "Unlock") {
				m.kill[r.locOf(v)] = true
			}
			if _, ok := ins.(*ssa.Go); ok {
				continue
			}
			for _, g := range r.callees[ins] {
				for k := range r.lockSummary(g).kill {
					m.kill[k] = true
				}
			}
		}
	}
	outs := r.lockFlow(f, lockSet{}, nil)
	for i, o := range outs {
		if i == 0 {
			m.gen = o.clone()
			continue
		}
		for k := range m.gen {
			if !o[k] {
				delete(m.gen, k)
			}
		}
	}
	return m
}

// lockFlow runs the analysis of held locks through a function; the result is what is held at its returns.
func (r *raceAn) lockFlow(f *ssa.Function, entry lockSet, at map[ssa.Instruction]lockSet) []lockSet {
	in := map[*ssa.BasicBlock]lockSet{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	out := func(b *ssa.BasicBlock, rec bool) lockSet {
		s := in[b]
		for _, ins := range b.Instrs {
			if rec && at != nil {
				at[ins] = s
			}
			s = r.lockStep(s, ins)
		}
		return s
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		o := out(b, false)
		for _, s := range b.Succs {
			cur, ok := in[s]
			if !ok {
				in[s] = o
				work = append(work, s)
				continue
			}
			n := lockSet{}
			for k := range cur {
				if o[k] {
					n[k] = true
				}
			}
			if len(n) != len(cur) {
				in[s] = n
				work = append(work, s)
			}
		}
	}
	var res []lockSet
	for _, b := range f.Blocks {
		if _, ok := in[b]; !ok {
			continue
		}
		o := out(b, true)
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			res = append(res, o)
		}
	}
	return res
}

func (r *raceAn) lockView(roots []*ssa.Function, region map[*ssa.Function]bool, hand bool) *lockView {
	v := &lockView{r: r, region: region, hand: hand, entry: map[*ssa.Function]lockSet{}, at: map[ssa.Instruction]lockSet{}}
	var work []*ssa.Function
	meet := func(f *ssa.Function, s lockSet) {
		if len(f.Blocks) == 0 {
			return
		}
		cur, ok := v.entry[f]
		if !ok {
			v.entry[f] = s.clone()
			work = append(work, f)
			return
		}
		ch := false
		for k := range cur {
			if !s[k] {
				delete(cur, k)
				ch = true
			}
		}
		if ch {
			work = append(work, f)
		}
	}
	for _, f := range roots {
		meet(f, lockSet{})
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if pk := pkgOfFn(f); pk != nil && pk.Path() == glPath {
			// no locks of ours
			for _, e := range r.a.edges[f] {
				meet(e.to, v.entry[f])
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					v.at[ins] = v.entry[f]
				}
			}
			continue
		}
		r.lockFlow(f, v.entry[f].clone(), v.at)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fs := r.callees[ins]
				if len(fs) == 0 {
					continue
				}
				s := v.at[ins]
				if s == nil {
					continue
				}
				if g := r.goAt[ins]; g != nil {
					in := lockSet{}
					if v.hand {
						in = r.handed(g, s)
					}
					s = in
				} else if _, ok := ins.(*ssa.Defer); ok {
					// run at the end
					var m lockSet
					for _, q := range r.sitePos(ins) {
						h := v.at[q]
						if h == nil {
							continue
						}
						if m == nil {
							m = h.clone()
						}
						for k := range m {
							if !h[k] {
								delete(m, k)
							}
						}
					}
					// those deferred before it are still to come: their unlocks have not happened
					s = m
				}
				if n, w := syncCall(ins); n == "Once.Do" {
					s = s.clone()
					s["once:"+lockName(r, w)+"#w"] = true
				}
				for _, g := range fs {
					meet(g, s)
				}
			}
		}
	}
	return v
}

// handed are the locks a starter keeps until the goroutine is joined.
func (r *raceAn) handed(g *raceGo, s lockSet) lockSet {
	res := lockSet{}
	for k := range s {
		kept := len(g.joins) > 0
		c := r.concOf(g, g.joins, nil)
		for ins := range c.ins {
			if g.region[ins.Parent()] && ins.Parent() != g.fn {
				continue
			}
			n, v := syncCall(ins)
			if _, ok := ins.(*ssa.Defer); ok {
				continue
			}
			if strings.HasSuffix(n, "Unlock") && overlapLocs(r.locOf(v), k) {
				kept = false
			}
			if _, ok := ins.(*ssa.RunDefers); ok {
				for _, b := range ins.Parent().Blocks {
					for _, i := range b.Instrs {
						if _, ok := i.(*ssa.Defer); ok {
							if n, v := syncCall(i); strings.HasSuffix(n, "Unlock") && overlapLocs(r.locOf(v), k) {
								kept = false
							}
						}
					}
				}
			}
		}
		if kept {
			res[k] = true
		}
	}
	return res
}

// guarded: a lock common to both accesses, of an object that is not made anew by each goroutine.
func (r *raceAn) guarded(x, y *raceAcc, sx, sy lockSet, private func(o *ptObj) bool) bool {
	if x.atom && y.atom {
		return true
	}
	for k := range sx {
		i := strings.LastIndex(k, "#")
		name, mode := k[:i], k[i+1:]
		for _, m := range []string{"w", "r"} {
			if !sy[name+"#"+m] || m == "r" && mode == "r" {
				continue
			}
			ids := strings.SplitN(strings.TrimPrefix(name, "once:"), "%", 2)[0]
			ok := true
			for _, l := range strings.Split(ids, ",") {
				id, _ := strconv.Atoi(strings.SplitN(l, "@", 2)[0])
				if private != nil && private(r.a.objs[id]) {
					ok = false
				}
			}
			if strings.Contains(ids, ",") && len(x.locs)+len(y.locs) > 0 {
				// the lock must belong to the object accessed
				if x.addr == nil || y.addr == nil {
					ok = ok && strings.Contains(name, "%")
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- disjoint indices

// distinct: the value differs between the goroutines started at a site.
func (r *raceAn) distinct(g *raceGo, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return intType(x.X.Type()) && intType(x.Type()) && r.distinct(g, x.X, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if _, ok := intConst(x.Y); ok {
				return r.distinct(g, x.X, depth+1)
			}
			if _, ok := intConst(x.X); ok && x.Op == token.ADD {
				return r.distinct(g, x.Y, depth+1)
			}
		}
		return false
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		body := false
		for _, b := range g.bodies {
			body = body || b == f
		}
		if body {
			as := g.site.(ssa.CallInstruction).Common().Args
			return idx < len(as) && len(g.bodies) == 1 && r.turns(g, as[idx], depth+1)
		}
		if !g.region[f] {
			return false
		}
		n := 0
		ok := true
		for _, s := range r.into[f] {
			ci, is := s.(ssa.CallInstruction)
			if !is || !g.region[s.Parent()] {
				continue
			}
			n++
			as := ci.Common().Args
			if ci.Common().IsInvoke() {
				as = append([]ssa.Value{ci.Common().Value}, as...)
			}
			ok = ok && idx < len(as) && len(as) == len(f.Params) && !inLoop(s) && r.distinct(g, as[idx], depth+1)
		}
		return ok && n == 1
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			switch c := x.X.(type) {
			case *ssa.FreeVar:
				return r.distinctCell(g, c, depth+1)
			case *ssa.Alloc: // a variable of the goroutine itself
				return r.distinctCell(g, c, depth+1)
			}
		case token.ARROW:
			return r.sentOnce(x.X)
		}
	case *ssa.Extract:
		if u, ok := x.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && x.Index == 0 {
			return r.sentOnce(u.X)
		}
	case *ssa.Call: // atomic counter
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(f.Name(), "Add") {
			return true
		}
	}
	return false
}

// distinctCell: the variable holds a value that differs between the goroutines.
func (r *raceAn) distinctCell(g *raceGo, cell ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch c := cell.(type) {
	case *ssa.FreeVar:
		b := bindingOf(c)
		if b == nil || writesFree(c.Parent(), c) {
			return false
		}
		for _, body := range g.bodies {
			if body == c.Parent() {
				return r.cellTurns(g, b, c, depth+1)
			}
		}
		if g.region[c.Parent().Parent()] {
			return r.distinctCell(g, b, depth+1)
		}
		return r.cellTurns(g, b, c, depth+1)
	case *ssa.Alloc:
		if !g.region[c.Parent()] {
			return false
		}
		var st *ssa.Store
		n := 0
		for _, q := range *c.Referrers() {
			switch s := q.(type) {
			case *ssa.Store:
				if s.Addr != ssa.Value(c) {
					return false
				}
				st = s
				n++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := s.Fn.(*ssa.Function)
				for i, v := range f.FreeVars {
					if s.Bindings[i] == ssa.Value(c) && writesFree(f, v) {
						return false
					}
				}
			default:
				return false
			}
		}
		return n == 1 && r.distinct(g, st.Val, depth+1)
	}
	return false
}

func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	var r ssa.Value
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				for i, v := range f.FreeVars {
					if v == fv {
						r = mc.Bindings[i]
						n++
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return r
}

// turns: a value differs between the turns of the loop that starts the goroutines.
func (r *raceAn) turns(g *raceGo, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return r.inductive(g, x)
	case *ssa.Convert:
		return intType(x.X.Type()) && r.turns(g, x.X, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if _, ok := intConst(x.Y); ok {
				return r.turns(g, x.X, depth+1)
			}
			if _, ok := intConst(x.X); ok {
				return r.turns(g, x.Y, depth+1)
			}
		}
	case *ssa.Extract: // key of a map, index of an iterator
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 && !n.IsString {
			return r.sameTurns(g, n.Block())
		}
	case *ssa.IndexAddr:
		return r.turns(g, x.Index, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.Alloc, *ssa.Phi:
				return r.cellTurns(g, x.X, nil, depth+1)
			case *ssa.FreeVar:
				if b := bindingOf(x.X.(*ssa.FreeVar)); b != nil {
					return r.cellTurns(g, b, nil, depth+1)
				}
			}
		}
	}
	return false
}

// sameTurns: the loop at the header is the only one that repeats the start of the goroutine.
func (r *raceAn) sameTurns(g *raceGo, h *ssa.BasicBlock) bool {
	lp := naturalLoop(h)
	if len(lp) < 2 || !lp[g.site.Block()] {
		return false
	}
	for _, b := range g.fn.Blocks {
		if b == h {
			continue
		}
		l := naturalLoop(b)
		if l[g.site.Block()] {
			back := false
			for _, p := range b.Preds {
				back = back || b.Dominates(p)
			}
			if back {
				return false
			}
		}
	}
	return true
}

func (r *raceAn) inductive(g *raceGo, ph *ssa.Phi) bool {
	if !r.sameTurns(g, ph.Block()) {
		return false
	}
	h := ph.Block()
	for j, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		b, ok := ph.Edges[j].(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		n, ok := intConst(b.Y)
		if !ok || n == 0 || b.X != ssa.Value(ph) {
			if n, ok = intConst(b.X); !ok || n == 0 || b.Op != token.ADD || b.Y != ssa.Value(ph) {
				return false
			}
		}
	}
	return true
}

// cellTurns: a captured variable is made anew on each turn and holds a value of that turn.
func (r *raceAn) cellTurns(g *raceGo, b ssa.Value, fv *ssa.FreeVar, depth int) bool {
	if fv != nil && writesFree(fv.Parent(), fv) {
		return false
	}
	switch x := b.(type) {
	case *ssa.Alloc:
		var st []*ssa.Store
		for _, q := range *x.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
				st = append(st, s)
			}
		}
		if len(st) == 1 {
			return r.concOf(g, nil, x).ins[g.site] == false && r.turns(g, st[0].Val, depth+1)
		}
		// the variable of a counting loop, copied on each turn
		for _, q := range *x.Referrers() {
			if ph, ok := q.(*ssa.Phi); ok {
				if l := countedBy(ph); l != nil && l.cell && r.sameTurns(g, ph.Block()) {
					return true
				}
			}
		}
	case *ssa.Phi:
		l := countedBy(x)
		return l != nil && l.cell && r.sameTurns(g, x.Block())
	case *ssa.FreeVar:
		if q := bindingOf(x); q != nil && !writesFree(x.Parent(), x) {
			return r.cellTurns(g, q, nil, depth+1)
		}
	}
	return false
}

// sentOnce: every value received from a channel is a different one.
func (r *raceAn) sentOnce(ch ssa.Value) bool {
	k := r.locOf(ch)
	if k == "" || strings.Contains(k, ",") {
		return false
	}
	var sends []*ssa.Send
	r.eachIns(func(f *ssa.Function, ins ssa.Instruction) {
		if s, ok := ins.(*ssa.Send); ok && r.locOf(s.Chan) == k {
			sends = append(sends, s)
		}
	})
	if len(sends) != 1 {
		return false
	}
	s := sends[0]
	for _, g := range r.gos {
		if g.multi && g.region[s.Parent()] {
			return false
		}
	}
	pseudo := &raceGo{site: s, fn: s.Parent(), conc: map[string]*raceConc{}}
	return r.turns(pseudo, s.X, 0)
}

// disjoint: both accesses go through an index of their own.
func (r *raceAn) disjoint(g *raceGo, x, y *raceAcc) bool {
	return x.addr != nil && y.addr != nil && r.ownPart(g, x.addr, 0) && r.ownPart(g, y.addr, 0)
}

func (r *raceAn) ownPart(g *raceGo, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return r.ownPart(g, x.X, depth+1)
	case *ssa.IndexAddr:
		return r.distinct(g, x.Index, 0) || r.ownPart(g, x.X, depth+1)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		for _, b := range g.bodies {
			if b == f && len(g.bodies) == 1 {
				as := g.site.(ssa.CallInstruction).Common().Args
				if idx < len(as) {
					if ia, ok := as[idx].(*ssa.IndexAddr); ok {
						return r.turns(g, ia.Index, 0)
					}
				}
				return false
			}
		}
		n, ok := 0, true
		for _, s := range r.into[f] {
			ci, is := s.(ssa.CallInstruction)
			if !is || !g.region[s.Parent()] {
				continue
			}
			n++
			as := ci.Common().Args
			ok = ok && len(as) == len(f.Params) && r.ownPart(g, as[idx], depth+1)
		}
		return ok && n > 0
	case *ssa.UnOp:
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			b := bindingOf(fv)
			if al, ok := b.(*ssa.Alloc); ok && !writesFree(fv.Parent(), fv) {
				var st []*ssa.Store
				for _, q := range *al.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == b {
						st = append(st, s)
					}
				}
				if len(st) == 1 && !r.concOf(g, nil, al).ins[g.site] {
					if ia, ok := st[0].Val.(*ssa.IndexAddr); ok {
						return r.turns(g, ia.Index, 0)
					}
				}
			}
		}
	case *ssa.FreeVar:
		if ia, ok := bindingOf(x).(*ssa.IndexAddr); ok {
			return r.turns(g, ia.Index, 0)
		}
	}
	return false
}

// ---------------------------------------------------------------- pairs

func overlapLoc(x, y *raceAcc) []ptLoc {
	var r []ptLoc
	for _, l := range x.locs {
		for _, m := range y.locs {
			if l.o != m.o {
				continue
			}
			if l.path == m.path || strings.HasPrefix(l.path, m.path+".") || strings.HasPrefix(m.path, l.path+".") {
				r = append(r, l)
			}
		}
	}
	return r
}

func (r *raceAn) report(key string, x, y *raceAcc, l ptLoc) {
	if r.bad[key] == nil {
		r.bad[key] = map[string]bool{}
	}
	d := func(a *raceAcc) string {
		k := "reads"
		if a.write {
			k = "writes"
		}
		return fmt.Sprintf("%s %s at %s", r.p.fnName(a.fn), k, r.p.posStr(a.ins.Pos()))
	}
	a, b := d(x), d(y)
	if b < a {
		a, b = b, a
	}
	if os.Getenv("RACE_DEBUG") != "" {
		fmt.Println("RACE", r.a.fns[len(r.a.fns)-1], key, d(x), d(y), l.o.name, l.path)
	}
	name := l.o.kind + " " + types.TypeString(l.o.typ, func(p *types.Package) string { return p.Name() })
	if l.o.site != nil {
		name += " made at " + r.p.posStr(l.o.site.Pos())
	} else {
		name = l.o.name
	}
	if len(r.bad[key]) < 12 {
		r.bad[key][fmt.Sprintf("%s while %s (%s%s) without a common lock or order", a, b, name, pathName(l.o.typ, strings.TrimSuffix(l.path, ".~")))] = true
	}
}

func (r *raceAn) goKey(g *raceGo) string {
	f := g.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return "go:" + r.p.fnName(f)
}

// index groups accesses by object.
func index(as []*raceAcc) map[*ptObj][]*raceAcc {
	m := map[*ptObj][]*raceAcc{}
	for _, x := range as {
		seen := map[*ptObj]bool{}
		for _, l := range x.locs {
			if !seen[l.o] {
				seen[l.o] = true
				m[l.o] = append(m[l.o], x)
			}
		}
	}
	return m
}

func (r *raceAn) inRegion(reg map[*ssa.Function]bool) []*raceAcc {
	var as []*raceAcc
	for _, x := range r.acc {
		if reg[x.fn] {
			as = append(as, x)
		}
	}
	return as
}

// outside: functions that also run outside the region, so that what they make may be older.
func (r *raceAn) elsewhere(roots []*ssa.Function, g *raceGo) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if m[f] {
			return
		}
		m[f] = true
		for _, e := range r.a.edges[f] {
			if e.site != g.site {
				visit(e.to)
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return m
}

func (r *raceAn) analyseGo(g *raceGo, roots []*ssa.Function, abs *lockView) {
	key := r.goKey(g)
	mine := r.inRegion(g.region)
	byObj := index(mine)
	away := r.elsewhere(roots, g)
	perTurn := func(o *ptObj) bool {
		return o.site != nil && o.kind != "global" && !g.region[o.in] && !r.concOf(g, nil, o.site).ins[g.site]
	}
	all := r.shared(g.entry, nil)
	rel := r.lockView(g.bodies, g.region, true)
	inG := func(ins ssa.Instruction) bool { return g.region[ins.Parent()] }
	// objects made by the same code before the goroutine starts, and handed to it
	out := map[*ssa.Function]bool{}
	for f := range away {
		if !g.region[f] {
			out[f] = true
		}
	}
	olderM := map[*ptObj]bool{}
	older := func(o *ptObj) bool {
		if !away[o.in] {
			return false
		}
		if v, ok := olderM[o]; ok {
			return v
		}
		v := false
		for _, p := range r.publishes(o, "o"+siteKey(g.site), func(ins ssa.Instruction) bool { return out[ins.Parent()] }, out, all) {
			switch p.(type) {
			case *ssa.UnOp, *ssa.Lookup, *ssa.Next:
				continue
			}
			v = v || r.mayFollow(out, []ssa.Instruction{p}, g.site, nil)
		}
		for _, a := range g.site.(ssa.CallInstruction).Common().Args {
			for _, lf := range r.a.leaves(a.Type()) {
				if n, ok := r.a.keys[ptKey{a, lf.path}]; ok && r.leadsTo(n)[o] {
					v = true
				}
			}
		}
		olderM[o] = v
		return v
	}
	exempt := func(x *raceAcc, o *ptObj, sh map[*ptObj]bool) bool {
		if o.site == nil || o.kind == "global" || !g.region[o.in] || older(o) {
			return false
		}
		ps := r.publishes(o, "g"+siteKey(g.site), inG, g.region, sh)
		return !r.mayFollow(g.region, ps, x.ins, o.site)
	}
	if g.multi {
		sh := r.shared(g.entry, perTurn)
		for _, o := range r.order(byObj) {
			as := byObj[o]
			if !sh[o] {
				continue
			}
			for i, x := range as {
				for _, y := range as[i:] {
					if !x.write && !y.write {
						continue
					}
					for _, l := range overlapLoc(x, y) {
						if l.o != o {
							continue
						}
						r.pairs++
						if exempt(x, o, sh) || exempt(y, o, sh) {
							continue
						}
						if r.guarded(x, y, rel.at[x.ins], rel.at[y.ins], func(q *ptObj) bool {
							return !sh[q] || g.region[q.in] && q.site != nil && q.kind != "global" && !away[q.in]
						}) {
							continue
						}
						if r.disjoint(g, x, y) {
							continue
						}
						r.report(key, x, y, l)
					}
				}
			}
		}
	}
	// the starter and everything else alive at the same time
	loose := r.concOf(g, nil, nil) // no joins: whatever may come after the start
	var theirs []*raceAcc
	for _, x := range r.acc {
		if loose.ins[x.ins] {
			theirs = append(theirs, x)
		}
	}
	other := index(theirs)
	inC := func(ins ssa.Instruction) bool { return loose.ins[ins] }
	cfns := map[*ssa.Function]bool{}
	for ins := range loose.ins {
		cfns[ins.Parent()] = true
	}
	for _, o := range r.order(byObj) {
		if !all[o] || len(other[o]) == 0 {
			continue
		}
		for _, y := range byObj[o] {
			for _, x := range other[o] {
				if !x.write && !y.write {
					continue
				}
				for _, l := range overlapLoc(x, y) {
					if l.o != o {
						continue
					}
					r.pairs++
					var js []*raceJoin
					for _, j := range g.joins {
						if !r.mayFollow(g.region, j.rel, y.ins, nil) {
							js = append(js, j)
						}
					}
					if !r.concOf(g, js, nil).ins[x.ins] {
						continue
					}
					if o.site != nil && o.kind != "global" && !r.concOf(g, js, o.site).ins[x.ins] {
						continue
					}
					if exempt(y, o, all) {
						continue
					}
					if o.site != nil && o.kind != "global" && inC(o.site) {
						ps := r.publishes(o, "c"+siteKey(g.site), inC, cfns, all)
						if !r.mayFollow(cfns, ps, x.ins, o.site) {
							continue
						}
					}
					if r.guarded(x, y, abs.at[x.ins], r.inherit(g, rel, abs)[y.ins], nil) {
						continue
					}
					r.report(key, x, y, l)
				}
			}
		}
	}
}

// inherit: locks as seen by the goroutine itself.
func (r *raceAn) inherit(g *raceGo, rel, abs *lockView) map[ssa.Instruction]lockSet { return rel.at }

func (r *raceAn) order(m map[*ptObj][]*raceAcc) []*ptObj {
	var os []*ptObj
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	return os
}

// analyseHandlers: methods of one server object called by any number of clients at once.
func (r *raceAn) analyseHandlers(key string, hs []*ssa.Function) {
	var nodes []int
	for _, h := range hs {
		if len(h.Params) > 0 {
			for _, lf := range r.a.leaves(h.Params[0].Type()) {
				nodes = append(nodes, r.a.node(h.Params[0], lf.path))
			}
		}
	}
	sh := r.shared(nodes, nil)
	region := map[*ssa.Function]bool{}
	for _, h := range hs {
		for f := range r.reach(h) {
			region[f] = true
		}
	}
	v := r.lockView(hs, region, true)
	byObj := index(r.inRegion(region))
	in := func(ins ssa.Instruction) bool { return region[ins.Parent()] }
	exempt := func(x *raceAcc, o *ptObj) bool {
		if o.site == nil || o.kind == "global" || !region[o.in] {
			return false
		}
		return !r.mayFollow(region, r.publishes(o, "h"+key, in, region, sh), x.ins, o.site)
	}
	for _, o := range r.order(byObj) {
		if !sh[o] {
			continue
		}
		as := byObj[o]
		for i, x := range as {
			for _, y := range as[i:] {
				if !x.write && !y.write {
					continue
				}
				for _, l := range overlapLoc(x, y) {
					if l.o != o {
						continue
					}
					r.pairs++
					if exempt(x, o) || exempt(y, o) {
						continue
					}
					if r.guarded(x, y, v.at[x.ins], v.at[y.ins], func(q *ptObj) bool { return !sh[q] }) {
						continue
					}
					r.report(key, x, y, l)
				}
			}
		}
	}
}

// handlers finds the types that implement a generated RPC server interface.
func handlers(p *Program) map[string][]*ssa.Function {
	res := map[string][]*ssa.Function{}
	var ifaces []*types.Interface
	var names []string
	for _, pk := range p.repo {
		var ms []string
		for n := range pk.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		for _, n := range ms {
			t, ok := pk.Members[n].(*ssa.Type)
			if !ok || !strings.HasSuffix(n, "Server") || strings.HasPrefix(n, "Unsafe") {
				continue
			}
			i, ok := t.Type().Underlying().(*types.Interface)
			if ok && i.NumMethods() > 0 && strings.HasSuffix(p.fset.Position(t.Pos()).Filename, ".pb.go") {
				ifaces = append(ifaces, i)
				names = append(names, n)
			}
		}
	}
	for _, pk := range p.repo {
		for n, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) || strings.HasSuffix(p.fset.Position(t.Pos()).Filename, ".pb.go") {
				continue
			}
			if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			for k, i := range ifaces {
				pt := types.NewPointer(t.Type())
				if !types.Implements(pt, i) {
					continue
				}
				key := "handlers:" + strings.TrimPrefix(pk.Pkg.Path(), p.mod+"/") + "." + n + "/" + names[k]
				for q := 0; q < i.NumMethods(); q++ {
					f := p.prog.LookupMethod(pt, pk.Pkg, i.Method(q).Name())
					if f != nil && len(f.Blocks) > 0 {
						res[key] = append(res[key], f)
					}
				}
			}
		}
	}
	return res
}

func checkC13(c *Check) {
	c.rule("points-to, lockset and happens-before analysis: for every goroutine start and every set of RPC handlers, each pair of accesses to an object both may reach (one a write, or a use of a library object that is not safe for concurrent use) must hold a common lock, be separated by a wait group, channel or the start itself, use an index of its own, or come before the object is handed over.")
	hs := handlers(c.p)
	isHandler := map[*ssa.Function]bool{}
	for _, fs := range hs {
		for _, f := range fs {
			isHandler[f] = true
		}
	}
	keys := map[string]token.Pos{}
	bad := map[string]map[string]bool{}
	merge := func(m map[string]map[string]bool) {
		for k, v := range m {
			if bad[k] == nil {
				bad[k] = map[string]bool{}
			}
			for s := range v {
				bad[k][s] = true
			}
		}
	}
	for _, root := range c.p.roots() {
		if !spawns(c.p, root) {
			continue
		}
		r := newRaceAn(c, []*ssa.Function{root}, false)
		r.prepare()
		if len(r.gos) == 0 {
			continue
		}
		abs := r.lockView([]*ssa.Function{root}, nil, false)
		// goroutines start with nothing held
		for _, g := range r.gos {
			keys[r.goKey(g)] = g.site.Pos()
			r.analyseGo(g, []*ssa.Function{root}, abs)
		}
		c.counts["roots"]++
		c.counts["functions"] += len(r.a.fns)
		c.counts["goroutine starts followed"] += len(r.gos)
		c.counts["accesses"] += len(r.acc)
		c.counts["conflicting pairs"] += r.pairs
		merge(r.bad)
	}
	var hk []string
	for k := range hs {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		r := newRaceAn(c, hs[k], true) // one object serves all calls
		r.prepare()
		r.analyseHandlers(k, hs[k])
		keys[k] = hs[k][0].Pos()
		c.counts["handlers"] += len(hs[k])
		c.counts["conflicting pairs"] += r.pairs
		c.counts["handler pairs"] += r.pairs
		merge(r.bad)
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.ob(k, len(bad[k]) == 0, keys[k], "data race: %s", joinSet(bad[k]))
	}
	c.atLeast("goroutine starts followed", 9)
	c.atLeast("handlers", 5)
	c.atLeast("conflicting pairs", 20)
}

// spawns is a quick test whether code of the repository reachable from a function starts goroutines.
func spawns(p *Program, root *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] || !p.inRepo(pkgOfFn(f)) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					return true
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && isWGGo(ci) {
					return true
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && visit(g) {
						return true
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					continue
				}
			}
		}
		return false
	}
	return visit(root)
}
