package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: the master gives a slice only to an agent it took out of the pool under the pool's lock,
// puts an agent back exactly once after its reply, and requests every slice once by its number.

func init() { checks["C27"] = checkC27 }

type poolSim struct {
	c      *Check
	s      *Sim
	y      *syncSim
	pool   map[int]bool // fields of the master that hold agents
	master *types.Named
	zField int
	viols  map[string]string
	obs    map[string]token.Pos
	locks  map[string]string // access -> locks held on every path to it
	phis   map[*AV]*ssa.Phi
	skip   map[*ssa.Phi]bool
	req    map[*ssa.Phi]bool
	bounds map[*ssa.Phi]*AV
}

func (y *poolSim) bad(key string, pos token.Pos, f string, a ...interface{}) {
	y.obs[key] = pos
	if _, ok := y.viols[key]; !ok {
		y.viols[key] = fmt.Sprintf(f, a...)
	}
}

func (y *poolSim) seen(key string, pos token.Pos) {
	if _, ok := y.obs[key]; !ok {
		y.obs[key] = pos
	}
}

func (y *poolSim) isPool(v *AV) bool {
	if v.k != aDeref || v.args[0].k != aFldAdr || !y.pool[v.args[0].n] {
		return false
	}
	b := v.args[0].args[0]
	t := pointee(b.typ)
	return t != nil && types.Identical(t, y.master)
}

// key states: picked (seen in the pool, its lock still held), !taken, !called, back.
const (
	agPicked = "agent|picked"
	agTaken  = "agent|taken"
	agCalled = "!agent|called"
	agBack   = "agent|back"
)

func connOf(v *AV) *AV { return mkAV(aOp, "connof", 0, nil, nil, v) }
func errOf(v *AV) *AV  { return mkAV(aOp, "errof", 0, nil, nil, v) }

func avHas(v, w *AV) bool {
	if v == w {
		return true
	}
	for _, a := range v.args {
		if avHas(a, w) {
			return true
		}
	}
	return false
}

func (y *poolSim) keyIn(st *SimSt, v *AV) *AV {
	var r *AV
	for k, t := range st.ts {
		if (strings.HasPrefix(t, "agent|") || strings.HasPrefix(t, "!agent|")) && avHas(v, k) {
			if r == nil || k.id < r.id {
				r = k
			}
		}
	}
	return r
}

// access notes the locks held at an access to the pool.
func (y *poolSim) access(st *SimSt, pool *AV, ins ssa.Instruction, what string) {
	base := pool.args[0].args[0]
	var held []string
	for v, t := range st.ts {
		if !strings.HasPrefix(t, "!pl|") || what != "read" && t != "!pl|w" {
			continue
		}
		if v.k == aFldAdr && v.args[0] == base {
			held = append(held, strconv.Itoa(v.n))
		}
	}
	sort.Strings(held)
	h := strings.Join(held, ",")
	key := "access:" + y.y.fnName(ins) + ":" + what
	y.seen(key, ins.Pos())
	y.c.counts["accesses"]++
	if o, ok := y.locks[key]; ok {
		h = meetIDs(o, h)
	}
	y.locks[key] = h
}

func checkC27(c *Check) {
	c.rule("typestate simulation of the master: the lockset of every access to the idle pool, the state of each agent address (seen in the pool, taken, called, put back) along every path, and the slice number sent by each goroutine, must be those of a pool that never holds a busy agent.")
	y := &poolSim{c: c, s: NewSim(c.p), pool: map[int]bool{}, viols: map[string]string{}, obs: map[string]token.Pos{}, locks: map[string]string{},
		phis: map[*AV]*ssa.Phi{}, skip: map[*ssa.Phi]bool{}, req: map[*ssa.Phi]bool{}, bounds: map[*ssa.Phi]*AV{}}
	s := y.s
	y.y = &syncSim{c: c, s: s}
	pk := c.p.Pkg("stl2svx/master")
	if !c.ob("anchor:master", pk != nil, token.NoPos, "package stl2svx/master not found") {
		return
	}
	for _, m := range pk.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || c.p.prog.LookupMethod(types.NewPointer(n), pk.Pkg, "NewJob") == nil {
			continue
		}
		y.master = n
		for i := 0; i < st.NumFields(); i++ {
			if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok && mt.Key().Underlying() == types.Typ[types.String] {
				y.pool[i] = true
			}
		}
	}
	if !c.ob("anchor:pool", len(y.pool) > 0, token.NoPos, "no pool of idle agents (a map by address) found in the master") {
		return
	}
	own := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn.Pkg == pk
	}
	s.inline = own
	s.opaque = func(fn *ssa.Function) bool { return !own(fn) }
	s.keep = func(fn *ssa.Function, x *ssa.If) bool { return own(fn) }
	s.interest = func(n string, cc *ssa.CallCommon, in *ssa.Function) bool { return false }
	s.coarse = func(ph *ssa.Phi) bool {
		b := ph.Block()
		for _, p := range b.Preds {
			if b.Dominates(p) {
				return true
			}
		}
		return false
	}
	s.onCoarse = func(st *SimSt, ph *ssa.Phi, v *AV, back bool) {
		y.phis[v] = ph
		k := "req:" + phiKey(ph)
		if back && st.tag[k] == "" && st.tag["reqend"] == "" {
			y.skip[ph] = true
		}
		delete(st.tag, k)
		delete(st.tag, "reqerr")
		delete(st.tag, "reqend")
	}
	s.onInstr = func(st *SimSt, ins ssa.Instruction, env map[ssa.Value]*AV, key string) []*SimSt {
		switch x := ins.(type) {
		case ssa.CallInstruction:
			if cc := x.Common(); cc.IsInvoke() && strings.HasSuffix(cc.Method.FullName(), "AgentClient).SliceJob") {
				var as []*AV
				for _, a := range cc.Args {
					as = append(as, s.get(env, a))
				}
				y.slice(st, ins, as)
			}
		case *ssa.MapUpdate:
			if m := s.get(env, x.Map).strip(); y.isPool(m) {
				y.access(st, m, x, "write")
				y.put(st, s.get(env, x.Key), x)
			}
		case *ssa.Range:
			if m := s.get(env, x.X).strip(); y.isPool(m) {
				y.access(st, m, x, "read")
				delete(st.tag, "ran:"+strconv.Itoa(m.id))
			}
		case *ssa.Lookup:
			if m := s.get(env, x.X).strip(); y.isPool(m) {
				y.access(st, m, x, "read")
			}
		case *ssa.Store:
			a := s.get(env, x.Addr)
			if a.k == aFldAdr && y.pool[a.n] && a.args[0].k != aAlloc && a.args[0].typ != nil && types.Identical(pointee(a.args[0].typ), y.master) {
				k := "replace:" + y.y.fnName(x)
				y.bad(k, x.Pos(), "%s replaces the pool of idle agents", y.y.fnName(x))
			}
		}
		return nil
	}
	s.onBuiltin = func(st *SimSt, name string, args []*AV) {
		if len(args) == 0 || !y.isPool(args[0].strip()) {
			return
		}
		m := args[0].strip()
		switch name {
		case "len":
			y.access(st, m, s.cur, "read")
		case "clear":
			y.access(st, m, s.cur, "write")
		case "delete":
			y.access(st, m, s.cur, "write")
			if k := args[1]; st.ts[k] == agPicked {
				st.ts[k] = agTaken
			}
			y.stale(st, m)
		}
	}
	s.onBranch = func(st *SimSt, cond *AV, v bool) {
		i, ok := s.cur.(*ssa.If)
		if !ok {
			return
		}
		e, ok := i.Cond.(*ssa.Extract)
		if !ok {
			return
		}
		switch n := e.Tuple.(type) {
		case *ssa.Next:
			r := s.get(s.curEnv, n.Iter)
			if r.k != aOp || r.s != "range" || !y.isPool(r.args[0].strip()) {
				return
			}
			m := r.args[0].strip()
			k := "ran:" + strconv.Itoa(m.id)
			if v {
				st.tag[k] = "1"
				if t := s.get(s.curEnv, n); t.k == aTuple && len(t.args) > 1 {
					st.ts[t.args[1]] = agPicked
				}
				return
			}
			l := mkAV(aOp, "len", 0, types.Typ[types.Int], nil, m)
			if st.tag[k] == "" && y.nonEmpty(st, l) {
				s.dead = true
			}
		case *ssa.Lookup:
			if m := s.get(s.curEnv, n.X).strip(); v && y.isPool(m) {
				st.ts[s.get(s.curEnv, n.Index)] = agPicked
			}
		}
	}
	s.onLeave = func(in, fn *ssa.Function, site ssa.Instruction, key string, args []*AV, st *SimSt, o *simOut) {
		if o.kind == "ret" && len(o.res) > 0 {
			e := o.res[len(o.res)-1]
			rs := fn.Signature.Results()
			if isErrType(rs.At(rs.Len() - 1).Type()) {
				if st.truth(avIsNil(e)) == -1 {
					st.tag["reqerr"] = "1"
				}
				if st.truth(avIsNil(e)) != 1 {
					st.tag["reqend"] = "1"
				}
			}
		}
	}
	s.onSpawn = func(st *SimSt, site ssa.Instruction, in, fn *ssa.Function, args []*AV, env map[ssa.Value]*AV) func(*SimSt) {
		held := map[*AV]string{}
		for v, t := range st.ts {
			if strings.HasPrefix(t, "!pl|") {
				held[v] = t
				delete(st.ts, v)
			}
		}
		return func(st *SimSt) {
			y.end(st, site)
			for v, t := range held {
				st.ts[v] = t
			}
		}
	}
	s.onCall = y.call
	nr := 0
	for _, r := range c.p.roots() {
		if !own(r) {
			continue
		}
		nr++
		outs := s.RunRoot(r)
		c.counts["paths"] += len(outs)
		c.counts["states"] += s.steps
		for _, o := range outs {
			if o.kind == "ret" {
				y.end(o.st, r.Blocks[0].Instrs[0])
			}
		}
	}
	c.counts["roots"] = nr
	// one lock for all accesses
	all := "*"
	var ks []string
	for k := range y.locks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		all = meetIDs(all, y.locks[k])
	}
	if all == "" {
		best, bn := "", 0
		cnt := map[string]int{}
		for _, k := range ks {
			for _, l := range strings.Split(y.locks[k], ",") {
				if l != "" {
					if cnt[l]++; cnt[l] > bn {
						best, bn = l, cnt[l]
					}
				}
			}
		}
		for _, k := range ks {
			if best == "" || !hasID(y.locks[k], best) {
				y.bad(k, y.obs[k], "%s reaches the pool of idle agents without the lock that guards it elsewhere", strings.TrimPrefix(k, "access:"))
			}
		}
	}
	// loops over the slices
	for ph := range y.req {
		k := "loop:" + c.p.fnName(ph.Parent())
		y.seen(k, ph.Block().Instrs[len(ph.Block().Instrs)-1].Pos())
		l := countedBy(ph)
		b := y.bounds[ph]
		switch {
		case l == nil || l.first != 0:
			y.bad(k, ph.Pos(), "the loop in %s that requests the slices does not count from 0 in steps of one", c.p.fnName(ph.Parent()))
		case y.skip[ph]:
			y.bad(k, ph.Pos(), "an iteration of the loop in %s may end without requesting its slice", c.p.fnName(ph.Parent()))
		case b == nil || !y.isDimZ(b):
			y.bad(k, ph.Pos(), "the loop in %s does not end at the number of slices of the model", c.p.fnName(ph.Parent()))
		}
	}
	ks = ks[:0]
	for k := range y.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := map[string]int{}
	for _, k := range ks {
		n[k[:strings.Index(k, ":")]]++
		c.ob(k, y.viols[k] == "", y.obs[k], "%s", y.viols[k])
	}
	for k, m := range map[string]int{"access": 3, "dial": 1, "call": 1, "put": 2, "loop": 1, "slice": 1} {
		c.ob("count:"+k, n[k] >= m, token.NoPos, "only %d %s obligations found, want at least %d", n[k], k, m)
	}
}

func (y *poolSim) isDimZ(b *AV) bool {
	if b.k != aDeref || b.args[0].k != aFldAdr {
		return false
	}
	t := pointee(b.args[0].args[0].typ)
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	return ok && strings.HasSuffix(t.String(), "stl.STL") && st.Field(b.args[0].n).Name() == "ModelDimZ"
}

func (y *poolSim) nonEmpty(st *SimSt, l *AV) bool {
	k := func(n string) *AV { return mkAV(aConst, n, 0, nil, nil) }
	if st.truth(ltZero(l)) == 1 {
		return true
	}
	for f, b := range st.facts {
		if f.k == aOp && avHas(f, l) {
			switch {
			case f.s == "<" && f.args[0].k == aConst && f.args[0].s == "0" && b, f.s == "<" && f.args[1] == k("1") && !b,
				f.s == "==" && (f.args[0].s == "0" || f.args[1].s == "0") && !b:
				return true
			case f.s == "<" && f.args[0] == l && f.args[1].s == "1" && !b:
				return true
			}
		}
	}
	return false
}

// stale drops what was known of the number of idle agents.
func (y *poolSim) stale(st *SimSt, m *AV) {
	l := mkAV(aOp, "len", 0, types.Typ[types.Int], nil, m)
	for f := range st.facts {
		if avHas(f, l) {
			delete(st.facts, f)
		}
	}
}

// end: a goroutine or root is over.
func (y *poolSim) end(st *SimSt, site ssa.Instruction) {
	for v, t := range st.ts {
		if t == agCalled {
			if e := st.mem[errOf(v)]; e == nil || st.truth(avIsNil(e)) != -1 {
				k := "return:" + y.y.fnName(site)
				y.bad(k, site.Pos(), "an agent that completed its slice is not put back in the pool on some path started in %s", y.y.fnName(site))
			}
		}
		if strings.Contains(t, "agent|") {
			delete(st.ts, v)
		}
	}
	y.seen("return:"+y.y.fnName(site), site.Pos())
}

func (y *poolSim) put(st *SimSt, k *AV, ins ssa.Instruction) {
	key := "put:" + y.y.fnName(ins)
	y.seen(key, ins.Pos())
	fn := y.y.fnName(ins)
	switch t := st.ts[k]; t {
	case agCalled:
		if e := st.mem[errOf(k)]; e == nil || st.truth(avIsNil(e)) != 1 {
			y.bad(key, ins.Pos(), "%s puts an agent back although its reply has not arrived", fn)
		}
		st.ts[k] = agBack
	case agTaken:
		st.ts[k] = agBack
	case agBack:
		y.bad(key, ins.Pos(), "%s puts an agent back a second time", fn)
	case agPicked:
	default:
		if o := y.keyIn(st, k); o != nil {
			y.bad(key, ins.Pos(), "%s puts an agent back under an address other than its own", fn)
		} else if k.k == aConst {
			y.bad(key, ins.Pos(), "%s adds an agent under a fixed address", fn)
		} else {
			for _, t := range st.ts {
				if t == agTaken || t == agCalled {
					y.bad(key, ins.Pos(), "%s puts an agent back under an address other than its own", fn)
				}
			}
		}
	}
	for v := range st.ts { // the pool changed
		if strings.HasPrefix(st.ts[v], "agent|picked") {
			delete(st.ts, v)
		}
	}
}

func (y *poolSim) call(sc *SimCall) []*SimSt {
	st := sc.st
	ins := sc.site
	fn := y.y.fnName(ins)
	switch n := sc.name; {
	case strings.HasPrefix(n, "(*sync.") && (strings.HasSuffix(n, ".Lock") || strings.HasSuffix(n, ".RLock")), n == "(sync.Locker).Lock":
		m := sc.args[0].strip()
		st.ts[m] = "!pl|w"
		if strings.HasSuffix(n, ".RLock") {
			st.ts[m] = "!pl|r"
		}
		for f := range st.facts {
			if f.k == aOp && len(f.args) == 2 {
				for _, a := range f.args {
					if a.k == aOp && a.s == "len" && y.isPool(a.args[0]) {
						delete(st.facts, f)
					}
				}
			}
		}
	case strings.HasPrefix(n, "(*sync.") && (strings.HasSuffix(n, ".Unlock") || strings.HasSuffix(n, ".RUnlock")), n == "(sync.Locker).Unlock":
		delete(st.ts, sc.args[0].strip())
		for v, t := range st.ts {
			if t == agPicked {
				delete(st.ts, v)
			}
		}
	case n == "google.golang.org/grpc.Dial" || n == "google.golang.org/grpc.DialContext" || n == "google.golang.org/grpc.NewClient":
		a := sc.args[0]
		if strings.HasSuffix(n, "DialContext") {
			a = sc.args[1]
		}
		key := "dial:" + fn
		y.seen(key, ins.Pos())
		k := y.keyIn(st, a)
		switch {
		case k == nil || st.ts[k] == agPicked:
			y.bad(key, ins.Pos(), "%s calls an agent it has not taken out of the pool", fn)
		case st.ts[k] == agBack:
			y.bad(key, ins.Pos(), "%s calls an agent it has already put back", fn)
		default:
			st.mem[connOf(sc.res[0])] = k
		}
	case strings.HasSuffix(n, ".NewAgentClient") && len(sc.args) == 1:
		a := sc.args[0].strip()
		if k := st.mem[connOf(a)]; k != nil {
			st.mem[connOf(sc.res[0])] = k
		}
	case strings.HasSuffix(n, "AgentClient).SliceJob"):
		key := "call:" + fn
		y.seen(key, ins.Pos())
		k := st.mem[connOf(sc.args[0].strip())]
		if k == nil {
			k = st.mem[connOf(sc.args[0])]
		}
		switch {
		case k == nil:
			y.bad(key, ins.Pos(), "%s sends a slice to an agent that cannot be related to the pool", fn)
		case st.ts[k] == agTaken:
		case st.ts[k] == agCalled:
			if e := st.mem[errOf(k)]; e == nil || st.truth(avIsNil(e)) != -1 {
				y.bad(key, ins.Pos(), "%s sends an agent a second slice before it is known to have failed the first", fn)
			}
		default:
			y.bad(key, ins.Pos(), "%s sends a slice to an agent that it does not hold (%s)", fn, st.ts[k])
		}
		if k != nil {
			st.ts[k] = agCalled
			st.mem[errOf(k)] = sc.res[len(sc.res)-1]
		}
	}
	return nil
}

// slice relates the number in the request to the loop that starts the requests.
func (y *poolSim) slice(st *SimSt, ins ssa.Instruction, args []*AV) {
	key := "slice:" + y.y.fnName(ins)
	y.seen(key, ins.Pos())
	var req *AV
	var z *AV
	for _, a := range args {
		t := pointee(a.typ)
		if t == nil || !strings.HasSuffix(t.String(), ".SliceJobRequest") {
			continue
		}
		req = a
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Z" {
					z = y.s.loadAV(st, mkAV(aFldAdr, "", i, types.NewPointer(s.Field(i).Type()), nil, req), s.Field(i).Type())
				}
			}
		}
	}
	if z == nil {
		y.bad(key, ins.Pos(), "the request sent by %s has no slice number", y.y.fnName(ins))
		return
	}
	for z.k == aOp && z.s == "conv" {
		z = z.args[0]
	}
	ph := y.phis[z]
	plus := false
	if ph == nil { // the value of the iteration of a range loop
		for j := len(y.s.fstack) - 1; j >= 0 && ph == nil; j-- {
			for v, a := range y.env(j) {
				if b, ok := plusOne(v); ok && a == z {
					if q, ok := b.(*ssa.Phi); ok && countedBy(q) != nil {
						ph, plus = q, true
					}
				}
			}
		}
	}
	var l *countedLoop
	if ph != nil {
		l = countedBy(ph)
	}
	if ph == nil || l != nil && l.iter != nil && plus != (l.iter != ssa.Value(ph)) {
		y.bad(key, ins.Pos(), "the slice number sent by %s (%v) is not the number of the loop that starts the requests", y.y.fnName(ins), z)
		return
	}
	y.req[ph] = true
	if l != nil {
		for j := len(y.s.fstack) - 1; j >= 0; j-- {
			if y.s.fstack[j] == ph.Parent() {
				b := y.y.eval(st, l.bound, y.env(j))
				if o, ok := y.bounds[ph]; ok && o != b {
					b = nil
				}
				y.bounds[ph] = b
			}
		}
	}
	k := "req:" + phiKey(ph)
	if st.tag[k] == "1" && st.tag["reqerr"] == "" {
		y.bad(key, ins.Pos(), "%s may request the same slice twice", y.y.fnName(ins))
	}
	st.tag[k] = "1"
}

func phiKey(ph *ssa.Phi) string { return ph.Parent().String() + ph.Name() }

func (y *poolSim) env(j int) map[ssa.Value]*AV {
	if j < len(y.s.stack) {
		return y.s.stack[j]
	}
	return y.s.curEnv
}
