package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: neighbour bits, placement and size of a shell that voxels are added to.
//
// The method that adds a model is interpreted once for every combination of directions the models are
// shifted in. The loops over the 27 offsets are unrolled, the ways through each step joined; what is known
// of a bit of the result is read off the alternatives of the joins.

func init() { checks["C19"] = checkC19 }

type shellCheck struct {
	c     *Check
	e     *Eng
	typ   types.Type // VShell
	vox   types.Type // VShVoxel
	bits  map[[3]int64]uint64
	all   uint64
	key   string
	pos   token.Pos
	vs0   *Term // the shell as it was
	bv    *Term
	empty bool // no voxels in the shell before
	white *Term
	color *Term
	D     [3]*Term
	M, O  *Term // the new voxels, the old ones
	shift [3]*Term
	move  [3]*Term
	mvd   *Loop
	adds  []*Loop
}

var axes = []string{"X", "Y", "Z"}

func checkC19(c *Check) {
	c.rule("the neighbour map of a new voxel is a join of constants whose guards decide, for each of the 26 offsets, that the bit of the exported constant of that offset is set exactly if the cell there is among the new or the old voxels; every old neighbour is visited and gets the bit of the opposite direction; voxels are left out exactly if all 26 bits are set; for every combination of shift directions the shift of the new minus the move of the old voxels is the rounded difference of the translations, and dimensions are raised above every coordinate.")
	typ, vox := c.p.Type("vshell", "VShell"), c.p.Type("vshell", "VShVoxel")
	bt := c.p.Type("binvox", "BinVOX")
	c.need(typ != nil && vox != nil && bt != nil, "no vshell.VShell")
	x := &shellCheck{c: c, typ: typ, vox: vox, bits: map[[3]int64]uint64{}}
	sc := c.p.Pkg("vshell").Pkg.Scope()
	part := map[int64]string{-1: "_1", 0: "0", 1: "1"}
	for i := int64(-1); i <= 1; i++ {
		for j := int64(-1); j <= 1; j++ {
			for k := int64(-1); k <= 1; k++ {
				if i == 0 && j == 0 && k == 0 {
					continue
				}
				n := "X" + part[i] + "Y" + part[j] + "Z" + part[k]
				cn, ok := sc.Lookup(n).(*types.Const)
				c.need(ok, "no constant %s in vshell", n)
				v, ok := constant.Uint64Val(constant.ToInt(cn.Val()))
				c.ob("constant:"+n, ok && v != 0 && v&(v-1) == 0 && x.all&v == 0, cn.Pos(), "%s is not a bit of its own", n)
				x.bits[[3]int64{i, j, k}] = v
				x.all |= v
			}
		}
	}
	add := c.fn("vshell", "VShell.Add")
	c.need(len(add.Params) == 2, "VShell.Add does not take a model")
	// which way each axis is shifted: the old voxels move, the new ones move, rounded to nothing
	var combos [][3]int
	for m := 0; m < 8; m++ {
		combos = append(combos, [3]int{m & 1, m >> 1 & 1, m >> 2})
	}
	combos = append(combos, [3]int{2, 0, 1}, [3]int{1, 2, 0}, [3]int{0, 1, 2}, [3]int{2, 2, 2})
	for _, cb := range combos {
		x.run(add, bt, cb, false, fmt.Sprintf("add/%d%d%d", cb[0], cb[1], cb[2]))
	}
	x.run(add, bt, [3]int{}, true, "add/empty")
	x.run(c.fn("vshell", "New"), bt, [3]int{}, true, "new")
	c.atLeast("constant", 26)
	c.atLeast("bit", 26*3*13)
	c.atLeast("old", 26*12)
	c.atLeast("shift", 3*13)
	c.atLeast("dims", 3*13)
}

func (x *shellCheck) run(fn *ssa.Function, bt types.Type, cb [3]int, empty bool, key string) {
	c := x.c
	as, f := args(fn)
	e := NewEng(c.p)
	e.cap, e.unrollCap, e.joinAbove, e.keepOr = 256, 1, 64, true
	x.e, x.key, x.pos, x.empty = e, key, fn.Pos(), empty
	x.M, x.O, x.mvd, x.adds = nil, nil, nil, nil
	isNew := len(as) == 1
	x.bv = as[len(as)-1]
	m := App("deref", bt, x.bv)
	more := []*Term{Not(Eq(x.bv, Nil(x.bv.typ)))}
	x.white, x.color = c.fld(m, bt, "WhiteVoxels"), c.fld(m, bt, "ColorVoxels")
	for _, n := range []string{"NX", "NY", "NZ"} {
		more = append(more, GE(Sub(c.fld(m, bt, n), Int(1))))
	}
	more = append(more, GT(c.fld(m, bt, "Scale")))
	if !isNew {
		more = append(more, Not(Eq(as[0], Nil(as[0].typ))))
		x.vs0 = App("deref", x.typ, as[0])
		n := Len(c.fld(x.vs0, x.typ, "Voxels"))
		if empty {
			more = append(more, EQ0(n))
		} else {
			more = append(more, GE(Sub(n, Int(1))), GT(c.fld(x.vs0, x.typ, "Scale")))
			for _, d := range []string{"NX", "NY", "NZ"} {
				more = append(more, GE(Sub(c.fld(x.vs0, x.typ, d), Int(1))))
			}
			vpmm := x.vpmm(x.vs0)
			for i, a := range axes {
				d := Sub(c.fld(m, bt, "T"+a), c.fld(x.vs0, x.typ, "T"+a))
				x.D[i] = Rounding("round", Mul(d, vpmm))
				switch cb[i] {
				case 0:
					more = append(more, GT(Sub(Int(0), d)), GE(Sub(Int(-1), x.D[i])))
				case 1:
					more = append(more, GE(d), GE(x.D[i]))
				case 2:
					more = append(more, GT(Sub(Int(0), d)), EQ0(x.D[i]))
				}
			}
		}
	}
	f = f.AddAll(more)
	n := 0
	for _, o := range c.run(e, fn, as, f) {
		if o.kind != "ret" {
			c.ob("ends:"+key, false, o.pos, "it may end with a %s when %v", o.kind, o.st.facts)
			continue
		}
		if !succeeds(o) {
			c.ob("refuses:"+key, !empty, o.pos, "a model is refused although there is nothing it has to agree with")
			continue
		}
		p := as[0]
		if isNew {
			p = o.res[0]
			if !c.ob("shell:"+key, p.op == OPtr, fn.Pos(), "no shell is returned") {
				continue
			}
		}
		n++
		x.outcome(o, e.load(o.st, p), m, bt, isNew)
	}
	c.ob("succeeds:"+key, n > 0, fn.Pos(), "it never succeeds")
}

// vpmm: the voxels per millimeter of a shell.
func (x *shellCheck) vpmm(v *Term) *Term {
	return Mul(MaxMin("max", x.dims(v)...), Inv(x.c.fld(v, x.typ, "Scale")))
}

func (x *shellCheck) dims(v *Term) []*Term {
	return []*Term{x.c.fld(v, x.typ, "NX"), x.c.fld(v, x.typ, "NY"), x.c.fld(v, x.typ, "NZ")}
}

// sizes: what is known, with the dimensions that are at least 1.
func sizes(f *Facts) *Facts {
	var more []*Term
	seen := map[*Term]bool{}
	for _, l := range f.lits {
		mentions(l, func(u *Term) bool {
			if u.op == OApp && u.s == "max" && !seen[u] {
				seen[u] = true
				for _, a := range u.args {
					if g := GE(Sub(a, Int(1))); !f.set[g] && prove(f, g) {
						more = append(more, g)
					}
				}
			}
			return false
		})
	}
	return f.AddAll(more)
}

func (x *shellCheck) outcome(o Outcome, v, m *Term, bt types.Type, isNew bool) {
	c, f := x.c, sizes(o.st.facts)
	for _, l := range f.lits {
		// a product of positive numbers that is not positive
		if l.op != OCmp {
			continue
		}
		ms := P(l.args[0]).monos
		for _, m := range ms {
			if len(ms) == 1 && f.monoSign(m.vars) == 2 && m.coef.Sign() < 0 {
				return
			}
		}
	}
	x.M, x.O, x.mvd, x.adds = nil, nil, nil, nil
	x.shift, x.move = [3]*Term{Int(0), Int(0), Int(0)}, [3]*Term{Int(0), Int(0), Int(0)}
	list := c.fld(v, x.typ, "Voxels")
	if q := x.e.seqOf(o.st, list); q != nil {
		list = q
	}
	if n, ok := constInt(Len(list)); isNew && ok && n == 0 {
		// a shell without voxels
		mt := func(t *Term) bool { return prove(f, Le(maplen(t), Int(0))) }
		c.ob("none:"+x.key, mt(x.white) && mt(x.color), x.pos, "a shell without voxels may be made of a model that has some, when %v", f)
		x.placed(v, m, bt, f)
		return
	}
	list, drop := x.filtered(list, f)
	if list == nil {
		return
	}
	list = x.oneByOne(list, f)
	parts := catParts(list)
	news := parts[len(parts)-1]
	s := x.e.summ[news]
	if !c.ob("list:"+x.key, s != nil && len(parts) <= 2 && s.phi.init != nil && Len(s.phi.init) == Int(0), x.pos, "the voxels %s are not the old ones followed by one for each new voxel", str(list)) {
		return
	}
	x.added(s, news, drop, f)
	if x.M == nil {
		return
	}
	x.newVoxels(f)
	x.oldVoxels(o, parts, f)
	x.placed(v, m, bt, f)
}

// oneByOne: a list the elements of another were appended to one at a time.
func (x *shellCheck) oneByOne(list *Term, f *Facts) *Term {
	s := x.e.summ[list]
	if s == nil || s.phi == nil || s.phi.init == nil || len(s.loop.iters) == 0 {
		return list
	}
	var from *Term
	for _, it := range s.loop.iters {
		v := appended(it.back[list], list)
		if v == nil || v.op != OApp || v.s != "elem" || from != nil && from != v.args[0] {
			return list
		}
		from = v.args[0]
		if l, _ := covers(x.e, v.args[1], Int(0), Int(1), Len(from), []LoopAt{{s.loop, it, f}}); l == nil {
			return list
		}
	}
	return Cat(s.phi.init, from)
}

// filtered: the list the voxels are left of when those in a map are dropped.
func (x *shellCheck) filtered(list *Term, f *Facts) (*Term, *Term) {
	c := x.c
	s := x.e.summ[list]
	if s == nil {
		return list, nil
	}
	var from, drop *Term
	for _, it := range s.loop.iters {
		if v := appended(it.back[list], list); v != nil && v.op == OApp && v.s == "elem" {
			from = v.args[0]
			if l, _ := covers(x.e, v.args[1], Int(0), Int(1), Len(from), []LoopAt{{s.loop, it, f}}); l == nil {
				from = nil
			}
		}
	}
	if from == nil || x.oneByOne(list, f) != list {
		return list, nil
	}
	raw := from
	from = x.oneByOne(from, f)
	ok := Len(s.phi.init) == Int(0)
	for _, it := range s.loop.iters {
		kept := it.back[list] != list
		found := false
		for _, l := range it.newFacts(s.loop) {
			g, neg := l, false
			if g.op == ONot {
				g, neg = g.args[0], true
			}
			if g.op == OApp && g.s == "mok" && neg == kept {
				found = drop == nil || drop == g.args[0]
				drop = g.args[0]
				k := comps(g.args[1])
				for i, a := range axes {
					el := App("elem", x.vox, raw, s.loop.n)
					found = found && i < len(k) && k[i] == x.c.fld(el, x.vox, a)
				}
			}
		}
		ok = ok && found
	}
	if !c.ob("filter:"+x.key, ok && drop != nil, s.loop.pos, "voxels are dropped otherwise than by their place") {
		return nil, nil
	}
	return from, drop
}

// added: one voxel is added for each of the new ones that is not enclosed.
func (x *shellCheck) added(s *Summary, news, drop *Term, f *Facts) {
	c, l := x.c, s.loop
	var full []*IterPath
	var K, N *Term
	for _, it := range l.iters {
		b := it.back[news]
		if b == news || b == nil {
			full = append(full, it)
			continue
		}
		v := appended(b, news)
		if !c.ob("voxel:"+x.key, v != nil && v.op == OStruct, l.pos, "%s is not one voxel more", str(b)) {
			return
		}
		var key *Term
		for _, ev := range it.events {
			if ev.kind == "mapiter" && hasMarker(ev.args[1], l.marker) && overMap(l, it, ev.args[0], f) == ev.args[1] {
				key, x.M = ev.args[1], ev.args[2]
			}
		}
		if !c.ob("voxel:"+x.key, key != nil, l.pos, "the voxels added are not one for each key of a map") {
			x.M = nil
			return
		}
		k := comps(key)
		at := len(k) == 3
		for i, a := range axes {
			at = at && c.fld(v, x.vox, a) == k[i]
		}
		n := c.fld(v, x.vox, "N")
		c.ob("voxel:"+x.key, at && (N == nil || N == n), l.pos, "the voxel %s is not at its place", str(v))
		K, N = key, n
		c.ob("kept:"+x.key, x.isAll(it.facts, n, false), l.pos, "a voxel all of whose neighbours are there may be added when %v", it.facts)
	}
	if !c.ob("voxel:"+x.key, K != nil && N != nil, l.pos, "no voxel is added") {
		x.M = nil
		return
	}
	for _, it := range full {
		c.ob("elided:"+x.key, x.isAll(it.facts, N, true), l.pos, "a voxel may be left out although a neighbour is missing when %v", it.facts)
	}
	x.neighbours(K, N, l.pos)
	for _, it := range l.iters {
		x.updates(l, it, K, drop, f)
	}
	if drop == nil && !x.empty {
		// nothing dropped: nothing was to be dropped
		rm := x.removed(l)
		c.ob("drop:"+x.key, rm != nil && prove(f, Le(maplen(rm), Int(0))), l.pos, "old voxels that are enclosed may stay when %v", f)
	}
	if drop != nil {
		c.ob("drop:"+x.key, x.removed(l) == drop, l.pos, "the voxels dropped are not those found to be enclosed")
	}
}

// isAll: the neighbour map is (or is not) that of an enclosed voxel.
func (x *shellCheck) isAll(f *Facts, n *Term, yes bool) bool {
	g := EQ0(Sub(n, Int(int64(x.all))))
	if !yes {
		g = Not(g)
	}
	return f.Entails(g)
}

// bitAt: the bit of the number, 0 or 1, or -1 if it is not known.
func (x *shellCheck) bitAt(t *Term, bit uint64, f *Facts, memo map[*Term]int) int {
	if n, ok := constInt(t); ok {
		if uint64(n)&bit != 0 {
			return 1
		}
		return 0
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = -1
	r := -1
	if t.op == ONum || t.op == OApp && len(t.args) == 2 {
		if u := bitOp(t); u != nil {
			a, b := x.bitAt(u.args[0], bit, f, memo), x.bitAt(u.args[1], bit, f, memo)
			switch u.s {
			case "bor":
				if a == 1 || b == 1 {
					r = 1
				} else if a == 0 && b == 0 {
					r = 0
				}
			case "band":
				if a == 0 || b == 0 {
					r = 0
				} else if a == 1 && b == 1 {
					r = 1
				}
			}
		}
	}
	if as := x.e.joins[t]; len(as) > 0 {
		r = x.byAlts(as, f, func(v *Term, g *Facts) int { return x.bitAt(v, bit, f, memo) })
	}
	memo[t] = r
	return r
}

// bitOp: the operation whose result the number is.
func bitOp(t *Term) *Term {
	if t.op == OApp && (t.s == "bor" || t.s == "band") {
		return t
	}
	return nil
}

// byAlts: what all alternatives that are possible agree on.
func (x *shellCheck) byAlts(as []joinAlt, f *Facts, get func(v *Term, g *Facts) int) int {
	r, first := -1, true
	for _, a := range as {
		possible := true
		for _, l := range a.facts {
			if f.Entails(Not(l)) {
				possible = false
			}
		}
		if !possible {
			continue
		}
		v := get(a.val, f)
		if first {
			r, first = v, false
		} else if r != v {
			return -1
		}
	}
	return r
}

// neighbours: the bit of each offset tells whether there is a voxel.
func (x *shellCheck) neighbours(K, N *Term, pos token.Pos) {
	c := x.c
	seen := map[*Term]bool{}
	var maps []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range x.e.joins[t] {
			for _, l := range a.facts {
				mentions(l, func(u *Term) bool {
					if u.op == OApp && u.s == "mok" {
						for _, m := range maps {
							if m == u.args[0] {
								return false
							}
						}
						maps = append(maps, u.args[0])
					}
					return false
				})
			}
			visit(a.val)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(N)
	for _, m := range maps {
		if m != x.M {
			c.ob("maps:"+x.key, x.O == nil, pos, "neighbours are looked up in more than two maps")
			x.O = m
		}
	}
	b := types.Typ[types.Bool]
	for off, bit := range x.bits {
		k := x.at(K, off)
		in, old := App("mok", b, x.M, k), (*Term)(nil)
		if x.O != nil {
			old = App("mok", b, x.O, k)
		}
		cases := [][]*Term{{in}, {Not(in)}}
		want := []int{1, 0}
		if old != nil {
			cases = [][]*Term{{in, Not(old)}, {Not(in), old}, {Not(in), Not(old)}}
			want = []int{1, 1, 0}
		} else {
			cases = append(cases, cases[0])
			want = append(want, 1)
		}
		for i, cs := range cases {
			got := x.bitAt(N, bit, emptyFacts.AddAll(cs), map[*Term]int{})
			c.ob("bit:"+x.key, got == want[i], pos, "the bit for the neighbour at %v is %d instead of %d when %v", off, got, want[i], cs)
		}
	}
	for i := uint(0); i < 32; i++ {
		if bit := uint64(1) << i; x.all&bit == 0 {
			c.ob("other:"+x.key, x.bitAt(N, bit, emptyFacts, map[*Term]int{}) == 0, pos, "bit %d, which stands for no neighbour, may be set", i)
		}
	}
}

func (x *shellCheck) at(K *Term, off [3]int64) *Term {
	k := comps(K)
	var a []*Term
	for i := range k {
		a = append(a, Add(k[i], Int(off[i])))
	}
	return Struct(K.typ, a...)
}

// contains: the list has the key, 0 or 1, or -1 if it is not known.
func (x *shellCheck) contains(st *State, t, k *Term, f *Facts, memo map[*Term]int) int {
	if r, ok := memo[t]; ok {
		return r
	}
	r := -1
	switch {
	case t.op == ONil:
		r = 0
	case t.op == OArray:
		r = 0
		for _, a := range t.args {
			if sameTerms(comps(a), comps(k)) {
				r = 1
			}
			if r == 0 && !apart(a, k) {
				r = -1
			}
		}
	case t.op == OApp && t.s == "cat":
		r = 0
		for _, p := range t.args {
			switch x.contains(st, p, k, f, memo) {
			case 1:
				r = 1
			case -1:
				if r == 0 {
					r = -1
				}
			}
		}
	case len(x.e.joins[t]) > 0:
		r = x.byAlts(x.e.joins[t], f, func(v *Term, g *Facts) int { return x.contains(st, v, k, f, memo) })
	default:
		if q := x.e.seqOf(st, t); q != nil && q != t {
			r = x.contains(st, q, k, f, memo)
		}
	}
	memo[t] = r
	return r
}

// apart: two keys are known to differ.
func apart(a, b *Term) bool {
	p, q := comps(a), comps(b)
	for i := range p {
		if len(p) != len(q) {
			break
		}
		if n, ok := constInt(Sub(p[i], q[i])); ok && n != 0 {
			return true
		}
	}
	return false
}

// updates: each old neighbour of a new voxel learns of it.
func (x *shellCheck) updates(l *Loop, it *IterPath, K, drop *Term, f *Facts) {
	c := x.c
	if x.O == nil {
		c.ob("old:"+x.key, x.empty, l.pos, "old voxels are not looked at")
		return
	}
	isUpd := func(ev *Event) bool {
		return ev.kind == "store" && mentions(ev.args[0], func(u *Term) bool { return u == x.O })
	}
	rm := x.removed(l)
	// walk: something is told on every way through the events
	var walk func(evs []*Event) bool
	walk = func(evs []*Event) bool {
		told := false
		for _, ev := range evs {
			if isUpd(ev) {
				c.ob("old:"+x.key, false, ev.pos, "an old voxel is changed that is no neighbour of a new one")
			}
			if len(ev.alts) > 0 {
				all := true
				for _, a := range ev.alts {
					all = walk(a) && all
				}
				told = told || all
			}
			if ev.loop != nil && hasEv([]*Event{ev}, isUpd) {
				told = true
				x.update(ev.loop, it.facts, K, rm)
			}
		}
		return told
	}
	c.ob("old:"+x.key, walk(it.events), l.pos, "the old neighbours of a new voxel are not told of it on a path, when %v", it.facts)
}

func (x *shellCheck) update(l *Loop, after *Facts, K, rm *Term) {
	c := x.c
	k := comps(K)
	done := map[[3]int64]bool{}
	var list *Term
	for _, it := range l.iters {
		for _, path := range flat(it.events) {
			var ev *Event
			bad := false
			for _, e := range path {
				if e.kind == "store" && mentions(e.args[0], func(u *Term) bool { return u == x.O }) {
					bad = bad || ev != nil
					ev = e
				}
			}
			if !c.ob("old:"+x.key, !bad && ev != nil, l.pos, "an old neighbour is not changed once") {
				continue
			}
			var ck *Term
			mentions(ev.args[0], func(u *Term) bool {
				if u.op == OApp && (u.s == "mget" || u.s == "mgetz") && u.args[0] == x.O {
					ck = u.args[1]
				}
				return false
			})
			if !c.ob("old:"+x.key, ck != nil && ck.op == OApp && ck.s == "elem", ev.pos, "the old voxel that is changed is not one of a list of neighbours") {
				continue
			}
			in, why := covers(x.e, ck.args[1], Int(0), Int(1), Len(ck.args[0]), []LoopAt{{l, it, after}})
			c.ob("old:"+x.key, in != nil && (list == nil || list == ck.args[0]), ev.pos, "not all old neighbours are told: %s", why)
			list = ck.args[0]
			// which neighbour it is
			var near []*Term
			var diff [3]*Term
			for i, q := range comps(ck) {
				diff[i] = Sub(k[i], q)
				near = append(near, GE(Add(diff[i], Int(1))), GE(Sub(Int(1), diff[i])))
			}
			g := it.facts.AddAll(near)
			if !valid(g) {
				continue
			}
			for off, bit := range x.bits {
				h := g
				var eq []*Term
				for i := range diff {
					eq = append(eq, EQ0(Sub(diff[i], Int(off[i]))))
				}
				possible := true
				for _, q := range eq {
					possible = possible && !g.Entails(Not(q))
				}
				if !possible {
					continue
				}
				h = g.AddAll(eq)
				if !feasible(h) {
					continue
				}
				done[off] = true
				p, st := splitPtr(ev.args[0])
				ok := len(st) > 0 && isFieldStep(st[len(st)-1])
				if ok {
					vt := under(x.vox).(*types.Struct)
					ok = vt.Field(fieldStepIndex(st[len(st)-1])).Name() == "N"
				}
				old := c.fld(App("deref", x.vox, p), x.vox, "N")
				v := narrowTerm(ev.args[1])
				ok = ok && v.op == OApp && v.s == "bor" && len(v.args) == 2
				if ok {
					a, b := v.args[0], v.args[1]
					if a == old {
						a, b = b, a
					}
					n, isC := bitsUnder(a, h)
					ok = isC && n == bit && b == old
				}
				c.ob("old:"+x.key, ok, ev.pos, "the old voxel that has a new one at %v gets %s", off, str(ev.args[1]))
				// enclosed now
				if rm != nil {
					r2 := (*Term)(nil)
					for t, s := range x.e.summ {
						if s.loop == l && s.phi != nil && s.phi.init == rm {
							r2 = t
						}
					}
					if c.ob("enclosed:"+x.key, r2 != nil, ev.pos, "enclosed old voxels are not collected") {
						b := it.back[r2]
						set := b != nil && b.op == OApp && b.s == "mset" && b.args[0] == r2 && sameTerms(comps(b.args[1]), comps(ck))
						c.ob("enclosed:"+x.key, set && x.isAll(h, v, true) || (b == nil || b == r2) && x.isAll(h, v, false), ev.pos, "an old voxel is collected for removal although, or is not because, it is enclosed, when %v", it.facts)
					}
				}
			}
		}
	}
	c.ob("old:"+x.key, len(done) == 26, l.pos, "old voxels are told of only %d of 26 neighbours", len(done))
	if list == nil {
		return
	}
	b := types.Typ[types.Bool]
	for off := range x.bits {
		q := x.at(K, off)
		in, old := App("mok", b, x.M, q), App("mok", b, x.O, q)
		c.ob("told:"+x.key, x.contains(l.iters[0].st, list, q, emptyFacts.AddAll([]*Term{Not(in), old}), map[*Term]int{}) == 1, l.pos, "the old neighbour at %v may be forgotten", off)
		c.ob("told:"+x.key, x.contains(l.iters[0].st, list, q, emptyFacts.AddAll([]*Term{Not(in), Not(old)}), map[*Term]int{}) == 0, l.pos, "a neighbour at %v that is not there is told", off)
	}
}

// feasible: the facts leave a way for each disjunction among them.
func feasible(f *Facts) bool {
	if !valid(f) {
		return false
	}
	for _, l := range f.lits {
		if l.op != ONot || l.args[0].op != OApp || l.args[0].s != "and" {
			continue
		}
		some := false
		for _, a := range l.args[0].args {
			some = some || !f.Entails(a)
		}
		if !some {
			return false
		}
	}
	return true
}

// bitsUnder: the number under the facts, if they determine it.
func bitsUnder(t *Term, f *Facts) (uint64, bool) {
	t = unwrap(t)
	if n, ok := constInt(t); ok {
		return uint64(n), n >= 0
	}
	if t.op != OApp || len(t.args) != 2 {
		return 0, false
	}
	a, ok1 := bitsUnder(t.args[0], f)
	b, ok2 := bitsUnder(t.args[1], f)
	if t.s == "shl" && !ok2 {
		for i := int64(0); i < 27 && !ok2; i++ {
			if proveEq(f, t.args[1], Int(i)) {
				b, ok2 = uint64(i), true
			}
		}
	}
	if !ok1 || !ok2 {
		return 0, false
	}
	switch t.s {
	case "bor":
		return a | b, true
	case "band":
		return a & b, true
	case "shl":
		return a << b, b < 32
	}
	return 0, false
}

// narrowTerm drops the reduction of a number to the size of its type.
func narrowTerm(t *Term) *Term { return unwrap(t) }

// removed: the map of the old voxels that are enclosed after the loop.
func (x *shellCheck) removed(l *Loop) *Term {
	var r *Term
	for t, s := range x.e.summ {
		if s.loop == l && s.phi != nil && s.phi.init != nil && s.phi.init.op == OApp && s.phi.init.s == "map0" {
			r = t
		}
	}
	return r
}

// newVoxels: the map of the new voxels has the shifted keys of the model, less those in the shell.
func (x *shellCheck) newVoxels(f *Facts) {
	c := x.c
	t, first := x.M, true
	src := map[*Term]bool{}
	for t.op != OApp || t.s != "map0" {
		s := x.e.summ[t]
		if !c.ob("new:"+x.key, s != nil && s.phi != nil && s.phi.init != nil, x.pos, "the map of the new voxels is %s, which is not built in loops over those of the model", str(t)) {
			return
		}
		x.adds = append(x.adds, s.loop)
		for _, it := range s.loop.iters {
			var K *Term
			for _, m := range []*Term{x.white, x.color} {
				if k := overMap(s.loop, it, m, f); k != nil {
					K = k
					src[m] = true
				}
			}
			if !c.ob("new:"+x.key, K != nil, s.loop.pos, "new voxels come from elsewhere than the model") {
				return
			}
			b := it.back[t]
			if b != nil && b.op == OApp && b.s == "mset" && b.args[0] == t {
				k, q := comps(b.args[1]), comps(K)
				for i := range axes {
					d := Sub(k[i], q[i])
					c.ob("new:"+x.key, (first || x.shift[i] == d) && !hasMarker(d, s.loop.marker), s.loop.pos, "the new voxels are not all shifted by the same number along %s", axes[i])
					x.shift[i] = d
				}
				first = false
			}
		}
		t = s.phi.init
	}
	c.ob("new:"+x.key, src[x.white] && src[x.color] && !first, x.pos, "not all voxels of the model become new voxels")
	for _, l := range x.adds {
		for _, it := range l.iters {
			var K, t *Term
			for _, m := range []*Term{x.white, x.color} {
				if k := overMap(l, it, m, f); k != nil {
					K = k
				}
			}
			for u, s := range x.e.summ {
				if s.loop == l && s.phi != nil && it.back[u] != nil && it.back[u].op == OApp && it.back[u].s == "mset" {
					t = it.back[u]
				}
			}
			k := comps(K)
			var a []*Term
			for i := range k {
				a = append(a, Add(k[i], x.shift[i]))
			}
			if x.O == nil {
				c.ob("new:"+x.key, t != nil, l.pos, "a voxel of the model may be left out when %v", it.facts)
				continue
			}
			in := false
			for _, lit := range it.facts.lits {
				u, neg := lit, false
				if u.op == ONot {
					u, neg = u.args[0], true
				}
				if u.op == OApp && u.s == "mok" && u.args[0] == x.O && sameTerms(comps(u.args[1]), a) {
					in = in || neg == (t != nil)
				}
			}
			c.ob("new:"+x.key, in, l.pos, "a voxel of the model is a new one although, or is not because, it is in the shell, when %v", it.facts)
		}
	}
}

// oldVoxels: the map of the old voxels has every one of them, at its new place.
func (x *shellCheck) oldVoxels(o Outcome, parts []*Term, f *Facts) {
	c := x.c
	if x.O == nil || x.O.op == OApp && x.O.s == "map0" {
		c.ob("kept-old:"+x.key, x.empty && len(parts) == 1 || len(parts) == 2 && prove(f, Le(Len(parts[0]), Int(0))), x.pos, "the old voxels are forgotten")
		return
	}
	s := x.e.summ[x.O]
	if !c.ob("old-map:"+x.key, s != nil && s.phi.init != nil && s.phi.init.op == OApp && s.phi.init.s == "map0" && len(parts) == 2, x.pos, "the map of the old voxels is not built of all of them") {
		return
	}
	for _, it := range s.loop.iters {
		b := it.back[x.O]
		if !c.ob("old-map:"+x.key, b != nil && b.op == OApp && b.s == "mset" && b.args[0] == x.O, s.loop.pos, "an old voxel may not be in the map") {
			continue
		}
		k, p := comps(b.args[1]), b.args[2]
		base, st := splitPtr(p)
		ok := len(k) == 3 && len(st) > 0
		if ok {
			idx := st[len(st)-1]
			if idx.op == OApp && idx.s == "idx" {
				idx = idx.args[0]
			}
			in, why := covers(x.e, idx, Int(0), Int(1), Len(parts[0]), []LoopAt{{s.loop, it, f}})
			c.ob("old-map:"+x.key, in != nil, s.loop.pos, "not all old voxels are in the map: %s", why)
			v := x.e.load(it.st, p)
			for i, a := range axes {
				ok = ok && proveEq(it.facts, k[i], c.fld(v, x.vox, a))
			}
			ok = ok && x.e.content(it.st, base) == x.contentOf(o.st, parts[0], base)
		}
		c.ob("old-map:"+x.key, ok, s.loop.pos, "the map of the old voxels does not lead to them from their place")
	}
	// how far they were moved
	arr := x.contentOf(o.st, parts[0], nil)
	orig := c.fld(x.vs0, x.typ, "Voxels")
	ms := x.e.summ[arr]
	if ms == nil {
		c.ob("moved:"+x.key, arr == orig, x.pos, "the old voxels are %s", str(arr))
		return
	}
	x.mvd = ms.loop
	first := true
	for _, it := range ms.loop.iters {
		b := it.back[arr]
		ok := b != nil && b.op == OApp && b.s == "store" && b.args[0] == arr && ms.phi.init == orig
		if ok {
			in, why := covers(x.e, b.args[1], Int(0), Int(1), Len(orig), []LoopAt{{ms.loop, it, f}})
			c.ob("moved:"+x.key, in != nil, ms.loop.pos, "not all old voxels are moved: %s", why)
			was := App("elem", x.vox, arr, b.args[1])
			for i, a := range axes {
				d := Sub(c.fld(b.args[2], x.vox, a), c.fld(was, x.vox, a))
				c.ob("moved:"+x.key, (first || x.move[i] == d) && !hasMarker(d, ms.loop.marker), ms.loop.pos, "the old voxels are not all moved by the same number along %s", a)
				x.move[i] = d
			}
			first = false
			ok = c.fld(b.args[2], x.vox, "N") == c.fld(was, x.vox, "N")
		}
		c.ob("moved:"+x.key, ok, ms.loop.pos, "the old voxels are changed otherwise than by moving them")
	}
}

// contentOf: the elements of the list of the old voxels.
func (x *shellCheck) contentOf(st *State, list, base *Term) *Term {
	if base != nil {
		return x.e.content(st, base)
	}
	if q := x.e.seqOf(st, list); q != nil {
		return q
	}
	return list
}

// placed: where the shell is, and its size.
func (x *shellCheck) placed(v, m *Term, bt types.Type, f *Facts) {
	c := x.c
	for i, a := range axes {
		t, bvT := c.fld(v, x.typ, "T"+a), c.fld(m, bt, "T"+a)
		if x.empty {
			c.ob("shift:"+x.key, x.shift[i] == Int(0) && t == bvT, x.pos, "the first model is not placed where it was along %s", a)
		} else {
			vsT := c.fld(x.vs0, x.typ, "T"+a)
			c.ob("shift:"+x.key, proveEq(f, Sub(x.shift[i], x.move[i]), x.D[i]), x.pos, "along %s the new voxels are shifted by %s and the old ones by %s, which is not the rounded difference of their translations when %v", a, str(x.shift[i]), str(x.move[i]), f)
			ok := proveEq(f, x.move[i], Int(0)) && t == vsT || proveEq(f, x.shift[i], Int(0)) && t == bvT
			c.ob("shift:"+x.key, ok, x.pos, "along %s the shell is placed at %s, but the voxels there were moved", a, str(t))
		}
		x.dim(i, c.fld(v, x.typ, "N"+a), m, bt)
	}
	if x.empty {
		if x.M == nil {
			c.ob("scale:"+x.key, c.fld(v, x.typ, "Scale") == c.fld(m, bt, "Scale"), x.pos, "the scale is not that of the model")
			return
		}
		bvpmm := Mul(MaxMin("max", c.fld(m, bt, "NX"), c.fld(m, bt, "NY"), c.fld(m, bt, "NZ")), Inv(c.fld(m, bt, "Scale")))
		c.ob("scale:"+x.key, proveEq(f, x.vpmm(v), bvpmm), x.pos, "the size of a voxel changes: %s voxels per mm when %v", str(x.vpmm(v)), f)
		return
	}
	c.ob("scale:"+x.key, proveEq(f, x.vpmm(v), x.vpmm(x.vs0)), x.pos, "the size of a voxel changes: %s voxels per mm when %v", str(x.vpmm(v)), f)
}

// dim: every voxel lies inside the dimension.
func (x *shellCheck) dim(i int, t, m *Term, bt types.Type) {
	c := x.c
	seen := map[*Loop]bool{}
	for {
		s := x.e.summ[t]
		if s == nil || s.phi == nil || s.phi.init == nil {
			break
		}
		seen[s.loop] = true
		for _, it := range s.loop.iters {
			b := it.back[t]
			if b == nil {
				b = t
			}
			ok := prove(it.facts, Le(t, b))
			for u, us := range x.e.summ {
				if us.loop != s.loop || it.back[u] == nil || it.back[u].op != OApp {
					continue
				}
				w := it.back[u]
				switch {
				case w.s == "mset":
					ok = ok && prove(it.facts, Lt(comps(w.args[1])[i], b))
				case w.s == "store" && s.loop == x.mvd:
					ok = ok && prove(it.facts, Lt(c.fld(w.args[2], x.vox, axes[i]), b))
				}
			}
			c.ob("dims:"+x.key, ok, s.loop.pos, "a voxel may lie outside the dimension along %s when %v", axes[i], it.facts)
		}
		t = s.phi.init
	}
	for _, l := range x.adds {
		c.ob("dims:"+x.key, seen[l], l.pos, "the dimension along %s does not grow with the new voxels", axes[i])
	}
	if x.mvd != nil {
		c.ob("dims:"+x.key, seen[x.mvd] || x.move[i] == Int(0), x.mvd.pos, "the dimension along %s does not grow with the old voxels that move", axes[i])
	}
	want := c.fld(m, bt, "N"+axes[i])
	if !x.empty {
		want = c.fld(x.vs0, x.typ, "N"+axes[i])
	}
	c.ob("dims:"+x.key, t == want, x.pos, "the dimension along %s starts as %s", axes[i], str(t))
	_ = strings.HasPrefix
}
