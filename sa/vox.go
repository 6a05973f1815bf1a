package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04, C05: voxelization of a slice.

func init() {
	checks["C04"] = func(c *Check) { c.slices() }
	checks["C05"] = func(c *Check) { c.outlines() }
}

type voxCheck struct {
	c    *Check
	e    *Eng
	mesh *Term
	dims [3]*Term
	tr   [3]*Term
	sc   *Term
	zi   *Term

	perMM *Term           // voxels per millimetre
	fin   *Term           // the voxels set
	rows  *Term           // the extents of the rows
	ext   map[[2]int]bool // the fields of a row that hold its least and its greatest x
	pos   token.Pos
	lists map[*Term]bool // the lists of segments that are drawn
	none  []Outcome      // the ways in which no voxel is set at all
}

// blank: nothing is entered on this path. It is decided by vacant, when the
// segments of the others are known.
func (x *voxCheck) blank(o Outcome, ss []site) bool {
	if len(ss) > 0 {
		return false
	}
	x.none = append(x.none, o)
	return true
}

// vacant: a slice is left without voxels only if it has no segments.
func (x *voxCheck) vacant() {
	mt := x.c.p.Type("gl", "Mesh")
	for _, o := range x.none {
		// no triangle, no segment
		ok := mt != nil && prove(o.st.facts, Le(Len(x.c.fld(App("deref", mt, x.mesh), mt, "Triangles")), Int(0)))
		for l := range x.lists {
			ok = ok || prove(o.st.facts, Le(Len(l), Int(0)))
		}
		x.c.ob("vacant", ok, x.pos, "no voxel is set although the slice may have segments, when %v", o.st.facts)
	}
}

// segList: the lists of segments whose points the cells belong to.
func (x *voxCheck) segList(v *Term) {
	if x.lists == nil {
		x.lists = map[*Term]bool{}
	}
	mentions(v, func(t *Term) bool {
		if t.op == OApp && t.s == "elem" && x.e.summ[t.args[0]] != nil {
			x.lists[t.args[0]] = true
		}
		return false
	})
}

// site is one place where a map gets an entry.
type site struct {
	key, val *Term
	facts    *Facts
	sum      *Summary
	it       *IterPath
}

// sites lists the places where the entries of a map come from.
func (x *voxCheck) sites(t *Term, f *Facts, sum *Summary, it *IterPath, seen map[*Term]bool, out *[]site) error {
	switch {
	case t.op == ONil || t.op == OApp && t.s == "map0":
		return nil
	case t.op == OApp && t.s == "mset":
		*out = append(*out, site{t.args[1], t.args[2], f, sum, it})
		return x.sites(t.args[0], f, sum, it, seen, out)
	case t.op == OApp && t.s == "mdel":
		return x.sites(t.args[0], f, sum, it, seen, out)
	case x.e.summ[t] != nil:
		if seen[t] {
			return nil
		}
		seen[t] = true
		s := x.e.summ[t]
		if s.phi.init == nil {
			return fmt.Errorf("the map a loop starts with is not known: %s", str(t))
		}
		if err := x.sites(s.phi.init, f, sum, it, seen, out); err != nil {
			return err
		}
		for _, i := range s.loop.iters {
			if b := i.back[t]; b != nil {
				if err := x.sites(b, i.facts, s, i, seen, out); err != nil {
					return err
				}
			}
		}
		return nil
	case x.e.joins[t] != nil:
		for _, a := range x.e.joins[t] {
			if err := x.sites(a.val, f.AddAll(a.facts), sum, it, seen, out); err != nil {
				return err
			}
		}
		return nil
	}
	return fmt.Errorf("entries of unknown origin: %s", str(t))
}

// keyed lists the maps the sites look up: those keyed by a cell and those keyed by a row.
func (x *voxCheck) keyed(ss []site) (cells, rows []*Term) {
	seen := map[*Term]bool{}
	for _, s := range ss {
		for _, l := range append([]*Term{s.key}, s.facts.lits...) {
			mentions(l, func(t *Term) bool {
				if t.op == OApp && (t.s == "mget" || t.s == "mgetz" || t.s == "mok") && !seen[t.args[0]] && x.e.summ[t.args[0]] != nil {
					seen[t.args[0]] = true
					if len(comps(t.args[1])) == 3 {
						cells = append(cells, t.args[0])
					} else if polyIsInt(P(t.args[1])) {
						rows = append(rows, t.args[0])
					}
				}
				return false
			})
		}
	}
	return cells, rows
}

func (x *voxCheck) setup(name string) (fn *ssa.Function, as []*Term, f *Facts, typ types.Type) {
	c := x.c
	typ = c.p.Type("binvox", "BinVOX")
	c.need(typ != nil, "no type BinVOX")
	fn = c.fn("binvox", "BinVOX."+name)
	as, f = args(fn)
	rcv := App("deref", typ, as[0])
	for i, n := range []string{"NX", "NY", "NZ"} {
		x.dims[i] = c.fld(rcv, typ, n)
		f = f.AddAll([]*Term{GE(Sub(x.dims[i], Int(1)))})
	}
	for i, n := range []string{"TX", "TY", "TZ"} {
		x.tr[i] = c.fld(rcv, typ, n)
	}
	x.sc = c.fld(rcv, typ, "Scale")
	f = f.AddAll([]*Term{GT(x.sc)})
	x.e = NewEng(c.p)
	x.e.cap, x.e.joinAbove = 256, 256
	x.e.noMerge = true
	x.perMM = Mul(MaxMin("max", x.dims[0], x.dims[1], x.dims[2]), Inv(x.sc))
	return fn, as, f, typ
}

func (c *Check) outlines() {
	c.rule("the loops that enter cells into the map the slice is filled from: the cell is an affine function of the iteration along one axis (step one) and takes steps of nothing or one along the other; the first and last cells are the cells of the two ends of the segment; a carried number is, by induction over the iterations, a multiple of the distance from the ideal line and never exceeds half a voxel; the rows entered hold the extent of their cells, and the fill visits each row over its extent and sets every cell entered.")
	x := &voxCheck{c: c}
	fn, as, f, typ := x.setup("VoxelizeZ")
	x.mesh, x.zi, x.pos = as[1], as[2], fn.Pos()
	n := 0
	for _, o := range c.run(x.e, fn, as, f) {
		if o.kind != "ret" || !succeeds(o) {
			continue
		}
		n++
		x.fin = x.e.mapContent(o.st, x.e.load(o.st, addStep(as[0], c.fldStep(typ, "WhiteVoxels"))))
		x.ext = map[[2]int]bool{}
		for i := 0; i < 64; i++ {
			x.ext[[2]int{i / 8, i % 8}] = true
		}
		x.drawn(o)
	}
	x.vacant()
	c.ob("succeeds", n > 0, fn.Pos(), "the slice is never voxelized")
	c.atLeast("line", 8)
	c.atLeast("fill", 1)
}

func (x *voxCheck) drawn(o Outcome) {
	c := x.c
	var ss []site
	err := x.sites(x.fin, o.st.facts, nil, nil, map[*Term]bool{}, &ss)
	c.need(err == nil, "the voxels set: %v", err)
	if x.blank(o, ss) {
		return
	}
	cells, rows := x.keyed(ss)
	c.need(len(cells) == 1, "the cells of the outline are not collected in one map (%d)", len(cells))
	var ps []site
	err = x.sites(cells[0], o.st.facts, nil, nil, map[*Term]bool{}, &ps)
	c.need(err == nil, "the cells of the outline: %v", err)
	lines := map[*Loop]*Summary{}
	for _, s := range ps {
		if !c.ob("plot", s.sum != nil, x.pos, "a cell is entered outside of a loop") {
			return
		}
		i0 := initOf2(s.sum.loop)
		for _, t := range comps(s.key) {
			x.segList(subst(t, i0, map[*Term]*Term{}))
		}
		lines[s.sum.loop] = s.sum
	}
	// a loop around another that enters cells is not a line
	for l := range lines {
		for _, it := range l.iters {
			if hasEv(it.events, func(ev *Event) bool { return ev.loop != nil && ev.loop != l && lines[ev.loop] != nil }) {
				delete(lines, l)
				break
			}
		}
	}
	if !c.ob("extent", len(rows) == 1, x.pos, "the extents of the rows are not collected in one map (%d)", len(rows)) {
		return
	}
	x.rows = rows[0]
	isLine := func(ev *Event) bool { return ev.loop != nil && lines[ev.loop] != nil }
	// each segment is drawn once
	first := true
	err = once(o.st.trace.list(), o.st.facts, nil, isLine, func(ev *Event, path []*Event, stack []LoopAt) {
		if !first && len(stack) == 0 {
			return
		}
		first = false
		c.counts["segment path"]++
		x.line(lines[ev.loop], stack)
	})
	c.ob("each", err == nil, x.pos, "a segment is not drawn exactly once: %v", err)
	x.fill(o, cells[0], rows, ss)
}

// end: the point whose cell this is.
func (x *voxCheck) end(k []*Term) *Term {
	var v *Term
	for i := 0; i < 2; i++ {
		t := k[i]
		if !(t.op == OApp && t.s == "floor") {
			return nil
		}
		p := Mul(Add(t.args[0], Mul(x.perMM, x.tr[i])), Inv(x.perMM))
		if !(p.op == OApp && p.s == fmt.Sprintf("fld%d", i)) || i > 0 && p.args[0] != v {
			return nil
		}
		v = p.args[0]
	}
	return v
}

// line: one loop draws the segment of the iteration around it.
func (x *voxCheck) line(s *Summary, stack []LoopAt) {
	c, l := x.c, s.loop
	bad := func(k, f string, a ...interface{}) {
		c.ob(k, false, l.pos, f, a...)
	}
	if len(stack) == 0 {
		bad("each", "the segments are not drawn one after another")
		return
	}
	at := stack[len(stack)-1]
	exit := at.it.facts
	outer := carried(at.loop, s.phi.base)
	if outer == nil {
		bad("each", "the cells of the segments are not collected in one map")
		return
	}
	// the cell of an iteration
	var K []*Term
	for _, it := range l.iters {
		b := it.back[s.phi.sym]
		if b == s.phi.sym {
			continue
		}
		if !(b.op == OApp && b.s == "mset" && b.args[0] == s.phi.sym) || K != nil && !sameTerms(comps(b.args[1]), K) {
			bad("line", "an iteration does not enter one cell")
			return
		}
		K = comps(b.args[1])
	}
	if len(K) != 3 {
		bad("line", "no cell is entered")
		return
	}
	c.ob("slice", proveEq(exit, K[2], x.zi), l.pos, "a cell of another slice is entered: z = %s", str(K[2]))
	// steps
	var st [2][]int64
	for _, it := range l.iters {
		m := withN(l, it)
		for i := 0; i < 2; i++ {
			d, ok := constInt(Sub(subst(K[i], m, map[*Term]*Term{}), K[i]))
			if !ok {
				bad("line", "an iteration moves the cell by an unknown distance along axis %d", i)
				return
			}
			st[i] = append(st[i], d)
		}
	}
	maj := -1
	for i := 0; i < 2; i++ {
		one := st[i][0] == 1 || st[i][0] == -1
		for _, d := range st[i] {
			one = one && d == st[i][0]
		}
		if one && maj < 0 {
			maj = i
		}
	}
	if maj < 0 {
		bad("line", "the cells do not advance by one along one axis: steps %v", st)
		return
	}
	min := 1 - maj
	sM, sm := st[maj][0], int64(0)
	for _, d := range st[min] {
		if d != 0 && (d != 1 && d != -1 || sm != 0 && d != sm) {
			bad("line", "the cells move by %v along the other axis", st[min])
			return
		}
		if d != 0 {
			sm = d
		}
	}
	if sm == 0 {
		sm = 1
	}
	// the ends
	i0 := initOf2(l)
	var A []*Term
	for i := 0; i < 2; i++ {
		A = append(A, subst(K[i], i0, map[*Term]*Term{}))
	}
	v := x.end(A)
	if v == nil {
		bad("end", "the first cell (%s, %s) is not the cell of a point at %s voxels per millimetre", str(A[0]), str(A[1]), str(x.perMM))
		return
	}
	var B []*Term
	tail := false
	ends := func(n *Term) bool {
		for _, f := range l.exits {
			if !proveEq(f, l.n, n) {
				return false
			}
		}
		return len(l.exits) > 0
	}
	for _, q := range x.others(v, l.facts) {
		B = q
		n := Mul(Int(sM), Sub(B[maj], A[maj]))
		if ends(Add(n, Int(1))) {
			break
		}
		if ends(n) {
			// the last cell is entered after the loop
			tail = true
			break
		}
		B = nil
	}
	if B == nil {
		bad("end", "the line does not end at the cell of the other end of the segment that starts at %s", str(v))
		return
	}
	c.ob("segments", x.covered(v, stack) == "", l.pos, "not every segment is drawn: %s", x.covered(v, stack))
	dM := Mul(Int(sM), Sub(B[maj], A[maj]))
	dm := Mul(Int(sm), Sub(B[min], A[min]))
	c.ob("octant", prove(l.facts, GE(dm)) && prove(l.facts, Le(dm, dM)), l.pos, "the line runs along axis %d in steps of %d, and by %d along the other, although that may not be its direction", maj, sM, sm)
	// the distance from the ideal line
	why := "no number carried from iteration to iteration measures the distance from the ideal line"
	for _, p := range l.phis {
		if p.typ != nil && !isIntType(p.typ) || p.init == nil || p.sym == s.phi.sym {
			continue
		}
		for _, a := range []int64{1, -1, 2, -2} {
			match := true
			for i, it := range l.iters {
				want := Mul(Int(a), Sub(dm, Mul(Int(st[min][i]*sm), dM)))
				match = match && it.back[p.sym] != nil && proveEq(it.facts, Sub(it.back[p.sym], p.sym), want)
			}
			if !match {
				continue
			}
			why = ""
			E := func(t *Term) *Term { return MulK(Sub(t, p.init), 2, a) }
			inv := func(t *Term) []*Term { return []*Term{Le(E(t), dM), Le(Neg(dM), E(t))} }
			for _, g := range inv(p.init) {
				if !prove(l.facts, g) {
					why = "it may be off the ideal line at the start"
				}
			}
			for i, it := range l.iters {
				f, ok := assumeAll(it.facts, inv(p.sym))
				if !ok {
					continue
				}
				for _, g := range inv(it.back[p.sym]) {
					if !prove(f, g) {
						why = fmt.Sprintf("a cell may be more than half a voxel from the ideal line after a step of %d", st[min][i])
					}
				}
			}
		}
	}
	c.ob("line", why == "", l.pos, "the line along axis %d in steps of %d: %s", maj, sM, why)
	for _, it := range l.iters {
		x.entered(l, it, s.phi.sym, it.back[s.phi.sym], K)
	}
	if tail {
		x.entered(at.loop, at.it, s.phi.sym, at.it.back[outer.sym], K)
	} else {
		c.ob("stray", at.it.back[outer.sym] == s.phi.sym, l.pos, "a cell besides those of the line is entered")
	}
}

// carried: the loop's location that starts as, or ends as, the given value.
func carried(l *Loop, base *Term) *PhiInfo {
	for _, p := range l.phis {
		if p.base == base {
			return p
		}
	}
	return nil
}

// entered: on the way the cell is entered, or was before, or lies outside of the region; and
// its row knows.
func (x *voxCheck) entered(l *Loop, it *IterPath, from, to *Term, K []*Term) {
	c := x.c
	if from == to {
		has := false
		for _, li := range it.facts.lits {
			mentions(li, func(t *Term) bool {
				if t.op == OApp && (t.s == "mgetz" || t.s == "mget") && t.args[0] == from && sameTerms(comps(t.args[1]), K) && prove(it.facts, GE(Sub(Len(t), Int(1)))) {
					has = true
				}
				return false
			})
		}
		if !has {
			c.ob("left", prove(it.facts, x.outside(K)), l.pos, "a cell of the line inside the region may be left out when %v", it.newFacts(l))
			return
		}
		c.ob("left", true, l.pos, "")
	} else if !c.ob("entry", to != nil && to.op == OApp && to.s == "mset" && to.args[0] == from && sameTerms(comps(to.args[1]), K) && prove(it.facts, GE(Sub(Len(to.args[2]), Int(1)))), l.pos, "the cell entered is not the next one, or it is entered without a triangle: %s", str(to)) {
		return
	}
	// the rows before and after
	base := x.e.summ[x.rows].phi.base
	p := carried(l, base)
	if !c.ob("extent", p != nil, l.pos, "drawing a line does not update the extents of the rows") {
		return
	}
	rf, rt := p.sym, it.back[p.sym]
	if s := x.e.summ[from]; s != nil && s.loop != l {
		// after the loop inside
		q := carried(s.loop, base)
		if !c.ob("extent", q != nil, l.pos, "drawing a line does not update the extents of the rows") {
			return
		}
		rf = q.sym
	}
	x.extent(l, it, rf, rt, K)
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// covered: the loops around visit every segment of the list the point is taken from.
func (x *voxCheck) covered(v *Term, stack []LoopAt) string {
	var el *Term
	mentions(v, func(t *Term) bool {
		if t.op == OApp && t.s == "elem" && x.e.summ[t.args[0]] != nil {
			el = t
		}
		return false
	})
	if el == nil {
		return fmt.Sprintf("%s is not of a list of segments", str(v))
	}
	l, why := covers(x.e, el.args[1], Int(0), Int(1), Len(el.args[0]), stack)
	if l == nil {
		return why
	}
	return ""
}

// others: the cells of the points other than v that the facts speak of.
func (x *voxCheck) others(v *Term, f *Facts) [][]*Term {
	var xs, ys []*Term
	seen := map[*Term]bool{}
	for _, l := range f.lits {
		mentions(l, func(t *Term) bool {
			if t.op == OApp && t.s == "floor" && !seen[t] {
				seen[t] = true
				xs, ys = append(xs, t), append(ys, t)
			}
			return false
		})
	}
	var r [][]*Term
	for _, a := range xs {
		for _, b := range ys {
			if w := x.end([]*Term{a, b}); w != nil && w != v && len(w.args) == 1 && len(v.args) == 1 && w.args[0] == v.args[0] {
				r = append(r, []*Term{a, b})
			}
		}
	}
	return r
}

// row: the fields of the entry of a row.
func (x *voxCheck) row(st *State, m, y *Term, f *Facts) (v *Term, in *Term) {
	mt, ok := under(m.typ).(*types.Map)
	if !ok {
		return nil, nil
	}
	v, in = mapGet(m, y, mt.Elem(), f)
	if _, ok := under(mt.Elem()).(*types.Pointer); ok {
		v = x.e.load(st, v)
	}
	return v, in
}

// extent: a row holds the least and the greatest x of the cells entered on a way that takes the
// rows from one state to another.
func (x *voxCheck) extent(l *Loop, it *IterPath, from, to *Term, K []*Term) {
	c := x.c
	mt, _ := under(from.typ).(*types.Map)
	if !c.ob("extent", mt != nil && to != nil, l.pos, "drawing a line does not update the extents of the rows") {
		return
	}
	after, in := x.row(it.st, to, K[1], it.facts)
	before, had := mapGet(from, K[1], mt.Elem(), it.facts)
	if pt, ok := under(mt.Elem()).(*types.Pointer); ok {
		before = App("deref", pt.Elem(), before)
	}
	if after == nil || !prove(it.facts, in) {
		c.ob("extent", false, l.pos, "a cell may be entered without the extent of its row")
		return
	}
	st, ok := under(x.rowType(from.typ)).(*types.Struct)
	if !c.ob("extent", ok, l.pos, "the extent of a row is not a structure") {
		return
	}
	for p := range x.ext {
		if p[0] >= st.NumFields() || p[1] >= st.NumFields() || !isIntType(st.Field(p[0]).Type()) || !isIntType(st.Field(p[1]).Type()) {
			delete(x.ext, p)
			continue
		}
		of := func(t *Term, i int) *Term { return fieldOf(t, i, st.Field(i).Type()) }
		lo, hi := of(before, p[0]), of(before, p[1])
		f := it.facts
		if g, ok := f.Assume(Or(Not(had), Le(lo, hi))); ok {
			f = g
		}
		good := prove(f, Le(of(after, p[0]), K[0])) && prove(f, Le(K[0], of(after, p[1])))
		if g, ok := it.facts.Assume(had); ok && good && valid(g) {
			good = prove(g, Le(of(after, p[0]), lo)) && prove(g, Le(hi, of(after, p[1])))
		}
		if !good {
			delete(x.ext, p)
		}
	}
	c.ob("extent", len(x.ext) > 0, l.pos, "the extent of a row may not hold a cell entered when %v", it.newFacts(l))
}

func (x *voxCheck) rowType(t types.Type) types.Type {
	r := under(t).(*types.Map).Elem()
	if p, ok := under(r).(*types.Pointer); ok {
		r = p.Elem()
	}
	return r
}

func (x *voxCheck) outside(K []*Term) *Term {
	return Not(And(GE(K[1]), Lt(K[1], x.dims[1]), Lt(K[0], x.dims[0])))
}

// fill: every cell entered inside the region is set.
func (x *voxCheck) fill(o Outcome, cells *Term, rows []*Term, ss []site) {
	c := x.c
	loops := map[*Loop]*Summary{}
	for _, s := range ss {
		if s.sum != nil {
			loops[s.sum.loop] = s.sum
		}
	}
	if !c.ob("fill", len(loops) == 1 && len(rows) == 1, x.pos, "the cells of the slice are not set in one loop over each row") {
		return
	}
	isFill := func(ev *Event) bool { return ev.loop != nil && loops[ev.loop] != nil }
	err := once(o.st.trace.list(), o.st.facts, nil, isFill, func(ev *Event, path []*Event, stack []LoopAt) {
		s := loops[ev.loop]
		l := ev.loop
		c.counts["fill path"]++
		if !c.ob("rows", len(stack) == 1, l.pos, "the fill does not run once for each row") {
			return
		}
		at := stack[0]
		var K []*Term
		for _, it := range l.iters {
			b := it.back[s.phi.sym]
			if b.op == OApp && b.s == "mset" && b.args[0] == s.phi.sym {
				K = comps(b.args[1])
			}
		}
		if !c.ob("fill", len(K) == 3, l.pos, "no cell is set") {
			return
		}
		var key *Term
		for _, ev := range at.it.events {
			if ev.kind == "mapiter" && ev.args[2] == rows[0] && hasMarker(ev.args[1], at.loop.marker) {
				key = ev.args[1]
			}
		}
		done := false
		for _, y := range at.exit.lits {
			done = done || y.op == OApp && y.s == "exhausted" && strings.HasSuffix(y.args[0].s, at.loop.marker)
		}
		if !c.ob("rows", key != nil && done && proveEq(at.it.facts, K[1], key), l.pos, "the fill does not run over each row entered") {
			return
		}
		lst := []LoopAt{{l, l.iters[0], at.it.facts}}
		in, first, step := iterVar(K[0], lst)
		if !c.ob("fill", in != nil && step == Int(1), l.pos, "the cells of a row are not taken one after another") {
			return
		}
		v, _ := x.row(at.it.st, rows[0], key, at.it.facts)
		good := false
		for p := range x.ext {
			from := fieldOf(v, p[0], types.Typ[types.Int])
			to := fieldOf(v, p[1], types.Typ[types.Int])
			e1 := proveSplit(at.it.facts, Or(Le(first, from), Le(first, Int(0))))
			e2 := proveSplit(at.it.facts, Or(Lt(to, K[0]), Le(x.dims[0], K[0])))
			good = good || e1 && e2
		}
		c.ob("fill", good, l.pos, "the fill of a row may leave out cells: it starts at %s and may end when %v", str(first), at.it.newFacts(at.loop))
		for _, it := range l.iters {
			b := it.back[s.phi.sym]
			if b.op == OApp && b.s == "mset" && sameTerms(comps(b.args[1]), K) {
				continue
			}
			some := false
			for _, li := range it.facts.lits {
				mentions(li, func(t *Term) bool {
					some = some || t.op == OApp && (t.s == "mgetz" || t.s == "mget") && t.args[0] == cells && sameTerms(comps(t.args[1]), K) && prove(it.facts, Le(Len(t), Int(0)))
					return false
				})
			}
			c.ob("set", some || prove(it.facts, Or(Lt(K[0], Int(0)), Le(x.dims[0], K[0]))), l.pos, "a cell of the outline may be left out of the voxels when %v", it.newFacts(l))
		}
	})
	c.ob("fill", err == nil, x.pos, "the cells of a row are not filled exactly once: %v", err)
}

// ---------------------------------------------------------------- C04

func (c *Check) slices() {
	c.rule("every key entered into the voxels of a slice lies inside the region and in the slice (the keys of the maps it is computed from are bounded where they are entered); each segment of the slice joins points of two different edges of one triangle at the height of the middle of the slice, and no triangle with corners on both sides of that height is passed over; the whole region is made of one call of the same function with the same arguments for each slice, and both add exactly the cells that function reports.")
	x := &voxCheck{c: c}
	fn, as, f, typ := x.setup("VoxelizeZ")
	x.e.cap, x.e.joinAbove, x.e.unrollCap = 512, 512, 512 // the ways in which three edges meet a slice are kept apart
	x.mesh, x.zi, x.pos = as[1], as[2], fn.Pos()
	outs := c.run(x.e, fn, as, f)
	n := 0
	for _, o := range outs {
		if o.kind == "exit" || o.kind == "panic" {
			continue
		}
		if !c.ob("succeeds", succeeds(o), fn.Pos(), "the slice of a region of a positive size may not be voxelized when %v", o.st.facts) {
			continue
		}
		n++
		x.fin = x.e.mapContent(o.st, x.e.load(o.st, addStep(as[0], c.fldStep(typ, "WhiteVoxels"))))
		x.region(o)
	}
	x.vacant()
	c.ob("succeeds", n > 0, fn.Pos(), "the slice is never voxelized")
	x.whole(fn, as, f, typ)
	c.atLeast("x range", 2)
	c.atLeast("y range", 2)
	c.atLeast("point", 6)
	c.atLeast("crossing", 6)
	c.atLeast("column", 8)
	c.atLeast("same", 3)
}

// bounded adds what is known of the keys of maps: their bounds hold where they are entered.
func (x *voxCheck) bounded(f *Facts, o Outcome, seen map[*Term]bool) *Facts {
	var add []*Term
	for _, l := range f.lits {
		if !(l.op == OApp && l.s == "mok") || seen[l] {
			continue
		}
		seen[l] = true
		var ss []site
		if err := x.sites(l.args[0], o.st.facts, nil, nil, map[*Term]bool{}, &ss); err != nil {
			continue
		}
		parts := func(k *Term) []*Term {
			if cs := comps(k); cs != nil {
				return cs
			}
			return []*Term{k}
		}
		for i, k := range parts(l.args[1]) {
			if !polyIsInt(P(k)) {
				continue
			}
			cands := []func(t *Term) *Term{
				func(t *Term) *Term { return GE(t) },
				func(t *Term) *Term { return Lt(t, x.dims[0]) },
				func(t *Term) *Term { return Lt(t, x.dims[1]) },
				func(t *Term) *Term { return Lt(t, x.dims[2]) },
				func(t *Term) *Term { return Eq(t, x.zi) },
			}
			for _, cand := range cands {
				all := true
				for _, s := range ss {
					ps := parts(s.key)
					g := x.bounded(s.facts, o, seen)
					all = all && i < len(ps) && prove(g, cand(ps[i]))
				}
				if all {
					add = append(add, cand(k))
				}
			}
		}
	}
	return f.AddAll(add)
}

func (x *voxCheck) region(o Outcome) {
	c := x.c
	var ss []site
	err := x.sites(x.fin, o.st.facts, nil, nil, map[*Term]bool{}, &ss)
	c.need(err == nil, "the voxels set: %v", err)
	if x.blank(o, ss) {
		return
	}
	for _, s := range ss {
		k := comps(s.key)
		c.need(len(k) == 3, "the voxels are not keyed by three numbers")
		f := x.bounded(s.facts, o, map[*Term]bool{})
		pos := x.pos
		if s.sum != nil {
			pos = s.sum.loop.pos
		}
		for i, n := range []string{"x", "y"} {
			c.ob(n+" range", prove(f, GE(k[i])) && prove(f, Lt(k[i], x.dims[i])), pos, "a voxel with %s = %s outside of the region may be set", n, str(k[i]))
		}
		c.ob("slice", proveEq(f, k[2], x.zi), pos, "a voxel of another slice may be set: z = %s", str(k[2]))
	}
	cells, _ := x.keyed(ss)
	if !c.ob("outline", len(cells) == 1, x.pos, "the cells of the outline are not collected in one map (%d)", len(cells)) {
		return
	}
	var ps []site
	err = x.sites(cells[0], o.st.facts, nil, nil, map[*Term]bool{}, &ps)
	c.need(err == nil, "the cells of the outline: %v", err)
	lists := map[*Term]bool{}
	for _, s := range ps {
		if s.sum == nil {
			continue
		}
		l := s.sum.loop
		i0 := initOf2(l)
		var A []*Term
		for _, t := range comps(s.key) {
			A = append(A, subst(t, i0, map[*Term]*Term{}))
		}
		if len(A) != 3 || x.within(s, l) {
			continue
		}
		v := x.end(A)
		if !c.ob("column", v != nil, l.pos, "the first cell of a line, (%s, %s), is not the cell of a point at the voxels per millimetre and the origin of the region", str(A[0]), str(A[1])) {
			continue
		}
		mentions(v, func(t *Term) bool {
			if t.op == OApp && t.s == "elem" && x.e.summ[t.args[0]] != nil {
				lists[t.args[0]] = true
			}
			return false
		})
		x.segList(v)
	}
	if !c.ob("segments", len(lists) == 1, x.pos, "the segments of the slice are not collected in one list (%d)", len(lists)) {
		return
	}
	for l := range lists {
		x.segments(l, o.st.facts)
	}
}

// within: the cell is entered after a loop that enters the others of the line.
func (x *voxCheck) within(s site, l *Loop) bool {
	for _, it := range l.iters {
		if hasEv(it.events, func(ev *Event) bool {
			return ev.loop != nil && carried(ev.loop, s.sum.phi.base) != nil
		}) {
			return true
		}
	}
	return false
}

// segments: the list holds a segment for each triangle that crosses the slice.
func (x *voxCheck) segments(list *Term, exit *Facts) {
	c := x.c
	s := x.e.summ[list]
	l := s.loop
	c.need(s.phi.init != nil && Len(s.phi.init) == Int(0), "the list of segments is not empty at the start")
	mt := c.p.Type("gl", "Mesh")
	c.need(mt != nil, "no fauxgl.Mesh")
	tris := c.fld(App("deref", mt, x.mesh), mt, "Triangles")
	var used []*Term
	for _, it := range l.iters {
		used = append(used, x.e.behind(it.facts.lits)...)
	}
	el, why := eachElem(l, used, tris, exit)
	if !c.ob("triangles", el != nil, l.pos, "not every triangle of the mesh is cut: %s", why) {
		return
	}
	tt := c.p.Type("gl", "Triangle")
	vt := c.p.Type("gl", "Vertex")
	var P3 [3][]*Term
	for i, n := range []string{"V1", "V2", "V3"} {
		p := c.fld(c.fld(App("deref", tt, App("elem", types.NewPointer(tt), el.args...)), tt, n), vt, "Position")
		P3[i] = comps(p)
	}
	z := Add(x.tr[2], Mul(Add(x.zi, Rat(big.NewRat(1, 2))), Inv(x.perMM)))
	passed := 0
	for _, it := range l.iters {
		b := it.back[list]
		if b == list {
			passed++
			// none of the crossing triangles comes this way
			for _, h := range [][3]int64{{-1, 2, 3}, {-1, -2, 3}, {-1, 2, -3}, {1, -2, -3}, {1, 2, -3}, {1, -2, 3}, {0, -1, 2}, {0, 1, -2}, {-1, 0, 2}, {1, 0, -2}, {-1, 2, 0}, {1, -2, 0}} {
				// millimetres, and millionths of them
				for _, unit := range []int64{1, 1000000} {
					m := map[*Term]*Term{}
					for i := range P3 {
						m[P3[i][2]] = Add(z, Rat(big.NewRat(h[i], unit)))
					}
					ok := len(x.e.unjoined(substAll(it.newFacts(l), m), nil, m)) > 0
					c.ob("crossing", !ok, l.pos, "a triangle with corners %v (times 1/%d) above the middle of the slice may be passed over when %v", h, unit, it.newFacts(l))
				}
			}
			continue
		}
		v := appended(b, list)
		if !c.ob("segment", v != nil, l.pos, "an iteration does not add one segment: %s", str(b)) {
			continue
		}
		if _, ok := under(v.typ).(*types.Pointer); ok || v.op == OPtr {
			v = x.e.load(it.st, v)
		}
		var pts []*Term
		st, ok := under(elemType(list.typ)).(*types.Struct)
		if pt, isP := under(elemType(list.typ)).(*types.Pointer); isP {
			st, ok = under(pt.Elem()).(*types.Struct)
		}
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), c.p.Type("gl", "Vector")) {
					pts = append(pts, fieldOf(v, i, st.Field(i).Type()))
				}
			}
		}
		if !c.ob("segment", len(pts) == 2, l.pos, "a segment does not have two ends") {
			continue
		}
		for _, w := range x.e.unjoined(it.facts.lits, pts, nil) {
			on := [2]int{-1, -1}
			for k, p := range w.vals {
				for i := 0; i < 3; i++ {
					if on[k] < 0 && i != on[0] && x.onEdge(w.facts, comps(p), P3[i], P3[(i+1)%3], z) {
						on[k] = i
					}
				}
				c.ob("point", on[k] >= 0, l.pos, "end %d of a segment is not a point of an edge of the triangle, other than that of the first end, at the height %s: (%s)", k+1, str(z), str(p))
			}
		}
	}
	c.ob("passed", passed > 0, l.pos, "every triangle is taken to cross the slice")
}

// joined is one way in which values that were joined came about.
type joined struct {
	facts *Facts
	vals  []*Term
}

// behind lists the literals with what the values joined in them came from.
func (e *Eng) behind(lits []*Term) []*Term {
	r := append([]*Term(nil), lits...)
	seen := map[*Term]bool{}
	for i := 0; i < len(r); i++ {
		mentions(r[i], func(y *Term) bool {
			if !seen[y] {
				seen[y] = true
				for _, a := range e.joins[y] {
					r = append(append(r, a.facts...), a.val)
				}
			}
			return false
		})
	}
	return r
}

// unjoined takes values apart that were joined where paths met: the ways in which the literals
// can hold, with the values of each.
func (e *Eng) unjoined(lits, vals []*Term, m map[*Term]*Term) []joined {
	f, ok := assumeAll(emptyFacts, lits)
	if !ok {
		return nil
	}
	var s *Term
	for _, t := range append(append([]*Term(nil), lits...), vals...) {
		mentions(t, func(y *Term) bool {
			if s == nil && e.joins[y] != nil {
				s = y
			}
			return s != nil
		})
	}
	if s == nil {
		return []joined{{f, vals}}
	}
	var r []joined
	for i, a := range e.joins[s] {
		at := map[*Term]*Term{}
		for t, as := range e.joins {
			if len(as) == len(e.joins[s]) && as[i].group == a.group {
				v := as[i].val
				if m != nil {
					v = subst(v, m, map[*Term]*Term{})
				}
				at[t] = v
			}
		}
		fs := a.facts
		if m != nil {
			fs = substAll(fs, m)
		}
		all := append(append([]*Term(nil), fs...), substAll(lits, at)...)
		r = append(r, e.unjoined(all, substAll(vals, at), m)...)
	}
	return r
}

// onEdge: the point is the one of the edge from a to b at height z.
func (x *voxCheck) onEdge(f *Facts, p, a, b []*Term, z *Term) bool {
	if len(p) != 3 {
		return false
	}
	d := Sub(b[2], a[2])
	up := Sub(z, a[2])
	for i := 0; i < 3; i++ {
		want := Mul(up, Sub(b[i], a[i]))
		if !x.equalOver(Sub(p[i], a[i]), want, d) {
			return false
		}
	}
	t := Mul(up, Inv(d))
	return prove(f, GE(t)) && prove(f, Le(t, Int(1)))
}

// equalOver: t = num/den, where t is a polynomial in 1/den.
func (x *voxCheck) equalOver(t, num, den *Term) bool {
	var iv *Term
	mentions(t, func(y *Term) bool {
		if y.op == OApp && y.s == "inv" {
			iv = y
		}
		return false
	})
	if iv == nil {
		return Sub(Mul(t, den), num) == Int(0)
	}
	q := iv.args[0]
	at := func(k int64) *Term { return subst(t, map[*Term]*Term{iv: Int(k)}, map[*Term]*Term{}) }
	t0 := at(0)
	t1 := Sub(at(1), t0)
	if Sub(at(2), Add(t0, MulK(t1, 2, 1))) != Int(0) {
		return false
	}
	// t = t0 + t1/q
	return Sub(Mul(Add(Mul(t0, q), t1), den), Mul(num, q)) == Int(0)
}

// whole: the region is made of its slices.
func (x *voxCheck) whole(fz *ssa.Function, as []*Term, f *Facts, typ types.Type) {
	c := x.c
	fv := c.fn("binvox", "BinVOX.Voxelize")
	kt := c.p.Type("binvox", "Key")
	wt := c.p.Type("binvox", "WhiteVoxelMap")
	c.need(kt != nil && wt != nil, "no Key or WhiteVoxelMap")
	both := c.reached(fv)
	var g *ssa.Function
	for _, h := range c.callOrder(fz) {
		if both[h] && reports(h, kt, wt) && h != fz && h != fv {
			g = h
			break
		}
	}
	c.need(g != nil, "VoxelizeZ and Voxelize do not share a function that reports the cells of a slice")
	x.hooked(g, kt, wt)
	mem := addStep(as[0], c.fldStep(typ, "WhiteVoxels"))
	isG := func(ev *Event) bool { return ev.kind == "call" && ev.callee == g }
	// the calls of the slice
	var slices [][]*Term
	for _, o := range c.run(x.e, fz, as, f) {
		if o.kind != "ret" || !succeeds(o) {
			continue
		}
		var call *Event
		err := once(o.st.trace.list(), o.st.facts, nil, isG, func(ev *Event, path []*Event, stack []LoopAt) { call = ev })
		if !c.ob("once", err == nil && call != nil, fz.Pos(), "the slice is not computed exactly once: %v", err) {
			return
		}
		m := x.e.mapContent(o.st, x.e.load(o.st, mem))
		c.ob("same", x.adds(m, call, nil), fz.Pos(), "the voxels of the slice are not the cells reported: %s", str(m))
		slices = append(slices, call.args)
	}
	if !c.ob("once", len(slices) == 1, fz.Pos(), "a slice is computed in %d ways", len(slices)) {
		return
	}
	n := 0
	bs := []*Term{as[0], as[1]}
	c.need(len(fv.Params) == 2, "Voxelize does not take a mesh")
	x.hooked(g, kt, wt)
	for _, o := range c.run(x.e, fv, bs, f) {
		if o.kind != "ret" {
			continue
		}
		if !c.ob("succeeds", succeeds(o), fv.Pos(), "a region of a positive size may not be voxelized when %v", o.st.facts) {
			continue
		}
		n++
		m := x.e.mapContent(o.st, x.e.load(o.st, mem))
		err := once(o.st.trace.list(), o.st.facts, nil, isG, func(ev *Event, path []*Event, stack []LoopAt) {
			if !c.ob("same", len(stack) == 1, fv.Pos(), "the slices are not computed in one loop") {
				return
			}
			zi := stack[0].loop.n
			for i, a := range slices[0] {
				if a == x.zi && i < len(ev.args) {
					zi = ev.args[i]
				}
			}
			_, why := covers(x.e, zi, Int(0), Int(1), x.dims[2], stack)
			if why != "" {
				// from the last to the first
				_, why2 := covers(x.e, Sub(Sub(x.dims[2], Int(1)), zi), Int(0), Int(1), x.dims[2], stack)
				if why2 == "" {
					why = ""
				}
			}
			c.ob("each slice", why == "", ev.pos, "the slices of the region are not computed once each: %s", why)
			for i, a := range slices[0] {
				if a.op == OClosure || i < len(ev.args) && ev.args[i].op == OClosure {
					continue
				}
				if types.Identical(g.Params[i].Type(), wt) {
					continue
				}
				want := subst(a, map[*Term]*Term{x.zi: zi}, map[*Term]*Term{})
				c.ob("same", i < len(ev.args) && proveEq(stack[0].it.facts, ev.args[i], want), ev.pos, "slice %s of the region is computed with %s where the slice alone is computed with %s", str(zi), str(ev.args[i]), str(want))
			}
			s := x.e.summ[m]
			ok := s != nil && s.loop == stack[0].loop && isEmptyMap(s.phi.init)
			if ok {
				ok = x.adds(stack[0].it.back[m], ev, m)
			}
			c.ob("same", ok, ev.pos, "the voxels of the region are not the cells reported for its slices: %s", str(m))
		})
		c.ob("once", err == nil, fv.Pos(), "the slices of the region: %v", err)
	}
	c.ob("succeeds", n > 0, fv.Pos(), "the region is never voxelized")
}

func isEmptyMap(t *Term) bool { return t == nil || t.op == ONil || t.op == OApp && t.s == "map0" }

// callOrder lists the functions of the repository that a function calls, nearest first.
func (c *Check) callOrder(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{fn: true}
	r := []*ssa.Function{fn}
	for i := 0; i < len(r); i++ {
		for _, b := range r[i].Blocks {
			for _, ins := range b.Instrs {
				add := func(f *ssa.Function) {
					if f != nil && !seen[f] && c.p.own(f) {
						seen[f] = true
						r = append(r, f)
					}
				}
				if cc, ok := ins.(ssa.CallInstruction); ok {
					add(cc.Common().StaticCallee())
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	return r
}

func (c *Check) reached(fn *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range c.callOrder(fn) {
		m[f] = true
	}
	return m
}

// reports: the function is given a way to report cells, or a map to add them to.
func reports(fn *ssa.Function, kt, wt types.Type) bool {
	if fn.Parent() != nil {
		return false
	}
	for _, p := range fn.Params {
		if types.Identical(p.Type(), wt) || isReport(p.Type(), kt) {
			return true
		}
	}
	return false
}

func isReport(t types.Type, kt types.Type) bool {
	s, ok := under(t).(*types.Signature)
	return ok && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), kt)
}

// hooked: an engine that takes the function as one that reports a cell.
func (x *voxCheck) hooked(g *ssa.Function, kt, wt types.Type) {
	e := NewEng(x.c.p)
	e.joinAbove = 64
	e.noMerge = true
	e.hook = func(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool) {
		if fn != g {
			return nil, false
		}
		k := e.freshSym(ps.State, "cell@"+e.siteID(site), kt)
		k = expandStruct(k, under(kt).(*types.Struct))
		var rs []*Term
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rs = append(rs, e.freshSym(ps.State, fmt.Sprintf("res%d@%s", i, e.siteID(site)), fn.Signature.Results().At(i).Type()))
		}
		ps.emit(&Event{kind: "call", fn: fn.RelString(nil), callee: fn, args: args, res: []*Term{k}, pos: site.Pos()})
		for i, a := range args {
			switch {
			case types.Identical(fn.Params[i].Type(), wt):
				b := mapBase(a)
				ps.set(b, App("mset", wt, e.mapContent(ps.State, a), k, zeroValue(under(wt).(*types.Map).Elem())))
			case isReport(fn.Params[i].Type(), kt) && a.op == OClosure:
				outs := e.execFn(a.fn, []*Term{k}, a.args, ps.State, "/cell@"+e.siteID(site))
				if len(outs) != 1 || outs[0].kind != "ret" {
					e.fail("reporting a cell has %d outcomes", len(outs))
				}
				ps.State = outs[0].st
			}
		}
		return ret(ps, rs...), true
	}
	x.e = e
}

// adds: the map is the base with exactly the cell reported by the call.
func (x *voxCheck) adds(m *Term, call *Event, base *Term) bool {
	if !(m != nil && m.op == OApp && m.s == "mset" && sameTerms(comps(m.args[1]), comps(call.res[0]))) {
		return false
	}
	if base == nil {
		return isEmptyMap(m.args[0])
	}
	return m.args[0] == base
}
