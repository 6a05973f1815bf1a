package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01, C02, C03: the surfaces made of voxels.

func init() {
	checks["C01"] = func(c *Check) {
		c.rule("for each of the 256 ways in which the eight voxels around a cell can be there or not, the triangles the cell contributes (taken from the summary of one iteration over the cells) have no open edge inside of the cell, the open edges on each side of it depend on the four voxels of that side only and are the reverse of those of the neighbouring cell, and each of them separates voxels from empty space the right way round; every voxel of both kinds registers all of its eight cells.")
		m := newMesh(c, "MarchingCubes")
		m.surfaces()
		m.closed(false)
		c.atLeast("inner edges", 255)
		c.atLeast("side", 6*255)
		c.atLeast("winding", 500)
		c.atLeast("registered", 2)
	}
	checks["C02"] = func(c *Check) {
		c.rule("as C01, with the edges split at the points of the half-voxel lattice that lie on them.")
		m := newMesh(c, "ManifoldMesh")
		m.one = true
		m.surfaces()
		m.closed(true)
		c.atLeast("cell", 6*255)
		c.atLeast("registered", 2)
	}
	checks["C03"] = func(c *Check) {
		c.rule("for each of the 256 kinds of cell, every vertex of a marching-cubes triangle lies, at the scale and translation of the model and whatever the index of the cell, halfway between the centres of two adjacent voxels around the cell of which one is there; every vertex of a manifold triangle lies on the half-voxel lattice within half a voxel of the common corner of the eight; for the cube mesh one voxel with the index of each element of both maps of voxels is handed to the library, the matrices applied to what it returns take the voxel to its place, and nothing else is done to the mesh.")
		for _, name := range []string{"MarchingCubes", "ManifoldMesh"} {
			m := newMesh(c, name)
			m.surfaces()
			if len(m.corners) == 8 {
				m.placed(name == "MarchingCubes")
			}
		}
		c.atLeast("vertex", 2*500)
		m := &meshCheck{voxCheck: voxCheck{c: c}}
		m.cubes()
		c.atLeast("registered", 4)
		c.atLeast("voxels", 2)
		c.atLeast("moved", 3)
	}
}

// placed: the vertices of the triangles are where they should be.
func (m *meshCheck) placed(mid bool) {
	for set, ts := range m.tris {
		for _, t := range ts {
			for _, p := range t {
				why := ""
				if mid {
					why = m.midpoint(set, p)
				} else {
					for d := range p {
						if r := p[d] - 4*(m.lo[d]+1); r != -2 && r != 0 && r != 2 {
							why = fmt.Sprintf("a vertex at %v (in quarters of a voxel), which is not on the half-voxel lattice around the corner shared by the voxels", p)
						}
					}
				}
				m.c.ob("vertex:"+m.fn.Name()+":"+cfgName(set), why == "", m.pos, "the cell with corners %s: %s", cfgName(set), why)
			}
		}
	}
}

// midpoint: the point is halfway between the centres of two adjacent voxels of which one is there.
func (m *meshCheck) midpoint(set int, p ipt) string {
	for d := 0; d < 3; d++ {
		for hi := 0; hi < 2; hi++ {
			if a, b, ok := m.between(p, side{d, hi}); ok {
				if set>>a&1 == set>>b&1 {
					return fmt.Sprintf("a vertex at %v (in quarters of a voxel), between two voxels that are both there or both missing", p)
				}
				return ""
			}
		}
	}
	return fmt.Sprintf("a vertex at %v (in quarters of a voxel), which is not halfway between the centres of two adjacent voxels", p)
}

// cubes: the cube mesh.
func (m *meshCheck) cubes() {
	c := m.c
	m.fn, m.as, m.f, m.typ = m.setup("ToMesh")
	m.pos = m.fn.Pos()
	rcv := App("deref", m.typ, m.as[0])
	for _, n := range []string{"WhiteVoxels", "ColorVoxels"} {
		m.maps = append(m.maps, c.fld(rcv, m.typ, n))
	}
	mt := c.p.Type("gl", "Mesh")
	vt := c.p.Type("gl", "Voxel")
	c.need(mt != nil && vt != nil, "no fauxgl.Mesh")
	const build, move = "the voxel mesh", "the movement of the mesh"
	m.e.hook = func(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "fauxgl" {
			return nil, false
		}
		switch fn.RelString(fn.Pkg.Pkg) {
		case "NewVoxelMesh":
			o := e.newObj(ps.State, "mesh@"+e.siteID(site), mt, e.freshSym(ps.State, "mesh@"+e.siteID(site), mt))
			r := Ptr(o)
			ps.emit(&Event{kind: "call", fn: build, args: []*Term{e.seqOf(ps.State, args[0])}, res: []*Term{r, e.load(ps.State, r)}, pos: site.Pos()})
			return ret(ps, r), true
		case "(*Mesh).Transform":
			ps.emit(&Event{kind: "call", fn: move, args: args, pos: site.Pos()})
			return ret(ps), true
		case "(*Mesh).BoundingBox":
			return ret(ps, e.freshSym(ps.State, "box@"+e.siteID(site), fn.Signature.Results().At(0).Type())), true
		}
		return nil, false
	}
	n := 0
	for _, o := range c.run(m.e, m.fn, m.as, m.f) {
		if !c.ob("returns", o.kind == "ret", o.pos, "no mesh is returned: %s", o.kind) {
			continue
		}
		n++
		var made *Event
		var moves []*Event
		bad := ""
		for _, ev := range o.st.trace.list() {
			switch {
			case ev.kind == "call" && ev.fn == build:
				if made != nil {
					bad = "more than one mesh is made"
				}
				made = ev
			case ev.kind == "call" && ev.fn == move:
				moves = append(moves, ev)
			}
		}
		if !c.ob("made", made != nil && bad == "" && o.res[0] == made.res[0], o.pos, "what is returned is not the one mesh made of the voxels") {
			continue
		}
		c.ob("kept", m.e.load(o.st, o.res[0]) == made.res[1], o.pos, "the mesh is changed other than by moving it")
		m.listed(o, made.args[0], vt)
		var p, q [3]*Term
		for i, s := range []string{"x", "y", "z"} {
			p[i] = Sym("a point's "+s, types.Typ[types.Float64])
			q[i] = p[i]
		}
		ok := true
		for _, ev := range moves {
			rows := comps(ev.args[1])
			if ev.args[0] != made.res[0] || len(rows) != 16 {
				ok = false
				break
			}
			at := q
			for r := range q {
				s := rows[4*r+3]
				for k := range at {
					s = Add(s, Mul(rows[4*r+k], at[k]))
				}
				q[r] = s
			}
		}
		if !c.ob("moved", ok, o.pos, "the mesh is moved in an unknown way") {
			continue
		}
		half := Rat(big.NewRat(1, 2))
		for i := range q {
			// the library's voxel i reaches from i-1/2 to i+1/2
			want := Add(m.tr[i], Mul(Inv(m.perMM), Add(p[i], half)))
			c.ob("moved", Sub(q[i], want) == Int(0), o.pos, "the point %d of a voxel is moved to %s, not to %s", i, str(q[i]), str(want))
		}
	}
	c.ob("returns", n > 0, m.pos, "no mesh is returned")
}

// listed: the list has one voxel for each element of both maps.
func (m *meshCheck) listed(o Outcome, list *Term, vt types.Type) {
	c := m.c
	seen := map[*Term]int{}
	for m.e.summ[list] != nil {
		s := m.e.summ[list]
		l := s.loop
		ex := exhausted(l.marker)
		all := false
		for _, t := range o.st.facts.lits {
			all = all || t == ex
		}
		for _, it := range l.iters {
			var from, key *Term
			for _, ev := range it.events {
				if ev.kind == "mapiter" {
					from, key = ev.args[0], ev.args[1]
				}
			}
			if !c.ob("voxels", from != nil && all, l.pos, "the voxels of the mesh are not taken from whole maps") {
				return
			}
			parts := catParts(m.e.seqOf(it.st, it.back[list]))
			ok := len(parts) == 2 && parts[0] == list && parts[1].op == OArray && len(parts[1].args) == 1
			if ok {
				ks := comps(key)
				for i, n := range []string{"X", "Y", "Z"} {
					ok = ok && len(ks) == 3 && c.fld(parts[1].args[0], vt, n) == ks[i]
				}
			}
			c.ob("voxels", ok, l.pos, "the mesh does not get exactly the voxel at the key of each element: %s", str(it.back[list]))
			seen[from]++
		}
		list = s.phi.init
	}
	c.ob("voxels", Len(list) == Int(0), m.pos, "the mesh gets other voxels: %s", str(list))
	for i, mp := range m.maps {
		c.ob("voxels", seen[mp] == 1, m.pos, "the %s voxels are not entered in the mesh exactly once", []string{"white", "colour"}[i])
	}
}

type ipt [3]int64 // a point in units of a quarter of a voxel, relative to the cell's index

type iedge [2]ipt

type tri [3]ipt

type meshCheck struct {
	voxCheck
	fn   *ssa.Function
	as   []*Term
	f    *Facts
	typ  types.Type
	maps []*Term // the voxel maps
	regs map[*Term]*regs

	corners [][3]int64 // voxels around a cell, relative to its index
	lo      [3]int64
	key     []*Term // of the cell looked at
	set     int     // the corners that are there
	strayed string
	tris    [][]tri // by set
	has     []bool
	one     bool // one obligation for each kind of cell
}

func (m *meshCheck) ob(kind string, set int, ok bool, pos token.Pos, f string, a ...interface{}) bool {
	if m.one {
		kind = "cell"
	}
	return m.c.ob(kind+":"+cfgName(set), ok, pos, f, a...)
}

// regs tells at which cells a voxel is registered.
type regs struct {
	regs []reg
	loop []*Loop
	bad  string
}

type reg struct {
	off [3]int64
	val *Term
	or  bool
}

func newMesh(c *Check, name string) *meshCheck {
	m := &meshCheck{voxCheck: voxCheck{c: c}, regs: map[*Term]*regs{}}
	m.fn, m.as, m.f, m.typ = m.setup(name)
	m.pos = m.fn.Pos()
	rcv := App("deref", m.typ, m.as[0])
	for _, n := range []string{"WhiteVoxels", "ColorVoxels"} {
		m.maps = append(m.maps, c.fld(rcv, m.typ, n))
	}
	return m
}

// offset is the constant distance of two keys.
func offset(a, b []*Term) (d [3]int64, ok bool) {
	if len(a) != 3 || len(b) != 3 {
		return d, false
	}
	for i := range a {
		if d[i], ok = constInt(Sub(a[i], b[i])); !ok {
			return d, false
		}
	}
	return d, true
}

// registered: how the voxels are entered in a map keyed by cells; nil if it is not such a map.
func (m *meshCheck) registered(content *Term) *regs {
	if r, ok := m.regs[content]; ok {
		return r
	}
	r := &regs{}
	seen := map[*Term]bool{}
	t := content
	n := 0
	for m.e.summ[t] != nil {
		s := m.e.summ[t]
		l := s.loop
		r.loop = append(r.loop, l)
		var here []reg
		for i, it := range l.iters {
			var from, key *Term
			for _, ev := range it.events {
				if ev.kind == "mapiter" {
					from, key = ev.args[0], ev.args[1]
				}
			}
			if from == nil || from != m.maps[0] && from != m.maps[1] {
				return nil
			}
			if i > 0 {
				r.bad = "the voxels are not all registered in the same way"
				break
			}
			seen[from] = true
			b := it.back[t]
			for b != t {
				if !(b.op == OApp && b.s == "mset") {
					r.bad = "a voxel is registered in an unknown way: " + str(b)
					break
				}
				k := comps(b.args[1])
				off, ok := offset(k, comps(key))
				if !ok {
					r.bad = "the cells a voxel is registered at are not at constant distances from it: " + str(b.args[1])
					break
				}
				g := reg{off: off, val: b.args[2]}
				if g.val.op == OApp && g.val.s == "bor" {
					g.or = true
					var c *Term
					for _, a := range g.val.args {
						if _, isC := constInt(a); isC && c == nil {
							c = a
						} else if !(a.op == OApp && a.s == "mgetz" && sameTerms(comps(a.args[1]), k)) {
							r.bad = "what is registered is not what was there before with something added: " + str(g.val)
						}
					}
					g.val = c
				}
				if g.val == nil || mentions(g.val, func(y *Term) bool { return y.op == OSym }) {
					r.bad = "what is registered is not a constant: " + str(b.args[2])
					break
				}
				dup := false
				for _, h := range here {
					dup = dup || h.off == g.off // a later entry replaces it
				}
				if !dup {
					here = append(here, g)
				}
				b = b.args[0]
			}
		}
		sort.Slice(here, func(i, j int) bool { return fmt.Sprint(here[i].off) < fmt.Sprint(here[j].off) })
		if n > 0 && !sameRegs(here, r.regs) {
			r.bad = "white and colour voxels are registered at different cells"
		}
		r.regs = here
		n++
		t = s.phi.init
	}
	if n == 0 || !isEmptyMap(t) {
		return nil
	}
	if r.bad == "" && !(seen[m.maps[0]] && seen[m.maps[1]]) {
		r.bad = "the voxels of one kind, white or colour, are not registered"
	}
	m.regs[content] = r
	return r
}

func sameRegs(a, b []reg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// value is what such a map holds for the cell at the given distance from the one looked at.
func (m *meshCheck) value(r *regs, d [3]int64, vt types.Type) (v, ok *Term) {
	v, ok = zeroValue(vt), Bool(false)
	for _, g := range r.regs {
		p := [3]int64{d[0] - g.off[0], d[1] - g.off[1], d[2] - g.off[2]}
		j := -1
		for i, c := range m.corners {
			if c == p {
				j = i
			}
		}
		if j < 0 {
			m.strayed = fmt.Sprintf("what a cell contributes depends on the voxel at %v from it, which is not one of its corners", p)
			continue
		}
		if m.set&(1<<j) == 0 {
			continue
		}
		ok = Bool(true)
		if g.or {
			v = BOr(v, g.val)
		} else {
			v = g.val
		}
	}
	return v, ok
}

// surfaces computes the triangles of each kind of cell.
func (m *meshCheck) surfaces() {
	c := m.c
	m.e.hook = func(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool) {
		if fn.Name() == "FixNormals" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "fauxgl" {
			return ret(ps), true
		}
		return nil, false
	}
	var cellLoops *regs
	m.e.onIter = func(ps *PS, ct, k, v *Term, mt *types.Map) []iterAlt {
		r := m.registered(ct)
		if r == nil {
			return []iterAlt{{ps, v}}
		}
		m.key = comps(k)
		cellLoops = r
		if m.corners == nil {
			for _, g := range r.regs {
				m.corners = append(m.corners, [3]int64{-g.off[0], -g.off[1], -g.off[2]})
			}
		}
		if r.bad == "" {
			w, _ := m.value(r, [3]int64{}, mt.Elem())
			return []iterAlt{{ps, w}}
		}
		return []iterAlt{{ps, v}}
	}
	m.e.onGet = func(ps *PS, ct, k *Term, vt types.Type) (v, ok *Term) {
		r := m.registered(ct)
		if r == nil || m.key == nil || r.bad != "" {
			return nil, nil
		}
		d, known := offset(comps(k), m.key)
		if !known {
			return nil, nil
		}
		return m.value(r, d, vt)
	}
	m.tris = make([][]tri, 256)
	m.has = make([]bool, 256)
	onIter, onGet, hook := m.e.onIter, m.e.onGet, m.e.hook
	for m.set = 0; m.set < 256; m.set++ {
		if m.set == 0 {
			m.has[0] = true // a cell without voxels is not there
			if m.corners != nil {
				continue
			}
		}
		if m.set > 0 {
			m.e = m.e.fresh()
			m.e.hook, m.e.onIter, m.e.onGet = hook, onIter, onGet
			m.e.cap, m.e.joinAbove, m.e.unrollCap = 64, 64, 64
			m.regs = map[*Term]*regs{}
		}
		m.key, m.strayed = nil, ""
		outs := c.run(m.e, m.fn, m.as, m.f)
		if m.set == 0 {
			if !c.ob("registered", cellLoops != nil, m.pos, "there is no map of cells in which the voxels are registered") {
				return
			}
			for range cellLoops.loop {
				c.ob("registered", cellLoops.bad == "", m.pos, "%s", cellLoops.bad)
			}
			if cellLoops.bad != "" || !m.block() {
				return
			}
			// in the order of the corners from now on
			continue
		}
		c.ob("corners", m.strayed == "", m.pos, "%s", m.strayed)
		m.cell(outs)
	}
}

// block: the corners are those of a cube.
func (m *meshCheck) block() bool {
	c := m.c
	seen := map[[3]int64]bool{}
	for i, p := range m.corners {
		seen[p] = true
		for d := range p {
			if i == 0 || p[d] < m.lo[d] {
				m.lo[d] = p[d]
			}
		}
	}
	var full [][3]int64
	why := ""
	for i := 0; i < 8; i++ {
		p := [3]int64{m.lo[0] + int64(i&1), m.lo[1] + int64(i>>1&1), m.lo[2] + int64(i>>2&1)}
		full = append(full, p)
		if !seen[p] {
			why = fmt.Sprintf("the cell at %v from a voxel it touches is not registered", [3]int64{-p[0], -p[1], -p[2]})
		}
	}
	if len(seen) != 8 && why == "" {
		why = fmt.Sprintf("a voxel is registered at %d cells, not at the eight that touch it", len(seen))
	}
	m.corners = full
	return c.ob("registered", why == "", m.pos, "%s", why)
}

func cfgName(set int) string { return fmt.Sprintf("%08b", set) }

// cell takes the triangles of one kind of cell from the outcomes.
func (m *meshCheck) cell(outs []Outcome) {
	c := m.c
	n := 0
	mt := c.p.Type("gl", "Mesh")
	tt := c.p.Type("gl", "Triangle")
	vt := c.p.Type("gl", "Vertex")
	c.need(mt != nil && tt != nil && vt != nil, "no fauxgl.Mesh")
	for _, o := range outs {
		if !c.ob("returns", o.kind == "ret", o.pos, "no mesh is returned: %s", o.kind) {
			continue
		}
		n++
		if !c.ob("one way", n == 1, m.pos, "the cell with corners %s contributes triangles in more than one way", cfgName(m.set)) {
			return
		}
		list := c.fld(m.e.load(o.st, o.res[0]), mt, "Triangles")
		list = m.e.seqOf(o.st, list)
		if Len(list) == Int(0) {
			// such cells contribute nothing
			m.tris[m.set], m.has[m.set] = nil, true
			continue
		}
		s := m.e.summ[list]
		if !c.ob("list", s != nil && s.phi.init != nil && Len(s.phi.init) == Int(0), m.pos, "the triangles of the mesh are not those collected from the cells: %s", str(list)) {
			return
		}
		l := s.loop
		var cells *Term
		for _, it := range l.iters {
			for _, ev := range it.events {
				if ev.kind == "mapiter" && m.registered(ev.args[2]) != nil {
					cells = ev.args[2]
				}
			}
		}
		ex := exhausted(l.marker)
		all := false
		for _, t := range o.st.facts.lits {
			all = all || t == ex
		}
		c.ob("every cell", cells != nil && all, l.pos, "not every cell contributes to the mesh")
		if !c.ob("one way", len(l.iters) == 1, l.pos, "the cell with corners %s contributes triangles in %d ways", cfgName(m.set), len(l.iters)) {
			return
		}
		it := l.iters[0]
		var ts []tri
		parts := catParts(m.e.seqOf(it.st, it.back[list]))
		ok := len(parts) > 0 && parts[0] == list
		for _, p := range parts[min(1, len(parts)):] {
			var els []*Term
			switch {
			case p.op == OArray:
				els = p.args
			case Len(p) == Int(0):
			default:
				ok = false
			}
			for _, el := range els {
				v := m.e.load(it.st, el)
				var t tri
				for i, n := range []string{"V1", "V2", "V3"} {
					pos := comps(c.fld(c.fld(v, tt, n), vt, "Position"))
					if len(pos) != 3 {
						ok = false
						break
					}
					for d := range pos {
						q := Sub(Mul(Sub(pos[d], m.tr[d]), m.perMM), m.key[d])
						r, num := constNum(q)
						if !num {
							c.ob("point", false, l.pos, "the cell with corners %s: a vertex is not at a constant distance from its cell at the scale and translation of the model: %s", cfgName(m.set), str(pos[d]))
							return
						}
						r4 := new(big.Rat).Mul(r, big.NewRat(4, 1))
						if !r4.IsInt() {
							c.ob("point", false, l.pos, "the cell with corners %s: a vertex at %s of a voxel from its cell", cfgName(m.set), r.RatString())
							return
						}
						t[i][d] = r4.Num().Int64()
					}
				}
				ts = append(ts, t)
			}
		}
		if !c.ob("list", ok, l.pos, "the cell with corners %s does not add its triangles to the list: %s", cfgName(m.set), str(it.back[list])) {
			return
		}
		m.tris[m.set] = ts
		m.has[m.set] = true
		c.counts["triangles"] += len(ts)
	}
	c.ob("returns", n > 0, m.pos, "no mesh is returned")
}

// centre of corner i of a cell.
func (m *meshCheck) centre(i int) ipt {
	p := m.corners[i]
	return ipt{4*p[0] + 2, 4*p[1] + 2, 4*p[2] + 2}
}

// open lists the directed edges that are not matched by their opposite.
func open(ts []tri, split bool) map[iedge]int {
	net := map[iedge]int{}
	add := func(p, q ipt) {
		if net[iedge{q, p}] > 0 {
			net[iedge{q, p}]--
			if net[iedge{q, p}] == 0 {
				delete(net, iedge{q, p})
			}
			return
		}
		net[iedge{p, q}]++
	}
	for _, t := range ts {
		for i := range t {
			p, q := t[i], t[(i+1)%3]
			if p == q {
				continue
			}
			if !split {
				add(p, q)
				continue
			}
			// at the points of the half-voxel lattice that lie on it
			g := int64(0)
			for d := range p {
				g = gcd64(g, abs64(q[d]-p[d]))
			}
			if g%2 != 0 {
				add(p, q)
				continue
			}
			steps := g / 2
			prev := p
			for k := int64(1); k <= steps; k++ {
				var n ipt
				for d := range n {
					n[d] = p[d] + (q[d]-p[d])/steps*k
				}
				add(prev, n)
				prev = n
			}
		}
	}
	return net
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

type side struct {
	d, hi int
}

// faceOf: the side of the cell in which an edge lies, if it lies in exactly one.
func (m *meshCheck) faceOf(e iedge) (side, bool) {
	var r side
	n := 0
	for d := 0; d < 3; d++ {
		for hi := 0; hi < 2; hi++ {
			at := 4*(m.lo[d]+int64(hi)) + 2
			if e[0][d] == at && e[1][d] == at {
				r = side{d, hi}
				n++
			}
		}
	}
	return r, n == 1
}

// pattern is the set of the corners on a side.
func (m *meshCheck) pattern(set int, s side) int {
	p, n := 0, 0
	for i := 0; i < 8; i++ {
		if i>>s.d&1 == s.hi {
			p |= (set >> i & 1) << n
			n++
		}
	}
	return p
}

func edgesKey(es []iedge) string {
	var r []string
	for _, e := range es {
		r = append(r, fmt.Sprint(e))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// closed: the open edges of each kind of cell are matched by those of its neighbours.
func (m *meshCheck) closed(split bool) {
	if m.lo == ([3]int64{}) && len(m.corners) == 0 {
		return
	}
	faces := map[int]map[side][]iedge{}
	for set := 0; set < 256; set++ {
		if !m.has[set] {
			continue
		}
		faces[set] = map[side][]iedge{}
		why := ""
		for e, n := range open(m.tris[set], split) {
			s, ok := m.faceOf(e)
			if !ok || n != 1 {
				why = fmt.Sprintf("the edge from %v to %v (in quarters of a voxel) is open", e[0], e[1])
				continue
			}
			faces[set][s] = append(faces[set][s], e)
		}
		if set > 0 {
			m.ob("inner edges", set, why == "", m.pos, "the cell with corners %s: %s inside of the cell", cfgName(set), why)
		}
	}
	// what a side shows, as seen in the plane of the low side, the high side reversed
	norm := func(s side, es []iedge) string {
		var r []iedge
		for _, e := range es {
			if s.hi == 1 {
				e[0][s.d] -= 4
				e[1][s.d] -= 4
				e[0], e[1] = e[1], e[0]
			}
			r = append(r, e)
		}
		return edgesKey(r)
	}
	for d := 0; d < 3; d++ {
		for p := 0; p < 16; p++ {
			votes := map[string]int{}
			for hi := 0; hi < 2; hi++ {
				for set := 0; set < 256; set++ {
					if faces[set] != nil && m.pattern(set, side{d, hi}) == p {
						votes[norm(side{d, hi}, faces[set][side{d, hi}])]++
					}
				}
			}
			best := ""
			delete(votes, "") // a surface passes through a side of which some corners are there
			for k, n := range votes {
				if n > votes[best] || n == votes[best] && k < best {
					best = k
				}
			}
			if p == 0 || p == 15 {
				best = ""
			}
			for hi := 0; hi < 2; hi++ {
				s := side{d, hi}
				for set := 1; set < 256; set++ {
					if faces[set] == nil || m.pattern(set, s) != p {
						continue
					}
					got := norm(s, faces[set][s])
					m.ob("side", set, got == best, m.pos, "the cell with corners %s: its open edges on side %d/%d are not matched by those of the cell on that side: %s, not %s", cfgName(set), d, hi, got, best)
					m.winding(set, s, faces[set][s])
				}
			}
		}
	}
}

// winding: open edges go between voxels and empty space, with the voxels on the inner side.
func (m *meshCheck) winding(set int, s side, es []iedge) {
	touched := map[ipt]int{}
	for _, e := range es {
		// out: in the side, away from the solid
		var n, dir, out [3]int64
		n[s.d] = 2*int64(s.hi) - 1
		for i := range dir {
			dir[i] = e[1][i] - e[0][i]
		}
		for i := range out {
			j, k := (i+1)%3, (i+2)%3
			out[i] = n[j]*dir[k] - n[k]*dir[j]
		}
		why := ""
		ends := 0
		for _, p := range e {
			a, b, ok := m.between(p, s)
			if !ok {
				continue
			}
			ends++
			touched[p]++
			for _, q := range []int{a, b} {
				ctr := m.centre(q)
				dot := int64(0)
				for i := range ctr {
					dot += (ctr[i] - p[i]) * out[i]
				}
				if dot == 0 || (dot < 0) != (set>>q&1 == 1) {
					why = fmt.Sprintf("the edge from %v to %v on side %d/%d does not have the solid on its inner side", e[0], e[1], s.d, s.hi)
				}
			}
		}
		if ends == 0 {
			why = fmt.Sprintf("the edge from %v to %v on side %d/%d does not start or end between two voxels", e[0], e[1], s.d, s.hi)
		}
		m.ob("winding", set, why == "", m.pos, "the cell with corners %s: %s", cfgName(set), why)
	}
	// where solid and empty meet there is an edge
	for a := 0; a < 8; a++ {
		for b := a + 1; b < 8; b++ {
			if a>>s.d&1 != s.hi || b>>s.d&1 != s.hi || set>>a&1 == set>>b&1 {
				continue
			}
			if x := a ^ b; x != 1 && x != 2 && x != 4 {
				continue
			}
			p, q := m.centre(a), m.centre(b)
			var mid ipt
			for i := range mid {
				mid[i] = (p[i] + q[i]) / 2
			}
			m.ob("border", set, touched[mid] > 0, m.pos, "the cell with corners %s: no surface passes between the voxels at %v and %v, only one of which is there", cfgName(set), m.corners[a], m.corners[b])
		}
	}
}

// between: the two corners of a side halfway between which the point lies.
func (m *meshCheck) between(p ipt, s side) (a, b int, ok bool) {
	for a := 0; a < 8; a++ {
		for b := a + 1; b < 8; b++ {
			if a>>s.d&1 != s.hi || b>>s.d&1 != s.hi {
				continue
			}
			if x := a ^ b; x != 1 && x != 2 && x != 4 {
				continue
			}
			u, v := m.centre(a), m.centre(b)
			if (ipt{(u[0] + v[0]) / 2, (u[1] + v[1]) / 2, (u[2] + v[2]) / 2}) == p {
				return a, b, true
			}
		}
	}
	return 0, 0, false
}
