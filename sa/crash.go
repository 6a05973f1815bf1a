package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: no request can crash a server.
//
// Every method of a type that is registered with a gRPC server is run on an arbitrary request, in
// an arbitrary state of the server. Each operation on the way that may panic is an obligation. What
// the path conditions do not decide - that the elements of a list, a channel or a map are never nil -
// is shown by induction over how the list was built.

func init() { checks["C15"] = checkC15 }

type handler struct {
	fn *ssa.Function
	t  *types.Named
}

// handlers are the methods that gRPC servers call.
func (c *Check) handlers() []handler {
	var res []handler
	seen := map[string]bool{}
	for _, fn := range c.p.allFns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.Name(), "Register") || !strings.HasSuffix(g.Name(), "Server") || len(ci.Common().Args) != 2 {
					continue
				}
				it, ok := under(ci.Common().Args[1].Type()).(*types.Interface)
				if !ok {
					continue
				}
				if strings.HasPrefix(c.p.fnName(fn), c.p.fnName(g)) {
					continue
				}
				mi, ok := ci.Common().Args[1].(*ssa.MakeInterface)
				if !c.ob("registered:"+c.p.fnName(fn), ok, ins.Pos(), "the server registered with %s is of a type that is not known", g.Name()) {
					continue
				}
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					h := c.p.prog.LookupMethod(mi.X.Type(), m.Pkg(), m.Name())
					c.need(h != nil && len(h.Blocks) > 0, "no method %s of %v", m.Name(), mi.X.Type())
					if !seen[h.String()] {
						seen[h.String()] = true
						t, _ := baseNamed(mi.X.Type())
						res = append(res, handler{h, t})
					}
				}
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].fn.String() < res[j].fn.String() })
	return res
}

func baseNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// setUp: wherever a value of the struct type is made, the field is set to something that is not nil, and
// it is set to nothing else later.
func (c *Check) setUp(t *types.Named, field int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || field >= st.NumFields() {
		return false
	}
	made, all := 0, true
	for _, fn := range c.p.allFns() {
		var allocs []ssa.Value
		stored := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					if types.Identical(pointee(x.Type()), t) {
						allocs = append(allocs, x)
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if ok && fa.Field == field && types.Identical(pointee(fa.X.Type()), t) {
						switch x.Val.(type) {
						case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeChan, *ssa.MakeClosure:
							stored[fa.X] = true
						default:
							all = false
						}
					}
					if types.Identical(x.Val.Type(), t) {
						if _, zero := x.Val.(*ssa.Const); zero {
							all = false
						}
					}
				}
			}
		}
		for _, a := range allocs {
			made++
			if !stored[a] {
				all = false
			}
		}
	}
	return made > 0 && all
}

type crash struct {
	c      *Check
	e      *Eng
	h      handler
	rcv    *Term
	hyp    map[pathOf]bool
	depth  int
	meshes []*Term // the triangles of meshes
}

func checkC15(c *Check) {
	c.rule("every method of every type registered with a gRPC server is interpreted on an arbitrary request and server state; every dereference, index, slice, division, allocation, conversion, map write and channel operation reached must be safe under the path condition; that elements of lists, channels and maps are not nil is shown by induction over the loop that builds them; no path may end the program or panic; images have bounded sizes.")
	hs := c.handlers()
	m := c.fn("binvox", "BinVOX.ManifoldMesh")
	for _, h := range append(hs, handler{fn: m}) {
		c.counts["handler"]++
		x := &crash{c: c, h: h}
		x.run()
	}
	c.atLeast("handler", 10)
	c.atLeast("image", 2)
}

const meshFn = "(*binvox.BinVOX).ManifoldMesh"

// contract replaces the mesh builder, which is run on its own, by what its own run shows: it returns a
// mesh, none of whose triangles is nil.
func (x *crash) contract(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool) {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "image" && strings.HasPrefix(fn.Name(), "New") && len(args) > 0 {
		x.image(ps, args[0], site)
		return nil, false
	}
	if x.c.p.fnName(fn) != meshFn || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	e.nilCheck(ps, args[0], site.Pos(), site.Parent())
	mt := pointee(fn.Signature.Results().At(0).Type())
	id := "mesh@" + e.siteID(site)
	v := e.freshSym(ps.State, id, mt)
	x.meshes = append(x.meshes, x.c.fld(v, mt, "Triangles"))
	return ret(ps, Ptr(e.newObj(ps.State, id, mt, v))), true
}

const maxImage = 1 << 20

// image: the size of an image is known to be bounded.
func (x *crash) image(ps *PS, r *Term, site ssa.Instruction) {
	var as []*Term
	switch {
	case r.op == OApp && strings.HasSuffix(r.s, "image.Rect") && len(r.args) == 4:
		as = r.args
	case r.op == OStruct && len(r.args) == 2 && r.args[0].op == OStruct && r.args[1].op == OStruct:
		as = append(append(as, r.args[0].args...), r.args[1].args...)
	}
	ok := len(as) == 4
	for i := 0; ok && i < 2; i++ {
		d := Sub(as[i+2], as[i])
		ok = x.proved(ps, GE(d)) && x.proved(ps, Le(d, Int(maxImage)))
	}
	x.c.ob("image:"+x.c.p.fnName(site.Parent()), ok, site.Pos(), "the size %s of the image is not bounded when %v", str(r), ps.facts)
}

// proved: the goal follows from the path condition, or was checked in every iteration of a loop that has
// run at least once.
func (x *crash) proved(ps *PS, g *Term) bool {
	if prove(ps.facts, g) {
		return true
	}
	for _, ev := range ps.trace.list() {
		l := ev.loop
		if l == nil || l.n == nil || hasMarker(g, l.marker) || len(l.iters) == 0 {
			continue
		}
		all := x.proveLen(ps.facts, GE(Sub(l.n, Int(1))))
		for _, it := range l.iters {
			all = all && prove(it.facts, g)
		}
		if all {
			return true
		}
	}
	return false
}

func (x *crash) run() {
	c, fn := x.c, x.h.fn
	key := c.p.fnName(fn)
	e := NewEng(c.p)
	x.e = e
	if x.h.t == nil {
		e.cap = 2
	}
	as, f := args(fn)
	x.rcv = as[0]
	f = f.AddAll([]*Term{Not(Eq(as[0], Nil(as[0].typ)))})
	if x.h.t == nil || c.p.fnName(fn) != meshFn {
		e.hook = x.contract
	}
	outs := c.run(e, fn, as, f)
	for _, o := range outs {
		c.ob("ends:"+key, o.kind == "ret", o.pos, "the handler may end with a %s when %v", o.kind, o.st.facts)
	}
	if x.h.t == nil {
		x.hyp = map[pathOf]bool{}
		mt := c.p.Type("gl", "Mesh")
		c.need(mt != nil, "no fauxgl.Mesh")
		for _, o := range outs {
			if o.kind != "ret" {
				continue
			}
			ok := x.nonNil(o.res[0], o.st.facts, o.st)
			if ok {
				l := c.fld(e.load(o.st, o.res[0]), mt, "Triangles")
				if q := e.seqOf(o.st, l); q != nil {
					l = q
				}
				ok = x.forAll(l, hole, o.st.facts, o.st)
			}
			c.ob("triangles:"+key, ok, fn.Pos(), "%s may return no mesh, or a mesh with a nil triangle", key)
		}
	}
	for _, ev := range e.exits {
		c.ob("exits:"+key, false, ev.pos, "the handler may end the program")
	}
	for _, o := range e.goExits {
		c.ob("exits:"+key, false, o.pos, "a goroutine of the handler may end the program: %s", o.kind)
	}
	for _, ob := range e.obls {
		if ob.kind == "lock-balance" || ob.kind == "recv-blocks" {
			continue
		}
		ok := ob.ok || x.safe(ob)
		c.ob(fmt.Sprintf("%s:%s", ob.kind, c.p.fnName(ob.in)), ok, ob.pos, "may fail (%s): %v when %v", ob.kind, ob.what, ob.facts)
	}
}

// safe tries to show what the path condition alone does not.
func (x *crash) safe(ob *Obl) bool {
	x.hyp = map[pathOf]bool{}
	w := ob.what
	if t := nonNilGoal(w); t != nil {
		if k, ok := x.field(t); ok && x.c.setUp(x.h.t, k) {
			return true
		}
		return x.nonNil(t, ob.facts, nil)
	}
	return x.longer(ob)
}

// field: the value is a field of the server itself.
func (x *crash) field(t *Term) (int, bool) {
	if t.op == OApp && strings.HasPrefix(t.s, "fld") && t.args[0].op == OApp && t.args[0].s == "deref" && t.args[0].args[0] == x.rcv {
		k, err := strconv.Atoi(t.s[3:])
		return k, err == nil
	}
	return 0, false
}

// longer: the goal follows once the length of each list that grows by a fixed number in every iteration
// of its loop is known.
func (x *crash) longer(ob *Obl) bool {
	g, m := ob.what, map[*Term]*Term{}
	var more []*Term
	for t, s := range x.e.summ {
		if s == nil || s.phi == nil || s.phi.init == nil || s.loop.n == nil || !mentions(g, func(u *Term) bool { return u == t }) {
			continue
		}
		var d *Term
		for _, it := range s.loop.iters {
			b := it.back[t]
			if b == nil {
				d = nil
				break
			}
			k := Sub(Len(b), Len(t))
			if _, ok := constInt(k); !ok || d != nil && d != k {
				d = nil
				break
			}
			d = k
		}
		if d != nil {
			m[Len(t)] = Add(Len(s.phi.init), Mul(d, s.loop.n))
			more = append(more, GE(s.loop.n))
		}
	}
	return len(m) > 0 && x.proveLen(ob.facts.AddAll(more), subst(g, m, map[*Term]*Term{}))
}

// proveLen: lengths are not negative.
func (x *crash) proveLen(f *Facts, g *Term) bool {
	var more []*Term
	for _, l := range f.lits {
		mentions(l, func(t *Term) bool {
			if t.op == OApp && t.s == "len" {
				more = append(more, GE(t))
			}
			return false
		})
	}
	return prove(f.AddAll(more), g)
}

// nonNilGoal: the term the goal says is not nil.
func nonNilGoal(g *Term) *Term {
	if g.op != ONot || g.args[0].op != OEq {
		return nil
	}
	a := g.args[0].args
	if a[0].op == ONil {
		return a[1]
	}
	if a[1].op == ONil {
		return a[0]
	}
	return nil
}

// hole stands for an element of a container in an access path.
var hole = Sym("element", nil)

type pathOf struct{ c, w *Term }

// spine: t, what t is read from, and so on.
func spine(t *Term) []*Term {
	var res []*Term
	for {
		res = append(res, t)
		if t.op == OApp && len(t.args) > 0 && (strings.HasPrefix(t.s, "fld") || t.s == "deref" || t.s == "elem" || t.s == "mget" || t.s == "mgetz") {
			t = t.args[0]
			continue
		}
		if t.op == OPtr && t.args[0].op != OObj {
			t = t.args[0]
			continue
		}
		return res
	}
}

// nonNil: the value is never nil.
func (x *crash) nonNil(t *Term, f *Facts, st *State) bool {
	if neverNil(t) {
		return true
	}
	if t.op == ONil {
		return false
	}
	if f.Entails(Not(Eq(t, Nil(t.typ)))) || f.Entails(GT(Int(-1))) {
		return true
	}
	h := pathOf{t, hole}
	if x.hyp[h] {
		return true
	}
	if as := x.e.joins[t]; len(as) > 0 {
		for _, a := range as {
			g := f.AddAll(a.facts)
			if !x.nonNil(a.val, g, st) {
				return false
			}
		}
		return true
	}
	if s := x.e.summ[t]; s != nil && s.phi != nil && s.phi.init != nil {
		x.hyp[h] = true
		if !x.nonNil(s.phi.init, s.loop.entry, nil) {
			return false
		}
		for _, it := range s.loop.iters {
			if b := it.back[t]; b != nil && !x.nonNil(b, it.facts, it.st) {
				return false
			}
		}
		return true
	}
	sp := spine(t)
	for i := len(sp) - 1; i >= 0; i-- {
		r := sp[i]
		if r.op != OApp || r.s != "elem" && r.s != "mget" {
			if r.op == OApp && r.s == "mgetz" {
				if i > 0 && sp[i-1].s == "elem" {
					continue
				}
				return false
			}
			continue
		}
		if r.s == "mget" && !f.Entails(App("mok", types.Typ[types.Bool], r.args[0], r.args[1])) {
			return false
		}
		return x.forAll(r.args[0], subst(t, map[*Term]*Term{r: hole}, map[*Term]*Term{}), f, st)
	}
	return false
}

// good: what the path leads to from the element is never nil.
func (x *crash) good(w, v *Term, f *Facts, st *State) bool {
	sp := spine(w)
	for i := len(sp) - 1; i >= 0; i-- {
		r := sp[i]
		if r.op == OApp && (r.s == "elem" || r.s == "mget") {
			if r.s == "mget" {
				return false
			}
			c := x.eval(r.args[0], v, f, st)
			if c == nil {
				return false
			}
			if st != nil {
				if q := x.e.seqOf(st, c); q != nil {
					c = q
				}
			}
			return x.forAll(c, subst(w, map[*Term]*Term{r: hole}, map[*Term]*Term{}), f, st)
		}
	}
	u := x.eval(w, v, f, st)
	return u != nil && x.nonNil(u, f, st)
}

func (x *crash) eval(w, v *Term, f *Facts, st *State) *Term {
	if w == hole {
		return v
	}
	if w.op != OApp || len(w.args) != 1 {
		return nil
	}
	a := x.eval(w.args[0], v, f, st)
	if a == nil {
		return nil
	}
	if w.s == "deref" {
		if st == nil || a.op == ONil {
			return nil
		}
		return x.e.load(st, a)
	}
	if k, err := strconv.Atoi(strings.TrimPrefix(w.s, "fld")); err == nil && strings.HasPrefix(w.s, "fld") {
		return fieldOf(a, k, w.typ)
	}
	return nil
}

// forAll: for every element of the container, what the path leads to is never nil.
func (x *crash) forAll(c, w *Term, f *Facts, st *State) bool {
	if c.op == OSlice && st != nil {
		if q := x.e.seqOf(st, c); q != nil {
			c = q
		}
	}
	h := pathOf{c, w}
	if x.hyp[h] {
		return true
	}
	if n, ok := constInt(Len(c)); ok && n == 0 {
		return true
	}
	for _, m := range x.meshes {
		if m == c && w == hole {
			return true
		}
	}
	switch c.op {
	case ONil:
		return true
	case OArray:
		for _, a := range c.args {
			if !x.good(w, a, f, st) {
				return false
			}
		}
		return true
	case OApp:
		switch c.s {
		case "cat":
			for _, p := range c.args {
				if !x.forAll(p, w, f, st) {
					return false
				}
			}
			return true
		case "sub", "mdel":
			return x.forAll(c.args[0], w, f, st)
		case "store", "mset":
			return x.good(w, c.args[2], f, st) && x.forAll(c.args[0], w, f, st)
		case "map0":
			return true
		}
	}
	if as := x.e.joins[c]; len(as) > 0 {
		for _, a := range as {
			if !x.forAll(a.val, w, f.AddAll(a.facts), st) {
				return false
			}
		}
		return true
	}
	if s := x.e.summ[c]; s != nil && s.phi != nil && s.phi.init != nil {
		x.hyp[h] = true
		filled := !x.forAll(s.phi.init, w, s.loop.entry, nil)
		for _, it := range s.loop.iters {
			b := it.back[c]
			if b == nil {
				b = c
			}
			if filled {
				// what was there before is overwritten in every iteration, at the next index
				if b.op != OApp || b.s != "store" || b.args[0] != c || !x.good(w, b.args[2], it.facts, it.st) {
					return false
				}
				if l, _ := covers(x.e, b.args[1], Int(0), Int(1), Len(s.phi.init), []LoopAt{{s.loop, it, f}}); l == nil {
					return false
				}
				continue
			}
			if !x.forAll(b, w, it.facts, it.st) {
				return false
			}
		}
		return true
	}
	// a container found in an element of another
	sp := spine(c)
	for i := len(sp) - 1; i >= 0; i-- {
		r := sp[i]
		if r.op != OApp || r.s != "elem" && (r.s != "mgetz" || r != c) {
			continue // a key that is not in the map has no elements
		}
		in := App("elem", nil, subst(c, map[*Term]*Term{r: hole}, map[*Term]*Term{}), Sym("any", nil))
		if x.depth > 20 {
			return false
		}
		x.depth++
		defer func() { x.depth-- }()
		return x.forAll(r.args[0], subst(w, map[*Term]*Term{hole: in}, map[*Term]*Term{}), f, st)
	}
	return false
}
