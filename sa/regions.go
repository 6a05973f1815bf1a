package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: the regions a model is diced into.

func init() {
	checks["C16"] = func(c *Check) {
		c.rule("the three places that dice models (stldice, stldice-mr, the agent) are run over every path with three files: of each file exactly one region is made per combination of indices below nx, ny, nz; regions have as few voxels as cover the box of the base (or the box asked for), begin where the previous one ends, all with the scale of the whole model; only those of the first file are base; a region is written unless it is empty or its file is there; the agent voxelizes exactly the regions that have the slice, and agent and mapper send each voxel once, with the offset of its region")
		for _, t := range dicers {
			x := &dicing{c: c, tool: t}
			x.dice()
		}
		x := &dicing{c: c, tool: dicer{rel: "cmd/stldice-mr", fn: "voxelize"}}
		x.mapper()
		for _, t := range dicers {
			c.atLeast("diced:"+t.rel, 3)
		}
		c.atLeast("asked:cmd/stldice", 3)
		c.atLeast("sent", 20)
		c.atLeast("slice", 5)
		c.atLeast("received", 3)
	}
}

// dicer is one of the places where models are diced.
type dicer struct {
	rel, fn string
	dims    [4]string // of the request: dim, nx, ny, nz: flags, or fields of the job
	send    bool      // the regions are those sent over a channel
}

var dicers = []dicer{
	{rel: "cmd/stldice", fn: "main"},
	{rel: "cmd/stldice-mr", fn: "generateMR"},
	{rel: "stl2svx/agent", fn: "agent.SliceJob", send: true},
}

type dicing struct {
	c      *Check
	tool   dicer
	e      *Eng
	bv     types.Type
	mesh   types.Type
	box    types.Type
	fn     *ssa.Function
	files  *Term
	src    map[*Term]*Term    // where a mesh comes from
	msg    map[*Term]*reg16   // messages
	errs   map[*Event][]*Term // of slices
	fn2in  *Term              // the request
	region map[*Event]*reg16  // of an outcome
}

type reg16 struct {
	pos       token.Pos
	file      int      // that the mesh comes from
	ch        *Term    // sent over
	dims      [3]*Term // voxels
	at        [3]*Term // corner
	off       [3]*Term // corner in voxels
	scale     *Term
	base      *Term
	mesh      *Term
	bv, after *Term // the model, and what it holds once voxelized
}

const regionEv, sliceEv, writeEv = "a region", "a slice", "a region is written"

func (x *dicing) hook() func(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool) {
	fail := func(e *Eng, ps *PS, fn *ssa.Function, site ssa.Instruction, ok []*Term) []Outcome {
		// as it should, or with an error
		q := ps.clone()
		rs := append([]*Term{}, ok...)
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if isErrType(t) {
				rs[i] = Nil(t)
			}
		}
		var bad []*Term
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if isErrType(t) {
				er := e.freshSym(q.State, "err@"+e.siteID(site), t)
				q.State.facts = q.State.facts.AddAll([]*Term{Not(Eq(er, Nil(t)))})
				bad = append(bad, er)
			} else {
				bad = append(bad, zeroValue(t))
			}
		}
		return append(ret(ps, rs...), ret(q, bad...)...)
	}
	return func(e *Eng, ps *PS, fn *ssa.Function, args []*Term, site ssa.Instruction) ([]Outcome, bool) {
		if fn.Pkg == nil {
			return nil, false
		}
		name := fn.RelString(fn.Pkg.Pkg)
		switch fn.Pkg.Pkg.Path() {
		case "github.com/fogleman/fauxgl":
			switch name {
			case "LoadSTL":
				v := e.freshSym(ps.State, "mesh@"+e.siteID(site), x.mesh)
				o := e.newObj(ps.State, "mesh@"+e.siteID(site), x.mesh, v)
				x.src[v] = args[0]
				return fail(e, ps, fn, site, []*Term{Ptr(o), nil}), true
			case "NewTriangleMesh":
				v := e.freshSym(ps.State, "mesh@"+e.siteID(site), x.mesh)
				o := e.newObj(ps.State, "mesh@"+e.siteID(site), x.mesh, v)
				x.src[v] = e.seqOf(ps.State, args[0])
				return ret(ps, Ptr(o)), true
			case "(*Mesh).BoundingBox":
				return ret(ps, App("box of", x.box, x.boxOf(e.load(ps.State, args[0])))), true
			case "(*Mesh).SmoothNormalsThreshold", "(*Mesh).SmoothNormals", "(*Triangle).FixNormals":
				return ret(ps), true
			}
		case "github.com/gmlewis/stldice/v4/binvox":
			switch name {
			case "(*BinVOX).Voxelize":
				before := e.load(ps.State, args[0])
				for _, n := range []string{"WhiteVoxels", "ColorVoxels"} {
					st := x.c.fldStep(x.bv, n)
					e.store(ps.State, addStep(args[0], st), e.freshSym(ps.State, n+"@"+e.siteID(site), fieldType(x.bv, n)))
				}
				ps.emit(&Event{kind: "call", fn: regionEv, args: []*Term{before, e.load(ps.State, args[1]), args[0], e.load(ps.State, args[0])}, pos: site.Pos()})
				return fail(e, ps, fn, site, []*Term{nil}), true
			case "(*BinVOX).VoxelizeZ":
				before := e.load(ps.State, args[0])
				var vox []*Term
				for _, n := range []string{"WhiteVoxels", "ColorVoxels"} {
					v := e.freshSym(ps.State, n+"@"+e.siteID(site), fieldType(x.bv, n))
					vox = append(vox, v)
					e.store(ps.State, addStep(args[0], x.c.fldStep(x.bv, n)), v)
				}
				ev := &Event{kind: "call", fn: sliceEv, args: append([]*Term{before}, args...), res: vox, pos: site.Pos()}
				ps.emit(ev)
				outs := fail(e, ps, fn, site, []*Term{nil})
				x.errs[ev] = append(x.errs[ev], outs[1].res[0])
				return outs, true
			case "(*BinVOX).Write":
				ps.emit(&Event{kind: "call", fn: writeEv, args: []*Term{e.load(ps.State, args[0])}, pos: site.Pos()})
				return fail(e, ps, fn, site, []*Term{nil}), true
			}
		case "github.com/golang/protobuf/proto":
			if name == "Unmarshal" && len(args) == 2 && args[1].op == OIface && args[1].args[0].op == OPtr {
				b, _ := splitPtr(args[1].args[0])
				e.store(ps.State, args[1].args[0], e.freshSym(ps.State, "message@"+e.siteID(site), baseType(b)))
				return fail(e, ps, fn, site, []*Term{nil}), true
			}
			if name == "Marshal" && len(args) == 1 {
				if args[0].op == OIface {
					data := e.freshSym(ps.State, "data@"+e.siteID(site), fn.Signature.Results().At(0).Type())
					x.msg[data] = x.ofMessage(ps.State, args[0].args[0], args[0].typ)
					return fail(e, ps, fn, site, []*Term{data, nil}), true
				}
			}
		}
		return nil, false
	}
}

func fieldType(t types.Type, name string) types.Type {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (x *dicing) types() {
	c := x.c
	x.bv, x.mesh, x.box = c.p.Type("binvox", "BinVOX"), c.p.Type("gl", "Mesh"), c.p.Type("gl", "Box")
	c.need(x.bv != nil && x.mesh != nil && x.box != nil, "no type BinVOX, Mesh or Box")
}

func (x *dicing) dice() {
	c := x.c
	for _, o := range x.outcomes() {
		if o.kind == "panic" {
			c.ob("panic:"+x.tool.rel, false, o.pos, "%s can panic when %v", x.tool.fn, o.st.facts)
		}
		if o.kind == "ret" && succeeds(o) {
			x.outcome(o)
		}
	}
}

// outcomes runs the function with three files.
func (x *dicing) outcomes() []Outcome {
	c := x.c
	x.types()
	name := x.tool.fn
	if c.p.Fn(x.tool.rel, name) == nil {
		// the function that gives the source of the map-reduce
		for _, fn := range c.p.allFns() {
			if fn.Pkg != nil && fn.Pkg == c.p.Pkg(x.tool.rel) && fn.Signature.Results().Len() > 0 {
				if _, ok := under(fn.Signature.Results().At(0).Type()).(*types.Chan); ok {
					name = fn.Name()
				}
			}
		}
	}
	x.fn = c.fn(x.tool.rel, name)
	e := NewEng(c.p)
	x.e = e
	e.factLoops, e.keepOr = true, true
	e.unrollCap, e.cap, e.joinAbove = 64, 128, 64
	e.hook = x.hook()
	as, f := args(x.fn)
	var files *Term
	switch x.tool.rel {
	case "cmd/stldice":
		files = Sym("cmd.args", types.NewSlice(types.Typ[types.String]))
	case "cmd/stldice-mr":
		for _, a := range as {
			if t, ok := under(a.typ).(*types.Slice); ok && types.Identical(t.Elem(), types.Typ[types.String]) {
				files = a
			}
		}
		c.need(files != nil, "%s has no list of files", x.tool.fn)
	default:
		jt := c.p.Type("stl2svx/proto", "NewJobRequest")
		st := c.p.Type("stl2svx/proto", "SliceJobRequest")
		x.fn2in = as[2]
		job := c.fld(App("deref", st, as[2]), st, "NewJobRequest")
		f = f.AddAll([]*Term{Not(Eq(job, Nil(job.typ)))})
		files = c.fld(App("deref", jt, job), jt, "StlFiles")
		et := fieldType(jt, "StlFiles").(*types.Slice).Elem()
		for i := 0; i < 3; i++ {
			f = f.AddAll([]*Term{Not(Eq(elemOf(files, Int(int64(i)), et, f), Nil(et)))})
		}
	}
	f = f.AddAll([]*Term{EQ0(Sub(Len(files), Int(3)))})
	x.files = files
	x.src = map[*Term]*Term{}
	x.errs = map[*Event][]*Term{}
	x.msg = map[*Term]*reg16{}
	var outs []Outcome
	if x.tool.rel == "cmd/stldice" {
		// a box is asked for, or not
		fl := Eq(Sym("flag:mbb", types.Typ[types.String]), Str(""))
		outs = append(c.run(e, x.fn, as, f.AddAll([]*Term{fl})), c.run(e, x.fn, as, f.AddAll([]*Term{Not(fl)}))...)
	} else {
		outs = c.run(e, x.fn, as, f)
	}
	return outs
}

// outcome: the regions of one way to succeed.
func (x *dicing) outcome(o Outcome) {
	c, e, tool := x.c, x.e, x.tool.rel
	evs, fs := o.st.trace.list(), o.st.facts
	x.region = map[*Event]*reg16{}
	x.collect(evs, o.st, fs)
	var dim *Term
	var n [3]*Term
	ax := [3]string{"x", "y", "z"}
	if x.tool.send {
		jt := c.p.Type("stl2svx/proto", "NewJobRequest")
		job := x.files.args[0]
		dim = c.fld(job, jt, "Dim")
		for a, s := range []string{"NX", "NY", "NZ"} {
			n[a] = c.fld(job, jt, s)
		}
	} else {
		dim = Sym("flag:dim", types.Typ[types.Int])
		for a := range ax {
			n[a] = Sym("flag:n"+ax[a], types.Typ[types.Int])
		}
	}
	none := false
	for a := range n {
		none = none || prove(fs, Le(n[a], Int(0)))
	}
	lo, hi, why := x.baseBox(o)
	asked := x.tool.rel == "cmd/stldice" && !proveEq(fs, Sym("flag:mbb", types.Typ[types.String]), Str(""))
	if none && len(x.region) == 0 {
		return
	}
	if !c.ob("box:"+tool, why == "", x.fn.Pos(), "%s", why) {
		return
	}
	var size [3]*Term
	for a := range size {
		size[a] = Sub(hi[a], lo[a])
	}
	all := MaxMin("max", size[:]...)
	for j := 0; j < 3; j++ {
		did := false
		err := x.each(evs, fs, nil, j, func(ev *Event, path []*Event, stack []LoopAt) {
			r := x.region[ev]
			did = true
			f := fs
			if len(stack) > 0 {
				f = stack[len(stack)-1].it.facts
			}
			loops := map[*Loop]bool{}
			all := all
			for a := range size {
				if proveEq(f, all, size[a]) {
					all = size[a]
				}
			}
			for a := range n {
				// the fewest voxels that cover the share of the model
				need := prod(size[a], dim, Inv(all))
				d := r.dims[a]
				c.ob("size:"+tool+"/"+ax[a], prove(f, Le(need, Mul(d, n[a]))), r.pos, "%s regions of %s voxels may not cover the model: it needs %s", str(n[a]), str(d), str(need))
				c.ob("size:"+tool+"/"+ax[a], prove(f, Lt(Mul(Sub(d, Int(1)), n[a]), need)), r.pos, "%s regions of %s voxels are more than needed for %s", str(n[a]), str(d), str(need))
				// the place of the region
				var at *Loop
				why := "no loop moves it"
				for _, s := range stack {
					if s.loop.n == nil || !mentions(r.at[a], func(t *Term) bool { return t == s.loop.n }) {
						continue
					}
					for _, down := range []bool{false, true} {
						i := s.loop.n
						if down {
							i = Sub(Sub(n[a], Int(1)), i)
						}
						if !proveEq(f, r.at[a], Add(lo[a], prod(i, d, all, Inv(dim)))) {
							why = fmt.Sprintf("it is not the minimum of the box and so many times %s voxels further: %s", str(d), str(r.at[a]))
							continue
						}
						l, w := (*Loop)(nil), ""
						if down {
							l, w = covers(e, s.loop.n, Int(0), Int(1), n[a], stack)
						} else {
							l, w = covers(e, i, Int(0), Int(1), n[a], stack)
						}
						at, why = l, w
						if at != nil && r.off[a] != nil {
							c.ob("offset:"+tool+"/"+ax[a], proveEq(f, r.off[a], Mul(i, d)), r.pos, "the offset %s is not that of region %s of %s voxels", str(r.off[a]), str(i), str(d))
						}
						break
					}
					if at != nil {
						break
					}
				}
				c.ob("place:"+tool+"/"+ax[a], at != nil && !loops[at], r.pos, "the %s position of a region: %s", ax[a], why)
				if at != nil {
					loops[at] = true
				}
			}
			c.ob("scale:"+tool, x.isScale(f, r, all, dim), r.pos, "the scale of a region is %s, not that of the whole model", str(r.scale))
			if r.base != nil {
				want := Bool(j == 0)
				c.ob("base:"+tool, proveEq(f, r.base, want), r.pos, "a region of file %d is marked as base: %s", j, str(r.base))
			}
			if r.after != nil {
				c.ob("written:"+tool, x.written(r, path, f), r.pos, "the voxels of a region, %s, are not written: %v", str(c.fld(r.after, x.bv, "WhiteVoxels")), f)
			}
		})
		c.ob("once:"+tool, err == nil, x.fn.Pos(), "the regions of file %d are %v", j, err)
		if did {
			c.count("diced:"+tool, 1)
			if asked {
				c.count("asked:"+tool, 1)
			}
		}
	}
	if x.tool.send {
		x.voxelized(o)
	}
}

// isScale: the scale of a region is the length of its longest side.
func (x *dicing) isScale(f *Facts, r *reg16, all, dim *Term) bool {
	if proveEq(f, r.scale, prod(MaxMin("max", r.dims[:]...), all, Inv(dim))) {
		return true
	}
	for a, d := range r.dims {
		is := proveEq(f, r.scale, prod(d, all, Inv(dim)))
		for b := range r.dims {
			is = is && (a == b || prove(f, Le(r.dims[b], d)))
		}
		if is {
			return true
		}
	}
	return false
}

// voxelized: of each region received, the slice asked for is voxelized where the region has
// it, and its voxels are sent on.
func (x *dicing) voxelized(o Outcome) {
	c, e, tool := x.c, x.e, x.tool.rel
	z := c.fld(App("deref", c.p.Type("stl2svx/proto", "SliceJobRequest"), x.fn2in), c.p.Type("stl2svx/proto", "SliceJobRequest"), "Z")
	isSlice := func(ev *Event) bool { return ev.kind == "call" && ev.fn == sliceEv }
	var ch *Term
	for _, r := range x.region {
		c.ob("received:"+tool, ch == nil || ch == r.ch, r.pos, "regions are sent over several channels")
		ch = r.ch
	}
	nLoops := 0
	for _, path := range flat(o.st.trace.list()) {
		for _, ev := range path {
			if isSlice(ev) {
				c.ob("received:"+tool, false, ev.pos, "a slice is voxelized that belongs to no region received")
			}
			if ev.loop == nil || !hasEv([]*Event{ev}, isSlice) {
				continue
			}
			nLoops++
			for _, it := range ev.loop.iters {
				for _, p := range flat(it.events) {
					stack := []LoopAt{{ev.loop, it, o.st.facts}}
					var val *Term
					for _, q := range p {
						if q.kind == "recv" && len(q.res) == 2 && q.res[1] == Bool(true) {
							if q.args[0] == ch && val == nil {
								val = q.res[0]
							} else {
								val = nil
								break
							}
						}
					}
					if !c.ob("received:"+tool, val != nil && val.op == OApp && val.s == "elem", x.fn.Pos(), "a round of the loop that voxelizes does not receive one region") {
						continue
					}
					l, why := covers(e, val.args[1], Int(0), Int(1), Len(val.args[0]), stack)
					c.ob("received:"+tool, l == ev.loop, x.fn.Pos(), "not every region is received: %s", why)
					x.oneRegion(p, it, val, z)
				}
			}
		}
	}
	c.ob("received:"+tool, nLoops == 1, x.fn.Pos(), "%d loops voxelize the regions", nLoops)
}

// mapper: the region a mapper of the map-reduce is given is voxelized, and its voxels are emitted.
func (x *dicing) mapper() {
	c := x.c
	x.types()
	name := x.tool.fn
	if c.p.Fn(x.tool.rel, name) == nil {
		for _, fn := range c.p.allFns() {
			if fn.Pkg != nil && fn.Pkg == c.p.Pkg(x.tool.rel) && fn.Parent() == nil {
				for _, g := range c.p.allFns() {
					if g.Name() == "Voxelize" && g.Signature.Recv() != nil && callsFn(fn, g) {
						name = fn.Name()
					}
				}
			}
		}
	}
	x.fn = c.fn(x.tool.rel, name)
	x.tool.rel += " mapper"
	tool := x.tool.rel
	e := NewEng(c.p)
	x.e = e
	e.keepOr = true
	e.cap, e.joinAbove = 128, 64
	e.hook = x.hook()
	x.src, x.msg, x.errs = map[*Term]*Term{}, map[*Term]*reg16{}, map[*Event][]*Term{}
	as, f := args(x.fn)
	isEmit := func(ev *Event) bool {
		return ev.kind == "call" && ev.callee != nil && ev.callee.Name() == "Emit" && ev.callee.Pkg != nil && ev.callee.Pkg.Pkg.Name() == "gio" || ev.kind == "call" && strings.HasSuffix(ev.fn, "gio.Emit")
	}
	isReg := func(ev *Event) bool { return ev.kind == "call" && ev.fn == regionEv }
	n := 0
	for _, o := range c.run(e, x.fn, as, f) {
		if o.kind != "ret" || !succeeds(o) {
			continue
		}
		for _, path := range flat(o.st.trace.list()) {
			var evs []*Event
			for _, ev := range path {
				if isReg(ev) {
					evs = append(evs, ev)
				}
			}
			if !c.ob("voxelized:"+tool, len(evs) == 1, x.fn.Pos(), "a region is voxelized %d times", len(evs)) {
				continue
			}
			n++
			ev, fs := evs[0], o.st.facts
			var m *Term
			mentions(ev.args[0], func(t *Term) bool {
				if t.op == OSym && strings.HasPrefix(t.s, "message@") {
					m = t
				}
				return m != nil
			})
			if !c.ob("voxelized:"+tool, m != nil, ev.pos, "what is voxelized is not the region of a message") {
				continue
			}
			r := x.ofModel(ev.args[0])
			vt := fieldType(m.typ, "VoxelRegion").(*types.Pointer).Elem()
			v := App("deref", vt, c.fld(m, m.typ, "VoxelRegion"))
			for a, n := range []string{"Nx", "Ny", "Nz"} {
				c.ob("voxelized:"+tool, proveEq(fs, r.dims[a], c.fld(v, vt, n)), ev.pos, "the size of the region voxelized is not %s", n)
			}
			for a, n := range []string{"Tx", "Ty", "Tz"} {
				c.ob("voxelized:"+tool, proveEq(fs, r.at[a], c.fld(v, vt, n)), ev.pos, "the corner of the region voxelized is not %s", n)
			}
			c.ob("voxelized:"+tool, proveEq(fs, r.scale, c.fld(v, vt, "Scale")), ev.pos, "the scale of the region voxelized is not that of the message")
			list := x.src[ev.args[1]]
			c.ob("voxelized:"+tool, list != nil && x.about(list, c.fld(m, m.typ, "Triangles")), ev.pos, "the mesh voxelized is not that of the message")
			var vox []*Term
			for _, n := range []string{"WhiteVoxels", "ColorVoxels"} {
				vox = append(vox, c.fld(ev.args[3], x.bv, n))
			}
			x.sent(path, fs, vox, ev.pos, isEmit, func(key *Term, kf *Facts) (*Term, map[string]*Term) {
				var k [3]*Term
				for a := range k {
					k[a] = fieldOf(key, a, types.Typ[types.Int])
				}
				return Or(Lt(k[0], Int(0)), Lt(k[1], Int(0)), Lt(k[2], Int(0))), map[string]*Term{"X": k[0], "Y": k[1], "": k[2], "Base": c.fld(m, m.typ, "Base")}
			})
		}
	}
	c.ob("voxelized:"+tool, n > 0, x.fn.Pos(), "no region is voxelized")
}

// about: the list is built of what another list holds.
func (x *dicing) about(list, of *Term) bool {
	seen := map[*Term]bool{}
	var at *State
	var look func(t *Term) bool
	look = func(t *Term) bool {
		return mentions(t, func(y *Term) bool {
			if y == of {
				return true
			}
			if seen[y] {
				return false
			}
			seen[y] = true
			if s := x.e.summ[y]; s != nil {
				for _, it := range s.loop.iters {
					outer := at
					at = it.st
					ok := it.back[y] != nil && look(it.back[y])
					at = outer
					if ok {
						return true
					}
				}
			}
			return y.op == OObj && at != nil && look(x.e.content(at, y))
		})
	}
	return look(list)
}

// oneRegion: what one round does with the region received.
func (x *dicing) oneRegion(path []*Event, it *IterPath, val, z *Term) {
	c, tool, f := x.c, x.tool.rel, it.facts
	r := x.ofInfo(x.e.load(&State{facts: f, heap: map[*Term]*Term{}}, val), it.st, x.fn.Pos())
	if !c.ob("slice:"+tool, r != nil, x.fn.Pos(), "what is received is not a region: %s", str(val)) {
		return
	}
	var slices []*Event
	for _, ev := range path {
		if ev.kind == "call" && ev.fn == sliceEv {
			slices = append(slices, ev)
		}
	}
	isSend := func(ev *Event) bool { return ev.kind == "send" }
	if len(slices) == 0 {
		c.ob("slice:"+tool, prove(f, Not(And(Le(r.off[2], z), Lt(z, Add(r.off[2], r.dims[2]))))), x.fn.Pos(), "a region that has the slice may not be voxelized")
		c.ob("slice:"+tool, !hasEv(path, isSend), x.fn.Pos(), "voxels are sent of a region that is not voxelized")
		return
	}
	if !c.ob("slice:"+tool, len(slices) == 1, slices[0].pos, "a region is voxelized %d times", len(slices)) {
		return
	}
	ev := slices[0]
	c.ob("slice:"+tool, prove(f, Le(r.off[2], z)) && prove(f, Lt(z, Add(r.off[2], r.dims[2]))), ev.pos, "a slice is voxelized that the region may not have")
	c.ob("slice:"+tool, ev.args[1] == r.bv && ev.args[2] == r.mesh, ev.pos, "what is voxelized is not the mesh of the region received")
	c.ob("slice:"+tool, proveEq(f, ev.args[3], Sub(z, r.off[2])), ev.pos, "slice %s of the region is voxelized, not that of the model", str(ev.args[3]))
	for _, er := range x.errs[ev] {
		if prove(f, Not(Eq(er, Nil(er.typ)))) {
			c.ob("sent:"+tool, !hasEv(path, isSend), ev.pos, "voxels are sent although the slice failed")
			return
		}
	}
	x.sent(path, f, ev.res, ev.pos, isSend, func(key *Term, kf *Facts) (*Term, map[string]*Term) {
		var k [3]*Term
		for a := range k {
			k[a] = Add(fieldOf(key, a, types.Typ[types.Int]), r.off[a])
		}
		return Or(Lt(k[0], Int(0)), Lt(k[1], Int(0)), Lt(z, Int(0)), Not(Eq(k[2], z))), map[string]*Term{"X": k[0], "Y": k[1], "Base": r.base}
	})
}

// sentArgs: the values, those of a list one by one.
func (x *dicing) sentArgs(ev *Event, st *State) (out []*Term) {
	for _, a := range ev.args {
		if l := a; l.op == OSlice || l.op == OArray {
			if l = x.e.seqOf(st, l); l.op == OArray {
				out = append(out, l.args...)
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

// sentField is the field of a record that is sent, by name; "" is what is sent besides it.
func sentField(args []*Term, name string) *Term {
	for _, a := range args {
		if a.op == OIface {
			a = a.args[0]
		}
		if a.typ == nil {
			continue
		}
		st, ok := under(a.typ).(*types.Struct)
		if !ok {
			if name == "" && isNumeric(a) {
				return a
			}
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if strings.EqualFold(st.Field(i).Name(), name) {
				return fieldOf(a, i, st.Field(i).Type())
			}
		}
	}
	return nil
}

// sent: for each key of each of the maps one value is sent, unless it may be left out.
func (x *dicing) sent(path []*Event, f *Facts, maps []*Term, pos token.Pos, isSend func(*Event) bool, want func(key *Term, f *Facts) (skip *Term, vals map[string]*Term)) {
	c, tool := x.c, x.tool.rel
	done := map[*Term]int{}
	for _, ev := range path {
		if isSend(ev) {
			c.ob("sent:"+tool, false, ev.pos, "a voxel is sent that is none of those of the region")
		}
		if ev.loop == nil || !hasEv([]*Event{ev}, isSend) {
			continue
		}
		for _, it := range ev.loop.iters {
			var key, m *Term
			for _, v := range maps {
				if k := overMap(ev.loop, it, v, f); k != nil {
					key, m = k, v
				}
			}
			if !c.ob("sent:"+tool, key != nil, pos, "voxels are sent in a loop that is not one over all voxels of the region") {
				continue
			}
			if done[m] == 0 {
				done[m] = 1
			}
			skip, vals := want(key, it.facts)
			for _, p := range flat(it.events) {
				n := 0
				for _, q := range p {
					if isSend(q) {
						n++
						for w, v := range vals {
							got := sentField(x.sentArgs(q, it.st), w)
							c.ob("sent:"+tool, got != nil && proveEq(it.facts, got, v), q.pos, "the %s sent of a voxel is %s, not %s", w, str(got), str(v))
						}
					}
				}
				if n == 0 {
					c.ob("sent:"+tool, skip != nil && prove(it.facts, skip), pos, "a voxel may not be sent")
				} else {
					c.ob("sent:"+tool, n == 1, pos, "a voxel is sent %d times", n)
				}
			}
		}
	}
	for _, m := range maps {
		c.ob("sent:"+tool, done[m] == 1, pos, "the voxels %s of a region are not sent", str(m))
	}
}

func prod(ts ...*Term) *Term {
	r := Int(1)
	for _, t := range ts {
		r = Mul(r, t)
	}
	return r
}

// written: the path writes the voxels of the region, or there are none.
func (x *dicing) written(r *reg16, path []*Event, f *Facts) bool {
	w := x.c.fld(r.after, x.bv, "WhiteVoxels")
	for _, ev := range path {
		if ev.kind == "call" && ev.fn == writeEv && x.c.fld(ev.args[0], x.bv, "WhiteVoxels") == w {
			return true
		}
	}
	return proveEq(f, App("maplen", types.Typ[types.Int], w), Int(0))
}

// collect finds the events of a path that dice a region, and what they say.
func (x *dicing) collect(evs []*Event, st *State, fs *Facts) {
	var walk func(evs []*Event)
	walk = func(evs []*Event) {
		for _, ev := range evs {
			if ev.loop != nil {
				for _, it := range ev.loop.iters {
					x.collect(it.events, it.st, it.facts)
				}
			}
			for _, a := range ev.alts {
				walk(a)
			}
			if r := x.decode(ev, st); r != nil {
				x.region[ev] = r
			}
		}
	}
	walk(evs)
}

// skipped: the path passes a region because its output is there already.
func (x *dicing) skipped(path []*Event, fs *Facts, j int) bool {
	if x.tool.rel != "cmd/stldice" {
		return false
	}
	for _, ev := range path {
		if ev.kind == "call" && ev.fn == "os.Stat" && len(ev.res) == 2 && x.fileOf(ev.args[0]) == j {
			err := ev.res[1]
			exists := Eq(err, Nil(err.typ))
			for _, l := range fs.lits {
				mentions(l, func(t *Term) bool {
					if t.op == OApp && strings.HasSuffix(t.s, "os.IsExist") && len(t.args) == 1 && t.args[0] == err {
						exists = Or(exists, t)
					}
					return false
				})
			}
			if prove(fs, exists) {
				return true
			}
		}
	}
	return false
}

// each visits the regions of a file: exactly one in every combination of iterations of the
// loops around them, or one that is skipped.
func (x *dicing) each(evs []*Event, exit *Facts, stack []LoopAt, j int, f func(ev *Event, path []*Event, stack []LoopAt)) error {
	pred := func(ev *Event) bool { return x.region[ev] != nil && x.region[ev].file == j }
	for _, path := range flat(evs) {
		n := 0
		for _, ev := range path {
			if pred(ev) {
				n++
				f(ev, path, stack)
			} else if ev.loop != nil && hasEv([]*Event{ev}, pred) {
				n++
				for _, it := range ev.loop.iters {
					st := append(append([]LoopAt{}, stack...), LoopAt{ev.loop, it, exit})
					if err := x.each(it.events, it.facts, st, j, f); err != nil {
						return err
					}
				}
			}
		}
		if n == 0 && len(stack) > 0 && x.skipped(path, exit, j) {
			continue
		}
		if n != 1 {
			where := ""
			if len(stack) > 0 {
				where = " in one iteration"
			}
			return fmt.Errorf("done %d times%s", n, where)
		}
	}
	return nil
}

// decode: the region an event is about.
func (x *dicing) decode(ev *Event, st *State) *reg16 {
	switch {
	case x.tool.rel == "cmd/stldice":
		if ev.kind == "call" && ev.fn == regionEv {
			r := x.ofModel(ev.args[0])
			r.pos, r.bv, r.after = ev.pos, ev.args[2], ev.args[3]
			r.file = x.ofMesh(ev.args[1])
			return r
		}
	case !x.tool.send:
		if ev.kind == "send" {
			v := ev.args[1]
			if v.op == OIface {
				v = v.args[0]
			}
			if r := x.msg[v]; r != nil {
				q := *r
				q.pos = ev.pos
				return &q
			}
		}
	default:
		if ev.kind == "send" {
			v := ev.args[1]
			if v.op == OPtr {
				v = x.e.load(st, v)
			}
			r := x.ofInfo(v, st, ev.pos)
			if r != nil {
				r.ch = ev.args[0]
			}
			return r
		}
	}
	return nil
}

// ofInfo reads the record of a region that the agent sends.
func (x *dicing) ofInfo(v *Term, st *State, pos token.Pos) *reg16 {
	t, ok := v.typ, false
	var s *types.Struct
	if t != nil {
		s, ok = under(t).(*types.Struct)
	}
	if !ok {
		return nil
	}
	var r *reg16
	var base, mesh *Term
	var ints []*Term
	byName := map[string]*Term{}
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		val := fieldOf(v, i, fl.Type())
		switch u := under(fl.Type()).(type) {
		case *types.Pointer:
			switch {
			case types.Identical(u.Elem(), x.bv):
				r = x.ofModel(x.e.load(st, val))
				r.bv = val
			case types.Identical(u.Elem(), x.mesh):
				mesh = val
			}
		case *types.Struct:
			if types.Identical(fl.Type(), x.bv) {
				r = x.ofModel(val)
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				ints = append(ints, val)
				byName[strings.ToLower(fl.Name())] = val
			} else if u.Info()&types.IsBoolean != 0 {
				base = val
			}
		}
	}
	if r == nil || mesh == nil || base == nil || len(ints) != 3 {
		return nil
	}
	r.pos, r.base, r.mesh, r.file = pos, base, mesh, x.ofMesh(x.e.load(st, mesh))
	copy(r.off[:], ints)
	for a, n := range []string{"dx", "dy", "dz"} {
		if byName[n] != nil {
			r.off[a] = byName[n]
		}
	}
	return r
}

func (x *dicing) ofModel(v *Term) *reg16 {
	r := &reg16{file: -1}
	for a, n := range []string{"NX", "NY", "NZ"} {
		r.dims[a] = x.c.fld(v, x.bv, n)
	}
	for a, n := range []string{"TX", "TY", "TZ"} {
		r.at[a] = x.c.fld(v, x.bv, n)
	}
	r.scale = x.c.fld(v, x.bv, "Scale")
	return r
}

// ofMessage reads the record of a region that is sent to the mappers.
func (x *dicing) ofMessage(st *State, ptr *Term, t types.Type) *reg16 {
	c := x.c
	var vt types.Type
	pt, ok := under(t).(*types.Pointer)
	c.need(ok, "what is sent is not a message: %s", str(ptr))
	mt := pt.Elem()
	if vp, ok := fieldType(mt, "VoxelRegion").(*types.Pointer); ok {
		vt = vp.Elem()
	}
	c.need(vt != nil, "the message sent has no VoxelRegion")
	m := x.e.load(st, ptr)
	v := x.e.load(st, c.fld(m, mt, "VoxelRegion"))
	r := &reg16{}
	for a, n := range []string{"Nx", "Ny", "Nz"} {
		r.dims[a] = c.fld(v, vt, n)
	}
	for a, n := range []string{"Tx", "Ty", "Tz"} {
		r.at[a] = c.fld(v, vt, n)
	}
	r.scale = c.fld(v, vt, "Scale")
	r.base = c.fld(m, mt, "Base")
	r.file = x.fileOf(x.e.seqOf(st, c.fld(m, mt, "Triangles")))
	return r
}

// fileOf: the one file that a value comes from; -1 if there is not just one.
func (x *dicing) fileOf(t *Term) int {
	found := map[int]bool{}
	seen := map[*Term]bool{}
	var at *State
	var look func(t *Term)
	look = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.s == "elem" && len(t.args) == 2 && t.args[0] == x.files {
			if k, ok := constInt(t.args[1]); ok {
				found[int(k)] = true
				return
			}
			found[-1], found[-2] = true, true
		}
		if s := x.src[t]; s != nil {
			look(s)
			return
		}
		if s := x.e.summ[t]; s != nil {
			look(s.phi.init)
			for _, it := range s.loop.iters {
				outer := at
				at = it.st
				look(it.back[t])
				at = outer
			}
		}
		if t.op == OObj && at != nil {
			look(x.e.content(at, t))
		}
		for _, a := range t.args {
			look(a)
		}
		if t.op == ONum {
			for id := range atomsOf(t.num) {
				look(allTerms[id])
			}
		}
	}
	look(t)
	if len(found) != 1 {
		return -1
	}
	for k := range found {
		return k
	}
	return -1
}

// ofMesh: the file of a mesh that is as it was loaded.
func (x *dicing) ofMesh(content *Term) int {
	if x.src[content] == nil {
		return -1
	}
	return x.fileOf(content)
}

func (x *dicing) boxOf(content *Term) *Term {
	if j := x.ofMesh(content); j >= 0 {
		return Int(int64(j))
	}
	return content
}

// baseBox is the box to be diced: that of the first file, unless one is asked for.
func (x *dicing) baseBox(o Outcome) (lo, hi [3]*Term, why string) {
	c := x.c
	if x.tool.rel == "cmd/stldice" {
		fl := Sym("flag:mbb", types.Typ[types.String])
		if !proveEq(o.st.facts, fl, Str("")) {
			if !prove(o.st.facts, Not(Eq(fl, Str("")))) {
				return lo, hi, "undecided whether a box is asked for"
			}
			var num [7]*Term
			for _, r := range x.region {
				for _, t := range append(append([]*Term{r.scale}, r.at[:]...), r.dims[:]...) {
					mentions(t, func(y *Term) bool {
						if y.op == OApp && y.s == "atof" && len(y.args) == 1 && y.args[0].op == OApp && strings.HasPrefix(y.args[0].s, "group:") && len(y.args[0].args) == 3 && y.args[0].args[1] == fl {
							if k, ok := constInt(y.args[0].args[2]); ok && k >= 1 && k <= 6 {
								num[k] = y
							}
						}
						return false
					})
				}
			}
			for a := 0; a < 3; a++ {
				lo[a], hi[a] = num[1+a], num[4+a]
				if lo[a] == nil || hi[a] == nil {
					return lo, hi, "the box asked for is not used"
				}
			}
			return lo, hi, ""
		}
	}
	vt := c.p.Type("gl", "Vector")
	b := App("box of", x.box, Int(0))
	for a, n := range []string{"X", "Y", "Z"} {
		lo[a] = c.fld(c.fld(b, x.box, "Min"), vt, n)
		hi[a] = c.fld(c.fld(b, x.box, "Max"), vt, n)
	}
	return lo, hi, ""
}
