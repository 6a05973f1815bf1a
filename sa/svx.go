package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: the images of the slices, and the archive they are put into.

func init() {
	checks["C17"] = func(c *Check) {
		c.rule("the agent is run from request to PNG: the map it draws is a fold over all voxels received whose value for a pixel is decided, for every state of the map and every voxel, to become base-and-not-cut, and every pixel of that map is drawn once at (x+1, dim-y); the master is run from request to archive: names of entries are compared part by part with the pattern written to the manifest before them, numbers 0, 1..n (each once, by the coverage of the loop) and n+1")
		x := &dicing{c: c, tool: dicers[2]}
		n := 0
		for _, o := range x.outcomes() {
			if o.kind == "ret" && succeeds(o) {
				n++
				(&picture{c: c, e: x.e, x: x, o: o}).check()
			}
		}
		c.ob("image", n > 0, x.fn.Pos(), "the agent does not return an image")
		(&archive{c: c}).check()
		c.atLeast("image", 2)
		c.atLeast("voxel", 4)
		c.atLeast("pixel", 3)
		c.atLeast("entry", 3)
		c.atLeast("slice", 1)
		c.atLeast("manifest", 3)
	}
}

// picture is the image of a slice.
type picture struct {
	c   *Check
	e   *Eng
	x   *dicing
	o   Outcome
	img *Term
	dim *Term
}

// pngOf: the image that data is the PNG file of.
func pngOf(e *Eng, st *State, data *Term) *Term {
	if q := e.seqOf(st, data); q != nil {
		data = q
	}
	if data.op == OApp && data.s == "png" && len(data.args) == 1 {
		return data.args[0]
	}
	return nil
}

// respField is a field of the message a handler returns.
func respField(c *Check, e *Eng, o Outcome, name string) *Term {
	p := o.res[0]
	if p.op != OPtr {
		return nil
	}
	v := e.load(o.st, p)
	b, _ := splitPtr(p)
	t := baseType(b)
	if t == nil || fieldType(t, name) == nil {
		return nil
	}
	return c.fld(v, t, name)
}

// square: a rectangle from the origin of the given size.
func square(r, n *Term, f *Facts) bool {
	var as []*Term
	switch {
	case r.op == OApp && strings.HasSuffix(r.s, "image.Rect") && len(r.args) == 4:
		as = r.args
	case r.op == OStruct && len(r.args) == 2:
		for i := range r.args {
			for a := 0; a < 2; a++ {
				as = append(as, fieldOf(r.args[i], a, types.Typ[types.Int]))
			}
		}
	default:
		return false
	}
	return proveEq(f, as[0], Int(0)) && proveEq(f, as[1], Int(0)) && proveEq(f, as[2], n) && proveEq(f, as[3], n)
}

// colour: 1 for white, 0 for black, -1 if neither.
func colour(t *Term) int {
	for t.op == OIface {
		t = t.args[0]
	}
	s := t.String()
	switch {
	case strings.Contains(s, "global:image.White") || strings.Contains(s, "global:image/color.White"):
		return 1
	case strings.Contains(s, "global:image.Black") || strings.Contains(s, "global:image/color.Black"):
		return 0
	}
	if t.op == OStruct && len(t.args) == 1 {
		if v, ok := constInt(t.args[0]); ok {
			b, _ := under(fieldOf(t, 0, types.Typ[types.Uint8]).typ).(*types.Basic)
			max := int64(255)
			if named, ok := t.typ.(*types.Named); ok && named.Obj().Name() == "Gray16" || b != nil && b.Kind() == types.Uint16 {
				max = 65535
			}
			switch v {
			case max:
				return 1
			case 0:
				return 0
			}
		}
	}
	return -1
}

func bare(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

// drawn are the events that change an image, in loops and outside of them.
func (p *picture) check() {
	c, o := p.c, p.o
	jt := c.p.Type("stl2svx/proto", "NewJobRequest")
	p.dim = c.fld(p.x.files.args[0], jt, "Dim")
	data := respField(c, p.e, o, "PngFile")
	if data != nil {
		p.img = pngOf(p.e, o.st, data)
	}
	if !c.ob("image", p.img != nil, o.pos, "what the agent returns is not an image: %s", str(data)) {
		return
	}
	for _, path := range flat(o.st.trace.list()) {
		p.path(path)
	}
}

// blank: the calls of the path that make an image and fill it black; the rest of what is done
// to it is returned.
func blank(c *Check, path []*Event, img, n *Term, f *Facts, pos token.Pos) (rest []*Event) {
	made := false
	for _, ev := range path {
		if ev.loop != nil {
			touch := func(q *Event) bool { return touches(q, img) }
			if hasEv([]*Event{ev}, touch) {
				rest = append(rest, ev)
			}
			continue
		}
		switch {
		case ev.kind == "call" && ev.fn == "image.NewGray" && len(ev.res) > 0 && ev.res[0] == img:
			made = true
			c.ob("image", square(ev.args[0], Add(n, Int(2)), f), ev.pos, "the image is %s, not one pixel larger on each side than the model", str(ev.args[0]))
		case !touches(ev, img):
		case ev.kind == "call" && (ev.fn == "image/draw.Draw" || ev.fn == "image/draw.DrawMask") && len(rest) == 0:
			c.ob("image", len(ev.args) > 2 && bare(ev.args[0]) == img && colour(ev.args[2]) == 0, ev.pos, "the image is filled with %s, not with black", str(ev.args[2]))
		case ev.kind == "call" && ev.fn == "image/png.Encode":
		default:
			rest = append(rest, ev)
		}
	}
	c.ob("image", made, pos, "the image is not a new grey one")
	return rest
}

// touches: the event may change the image.
func touches(ev *Event, img *Term) bool {
	if ev.kind != "call" || len(ev.args) == 0 {
		return ev.kind == "store" && mentions(ev.args[0], func(t *Term) bool { return t == img })
	}
	if i := strings.LastIndex(ev.fn, "."); i >= 0 {
		switch ev.fn[i+1:] {
		case "Bounds", "At", "GrayAt", "ColorModel", "Opaque", "PixOffset", "RGBA64At", "Encode":
			return false
		}
	}
	for _, a := range ev.args {
		if mentions(a, func(t *Term) bool { return t == img }) {
			return true
		}
	}
	return false
}

func (p *picture) path(path []*Event) {
	c, o := p.c, p.o
	rest := blank(c, path, p.img, p.dim, o.st.facts, o.pos)
	if !c.ob("image", len(rest) == 1 && rest[0].loop != nil, o.pos, "the image is drawn by %d operations, not one loop", len(rest)) {
		return
	}
	l := rest[0].loop
	var pixels *Term
	for _, it := range l.iters {
		for _, ev := range it.events {
			if ev.kind == "mapiter" && overMap(l, it, ev.args[0], o.st.facts) != nil {
				pixels = ev.args[0]
			}
		}
	}
	if !c.ob("image", pixels != nil, l.pos, "the pixels drawn are not those of a map") {
		return
	}
	m := pixels
	if m.op == OObj {
		m = p.e.mapContent(o.st, m)
	}
	s := p.e.summ[m]
	if !c.ob("image", s != nil && s.phi.init != nil && s.phi.init.op == OApp && s.phi.init.s == "map0", l.pos, "the pixels drawn are not collected in an empty map: %s", str(m)) {
		return
	}
	// what is drawn
	var at []*Term // of key
	var key *Term
	for _, it := range l.iters {
		k := overMap(l, it, pixels, o.st.facts)
		if !c.ob("pixel", k != nil, l.pos, "a pixel may not be drawn") {
			continue
		}
		for _, q := range flat(it.events) {
			on := p.value(it.facts, m, k)
			var sets []*Event
			for _, ev := range q {
				if touches(ev, p.img) {
					sets = append(sets, ev)
				}
			}
			if !c.ob("pixel", on >= 0, l.pos, "a pixel is drawn alike, whether it is set or not") {
				continue
			}
			if len(sets) == 0 && on == 0 {
				continue
			}
			if !c.ob("pixel", len(sets) == 1, l.pos, "a pixel is drawn %d times", len(sets)) {
				continue
			}
			ev := sets[0]
			ok := ev.fn == "(*image.Gray).Set" || ev.fn == "(*image.Gray).SetGray"
			ok = ok || strings.HasPrefix(ev.fn, "invoke:") && strings.HasSuffix(ev.fn, ".Set")
			if !c.ob("pixel", ok && len(ev.args) == 4 && bare(ev.args[0]) == p.img, ev.pos, "the image is changed by %s", ev.fn) {
				continue
			}
			c.ob("pixel", colour(ev.args[3]) == on, ev.pos, "a pixel that is %d is drawn as %s", on, str(ev.args[3]))
			same := at == nil || key == k && at[0] == ev.args[1] && at[1] == ev.args[2]
			if c.ob("pixel", same, ev.pos, "pixels are drawn at different places") {
				at, key = ev.args[1:3], k
			}
		}
	}
	if c.ob("image", at != nil, l.pos, "no pixel is drawn") {
		p.voxels(s.loop, m, key, at)
	}
}

// value: whether the pixel of a key is set: 0 or 1, or -1 if it is not known.
func (p *picture) value(f *Facts, m, k *Term) int {
	b := types.Typ[types.Bool]
	get, getz, ok := App("mget", b, m, k), App("mgetz", b, m, k), App("mok", b, m, k)
	switch {
	case prove(f, Not(getz)) || prove(f, Not(get)) || prove(f, Not(ok)):
		return 0
	case prove(f, getz) || prove(f, get):
		return 1
	}
	return -1
}

// voxels: the loop that collects them.
func (p *picture) voxels(l *Loop, m, key *Term, at []*Term) {
	c, o := p.c, p.o
	ks := comps(key)
	if !c.ob("voxel", len(ks) == 2, l.pos, "the key of a pixel is %s", str(key)) {
		return
	}
	type done struct {
		it   *IterPath
		v    *Term
		k, w *Term
		got  []*Term
	}
	var ds []done
	for _, it := range l.iters {
		for _, path := range flat(it.events) {
			var val *Term
			n := 0
			for _, q := range path {
				if q.kind == "recv" && len(q.res) == 2 && q.res[1] == Bool(true) {
					val, n = q.res[0], n+1
				}
			}
			var from *Term
			if n == 1 {
				for _, f := range append(comps(val), val) {
					if f.op == OApp && strings.HasPrefix(f.s, "fld") && len(f.args) == 1 {
						f = f.args[0]
					}
					if f.op == OApp && f.s == "elem" && (from == nil || from == f) {
						from = f
					}
				}
			}
			if !c.ob("voxel", from != nil, l.pos, "a round of the loop that collects voxels takes %d: %s", n, str(val)) {
				continue
			}
			at, why := covers(p.e, from.args[1], Int(0), Int(1), Len(from.args[0]), []LoopAt{{l, it, o.st.facts}})
			c.ob("voxel", at == l, l.pos, "not every voxel is collected: %s", why)
			d := done{it: it, v: val}
			for _, q := range path {
				if q.kind == "mapget" && q.args[2] == m {
					d.got = append(d.got, q.args[1])
				}
			}
			w := it.back[m]
			switch {
			case w == m || w == nil:
			case w.op == OApp && w.s == "mset" && w.args[0] == m:
				d.k, d.w = w.args[1], w.args[2]
			default:
				c.ob("voxel", false, l.pos, "a voxel changes the pixels to %s", str(w))
				continue
			}
			ds = append(ds, d)
		}
	}
	b := types.Typ[types.Bool]
	for _, d := range ds {
		k := d.k
		if k == nil && len(d.got) > 0 {
			k = d.got[0]
		}
		for _, e := range ds {
			if k == nil && e.v == d.v {
				k = e.k
			}
		}
		x, y, base := sentField([]*Term{d.v}, "X"), sentField([]*Term{d.v}, "Y"), sentField([]*Term{d.v}, "Base")
		if !c.ob("voxel", k != nil && len(comps(k)) == 2 && x != nil && y != nil && base != nil, l.pos, "it is not known which pixel a voxel belongs to") {
			continue
		}
		// the place it is drawn
		put := substAll(at, map[*Term]*Term{ks[0]: comps(k)[0], ks[1]: comps(k)[1]})
		f := d.it.facts
		c.ob("voxel", proveEq(f, put[0], Add(x, Int(1))), l.pos, "voxel (x,y) is drawn at column %s", str(put[0]))
		c.ob("voxel", proveEq(f, put[1], Sub(p.dim, y)), l.pos, "voxel (x,y) is drawn in row %s", str(put[1]))
		// its value, for each case
		get, getz, ok := App("mget", b, m, k), App("mgetz", b, m, k), App("mok", b, m, k)
		for i := 0; i < 8; i++ {
			lit := func(t *Term, on bool) *Term {
				if on {
					return t
				}
				return Not(t)
			}
			isBase, has, was := i&1 != 0, i&2 != 0, i&4 != 0
			if was && !has {
				continue
			}
			ls := []*Term{lit(base, isBase), lit(ok, has), lit(getz, was)}
			if has {
				ls = append(ls, lit(get, was))
			}
			g, possible := assumeAll(f, ls)
			if !possible {
				continue
			}
			impossible := false
			for _, t := range append([]*Term{base, ok, getz, get}, ls...) {
				impossible = impossible || prove(g, t) && prove(g, Not(t))
			}
			if impossible {
				continue
			}
			want := lit(Bool(true), isBase && (!has || was))
			now := d.w
			if now == nil {
				now = lit(Bool(true), was)
				if !has {
					c.ob("voxel", false, l.pos, "the first voxel of a pixel (base: %v) is not recorded", isBase)
					continue
				}
			}
			good := prove(g, now)
			if want == Bool(false) {
				good = prove(g, Not(now))
			}
			c.ob("voxel", good, l.pos, "a voxel (base: %v) makes the pixel (there: %v, white: %v) %s", isBase, has, was, str(now))
		}
	}
	c.ob("voxel", len(ds) > 0, l.pos, "no voxel is collected")
}

// archive is the file of a job.
type archive struct {
	c       *Check
	e       *Eng
	in      *Term
	dim     *Term
	pattern []*Term // of the names of the slices
	lines   *Term   // declared number of slices
}

const zipCreate, zipClose, sliceJob = "(*archive/zip.Writer).Create", "(*archive/zip.Writer).Close", "a slice is asked for"

func (a *archive) check() {
	c := a.c
	fn := c.fn("stl2svx/master", "master.NewJob")
	e := NewEng(c.p)
	a.e = e
	st := c.p.Type("stl2svx/stl", "STL")
	c.need(st != nil, "no type STL")
	e.hook = func(e *Eng, ps *PS, fn *ssa.Function, as []*Term, site ssa.Instruction) ([]Outcome, bool) {
		rs := fn.Signature.Results()
		if fn.Pkg != nil && fn.Pkg == c.p.Pkg("stl2svx/proto") && fn.Name() == "SliceJob" && rs.Len() == 2 {
			// an agent answers, or not
			q := ps.clone()
			resp, er := e.freshSym(ps.State, "resp@"+e.siteID(site), rs.At(0).Type()), e.freshSym(q.State, "err@"+e.siteID(site), rs.At(1).Type())
			ps.State.facts = ps.State.facts.AddAll([]*Term{Not(Eq(resp, Nil(resp.typ)))})
			q.State.facts = q.State.facts.AddAll([]*Term{Not(Eq(er, Nil(er.typ)))})
			ps.emit(&Event{kind: "call", fn: sliceJob, args: as, res: []*Term{resp, Nil(er.typ)}, pos: site.Pos()})
			q.emit(&Event{kind: "call", fn: sliceJob, args: as, res: []*Term{Nil(resp.typ), er}, pos: site.Pos()})
			return append(ret(ps, resp, Nil(er.typ)), ret(q, Nil(resp.typ), er)...), true
		}
		// a model is loaded, or not
		if fn.Pkg == nil || fn.Pkg != c.p.Pkg("stl2svx/stl") || rs.Len() != 2 || !isErrType(rs.At(1).Type()) {
			return nil, false
		}
		p, ok := under(rs.At(0).Type()).(*types.Pointer)
		if !ok || !types.Identical(p.Elem(), st) {
			return nil, false
		}
		q := ps.clone()
		v := e.freshSym(ps.State, "model@"+e.siteID(site), st)
		o := e.newObj(ps.State, "model@"+e.siteID(site), st, v)
		er := e.freshSym(q.State, "err@"+e.siteID(site), rs.At(1).Type())
		q.State.facts = q.State.facts.AddAll([]*Term{Not(Eq(er, Nil(er.typ)))})
		return append(ret(ps, Ptr(o), Nil(er.typ)), ret(q, Nil(rs.At(0).Type()), er)...), true
	}
	as, f := args(fn)
	jt := c.p.Type("stl2svx/proto", "NewJobRequest")
	for _, t := range as {
		if p, ok := under(t.typ).(*types.Pointer); ok && types.Identical(p.Elem(), jt) {
			a.in = t
		}
	}
	c.need(a.in != nil, "NewJob has no request")
	f = f.AddAll([]*Term{Not(Eq(a.in, Nil(a.in.typ)))})
	a.dim = c.fld(App("deref", jt, a.in), jt, "Dim")
	n := 0
	for _, o := range c.run(e, fn, as, f) {
		if o.kind == "ret" && succeeds(o) {
			n++
			for _, path := range flat(o.st.trace.list()) {
				a.path(o, path)
			}
		}
	}
	c.ob("entry", n > 0, fn.Pos(), "no archive is returned")
}

func isCreate(ev *Event) bool { return ev.kind == "call" && ev.fn == zipCreate }

func (a *archive) path(o Outcome, path []*Event) {
	c := a.c
	f := o.st.facts
	pos := c.fn("stl2svx/master", "master.NewJob").Pos()
	var zip *Term
	var first *Event
	inLoop := false
	closed := -1
	last := -1
	for i, ev := range path {
		if hasEv([]*Event{ev}, isCreate) {
			last = i
			if first == nil && ev.loop == nil {
				first = ev
			}
			inLoop = inLoop || first == nil
		}
		if ev.kind == "call" && ev.fn == zipClose {
			closed = i
		}
	}
	if !c.ob("manifest", first != nil && !inLoop, pos, "the first entry of the archive is not the manifest") {
		return
	}
	zip = first.args[0]
	name, _ := strArg(first.args[1])
	c.ob("manifest", name == "manifest.xml", first.pos, "the first entry of the archive is %s, not the manifest", str(first.args[1]))
	c.ob("entry", closed > last, pos, "the archive is not closed after its last entry")
	var text []*Term
	for _, ev := range path {
		if ev.kind == "call" && (ev.fn == "write") && bare(ev.args[0]) == bare(first.res[0]) {
			text = append(text, catParts(ev.args[1])...)
		}
		if ev.loop != nil && hasEv([]*Event{ev}, func(q *Event) bool {
			return q.kind == "call" && q.fn == "write" && bare(q.args[0]) == bare(first.res[0])
		}) {
			c.ob("manifest", false, l0(ev), "the manifest is written by a loop")
			return
		}
	}
	if why := a.manifest(catParts(Cat(text...))); !c.ob("manifest", why == "", first.pos, "%s", why) {
		return
	}
	n := Sub(a.lines, Int(2))
	seen := [2]int{}
	loops := 0
	for i, ev := range path {
		if ev == first {
			continue
		}
		if isCreate(ev) {
			k, why := a.number(ev.args[1])
			c.ob("entry", why == "", ev.pos, "%s", why)
			if why != "" {
				continue
			}
			c.ob("entry", ev.args[0] == zip, ev.pos, "an entry is created in another archive")
			switch {
			case proveEq(f, k, Int(0)):
				seen[0]++
			case proveEq(f, k, Add(n, Int(1))):
				seen[1]++
			default:
				c.ob("entry", false, ev.pos, "an image that is none of the slices has number %s", str(k))
				continue
			}
			a.blank(path[i:], path, ev, f)
		}
		if ev.loop != nil && hasEv([]*Event{ev}, isCreate) {
			loops++
			a.slices(o, ev.loop, zip, n)
		}
	}
	c.ob("entry", seen[0] == 1, pos, "%d images have number 0", seen[0])
	c.ob("entry", seen[1] == 1, pos, "%d images have the last number", seen[1])
	c.ob("entry", loops == 1, pos, "%d loops create slices", loops)
}

func l0(ev *Event) token.Pos {
	if ev.loop != nil {
		return ev.loop.pos
	}
	return ev.pos
}

// blank: the entry is an image that is all black.
func (a *archive) blank(after, path []*Event, create *Event, f *Facts) {
	c := a.c
	n := 0
	for _, ev := range after {
		if ev.kind != "call" || len(ev.args) == 0 || bare(ev.args[0]) != bare(create.res[0]) {
			continue
		}
		n++
		var img *Term
		if ev.fn == "image/png.Encode" {
			img = ev.args[1]
		} else if ev.fn == "write" && ev.args[1].op == OApp && ev.args[1].s == "png" {
			img = ev.args[1].args[0]
		}
		if !c.ob("entry", img != nil, ev.pos, "what is written is not an image: %s", ev.fn) {
			continue
		}
		rest := blank(c, path, img, a.dim, f, ev.pos)
		c.ob("entry", len(rest) == 0, ev.pos, "the image is not blank")
	}
	c.ob("entry", n == 1, create.pos, "%d images are written to an entry", n)
}

// slices: the loop that has the slices computed.
func (a *archive) slices(o Outcome, l *Loop, zip, n *Term) {
	c := a.c
	isJob := func(ev *Event) bool { return ev.kind == "call" && ev.fn == sliceJob }
	st := c.p.Type("stl2svx/proto", "SliceJobRequest")
	rt := c.p.Type("stl2svx/proto", "SliceJobResponse")
	for _, it := range l.iters {
		for _, path := range flat(it.events) {
			f := it.facts
			var jobs, made []*Event
			for _, ev := range path {
				if isJob(ev) {
					jobs = append(jobs, ev)
				}
				if isCreate(ev) {
					made = append(made, ev)
				}
				if ev.loop != nil && hasEv([]*Event{ev}, func(q *Event) bool { return isJob(q) || isCreate(q) }) {
					c.ob("slice", false, ev.loop.pos, "a slice is computed or written in a loop of its own")
				}
			}
			if !c.ob("slice", len(jobs) == 1, l.pos, "%d slices are asked for in one round", len(jobs)) {
				continue
			}
			job := jobs[0]
			failed := func(ev *Event) bool {
				er := ev.res[len(ev.res)-1]
				return prove(f, Not(Eq(er, Nil(er.typ))))
			}
			if failed(job) {
				c.ob("slice", len(made) == 0, job.pos, "a slice that failed is written")
				continue
			}
			if !c.ob("slice", len(made) == 1, job.pos, "a slice is written %d times", len(made)) {
				continue
			}
			ev := made[0]
			k, why := a.number(ev.args[1])
			if !c.ob("slice", why == "", ev.pos, "%s", why) {
				continue
			}
			c.ob("slice", ev.args[0] == zip, ev.pos, "a slice is created in another archive")
			at, why := covers(a.e, Sub(k, Int(1)), Int(0), Int(1), n, []LoopAt{{l, it, o.st.facts}})
			c.ob("slice", at == l, ev.pos, "the numbers of the slices are not those declared: %s", why)
			var req *Term
			for _, t := range job.args {
				if p, ok := under2(t); ok && types.Identical(p, st) {
					req = a.e.load(it.st, t)
				}
			}
			if c.ob("slice", req != nil, job.pos, "no request for a slice") {
				c.ob("slice", proveEq(f, c.fld(req, st, "Z"), Sub(k, Int(1))), job.pos, "slice %s is written as number %s", str(c.fld(req, st, "Z")), str(k))
				c.ob("slice", c.fld(req, st, "NewJobRequest") == a.in, job.pos, "the slice asked for is of another job")
			}
			if failed(ev) || prove(f, Eq(job.res[0], Nil(job.res[0].typ))) {
				continue
			}
			want := c.fld(App("deref", rt, job.res[0]), rt, "PngFile")
			w := 0
			for _, q := range path {
				if q.kind == "call" && q.fn == "write" && bare(q.args[0]) == bare(ev.res[0]) {
					w++
					c.ob("slice", q.args[1] == want || q.args[1] == a.e.seqOf(it.st, want), q.pos, "what is written for a slice is %s, not its image", str(q.args[1]))
				}
			}
			c.ob("slice", w == 1, ev.pos, "%d images are written for a slice", w)
			c.count("slices", 1)
		}
	}
}

// under2: the type a pointer points to.
func under2(t *Term) (types.Type, bool) {
	if t.op == OPtr {
		b, _ := splitPtr(t)
		bt := baseType(b)
		return bt, bt != nil
	}
	if t.typ == nil {
		return nil, false
	}
	if p, ok := under(t.typ).(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

// manifest reads what is declared: the pattern of the names, and how many there are.
func (a *archive) manifest(text []*Term) string {
	attr := func(name string) []*Term {
		for i, p := range text {
			s, ok := strArg(p)
			if !ok {
				continue
			}
			k := strings.Index(s, name+"=\"")
			if k < 0 {
				continue
			}
			s = s[k+len(name)+2:]
			var out []*Term
			for {
				if e := strings.Index(s, "\""); e >= 0 {
					if e > 0 {
						out = append(out, Str(s[:e]))
					}
					return out
				}
				if s != "" {
					out = append(out, Str(s))
				}
				for i++; ; i++ {
					if i >= len(text) {
						return nil
					}
					if t, ok := strArg(text[i]); ok {
						s = t
						break
					}
					out = append(out, text[i])
				}
			}
		}
		return nil
	}
	axis := attr("slicesOrientation")
	if len(axis) != 1 {
		return "the manifest does not tell the orientation of the slices"
	}
	s, _ := strArg(axis[0])
	size := attr("gridSize" + s)
	if len(size) != 1 {
		return "the manifest does not tell the number of slices"
	}
	if a.lines = intArg(size[0]); a.lines == nil {
		return "the number of slices declared is " + str(size[0])
	}
	if a.pattern = attr(" slices"); a.pattern == nil {
		return "the manifest has no pattern for the slices"
	}
	verbs := 0
	for _, p := range a.pattern {
		if s, ok := strArg(p); ok {
			verbs += strings.Count(strings.ReplaceAll(s, "%%", ""), "%")
		}
	}
	if verbs != 1 {
		return fmt.Sprintf("the pattern of the slices has %d numbers", verbs)
	}
	return ""
}

// number: the number that the pattern gives a name for.
func (a *archive) number(name *Term) (*Term, string) {
	// the parts of the pattern, as they are in the name
	var want []*Term
	num := -1
	for _, p := range a.pattern {
		s, ok := strArg(p)
		if !ok {
			switch {
			case p.op == OApp && p.s == "escaped":
				p = p.args[0]
				if p.op == OApp && p.s == "replaced" && p.args[1] == Str("%") && p.args[2] == Str("%%") {
					want = append(want, p.args[0])
					continue
				}
				return nil, "a name in the pattern may have a % of its own: " + str(p)
			case intText(p):
				want = append(want, p)
				continue
			}
			return nil, "part of the pattern may be changed by what reads it: " + str(p)
		}
		s = strings.ReplaceAll(s, "%%", "\x00")
		if i := strings.Index(s, "%"); i >= 0 {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j == len(s) || s[j] != 'd' {
				return nil, "the number of the pattern is " + s[i:]
			}
			if i > 0 {
				want = append(want, Str(strings.ReplaceAll(s[:i], "\x00", "%")))
			}
			num = len(want)
			want = append(want, App("fmt:"+s[i+1:j+1], types.Typ[types.String], Int(0)))
			s = s[j+1:]
		}
		if s != "" {
			want = append(want, Str(strings.ReplaceAll(s, "\x00", "%")))
		}
	}
	got := catParts(name)
	if len(got) != len(want) {
		// a number that is part of the text around it
		if k, ok := a.inText(want, num, got); ok {
			return k, ""
		}
		return nil, fmt.Sprintf("the name %s is not one of the pattern", str(name))
	}
	var k *Term
	for i, p := range got {
		if i == num {
			if p.op == OApp && p.s == want[i].s && len(p.args) == 1 {
				k = p.args[0]
				continue
			}
		}
		if p != want[i] {
			return nil, fmt.Sprintf("the name %s is not one of the pattern: %s instead of %s", str(name), str(p), str(want[i]))
		}
	}
	return k, ""
}

// inText: the name with a constant number.
func (a *archive) inText(want []*Term, num int, got []*Term) (*Term, bool) {
	for k := int64(0); k < 4; k++ {
		width := strings.TrimSuffix(strings.TrimPrefix(want[num].s, "fmt:"), "d")
		w, _ := strconv.Atoi(width)
		text := strconv.FormatInt(k, 10)
		pad := " "
		if strings.HasPrefix(width, "0") {
			pad = "0"
		}
		for len(text) < w {
			text = pad + text
		}
		ps := append([]*Term{}, want...)
		ps[num] = Str(text)
		if Cat(ps...) == Cat(got...) {
			return Int(k), true
		}
	}
	return nil, false
}
