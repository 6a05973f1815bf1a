package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06, C08: the run-length writers list every voxel of the window.
//
// The bytes a writer has written where it reports success are cut into the header and the
// records. A record is decoded to a run (value, count); what the loops append is compared, by
// induction over their iterations, with the word that has one letter for each cell of the window.

func init() {
	checks["C06"] = func(c *Check) { c.writer("binvox", "BinVOX", "WhiteVoxels", false) }
	checks["C08"] = func(c *Check) { c.writer("vshell", "VShell", "Voxels", true) }
}

type run struct{ v, n *Term }

type encCase struct {
	facts []*Term
	runs  []run
}

type encCheck struct {
	c     *Check
	e     *Eng
	shell bool
	model *Term // the model
	vox   *Term // its voxels: a map or a list
	typ   types.Type
	start [3]*Term
	dim   [3]*Term // of the window
	elem  func(x *Term, f *Facts) ([]run, error)
	pos   token.Pos
	key   string
	exit  *Facts // where the writer succeeds
}

func (c *Check) writer(pkg, tn, vf string, shell bool) {
	c.rule("the stream written where the writer reports success: the header text term by term; the records decoded to runs, and the runs of every iteration of the encoding loops compared with the cells visited (induction over the loop nest, keys affine in the iteration numbers); a list or channel of runs in between is followed element by element.")
	typ := c.p.Type(pkg, tn)
	c.need(typ != nil, "no type %s in %s", tn, pkg)
	fn := c.fn(pkg, tn+".Write")
	c.need(len(fn.Params) == 8, "%s.Write does not take a file name and six numbers", tn)
	for mask := 0; mask < 8; mask++ {
		as, f := args(fn)
		for i := 0; i < 3; i++ {
			if mask>>uint(i)&1 == 1 {
				as[5+i] = Int(0)
			} else {
				f = f.AddAll([]*Term{GE(Sub(as[5+i], Int(1)))})
			}
		}
		c.writerCase(fn, typ, vf, shell, as, f, mask)
	}
	c.atLeast("header", 8*7)
	c.atLeast("cell", 8*4)
	c.atLeast("empty", 8)
	c.atLeast("record", 8*2)
}

func (c *Check) writerCase(fn *ssa.Function, typ types.Type, vf string, shell bool, as []*Term, f *Facts, mask int) {
	rcv := App("deref", typ, as[0])
	x := &encCheck{c: c, shell: shell, model: rcv, vox: c.fld(rcv, typ, vf), typ: typ, pos: fn.Pos(), key: fmt.Sprintf("%s/%03b", c.p.fnName(fn), mask)}
	for i, n := range []string{"NX", "NY", "NZ"} {
		x.start[i] = as[2+i]
		x.dim[i] = as[5+i]
		d := c.fld(rcv, typ, n)
		if mask>>uint(i)&1 == 1 {
			x.dim[i] = d
		}
		// the dimensions of a model are not negative
		f = f.AddAll([]*Term{GE(d)})
	}
	e := NewEng(c.p)
	e.joinAbove = 64
	e.keepOr = true
	x.e = e
	size := Len(x.vox)
	if !shell {
		size = App("maplen", types.Typ[types.Int], x.vox)
	}
	type group struct {
		f     *Facts
		sum   *Summary
		tails []encCase
	}
	var groups []*group
	n := 0
	for _, o := range c.run(e, fn, as, f) {
		if o.kind == "exit" {
			continue
		}
		if !c.ob("ends:"+x.key, o.kind == "ret", fn.Pos(), "the writer may end with a %s when %v", o.kind, o.st.facts) || !succeeds(o) {
			continue
		}
		n++
		var base *Term
		for _, ev := range o.st.trace.list() {
			for _, q := range flat([]*Event{ev}) {
				for _, y := range q {
					if y.kind == "call" && (y.fn == "os.Create" || y.fn == "os.OpenFile") && len(y.res) > 0 {
						base = bufBase(y.res[0])
					}
				}
			}
		}
		if !c.ob("file:"+x.key, base != nil && o.st.heap[base] != nil, fn.Pos(), "no bytes of a created file are known where the writer succeeds") {
			continue
		}
		parts := x.open(o.st.heap[base])
		hdr, rest, ok := x.header(parts)
		if !c.ob("form:"+x.key, ok, fn.Pos(), "the header is not made of the six lines it should have: %s", str(o.st.heap[base])) {
			continue
		}
		fs := o.st.facts
		if prove(fs, EQ0(size)) {
			c.counts["empty"]++
			for i := 0; i < 3; i++ {
				c.ob("empty:"+x.key, proveEq(fs, hdr[i], Int(0)), fn.Pos(), "an empty model is written with dimension %s", str(hdr[i]))
			}
			for i, n := range []string{"TX", "TY", "TZ", "Scale"} {
				c.ob("empty:"+x.key, proveEq(fs, hdr[3+i], c.fld(rcv, typ, n)), fn.Pos(), "an empty model is written with %s instead of its own %s", str(hdr[3+i]), n)
			}
			c.ob("empty:"+x.key, len(rest) == 0, fn.Pos(), "data is written for an empty model: %s", str(Cat(rest...)))
			continue
		}
		x.place(hdr, fs)
		// records
		i := 0
		for i < len(rest) && x.e.summ[rest[i]] == nil {
			i++
		}
		if !c.ob("data:"+x.key, i == 0 && len(rest) > 0, fn.Pos(), "data is written before any voxel is looked at: %s", str(Cat(rest...))) {
			continue
		}
		g := (*group)(nil)
		s, tail := x.e.summ[rest[0]], rest[1:]
		x.elem = nil
		if list := x.listOf(s); list != nil {
			c.counts["record"]++
			if !c.ob("record:"+x.key, len(tail) == 0, fn.Pos(), "data is written after the runs of the list: %s", str(Cat(tail...))) {
				continue
			}
			el, why := x.records(s, list, fs)
			if !c.ob("record:"+x.key, el != nil, fn.Pos(), "%s", why) {
				continue
			}
			x.elem = el
			ps := x.open(list)
			if !c.ob("runs:"+x.key, len(ps) > 0 && x.e.summ[ps[0]] != nil, fn.Pos(), "the runs are not collected in a loop: %s", str(list)) {
				continue
			}
			s, tail = x.e.summ[ps[0]], ps[1:]
		}
		rs, err := x.runs(tail, fs)
		if !c.ob("tail:"+x.key, err == nil, fn.Pos(), "what is written after the last cell is not understood: %v", err) {
			continue
		}
		for _, h := range groups {
			if h.sum.loop == s.loop && h.sum.phi == s.phi {
				g = h
			}
		}
		if g == nil {
			g = &group{f: fs, sum: s}
			groups = append(groups, g)
		}
		g.tails = append(g.tails, encCase{about(fs.lits, s.loop), rs})
		x.each(rs, fs)
	}
	c.ob("succeeds:"+x.key, n > 1, fn.Pos(), "the writer never succeeds")
	for _, g := range groups {
		x.exit = g.f
		w := g.tails
		ok, why := x.wordIs(g.sum.loop.entry, []run{}, w, initOf(g.sum.loop), nil)
		c.ob("first:"+x.key, ok, x.pos, "before the first cell a record is due: %s", why)
		c.ob("first:"+x.key, g.sum.phi.init != nil, x.pos, "")
		x.nest(g.sum, w, nil, g.f)
	}
}

func initOf(l *Loop) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, p := range l.phis {
		if p.init != nil {
			m[p.sym] = p.init
		}
	}
	if l.n != nil {
		m[l.n] = Int(0)
	}
	return m
}

// about: the facts on what the loop carries, other than the number of its iterations.
func about(ls []*Term, l *Loop) []*Term {
	var r []*Term
	for _, t := range ls {
		has, bad := false, false
		mentions(t, func(y *Term) bool {
			if y.op == OSym {
				carried := false
				for _, p := range l.phis {
					carried = carried || p.sym == y
				}
				if carried && y != l.n {
					has = true
				} else if strings.Contains(y.s, "~") {
					bad = true
				}
			}
			return false
		})
		if has && !bad {
			r = append(r, t)
		}
	}
	return r
}

// open lists the parts of a content, what loops append after the parts before them.
func (x *encCheck) open(t *Term) []*Term { return x.since(t, nil) }

// since opens a content up to what was there before.
func (x *encCheck) since(t, before *Term) []*Term {
	var r []*Term
	for _, p := range catParts(t) {
		if p.op == OArray && len(p.args) == 0 || p.op == OStr && p.s == "" {
			continue
		}
		if s := x.e.summ[p]; s != nil && s.phi.init != nil && p != before {
			r = append(r, x.since(s.phi.init, before)...)
		}
		r = append(r, p)
	}
	return r
}

// header cuts off the header: its seven values and the parts after it.
func (x *encCheck) header(parts []*Term) (vals []*Term, rest []*Term, ok bool) {
	magic := "#binvox 1\n"
	if x.shell {
		magic = "#vshell 1\n"
	}
	want := []string{magic + "dim ", " ", " ", "\ntranslate ", " ", " ", "\nscale ", "\ndata\n"}
	text := ""
	k := 0
	// numbers known when the program is built are part of the text
	known := func() {
		for k < 3 && len(text) > len(want[k]) && strings.HasPrefix(text, want[k]) {
			t := text[len(want[k]):]
			n := 0
			for n < len(t) && t[n] >= '0' && t[n] <= '9' {
				n++
			}
			if n == 0 {
				return
			}
			var d int64
			fmt.Sscanf(t[:n], "%d", &d)
			vals = append(vals, Int(d))
			text = t[n:]
			k++
		}
	}
	for i, p := range parts {
		if p.op == OStr {
			text += p.s
			continue
		}
		known()
		if k == 7 && text == want[7] {
			return vals, parts[i:], true
		}
		if k > 6 || text != want[k] || !(p.op == OApp && strings.HasPrefix(p.s, "fmt:") && len(p.args) == 1) {
			return nil, nil, false
		}
		v := intArg(p)
		if k >= 3 {
			v = nil
			if p.s == "fmt:g" || p.s == "fmt:v" {
				v = p.args[0]
			}
		}
		if v == nil {
			return nil, nil, false
		}
		vals = append(vals, v)
		k++
		text = ""
	}
	known()
	return vals, nil, k == 7 && text == want[7]
}

// place: the values of the header belong to the window.
func (x *encCheck) place(hdr []*Term, f *Facts) {
	c := x.c
	c.counts["header"] += len(hdr)
	fld := func(n string) *Term { return c.fld(x.model, x.typ, n) }
	for i, n := range []string{"x", "y", "z"} {
		c.ob("dim:"+n+":"+x.key, proveEq(f, hdr[i], x.dim[i]), x.pos, "the header gives the dimension %s along %s instead of %s when %v", str(hdr[i]), n, str(x.dim[i]), f)
	}
	big := MaxMin("max", fld("NX"), fld("NY"), fld("NZ"))
	win := MaxMin("max", x.dim[0], x.dim[1], x.dim[2])
	for _, pos := range []bool{true, false} {
		g, ok := f.Assume(GT(fld("Scale")))
		s := Div(fld("Scale"), big)
		if !pos {
			g, ok = f.Assume(Not(GT(fld("Scale"))))
			s = Int(1)
		}
		if !ok || !valid(g) {
			continue
		}
		for i, n := range []string{"TX", "TY", "TZ"} {
			want := Add(fld(n), Mul(x.start[i], s))
			c.ob("corner:"+n+":"+x.key, proveEq(g, hdr[3+i], want), x.pos, "the header gives the translation %s instead of %s when %v", str(hdr[3+i]), str(want), g)
		}
		// at the scale of the header a voxel has the size it has in the model
		for _, same := range []bool{true, false} {
			h, ok := g.Assume(Eq(big, win))
			want := fld("Scale")
			if !same {
				h, ok = g.Assume(Not(Eq(big, win)))
				want = Mul(win, s)
			}
			if !ok || !valid(h) {
				continue
			}
			good := proveEq(h, hdr[6], want) || same && pos && proveEq(h, hdr[6], Mul(win, s))
			c.ob("scale:"+x.key, good, x.pos, "the header gives the scale %s instead of %s when %v", str(hdr[6]), str(want), h)
		}
	}
}

// listOf: the list or channel each iteration of the loop takes one element of.
func (x *encCheck) listOf(s *Summary) *Term {
	var list *Term
	for _, t := range x.written(s, nil) {
		mentions(t, func(y *Term) bool {
			if y.op == OApp && y.s == "elem" && y.args[0] != x.vox && list == nil && hasMarker(y.args[1], s.loop.marker) {
				list = y.args[0]
			}
			return false
		})
	}
	return list
}

// written: what the iterations of a loop append, those of the loops in it too, and when.
func (x *encCheck) written(s *Summary, with func(*Facts)) []*Term {
	var r []*Term
	for _, it := range s.loop.iters {
		if with != nil {
			with(it.facts)
		}
		for _, p := range x.since(it.back[s.phi.sym], s.phi.sym) {
			r = append(r, p)
			if q := x.e.summ[p]; q != nil && p != s.phi.sym && q.loop != s.loop {
				for _, ph := range q.loop.phis {
					if ph.init != nil && ph.sym != p {
						r = append(r, ph.init)
					}
				}
				r = append(r, x.written(q, with)...)
			}
		}
	}
	return r
}

// eachElem: the loop takes the elements of the list one after another, to the last; it returns
// the element of the iteration.
func eachElem(l *Loop, used []*Term, list *Term, exit *Facts) (*Term, string) {
	var idx *Term
	for _, p := range l.phis {
		for _, t := range used {
			mentions(t, func(y *Term) bool {
				if y.op == OApp && y.s == "elem" && y.args[0] == list && (idx == nil || y.args[1] == p.sym) {
					idx = y.args[1]
				}
				return false
			})
		}
	}
	if idx == nil {
		return nil, "no element of the list is used"
	}
	el := App("elem", nil, list, idx)
	var ph *PhiInfo
	for _, p := range l.phis {
		if p.sym == idx {
			ph = p
		}
	}
	for _, it := range l.iters {
		if ph == nil {
			if in, why := covers(nil, idx, Int(0), Int(1), Len(list), []LoopAt{{l, it, exit}}); in == nil {
				return nil, "the loop does not visit each run once: " + why
			}
			continue
		}
		if ph.init != Int(0) || !proveEq(it.facts, it.back[idx], Add(idx, Int(1))) || !prove(it.facts, Lt(idx, Len(list))) {
			return nil, "the loop does not visit the runs one after another"
		}
	}
	if ph != nil && !prove(exit, Le(Len(list), idx)) {
		return nil, fmt.Sprintf("the loop may end before the last run when %v", exit)
	}
	return el, ""
}

func values(m map[*Term]*Term) []*Term {
	var r []*Term
	for _, v := range m {
		r = append(r, v)
	}
	return r
}

// records finds what a run of the list is written as: which of its parts is the value and which
// the count. It returns the decoder of elements.
func (x *encCheck) records(s *Summary, list *Term, exit *Facts) (func(*Term, *Facts) ([]run, error), string) {
	var lits []*Term
	used := x.written(s, func(f *Facts) { lits = append(lits, f.lits...) })
	any, why := eachElem(s.loop, used, list, exit)
	if any == nil {
		return nil, why
	}
	idx := any.args[1]
	part := func(y *Term) *Term {
		if y.op == OApp && strings.HasPrefix(y.s, "fld") && y.args[0].op == OApp && y.args[0].s == "elem" && y.args[0].args[0] == list && y.args[0].args[1] == idx {
			return y
		}
		return nil
	}
	var parts []*Term
	for _, t := range append(used, lits...) {
		mentions(t, func(y *Term) bool {
			if p := part(y); p != nil {
				for _, q := range parts {
					if q == p {
						return false
					}
				}
				parts = append(parts, p)
			}
			return false
		})
	}
	why = "no part of a run is its value and none its count"
	for _, v := range parts {
		for _, n := range parts {
			if v == n {
				continue
			}
			if w := x.asRun(s, v, n); w != "" {
				if why == "no part of a run is its value and none its count" || strings.Contains(w, " cells is ") || !strings.Contains(w, "with value") && !strings.Contains(why, " cells is ") {
					why = w
				}
				continue
			}
			vi, ni := fldNo(v), fldNo(n)
			return func(t *Term, f *Facts) ([]run, error) {
				if t.op != OStruct || vi >= len(t.args) || ni >= len(t.args) {
					return nil, fmt.Errorf("a run whose parts are not known: %s", str(t))
				}
				return []run{{t.args[vi], narrow(t.args[ni], f)}}, nil
			}, ""
		}
	}
	return nil, why
}

func fldNo(t *Term) int {
	n := -1
	fmt.Sscanf(t.s, "fld%d", &n)
	return n
}

// asRun: each iteration writes records of value v, n cells in all.
func (x *encCheck) asRun(s *Summary, v, n *Term) string {
	for _, it := range s.loop.iters {
		f, ok := it.facts.Assume(GE(Sub(n, Int(1))))
		if !ok {
			continue
		}
		ps := x.since(it.back[s.phi.sym], s.phi.sym)
		if len(ps) == 0 || ps[0] != s.phi.sym {
			return "a run is written over earlier ones"
		}
		rs, err := x.runs(ps[1:], f)
		if err != nil {
			return err.Error()
		}
		sum := Int(0)
		for _, r := range rs {
			if !proveEq(f, r.v, v) {
				return fmt.Sprintf("a run of %s is written with value %s when %v", str(v), str(r.v), f)
			}
			sum = Add(sum, r.n)
		}
		if !proveEq(f, sum, n) {
			return fmt.Sprintf("a run of %s cells is written as %s cells when %v", str(n), str(sum), f)
		}
	}
	return ""
}

// runs decodes records.
func (x *encCheck) runs(parts []*Term, f *Facts) ([]run, error) {
	var out []run
	var bs []piece
	flush := func() error {
		for len(bs) > 0 {
			r, k, err := x.record(bs, f)
			if err != nil {
				return err
			}
			out = append(out, r)
			bs = bs[k:]
		}
		return nil
	}
	for _, p := range parts {
		switch {
		case p.op == OArray && x.elem != nil:
			for _, a := range p.args {
				rs, err := x.elem(a, f)
				if err != nil {
					return nil, err
				}
				out = append(out, rs...)
			}
		case p.op == OArray:
			for _, a := range p.args {
				bs = append(bs, piece{b: a})
			}
		case p.op == OStr:
			for i := 0; i < len(p.s); i++ {
				bs = append(bs, piece{b: Int(int64(p.s[i]))})
			}
		case p.op == OApp && p.s == "rep" && x.elem == nil:
			if err := flush(); err != nil {
				return nil, err
			}
			rs, err := x.runs(catParts(p.args[0]), f)
			if err != nil {
				return nil, err
			}
			for _, r := range rs {
				if r.v != rs[0].v {
					return nil, fmt.Errorf("different records are repeated")
				}
				out = append(out, run{r.v, Mul(r.n, p.args[1])})
			}
		case x.e.summ[p] != nil && x.elem == nil:
			if err := flush(); err != nil {
				return nil, err
			}
			r, err := x.chunks(x.e.summ[p], f)
			if err != nil {
				return nil, err
			}
			out = append(out, r...)
		default:
			return nil, fmt.Errorf("bytes that are not known: %s", str(p))
		}
	}
	if err := flush(); err != nil {
		return nil, err
	}
	for _, r := range out {
		if x.shell || proveEq(f, r.v, Int(0)) || proveEq(f, r.v, Int(1)) {
			continue
		}
		if x.elem == nil && !hasMarker(r.v, "~") {
			return nil, fmt.Errorf("a record of value %s", str(r.v))
		}
	}
	return out, nil
}

// chunks: a loop that writes a run piece by piece: what it writes is what a number it counts decreases by.
func (x *encCheck) chunks(s *Summary, f *Facts) ([]run, error) {
	var v *Term
	var cands []*PhiInfo
	for _, p := range s.loop.phis {
		if p != s.phi && p.init != nil && polyIsInt(P(p.init)) {
			cands = append(cands, p)
		}
	}
	for _, it := range s.loop.iters {
		ps := x.since(it.back[s.phi.sym], s.phi.sym)
		if len(ps) == 0 || ps[0] != s.phi.sym {
			return nil, fmt.Errorf("a loop that does not only append")
		}
		rs, err := x.runs(ps[1:], it.facts)
		if err != nil {
			return nil, err
		}
		sum := Int(0)
		for _, r := range rs {
			if v == nil {
				v = r.v
			}
			if hasMarker(v, s.loop.marker) || !proveEq(it.facts, r.v, v) {
				return nil, fmt.Errorf("a loop writes different values")
			}
			sum = Add(sum, r.n)
		}
		var ok []*PhiInfo
		for _, p := range cands {
			if proveEq(it.facts, Sub(p.sym, stepOf(p, it)), sum) {
				ok = append(ok, p)
			}
		}
		cands = ok
	}
	if v == nil || len(cands) == 0 {
		return nil, fmt.Errorf("a loop that writes a number of cells that is not known")
	}
	p := cands[0]
	n := Sub(p.init, p.sym)
	// what is left to write never becomes negative
	down := prove(f, GE(p.init))
	for _, it := range s.loop.iters {
		g, ok := it.facts.Assume(GE(p.sym))
		down = down && (!ok || prove(g, GE(stepOf(p, it))))
	}
	if down {
		f = f.AddAll([]*Term{GE(p.sym)})
	}
	if proveEq(f, p.sym, Int(0)) {
		n = p.init
	}
	return []run{{v, n}}, nil
}

// record decodes one record.
func (x *encCheck) record(bs []piece, f *Facts) (run, int, error) {
	val := func(t *Term) *Term { return narrow(t, f) }
	var v, n *Term
	k := 2
	if !x.shell {
		if len(bs) < 2 {
			return run{}, 0, fmt.Errorf("an incomplete record")
		}
		v, n = val(bs[0].b), val(bs[1].b)
	} else {
		if len(bs) < 5 {
			return run{}, 0, fmt.Errorf("an incomplete record")
		}
		v = le(bs[:4])
		if v == nil {
			return run{}, 0, fmt.Errorf("a value that is not in little-endian order")
		}
		if c, ok := constInt(v); ok && c < 0 {
			v = Int(c + 1<<32)
		}
		all := Int(1<<32 - 1)
		switch {
		case prove(f, Or(Eq(v, Int(0)), Eq(v, all))):
			if len(bs) < 6 {
				return run{}, 0, fmt.Errorf("a count of one byte for the value %s when %v", str(v), f)
			}
			k = 6
			n = le(bs[4:6])
			if n == nil {
				return run{}, 0, fmt.Errorf("a count that is not in little-endian order")
			}
			if b, ok := under(n.typ).(*types.Basic); !(ok && b.Kind() == types.Uint16) && !(prove(f, GE(n)) && prove(f, Lt(n, Int(1<<16)))) {
				return run{}, 0, fmt.Errorf("the count %s may not fit two bytes when %v", str(n), f)
			}
		case prove(f, Not(Eq(v, Int(0)))) && prove(f, Not(Eq(v, all))):
			k = 5
			n = val(bs[4].b)
		default:
			return run{}, 0, fmt.Errorf("the width of the count does not follow from the value %s when %v", str(v), f)
		}
	}
	if k < 6 && !(prove(f, GE(n)) && prove(f, Lt(n, Int(256)))) {
		return run{}, 0, fmt.Errorf("the count %s may not fit one byte when %v", str(n), f)
	}
	if prove(f, EQ0(n)) || !prove(f, GE(Sub(n, Int(1)))) {
		return run{}, 0, fmt.Errorf("a record of count %s when %v", str(n), f)
	}
	return run{v, n}, k, nil
}

// stepOf is what an iteration makes of a carried number.
func stepOf(p *PhiInfo, it *IterPath) *Term {
	f := it.facts
	if b, ok := under(p.sym.typ).(*types.Basic); ok {
		if w := map[types.BasicKind]int64{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32}[b.Kind()]; w > 0 {
			f = f.AddAll([]*Term{GE(p.sym), Lt(p.sym, Int(1<<uint(w)))})
		}
	}
	return narrow(it.back[p.sym], f)
}

// narrow: a conversion to an unsigned type that keeps the number.
func narrow(t *Term, f *Facts) *Term {
	if t.op != OApp || t.s != "wrap" && t.s != "bits" {
		return t
	}
	in := t.args[0]
	w := int64(0)
	if b, ok := under(t.typ).(*types.Basic); ok {
		w = map[types.BasicKind]int64{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32}[b.Kind()]
	}
	if t.s == "bits" {
		if t.args[1] != Int(0) {
			return t
		}
		w, _ = constInt(t.args[2])
	}
	if w > 0 && w < 63 && prove(f, GE(in)) && prove(f, Lt(in, Int(1<<uint(w)))) {
		return in
	}
	return t
}

// each: the runs put into a list have a count.
func (x *encCheck) each(rs []run, f *Facts) {
	for _, r := range rs {
		x.c.ob("count:"+x.key, prove(f, GE(Sub(r.n, Int(1)))), x.pos, "a run of count %s when %v", str(r.n), f)
		if !x.shell {
			x.c.ob("value:"+x.key, prove(f, Eq(r.v, Int(0))) || prove(f, Eq(r.v, Int(1))) || x.bit(f, r.v), x.pos, "a run of value %s when %v", str(r.v), f)
		}
	}
}

// bit: a carried value that every iteration leaves or sets to 0 or 1.
func (x *encCheck) bit(f *Facts, v *Term) bool { return x.bitOf(v, map[*Term]bool{}) }

func (x *encCheck) bitOf(v *Term, seen map[*Term]bool) bool {
	if v == Int(0) || v == Int(1) || seen[v] {
		return true
	}
	seen[v] = true
	s := x.e.summ[v]
	if s == nil || !x.bitOf(s.phi.init, seen) {
		return false
	}
	for _, it := range s.loop.iters {
		if b := it.back[v]; b == nil || !x.bitOf(b, seen) && !proveEq(it.facts, b, Int(0)) && !proveEq(it.facts, b, Int(1)) {
			return false
		}
	}
	return true
}

// nest proves, for one loop, that what it appends followed by what is due grows by one cell
// with each iteration of the innermost loop.
func (x *encCheck) nest(s *Summary, w []encCase, stack []LoopAt, exit *Facts) {
	c, l, X := x.c, s.loop, s.phi.sym
	// some case applies whatever the loop carries
	c.ob("cases:"+x.key, x.complete(l.facts, w), l.pos, "it does not follow from the state what is written at the end: %s when %v", caseStr(w), l.facts)
	inner := map[*Loop]*Summary{}
	var order []*Loop
	after := map[*Loop][]encCase{}
	outer := map[*Loop][]LoopAt{}
	entry := map[*Loop]*Facts{}
	for _, it := range l.iters {
		b := it.back[X]
		ps := catParts(b)
		st := append(append([]LoopAt{}, stack...), LoopAt{l, it, exit})
		in := x.e.summ[ps[0]]
		if ps[0] != X && in != nil && strings.HasPrefix(in.loop.marker, "~") && in.loop != l {
			rs, err := x.runs(ps[1:], it.facts)
			if !c.ob("step:"+x.key, err == nil, l.pos, "what is written between rows is not understood: %v", err) {
				return
			}
			x.each(rs, it.facts)
			if inner[in.loop] == nil {
				order = append(order, in.loop)
			}
			inner[in.loop] = in
			outer[in.loop] = st
			for _, cs := range w {
				after[in.loop] = append(after[in.loop], encCase{
					append(about(it.facts.lits, in.loop), substAll(cs.facts, it.back)...),
					append(append([]run{}, rs...), substRuns(cs.runs, it.back)...)})
			}
			entry[in.loop] = in.loop.entry
			continue
		}
		if !c.ob("step:"+x.key, ps[0] == X, l.pos, "the loop does not only append: %s", str(b)) {
			return
		}
		rs, err := x.runs(ps[1:], it.facts)
		if !c.ob("step:"+x.key, err == nil, l.pos, "what an iteration writes is not understood: %v", err) {
			return
		}
		x.each(rs, it.facts)
		held, v, why := x.cell(it, st)
		c.counts["cell"]++
		if !c.ob("cell:"+x.key, v != nil, l.pos, "%s", why) {
			return
		}
		for _, cs := range w {
			for _, l2 := range []*Term{held, Not(held)} {
				f, ok := assumeAll(it.facts, append([]*Term{l2}, cs.facts...))
				if !ok {
					continue
				}
				f = x.readOf(it, held, l2 == held, f)
				r := run{v, Int(1)}
				if l2 != held {
					r.v = Int(0)
				}
				left := append(append([]run{}, cs.runs...), r)
				ok, why := x.wordIs2(f, left, rs, w, it.back)
				c.ob("cell:"+x.key, ok, l.pos, "a cell is not written exactly once with its value: %s", why)
			}
		}
	}
	for _, in := range order {
		// entering the inner loop changes nothing
		s2 := inner[in]
		pre := catParts(s2.phi.init)
		if !c.ob("step:"+x.key, pre[0] == X, l.pos, "a loop does not go on with what was written before: %s", str(s2.phi.init)) {
			return
		}
		rs, err := x.runs(pre[1:], in.entry)
		if !c.ob("step:"+x.key, err == nil, l.pos, "what is written before a row is not understood: %v", err) {
			return
		}
		x.each(rs, in.entry)
		for _, cs := range w {
			f, ok := assumeAll(in.entry, cs.facts)
			if !ok {
				continue
			}
			ok, why := x.wordIs2(f, cs.runs, rs, after[in], initOf(in))
			c.ob("enter:"+x.key, ok, in.pos, "a row does not start where the one before ended: %s", why)
		}
		o := outer[in]
		x.nest(s2, after[in], o, o[len(o)-1].it.facts)
	}
}

func substAll(ls []*Term, m map[*Term]*Term) []*Term {
	var r []*Term
	memo := map[*Term]*Term{}
	for _, l := range ls {
		r = append(r, subst(l, m, memo))
	}
	return r
}

func substRuns(rs []run, m map[*Term]*Term) []run {
	var r []run
	memo := map[*Term]*Term{}
	for _, q := range rs {
		r = append(r, run{subst(q.v, m, memo), subst(q.n, m, memo)})
	}
	return r
}

func assumeAll(f *Facts, ls []*Term) (*Facts, bool) {
	ok := true
	for _, l := range ls {
		if f, ok = f.Assume(l); !ok {
			return f, false
		}
	}
	return f, valid(f)
}

// complete: under the facts one of the cases applies.
func (x *encCheck) complete(f *Facts, w []encCase) bool {
	if len(w) == 0 {
		return !valid(f)
	}
	for _, l := range w[0].facts {
		if g, ok := f.Assume(Not(l)); ok && !x.complete(g, w[1:]) {
			return false
		}
	}
	return true
}

// wordIs: the runs equal what is due after the values in m replaced the carried ones.
func (x *encCheck) wordIs(f *Facts, left []run, w []encCase, m map[*Term]*Term, done []run) (bool, string) {
	return x.wordIs2(f, left, done, w, m)
}

func (x *encCheck) wordIs2(f *Facts, left, done []run, w []encCase, m map[*Term]*Term) (bool, string) {
	for _, cs := range w {
		g, ok := assumeAll(f, substAll(cs.facts, m))
		if !ok {
			continue
		}
		right := append(append([]run{}, done...), substRuns(cs.runs, m)...)
		a, b := normRuns(g, left), normRuns(g, right)
		same := len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			same = proveEq(g, a[i].v, b[i].v) && proveEq(g, a[i].n, b[i].n)
		}
		if !same {
			return false, fmt.Sprintf("%s instead of %s when %v", runStr(b), runStr(a), g)
		}
	}
	return true, ""
}

func runStr(rs []run) string {
	var r []string
	for _, q := range rs {
		r = append(r, fmt.Sprintf("%s times %s", str(q.n), str(q.v)))
	}
	return "[" + strings.Join(r, ", ") + "]"
}

func normRuns(f *Facts, rs []run) []run {
	var r []run
	for _, q := range rs {
		if prove(f, EQ0(q.n)) {
			continue
		}
		if k := len(r) - 1; k >= 0 && proveEq(f, r[k].v, q.v) {
			r[k].n = Add(r[k].n, q.n)
			continue
		}
		r = append(r, q)
	}
	return r
}

// cell: the value the model has at the cell of an iteration if it holds a voxel there, the cells
// being visited in order.
func (x *encCheck) cell(it *IterPath, stack []LoopAt) (held, val *Term, why string) {
	if len(stack) != 3 {
		return nil, nil, fmt.Sprintf("the cells are visited by %d nested loops", len(stack))
	}
	for _, ev := range it.events {
		if ev.kind != "mapget" || len(ev.args) < 2 {
			continue
		}
		m, k := ev.args[0], ev.args[1]
		if len(ev.args) > 2 {
			m = ev.args[2]
		}
		if k.op != OStruct || len(k.args) != 3 {
			continue
		}
		if x.shell {
			v, why := x.lookup(m, ev.res[0])
			if v == nil {
				return nil, nil, why
			}
			val = v
		} else if m == x.vox {
			val = Int(1)
		} else {
			continue
		}
		for axis, depth := range []int{0, 2, 1} {
			in, why := covers(x.e, k.args[axis], x.start[axis], Int(1), Add(x.start[axis], x.dim[axis]), stack)
			if in == nil {
				return nil, nil, fmt.Sprintf("index %d of the cells: %s", axis, why)
			}
			if in != stack[depth].loop {
				return nil, nil, fmt.Sprintf("index %d of the cells changes in the wrong loop", axis)
			}
		}
		ok := ev.res[1]
		return ok, val, ""
	}
	return nil, nil, "the model is not looked up"
}

// readOf: a read of a map is zero where it has no entry.
func (x *encCheck) readOf(it *IterPath, held *Term, in bool, f *Facts) *Facts {
	for _, ev := range it.events {
		if ev.kind != "mapget" || len(ev.res) < 2 || ev.res[1] != held {
			continue
		}
		m := ev.args[0]
		if len(ev.args) > 2 {
			m = ev.args[2]
		}
		z := App("mgetz", ev.res[0].typ, m, ev.args[1])
		if in {
			return f.AddAll([]*Term{Eq(z, ev.res[0])})
		}
		return f.AddAll([]*Term{Eq(z, zeroValue(z.typ))})
	}
	return f
}

// lookup: the map holds each voxel of the list under its indices; it returns the neighbour bits
// of the voxel found under a key.
func (x *encCheck) lookup(m, got *Term) (*Term, string) {
	s := x.e.summ[m]
	if s == nil || s.phi.init == nil || !(s.phi.init.op == OApp && s.phi.init.s == "map0") {
		return nil, "the cells are looked up in a map that is not built from the voxels"
	}
	vt := elemType(x.vox.typ)
	fidx := func(n string) int {
		st, ok := under(vt).(*types.Struct)
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return i
				}
			}
		}
		return -1
	}
	for _, it := range s.loop.iters {
		b := it.back[m]
		if !(b.op == OApp && b.s == "mset" && b.args[0] == m) {
			return nil, "the map of the voxels is not built of one entry for each voxel"
		}
		var el *Term
		mentions(b.args[1], func(y *Term) bool {
			if y.op == OApp && y.s == "elem" && y.args[0] == x.vox {
				el = y
			}
			return false
		})
		if el == nil {
			return nil, "the map of the voxels is not built from their list"
		}
		for i, n := range []string{"X", "Y", "Z"} {
			if kk := b.args[1]; kk.op != OStruct || len(kk.args) != 3 || kk.args[i] != fieldAt(el, fidx(n), vt) {
				return nil, fmt.Sprintf("the map of the voxels is built with index %s for %s", str(kk), n)
			}
		}
		if in, why := covers(x.e, el.args[1], Int(0), Int(1), Len(x.vox), []LoopAt{{s.loop, it, x.exit}}); in == nil {
			return nil, "the map of the voxels: " + why
		}
		bitsOf := func(e *Term) *Term { return fieldAt(e, fidx("N"), vt) }
		if b.args[2] == el.args[1] {
			return bitsOf(App("elem", el.typ, x.vox, got)), ""
		}
		if b.args[2] == bitsOf(el) {
			return got, ""
		}
		return nil, fmt.Sprintf("the map of the voxels holds %s", str(b.args[2]))
	}
	return nil, "the map of the voxels is empty"
}

// fieldAt is a field of a struct value.
func fieldAt(t *Term, i int, typ types.Type) *Term {
	if st, ok := under(typ).(*types.Struct); ok && i >= 0 && i < st.NumFields() {
		return fieldOf(t, i, st.Field(i).Type())
	}
	return t
}

// succeeds: the outcome returns no error, or one that is not known to be one.
func succeeds(o Outcome) bool {
	if len(o.res) == 0 {
		return true
	}
	er := o.res[len(o.res)-1]
	return er.op == ONil || o.st.facts.Entails(Eq(er, Nil(er.typ))) || mayBeNil(o.st.facts, er)
}

func caseStr(w []encCase) string {
	var r []string
	for _, cs := range w {
		r = append(r, fmt.Sprintf("%s if %v", runStr(cs.runs), emptyFacts.AddAll(cs.facts)))
	}
	return strings.Join(r, " or ")
}
