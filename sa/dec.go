package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07, C09, C10: the run-length readers.
//
// The loop over the records and the loop over the cells of a record carry a position. The index of
// the key a cell is stored under, as a function of what the loops carry, must start at 0, grow by
// one with each cell and by the count with each record.

func init() {
	checks["C07"] = func(c *Check) { c.reader("binvox", "BinVOX", "WhiteVoxels", false, false) }
	checks["C09"] = func(c *Check) { c.reader("vshell", "VShell", "Voxels", true, false) }
	checks["C10"] = func(c *Check) {
		c.reader("binvox", "BinVOX", "WhiteVoxels", false, true)
		c.reader("vshell", "VShell", "Voxels", true, true)
	}
}

type decCheck struct {
	c     *Check
	e     *Eng
	shell bool
	bad   bool // C10: what is not well formed
	typ   types.Type
	start [3]*Term
	count [3]*Term
	dims  [3]*Term
	lines []*Term
	phi   *Term             // index of the first cell of a record
	outer *Loop             // the loop over the records
	keys  map[*Loop][]*Term // the cell an iteration of an inner loop is about
	pos   token.Pos
	key   string
}

func (c *Check) reader(pkg, tn, vf string, shell, bad bool) {
	if bad {
		c.rule("every path of the reader returns (no panic, every index, conversion and division in bounds); where it reports success the header lines matched their patterns, the window is not negative, each record consumed has a count of at least one and a legal value, every cell lies inside the dimensions, and the stream ended before a record.")
	} else {
		c.rule("where the reader reports success each dimension, translation and scale is the number of its place in the header; the index of the key under which a cell is stored is a potential of the loops that starts at 0 and grows by one with each cell and by the count with each record; a cell is stored exactly if its value is kept and its key lies in the window.")
	}
	typ := c.p.Type(pkg, tn)
	c.need(typ != nil, "no type %s in %s", tn, pkg)
	fn := c.fn(pkg, "Read")
	c.need(len(fn.Params) == 7, "%s.Read does not take a file name and six numbers", pkg)
	for mask := 0; mask < 8; mask++ {
		as, f := args(fn)
		for i := 0; i < 3; i++ {
			f = f.AddAll([]*Term{GE(as[1+i])})
			if mask>>uint(i)&1 == 1 {
				as[4+i] = Int(0)
			} else {
				f = f.AddAll([]*Term{GE(Sub(as[4+i], Int(1)))})
			}
		}
		x := &decCheck{c: c, shell: shell, bad: bad, typ: typ, pos: fn.Pos(), key: fmt.Sprintf("%s/%03b", c.p.fnName(fn), mask)}
		for i := 0; i < 3; i++ {
			x.start[i], x.count[i] = as[1+i], as[4+i]
		}
		x.run(fn, as, f, vf)
	}
	k := 8
	if bad {
		k = 16
		for i := 0; i < 6; i++ {
			as, f := args(fn)
			f = f.AddAll([]*Term{Lt(as[1+i], Int(0))})
			e := NewEng(c.p)
			for _, o := range c.run(e, fn, as, f) {
				c.counts["negative"]++
				c.ob(fmt.Sprintf("negative:%s/%d", c.p.fnName(fn), i), o.kind == "ret" && !succeeds(o), fn.Pos(), "%s may accept a negative number for %s", c.p.fnName(fn), as[1+i].s)
			}
		}
		c.atLeast("negative", 6)
	} else {
		c.atLeast("header", 7*8)
		c.atLeast("error", 8*14)
	}
	c.atLeast("record", k)
	c.atLeast("cell", k)
}

func (x *decCheck) run(fn *ssa.Function, as []*Term, f *Facts, vf string) {
	c := x.c
	e := NewEng(c.p)
	e.joinAbove = 64
	e.keepOr = true
	x.e = e
	n := 0
	outs := c.run(e, fn, as, f)
	for _, o := range outs {
		if o.kind == "exit" {
			c.ob("ends:"+x.key, false, fn.Pos(), "the reader may end the program when %v", o.st.facts)
			continue
		}
		if x.bad {
			c.ob("ends:"+x.key, o.kind == "ret", fn.Pos(), "the reader may end with a %s when %v", o.kind, o.st.facts)
		}
		if o.kind != "ret" || !succeeds(o) {
			continue
		}
		n++
		x.success(o, vf)
	}
	if !x.bad && x.outer != nil {
		for _, o := range outs {
			if o.kind == "ret" && !succeeds(o) {
				x.failure(o)
			}
		}
	}
	c.ob("succeeds:"+x.key, n > 0, fn.Pos(), "the reader never succeeds")
	if x.bad {
		c.counts["path"] += n
		for _, ob := range e.obls {
			if ob.kind == "lock-balance" {
				continue
			}
			c.ob(fmt.Sprintf("%s:%s", ob.kind, c.p.fnName(ob.in)), ob.ok, ob.pos, "may fail (%s): %v when %v", ob.kind, ob.what, ob.facts)
		}
	}
}

func (x *decCheck) success(o Outcome, vf string) {
	c, f := x.c, o.st.facts
	if !c.ob("result:"+x.key, o.res[0].op != ONil && !mayBeNil(f, o.res[0]), x.pos, "the reader may return no model and no error when %v", f) {
		return
	}
	m := x.e.load(o.st, o.res[0])
	for i, n := range []string{"NX", "NY", "NZ"} {
		x.dims[i] = c.fld(m, x.typ, n)
	}
	evs := o.st.trace.list()
	if !x.header(m, evs, f) {
		return
	}
	vox := c.fld(m, x.typ, vf)
	if x.shell {
		vox = x.e.seqOf(o.st, vox)
	} else {
		vox = x.e.mapContent(o.st, vox)
	}
	s := x.e.summ[vox]
	if !c.ob("collect:"+x.key, s != nil && s.phi.init != nil && x.empty(s.phi.init), x.pos, "the voxels returned are not those a loop over the records collects: %s", str(vox)) {
		return
	}
	x.records(s)
	if x.bad {
		x.atEnd(s.loop, evs, f)
	}
}

func (x *decCheck) empty(t *Term) bool {
	return t.op == ONil || t.op == OArray && len(t.args) == 0 || t.op == OApp && t.s == "map0"
}

// header: the five lines and the numbers in them.
func (x *decCheck) header(m *Term, evs []*Event, f *Facts) bool {
	c := x.c
	for _, path := range flat(evs) {
		var lines []*Term
		bufs := 0
		for _, ev := range path {
			if ev.loop != nil {
				break
			}
			if ev.kind == "bufreader" {
				bufs++
			}
			if ev.kind == "call" && strings.HasSuffix(ev.fn, "bufio.Reader).ReadString") && len(ev.res) > 0 && len(ev.args) == 2 && ev.args[1] == Int('\n') {
				lines = append(lines, ev.res[0])
			}
		}
		for _, ev := range path {
			if ev.loop != nil {
				for _, it := range ev.loop.iters {
					if hasEv(it.events, func(q *Event) bool { return q.kind == "bufreader" }) {
						bufs++
					}
				}
			}
		}
		if !c.ob("lines:"+x.key, len(lines) == 5, x.pos, "the reader reads %d header lines", len(lines)) {
			return false
		}
		if !c.ob("buffer:"+x.key, bufs == 1, x.pos, "the stream is read through %d buffers", bufs) {
			return false
		}
		x.lines = lines
	}
	magic := "#binvox 1\n"
	if x.shell {
		magic = "#vshell 1\n"
	}
	ok := c.ob("magic:"+x.key, prove(f, Eq(x.lines[0], Str(magic))), x.pos, "a file is accepted whose first line need not be %q when %v", magic, f)
	ok = c.ob("data:"+x.key, prove(f, Eq(x.lines[4], Str("data\n"))), x.pos, "a file is accepted whose fifth line need not be %q when %v", "data\n", f) && ok
	for i, n := range []string{"NX", "NY", "NZ", "TX", "TY", "TZ", "Scale"} {
		c.counts["header"]++
		word, k, num, conv := "dim", i+1, 3, "atoi"
		line := x.lines[1]
		if i >= 3 {
			word, k, line, conv = "translate", i-2, x.lines[2], "atof"
		}
		if i == 6 {
			word, k, num, line = "scale", 1, 1, x.lines[3]
		}
		v := c.fld(m, x.typ, n)
		why := x.number(v, word, k, num, line, conv, f)
		ok = c.ob("header:"+n+":"+x.key, why == "", x.pos, "%s: %s", n, why) && ok
	}
	return ok
}

// number: the value is the k-th number of the line.
func (x *decCheck) number(v *Term, word string, k, num int, line *Term, conv string, f *Facts) string {
	if v.op != OApp || v.s != conv || len(v.args) == 0 {
		return fmt.Sprintf("it is %s and not a number read by %s", str(v), conv)
	}
	g := v.args[0]
	if !(g.op == OApp && strings.HasPrefix(g.s, "group:") && len(g.args) == 3 && g.args[0].op == OStr) {
		return fmt.Sprintf("it is read from %s", str(g))
	}
	if g.args[1] != line {
		return "it is read from another line"
	}
	if g.args[2] != Int(int64(k)) {
		return fmt.Sprintf("it is number %s of the line %q", str(g.args[2]), word)
	}
	if !prove(f, App("match", types.Typ[types.Bool], g.args[0], line)) {
		return "the line need not match its pattern"
	}
	if !prove(f, Eq(App(conv+"err", errType, v.args...), Nil(errType))) {
		return fmt.Sprintf("a number that cannot be read is accepted when %v", f)
	}
	return lineForm(g.args[0].s, word, num, conv == "atoi")
}

// lineForm: the pattern describes the word followed by so many numbers and nothing else, and
// accepts every number a writer prints.
func lineForm(pat, word string, num int, digits bool) string {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return err.Error()
	}
	if re.Op != syntax.OpConcat {
		return "the pattern is not a sequence"
	}
	subs := re.Sub
	if len(subs) < 2 || subs[0].Op != syntax.OpBeginText && subs[0].Op != syntax.OpBeginLine {
		return "the pattern need not match from the start of the line"
	}
	if last := subs[len(subs)-1].Op; last != syntax.OpEndText && last != syntax.OpEndLine {
		return "the pattern need not match to the end of the line"
	}
	subs = subs[1 : len(subs)-1]
	gap := func(r *syntax.Regexp) bool { // white space that may be one blank
		switch r.Op {
		case syntax.OpLiteral:
			return len(r.Rune) == 1 && r.Rune[0] == ' '
		case syntax.OpPlus:
			r = r.Sub[0]
			return r.Op == syntax.OpLiteral && len(r.Rune) == 1 && r.Rune[0] == ' ' || r.Op == syntax.OpCharClass && onlySpace(r) && classHas(r, " ")
		case syntax.OpCharClass:
			return onlySpace(r) && classHas(r, " ")
		}
		return false
	}
	// the word, with the blank after it if it is a literal too
	if len(subs) == 0 || subs[0].Op != syntax.OpLiteral || subs[0].Flags&syntax.FoldCase != 0 {
		return "the pattern does not begin with " + word
	}
	lit := string(subs[0].Rune)
	subs = subs[1:]
	spaced := lit == word+" "
	if !spaced && lit != word {
		return fmt.Sprintf("the pattern begins with %q and not with %q", lit, word)
	}
	for i := 0; i < num; i++ {
		if !spaced {
			if len(subs) == 0 || !gap(subs[0]) {
				return "the numbers of the pattern are not separated by a blank"
			}
			subs = subs[1:]
		}
		spaced = false
		if len(subs) == 0 || subs[0].Op != syntax.OpCapture || subs[0].Sub[0].Op != syntax.OpPlus {
			return fmt.Sprintf("the pattern has no number %d", i+1)
		}
		cl := subs[0].Sub[0].Sub[0]
		if cl.Op != syntax.OpCharClass {
			return fmt.Sprintf("number %d of the pattern is not made of a class of characters", i+1)
		}
		if digits {
			if !classHas(cl, "0123456789") || len(cl.Rune) != 2 || cl.Rune[0] != '0' || cl.Rune[1] != '9' {
				return fmt.Sprintf("number %d of the pattern is not made of digits", i+1)
			}
		} else if !classHas(cl, "0123456789+-.e") || classHas(cl, " ") {
			return fmt.Sprintf("number %d of the pattern does not accept every number a writer prints", i+1)
		}
		subs = subs[1:]
	}
	for i, r := range subs {
		in := r
		if r.Op == syntax.OpStar || r.Op == syntax.OpQuest || r.Op == syntax.OpPlus {
			in = r.Sub[0]
		}
		blank := in.Op == syntax.OpCharClass && onlySpace(in) && classHas(in, "\n") || in.Op == syntax.OpLiteral && string(in.Rune) == "\n"
		if i > 0 || !blank {
			return "the pattern has more after the last number than the end of the line"
		}
	}
	if len(subs) == 0 {
		return "the pattern does not accept the end of the line"
	}
	return ""
}

func classHas(r *syntax.Regexp, chars string) bool {
	for _, ch := range chars {
		in := false
		for i := 0; i+1 < len(r.Rune); i += 2 {
			in = in || r.Rune[i] <= ch && ch <= r.Rune[i+1]
		}
		if !in {
			return false
		}
	}
	return true
}

func onlySpace(r *syntax.Regexp) bool {
	for i := 0; i+1 < len(r.Rune); i += 2 {
		for ch := r.Rune[i]; ch <= r.Rune[i+1]; ch++ {
			if !strings.ContainsRune(" \t\r\n\f\v", ch) {
				return false
			}
		}
	}
	return true
}

// record: the bytes one iteration reads, as value and count.
func (x *decCheck) record(path []*Event, f *Facts) (v, n *Term, why string) {
	var bs []piece
	for _, ev := range path {
		if ev.loop != nil {
			break
		}
		if ev.kind == "call" && ev.fn == "read" {
			k, ok := constInt(ev.args[1])
			if !ok || int(k) != len(ev.args)-2 {
				return nil, nil, "a number of bytes is read that is not known"
			}
			if len(ev.res) > 0 && !prove(f, Eq(ev.res[len(ev.res)-1], Nil(errType))) {
				return nil, nil, fmt.Sprintf("a record whose bytes could not be read is used when %v", f)
			}
			for _, b := range ev.args[2:] {
				bs = append(bs, piece{b: b})
			}
		}
	}
	if !x.shell {
		if len(bs) != 2 {
			return nil, nil, fmt.Sprintf("a record of %d bytes is read", len(bs))
		}
		return bs[0].b, bs[1].b, ""
	}
	if len(bs) < 5 {
		return nil, nil, fmt.Sprintf("a record of %d bytes is read", len(bs))
	}
	v = le(bs[:4])
	if v == nil {
		v = App("le", types.Typ[types.Uint32], bs[0].b, bs[1].b, bs[2].b, bs[3].b)
	}
	rest := bs[4:]
	wide := x.dropped(v)
	switch {
	case prove(f, wide) && len(rest) == 2:
		n = le(rest)
		if n == nil {
			n = App("le", types.Typ[types.Uint16], rest[0].b, rest[1].b)
		}
	case prove(f, Not(wide)) && len(rest) == 1:
		n = rest[0].b
	default:
		return nil, nil, fmt.Sprintf("a count of %d bytes is read when %v", len(rest), f)
	}
	return v, n, ""
}

// dropped: the cells of the value are not part of the model.
func (x *decCheck) dropped(v *Term) *Term {
	if x.shell {
		return Or(Eq(v, Int(0)), Eq(v, Int(1<<32-1)))
	}
	return Not(Eq(v, Int(1)))
}

func (x *decCheck) flatIdx(k []*Term) *Term {
	return Add(Mul(Add(Mul(k[0], x.dims[2]), k[2]), x.dims[1]), k[1])
}

// records: the loop over the records.
func (x *decCheck) records(s *Summary) {
	c, l, X := x.c, s.loop, s.phi.sym
	// the index of a cell, from the keys stored
	var phi *Term
	type inner struct {
		s   *Summary
		key []*Term
	}
	var ins []*inner
	for _, it := range l.iters {
		q := x.e.summ[it.back[X]]
		if q == nil || q.loop == l {
			continue
		}
		for _, jt := range q.loop.iters {
			if k, _ := x.stored(q, jt); k != nil {
				in := &inner{q, k}
				ins = append(ins, in)
				phi = subst(x.flatIdx(k), initOf2(q.loop), map[*Term]*Term{})
				break
			}
		}
	}
	if !c.ob("stored:"+x.key, phi != nil, l.pos, "no cell is stored in a loop over the cells of a record") {
		return
	}
	phi = x.euclid(phi)
	x.phi, x.outer = phi, l
	if x.keys == nil {
		x.keys = map[*Loop][]*Term{}
	}
	for _, in := range ins {
		x.keys[in.s.loop] = in.key
	}
	at0 := x.euclid(subst(phi, initOf(l), map[*Term]*Term{}))
	c.ob("start:"+x.key, x.same(l.entry, at0, Int(0)), l.pos, "the first cell gets the index %s", str(at0))
	for _, it := range l.iters {
		for _, path := range flat(it.events) {
			c.counts["record"]++
			v, n, why := x.record(path, it.facts)
			if !c.ob("record:"+x.key, v != nil, l.pos, "%s", why) {
				continue
			}
			if x.bad {
				c.ob("count:"+x.key, prove(it.facts, GE(Sub(n, Int(1)))), l.pos, "a record with a count of zero is accepted when %v", it.facts)
				if !x.shell {
					c.ob("value:"+x.key, prove(it.facts, Or(Eq(v, Int(0)), Eq(v, Int(1)))), l.pos, "a value other than 0 and 1 is accepted when %v", it.facts)
				}
			}
			x.cells(s, it, path, phi, v, n)
		}
	}
}

func initOf2(l *Loop) map[*Term]*Term {
	m := initOf(l)
	delete(m, l.n)
	// what is carried as a function of the iteration number starts at iteration 0
	m[l.n] = Int(0)
	return m
}

// stored: the key and element an iteration stores.
func (x *decCheck) stored(s *Summary, it *IterPath) (key []*Term, el *Term) {
	b := it.back[s.phi.sym]
	if x.shell {
		ps := catParts(b)
		if len(ps) != 2 || ps[0] != s.phi.sym || ps[1].op != OArray || len(ps[1].args) != 1 || ps[1].args[0].op != OStruct {
			return nil, nil
		}
		el = ps[1].args[0]
		vt := elemType(c0(x, "Voxels"))
		for _, n := range []string{"X", "Y", "Z"} {
			key = append(key, el.args[fieldNo(vt, n)])
		}
		return key, el
	}
	if b.op == OApp && b.s == "mset" && b.args[0] == s.phi.sym && b.args[1].op == OStruct && len(b.args[1].args) == 3 {
		return b.args[1].args, b.args[2]
	}
	return nil, nil
}

func c0(x *decCheck, name string) types.Type {
	st := under(x.typ).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func fieldNo(t types.Type, name string) int {
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	return 0
}

// cells: the cells of one record.
func (x *decCheck) cells(s *Summary, it *IterPath, path []*Event, phi, v, n *Term) {
	c, l, X := x.c, s.loop, s.phi.sym
	b := it.back[X]
	end := x.euclid(subst(phi, it.back, map[*Term]*Term{}))
	var ls []*Loop
	for _, ev := range path {
		if ev.loop != nil {
			ls = append(ls, ev.loop)
		}
	}
	// the index moves by the count; a loop carries it on
	facts := it.facts
	for _, q := range ls {
		m := map[*Term]*Term{}
		for _, p := range q.phis {
			if p.init == nil {
				continue
			}
			if p.init.op == OSym && p.init != X {
				m[p.init] = p.sym
			}
		}
		at := x.euclid(subst(phi, m, map[*Term]*Term{}))
		in := x.e.summ[b]
		storing := in != nil && in.loop == q
		if storing {
			for _, jt := range q.iters {
				if k, _ := x.stored(in, jt); k != nil {
					at = x.euclid(x.flatIdx(k))
				}
			}
		}
		begin := x.euclid(subst(at, initOf2(q), map[*Term]*Term{}))
		if !x.same(q.entry, begin, phi) {
			c.ob("position:"+x.key, false, q.pos, "the first cell of a record gets the index %s instead of %s when %v", str(begin), str(phi), q.entry)
			return
		}
		for _, jt := range q.iters {
			next := x.euclid(subst(at, withN(q, jt), map[*Term]*Term{}))
			if !c.ob("step:"+x.key, x.same(jt.facts, next, Add(at, Int(1))), q.pos, "after the cell of index %s comes the one of index %s when %v", str(at), str(next), jt.facts) {
				return
			}
			if storing {
				x.cell(in, jt, v, at)
			}
		}
		if !storing {
			continue
		}
		c.ob("cells:"+x.key, prove(it.facts, Eq(q.n, n)), q.pos, "a record of count %s is read as %s cells when %v", str(n), str(q.n), it.facts)
		// at is phi plus the number of iterations
		d := Sub(end, at)
		if c.ob("position:"+x.key, x.same(facts, d, Int(0)), l.pos, "after a record the index is %s instead of %s when %v", str(end), str(at), facts) {
			return
		}
		return
	}
	if b != X {
		c.ob("cells:"+x.key, false, l.pos, "the cells of a record are not stored one after another: %s", str(b))
		return
	}
	// no cell is stored: the record holds none, and the index moves on
	c.ob("skip:"+x.key, prove(facts, x.dropped(v)), l.pos, "the cells of a record are not stored when %v", facts)
	c.ob("position:"+x.key, x.same(facts, end, Add(phi, n)), l.pos, "after a record the index is %s instead of %s when %v", str(end), str(Add(phi, n)), facts)
	if x.bad {
		vol := Mul(Mul(x.dims[0], x.dims[1]), x.dims[2])
		c.ob("overrun:"+x.key, prove(facts, Le(end, vol)), l.pos, "more cells than the dimensions allow are accepted when %v", facts)
	}
}

// withN: the values after an iteration.
func withN(l *Loop, it *IterPath) map[*Term]*Term {
	m := map[*Term]*Term{}
	for k, v := range it.back {
		m[k] = v
	}
	if _, ok := m[l.n]; !ok {
		m[l.n] = Add(l.n, Int(1))
	}
	return m
}

// cell: one cell is stored exactly if it is kept.
func (x *decCheck) cell(in *Summary, it *IterPath, v, at *Term) {
	c := x.c
	c.counts["cell"]++
	f := it.facts
	var key []*Term
	for _, jt := range in.loop.iters {
		if k, _ := x.stored(in, jt); k != nil {
			key = k
		}
	}
	if key == nil {
		c.ob("cell:"+x.key, prove(f, x.dropped(v)), in.loop.pos, "the cells of a record are not stored when %v", f)
		return
	}
	axes := [3]string{"x", "y", "z"}
	if x.bad {
		for i := 0; i < 3; i++ {
			c.ob("inside:"+axes[i]+":"+x.key, prove(f, GE(key[i])) && x.below(f, key[i], x.dims[i]), in.loop.pos, "a cell with %s index %s is accepted in a model of dimension %s when %v", axes[i], str(key[i]), str(x.dims[i]), f)
		}
		return
	}
	k, el := x.stored(in, it)
	if k == nil {
		if !c.ob("cell:"+x.key, it.back[in.phi.sym] == in.phi.sym, in.loop.pos, "an iteration stores something else than a voxel: %s", str(it.back[in.phi.sym])) {
			return
		}
		f, ok := assumeAll(f, []*Term{Not(x.dropped(v))})
		if !ok {
			return
		}
		// none of the cells it skips is in the window
		x.windows(f, func(g *Facts, w [3]*Term) {
			for i := 0; i < 3; i++ {
				var ok bool
				if g, ok = assumeAll(g, []*Term{GE(Sub(key[i], x.start[i])), Lt(key[i], Add(x.start[i], w[i]))}); !ok {
					return
				}
			}
			c.ob("kept:"+x.key, prove(g, Bool(false)), in.loop.pos, "a voxel of the window is not stored when %v", g)
		})
		return
	}
	c.ob("kept:"+x.key, prove(f, Not(x.dropped(v))), in.loop.pos, "a cell of value %s is stored when %v", str(v), f)
	c.ob("index:"+x.key, x.same(f, x.euclid(x.flatIdx(k)), at), in.loop.pos, "a cell is stored under the index %s instead of %s", str(x.flatIdx(k)), str(at))
	for i := 0; i < 3; i++ {
		c.ob("inside:"+axes[i]+":"+x.key, prove(f, GE(k[i])) && x.below(f, k[i], x.dims[i]), in.loop.pos, "a voxel with %s index %s is stored in a model of dimension %s when %v", axes[i], str(k[i]), str(x.dims[i]), f)
	}
	x.windows(f, func(g *Facts, w [3]*Term) {
		for i := 0; i < 3; i++ {
			c.ob("window:"+axes[i]+":"+x.key, prove(g, GE(Sub(k[i], x.start[i]))) && prove(g, Lt(k[i], Add(x.start[i], w[i]))), in.loop.pos, "a voxel outside of the window along %s is stored when %v", axes[i], g)
		}
	})
	if x.shell {
		vt := elemType(c0(x, "Voxels"))
		got := el.args[fieldNo(vt, "N")]
		for got.op == OApp && got.s == "wrap" {
			got = got.args[0]
		}
		c.ob("bits:"+x.key, proveEq(f, got, v), in.loop.pos, "a voxel is stored with the neighbour bits %s instead of %s", str(got), str(v))
	}
}

// windows lists what a window of the requested size means for the dimensions.
func (x *decCheck) windows(f *Facts, do func(*Facts, [3]*Term)) {
	var rec func(i int, f *Facts, w [3]*Term)
	rec = func(i int, f *Facts, w [3]*Term) {
		if i == 3 {
			do(f, w)
			return
		}
		if x.count[i] == Int(0) {
			w[i] = x.dims[i]
			rec(i+1, f, w)
			return
		}
		big := GT(Sub(x.count[i], x.dims[i]))
		for _, l := range []*Term{big, Not(big)} {
			g, ok := assumeAll(f, []*Term{l})
			if !ok {
				continue
			}
			w[i] = x.count[i]
			if l == big {
				w[i] = x.dims[i]
			}
			m := map[*Term]*Term{MaxMin("min", x.count[i], x.dims[i]): w[i]}
			if g, ok = assumeAll(emptyFacts, substAll(g.lits, m)); ok {
				rec(i+1, g, w)
			}
		}
	}
	rec(0, f, [3]*Term{})
}

// below: the index is less than the dimension.
func (x *decCheck) below(f *Facts, k, d *Term) bool {
	if prove(f, Lt(k, d)) {
		return true
	}
	if k.op == OApp && k.s == "idiv" {
		a, b := k.args[0], k.args[1]
		return prove(f, GE(a)) && prove(f, GE(Sub(b, Int(1)))) && prove(f, Lt(a, Mul(d, b)))
	}
	return false
}

// same decides equality of indices; a coordinate known to be the last one of its axis is replaced
// by what it then is.
func (x *decCheck) same(f *Facts, a, b *Term) bool { return x.zero(f, x.euclid(Sub(a, b)), 3) }

func (x *decCheck) zero(f *Facts, d *Term, depth int) bool {
	if proveEq(f, d, Int(0)) {
		return true
	}
	if depth == 0 {
		return false
	}
	var syms []*Term
	mentions(d, func(y *Term) bool {
		if y.op == OSym && strings.Contains(y.s, "~") {
			for _, z := range syms {
				if z == y {
					return false
				}
			}
			syms = append(syms, y)
		}
		return false
	})
	for _, y := range syms {
		for _, dim := range x.dims {
			for _, k := range []*Term{Sub(dim, Int(1)), dim} {
				if y != k && prove(f, Eq(y, k)) && x.zero(f, x.euclid(subst(d, map[*Term]*Term{y: k}, map[*Term]*Term{})), depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// euclid rewrites a division by the area of a slab into two divisions.
func (x *decCheck) euclid(t *Term) *Term {
	for n := 0; n < 8; n++ {
		var from, to *Term
		mentions(t, func(y *Term) bool {
			if y.op != OApp || y.s != "idiv" || from != nil {
				return false
			}
			if y.args[1] == Mul(x.dims[1], x.dims[2]) {
				from, to = y, IDiv(IDiv(y.args[0], x.dims[1], nil), x.dims[2], nil)
			}
			return false
		})
		if from == nil {
			return t
		}
		t = subst(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
	}
	return t
}

// atEnd: the records end with the stream, and only there.
func (x *decCheck) atEnd(l *Loop, evs []*Event, f *Facts) {
	c := x.c
	for _, path := range flat(evs) {
		after := false
		reads := 0
		good := true
		for _, ev := range path {
			if ev.loop == l {
				after = true
				continue
			}
			if !after || ev.kind != "call" || ev.fn != "read" {
				continue
			}
			reads++
			er := ev.res[len(ev.res)-1]
			eof := false
			for _, t := range f.lits {
				if t.op == OEq && (t.args[0] == er || t.args[1] == er) && mentions(t, func(y *Term) bool { return y.op == OObj && strings.HasSuffix(y.s, "io.EOF") }) {
					eof = true
				}
				if t.op == OApp && t.s == "errors.Is" && len(t.args) == 2 && t.args[0] == er && mentions(t.args[1], func(y *Term) bool { return y.op == OObj && strings.HasSuffix(y.s, "io.EOF") }) {
					eof = true
				}
			}
			good = good && eof && reads == 1
		}
		c.ob("end:"+x.key, after && reads == 1 && good, l.pos, "the reader may succeed although the stream does not end before a record when %v", f)
	}
}

// failure: an error is reported only if there is one.
func (x *decCheck) failure(o Outcome) {
	x.c.counts["error"]++
	x.c.ob("rejects:"+x.key, x.wrong(o), o.pos, "a file may be rejected for no reason when %v", o.st.facts)
}

// wrong: what the error outcome is about is not well formed.
func (x *decCheck) wrong(o Outcome) bool {
	f := o.st.facts
	for _, t := range f.lits {
		if x.reason(t) {
			return true
		}
	}
	var past []*Term
	for i := 0; i < 3; i++ {
		past = append(past, GT(Sub(x.start[i], x.dims[i])))
	}
	if prove(f, Or(past...)) {
		return true
	}
	for _, path := range flat(o.st.trace.list()) {
		k := len(path)
		for i, ev := range path {
			if ev.loop == x.outer {
				k = i + 1
			}
		}
		if x.due(path[k:], f) {
			continue
		}
		return false
	}
	return true
}

// reason: the literal says that reading failed or that the header is not well formed.
func (x *decCheck) reason(t *Term) bool {
	if t.op == OApp && t.s == "and" {
		for _, a := range t.args {
			if x.reason(a) {
				return true
			}
		}
		return false
	}
	if t.op != ONot {
		return false
	}
	t = t.args[0]
	if t.op == OApp && t.s == "and" {
		for _, a := range t.args {
			if !x.reason(Not(a)) {
				return false
			}
		}
		return true
	}
	if t.op == OEq {
		for i := 0; i < 2; i++ {
			a, b := t.args[i], t.args[1-i]
			if a.op == ONil && (b.op == OSym && strings.HasPrefix(b.s, "err:") || b.op == OApp && (b.s == "atoierr" || b.s == "atoferr")) {
				return true // reading failed, or the number is too large
			}
			if a.op == OStr && (b == x.lines[0] || b == x.lines[4]) {
				return true
			}
		}
	}
	if t.op == OApp && t.s == "match" && len(t.args) == 2 {
		for _, l := range x.lines[1:4] {
			if t.args[1] == l {
				return true
			}
		}
	}
	return false
}

// due: the record read last is not well formed.
func (x *decCheck) due(path []*Event, f *Facts) bool {
	var bs []piece
	for _, ev := range path {
		if ev.kind == "call" && ev.fn == "read" {
			for _, b := range ev.args[2:] {
				bs = append(bs, piece{b: b})
			}
		}
	}
	if !x.shell && len(bs) > 0 && prove(f, Not(x.dropped(bs[0].b))) && prove(f, Not(Eq(bs[0].b, Int(0)))) {
		return true
	}
	if !x.shell && len(bs) > 0 && prove(f, Not(Eq(bs[0].b, Int(1)))) && prove(f, Not(Eq(bs[0].b, Int(0)))) {
		return true
	}
	_, n, _ := x.record(path, f)
	if n == nil {
		return false
	}
	if prove(f, Eq(n, Int(0))) {
		return true
	}
	// the model has at least one cell in each direction; the dimensions are exceeded
	vol := Mul(Mul(x.dims[0], x.dims[1]), x.dims[2])
	f, ok := assumeAll(f, []*Term{GE(Sub(x.dims[1], Int(1))), GE(Sub(x.dims[2], Int(1)))})
	if !ok || prove(f, GT(Sub(Add(x.phi, n), vol))) {
		return true
	}
	for _, ev := range path {
		if ev.loop == nil {
			continue
		}
		k := x.keys[ev.loop]
		if k == nil {
			// the same cells, reached on another path
			continue
		}
		if prove(f, GE(Sub(x.euclid(x.flatIdx(k)), vol))) || prove(f, GE(Sub(k[0], x.dims[0]))) {
			return true
		}
		if inv := x.inside(ev.loop, k); inv != nil {
			g, ok := assumeAll(f, inv)
			if !ok || prove(g, GE(Sub(k[0], x.dims[0]))) {
				return true
			}
		}
	}
	return false
}

// inside proves by induction over both loops that the two faster coordinates stay in the model.
func (x *decCheck) inside(in *Loop, k []*Term) []*Term {
	some := []*Term{GE(Sub(x.dims[1], Int(1))), GE(Sub(x.dims[2], Int(1)))}
	inv := func(m map[*Term]*Term) []*Term {
		var out []*Term
		for _, i := range []int{1, 2} {
			t := k[i]
			if m != nil {
				t = subst(t, m, map[*Term]*Term{})
			}
			out = append(out, GE(t), Lt(t, x.dims[i]))
		}
		return out
	}
	holds := func(f *Facts, pre, post []*Term) bool {
		g, ok := assumeAll(f, append(append([]*Term{}, some...), pre...))
		if !ok {
			return true
		}
		for _, t := range post {
			if !prove(g, t) {
				return false
			}
		}
		return true
	}
	out := inv(initOf2(in)) // about the variables of the outer loop
	if !holds(x.outer.entry, nil, substAll(out, initOf(x.outer))) {
		return nil
	}
	for _, jt := range in.iters {
		if !holds(jt.facts, inv(nil), inv(withN(in, jt))) {
			return nil
		}
	}
	for _, it := range x.outer.iters {
		pre := append([]*Term{}, out...)
		for _, path := range flat(it.events) {
			for _, ev := range path {
				if ev.loop == nil {
					continue
				}
				if q := x.keys[ev.loop]; q != nil {
					for _, i := range []int{1, 2} {
						pre = append(pre, GE(q[i]), Lt(q[i], x.dims[i]))
					}
				}
			}
		}
		if !holds(it.facts, pre, substAll(out, it.back)) {
			return nil
		}
	}
	return inv(nil)
}
