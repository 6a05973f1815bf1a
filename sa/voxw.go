package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: the .vox writer declares exactly what it writes.

func init() { checks["C26"] = checkC26 }

// piece of a stream: one byte, or what each iteration of a loop appends.
type piece struct {
	b    *Term
	sum  *Summary
	body []loopBytes
}

type loopBytes struct {
	it *IterPath
	bs []piece
}

// pieces cuts the content of a stream; nil if a part is not understood.
func (e *Eng) pieces(t *Term) ([]piece, error) {
	var out []piece
	for _, x := range catParts(t) {
		switch {
		case x.op == OArray:
			for _, a := range x.args {
				out = append(out, piece{b: a})
			}
		case x.op == OStr:
			for i := 0; i < len(x.s); i++ {
				out = append(out, piece{b: Int(int64(x.s[i]))})
			}
		case x.op == OApp && x.s == "zeros":
			n, ok := constInt(Len(x))
			if !ok || n > 4096 {
				return nil, fmt.Errorf("a run of zeros of unknown length")
			}
			for i := int64(0); i < n; i++ {
				out = append(out, piece{b: Int(0)})
			}
		case e.summ[x] != nil:
			s := e.summ[x]
			pre, err := e.pieces(s.phi.init)
			if err != nil {
				return nil, err
			}
			out = append(out, pre...)
			p := piece{sum: s}
			for _, it := range s.loop.iters {
				b := it.back[x]
				q := catParts(b)
				if len(q) == 0 || q[0] != x {
					return nil, fmt.Errorf("a loop that does not only append: %s", str(b))
				}
				bs, err := e.pieces(Cat(q[1:]...))
				if err != nil {
					return nil, err
				}
				p.body = append(p.body, loopBytes{it, bs})
			}
			out = append(out, p)
		default:
			return nil, fmt.Errorf("bytes that are not known: %s", str(x))
		}
	}
	return out, nil
}

// le is the number whose little-endian bytes these are.
func le(ps []piece) *Term {
	var v *Term
	k := int64(0)
	for i, p := range ps {
		if p.b == nil {
			return nil
		}
		if n, ok := constInt(p.b); ok {
			if v != nil {
				return nil
			}
			k |= n << uint(8*i)
			continue
		}
		b := p.b
		if !(b.op == OApp && b.s == "bits") || i > 0 && v != b.args[0] || i == 0 && v != nil {
			return nil
		}
		lo, ok1 := constInt(b.args[1])
		w, ok2 := constInt(b.args[2])
		if !ok1 || !ok2 || lo != int64(8*i) || w != 8 {
			return nil
		}
		v = b.args[0]
	}
	if v != nil {
		return mod32(v)
	}
	if len(ps) == 4 {
		k = int64(int32(k))
	}
	return Int(k)
}

// mod32 drops reductions of sums and products to 32 bits or more: the number is written modulo 2^32.
func mod32(t *Term) *Term {
	t = unwrap(t)
	sub := map[*Term]*Term{}
	for id := range atomsOf(P(t)) {
		a := allTerms[id]
		if a.op == OApp && a.s == "wrap" {
			if b, ok := under(a.typ).(*types.Basic); ok && sizeOfEnc(b) >= 4 {
				sub[a] = mod32(a)
			}
		}
	}
	if len(sub) == 0 {
		return t
	}
	return subst(t, sub, map[*Term]*Term{})
}

// unwrap drops the reduction to the width of an integer type.
func unwrap(t *Term) *Term {
	if t.op == OApp && t.s == "wrap" {
		return t.args[0]
	}
	return t
}

// overMap: the loop visits each key of the map once; it returns the key of one iteration path.
func overMap(l *Loop, it *IterPath, m *Term, after *Facts) *Term {
	var key *Term
	for _, ev := range it.events {
		if ev.kind == "mapiter" && ev.args[0] == m && hasMarker(ev.args[1], l.marker) && key == nil {
			key = ev.args[1]
		}
	}
	if key == nil {
		return nil
	}
	for _, x := range after.lits {
		if x.op == OApp && x.s == "exhausted" && strings.HasSuffix(x.args[0].s, l.marker) {
			return key
		}
	}
	return nil
}

func checkC26(c *Check) {
	c.rule("the bytes the .vox writer has written where it reports success are compared, chunk by chunk, with what its header declares; the counts are symbolic in the number of voxels, the sizes are recognised as maxima over all voxels.")
	wt := c.p.Type("binvox", "WhiteVoxelMap")
	c.need(wt != nil, "no WhiteVoxelMap in binvox")
	fns := c.sigFns("cmd/voxcut", func(sig *types.Signature) bool {
		w, m := false, false
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			m = m || types.Identical(t, wt)
			w = w || types.TypeString(t, nil) == "io.Writer" || types.TypeString(t, nil) == "*os.File"
		}
		return w && m
	})
	c.need(len(fns) > 0, "no function of cmd/voxcut writes voxels")
	var writers []*ssa.Function
	for _, fn := range fns {
		// helpers of the writer are followed from it
		called := false
		for _, g := range fns {
			if g != fn && callsFn(g, fn) {
				called = true
			}
		}
		if !called {
			writers = append(writers, fn)
		}
	}
	c.need(len(writers) == 1, "%d functions of cmd/voxcut write voxels", len(writers))
	fn := writers[0]
	c.counts["functions"]++
	as, f0 := args(fn)
	var m, w *Term
	for i, p := range fn.Params {
		if types.Identical(p.Type(), wt) {
			m = as[i]
		} else if m == nil || w == nil {
			w = as[i]
		}
	}
	e := NewEng(c.p)
	for _, o := range c.run(e, fn, as, f0) {
		if o.kind != "ret" || len(o.res) == 0 {
			c.ob("ends", o.kind == "exit", fn.Pos(), "the writer ends with %s when %v", o.kind, o.st.facts)
			continue
		}
		er := o.res[len(o.res)-1]
		if er.op != ONil && !o.st.facts.Entails(Eq(er, Nil(er.typ))) && !mayBeNil(o.st.facts, er) {
			continue
		}
		b := bufBase(w)
		ps, err := e.pieces(e.content(o.st, b))
		if !c.ob("bytes", err == nil, fn.Pos(), "what is written is not understood: %v", err) {
			continue
		}
		c.voxFile(e, fn, o.st.facts, ps, m)
	}
	c.atLeast("magic", 1)
	c.atLeast("main", 2)
	c.atLeast("size", 6)
	c.atLeast("xyzi", 3)
	c.atLeast("voxels", 5)
}

// mayBeNil: the error is the unknown result of a call not yet tested.
func mayBeNil(f *Facts, er *Term) bool {
	return er.op == OSym && !f.Entails(Not(Eq(er, Nil(er.typ))))
}

func callsFn(g, fn *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if cc, ok := i.(ssa.CallInstruction); ok && cc.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func (c *Check) voxFile(e *Eng, fn *ssa.Function, f *Facts, ps []piece, m *Term) {
	pos := fn.Pos()
	n := maplen(m)
	text := func(q []piece) string {
		s := ""
		for _, p := range q {
			k, ok := int64(0), false
			if p.b != nil {
				k, ok = constInt(p.b)
			}
			if !ok || k < 0 || k > 255 {
				return s + "?"
			}
			s += string([]byte{byte(k)})
		}
		return s
	}
	if !c.ob("magic", len(ps) >= 8 && text(ps[:4]) == "VOX ", pos, "the file does not begin with the VOX magic") {
		return
	}
	v := le(ps[4:8])
	c.ob("magic:version", v != nil && v == Int(150), pos, "the version written is %v, not 150", v)
	rest := ps[8:]
	// length of what is written, in bytes
	length := func(q []piece) *Term {
		t := Int(0)
		for _, p := range q {
			if p.b != nil {
				t = Add(t, Int(1))
				continue
			}
			per := -1
			for _, lb := range p.body {
				k := 0
				for _, x := range lb.bs {
					if x.b == nil {
						return nil
					}
					k++
				}
				if per >= 0 && per != k {
					return nil
				}
				per = k
				if overMap(p.sum.loop, lb.it, m, f) == nil {
					return nil
				}
			}
			if per < 0 {
				return nil
			}
			t = Add(t, Mul(Int(int64(per)), n))
		}
		return t
	}
	type chunk struct {
		id              string
		content, childs *Term
	}
	head := func(q []piece) (*chunk, []piece) {
		if len(q) < 12 {
			return nil, nil
		}
		k := &chunk{text(q[:4]), le(q[4:8]), le(q[8:12])}
		if k.content == nil || k.childs == nil {
			return nil, nil
		}
		return k, q[12:]
	}
	mainC, rest := head(rest)
	if !c.ob("main:header", mainC != nil && mainC.id == "MAIN", pos, "no MAIN chunk after the magic") {
		return
	}
	c.ob("main:content", mainC.content == Int(0), pos, "the MAIN chunk declares %s bytes of content", str(mainC.content))
	total := length(rest)
	if !c.ob("voxels:each", total != nil, pos, "not every iteration writes the same number of bytes, or not every voxel is visited exactly once") {
		return
	}
	c.ob("main:children", proveEq(f, mainC.childs, total), pos, "the MAIN chunk declares %s bytes of children, but %s bytes follow", str(mainC.childs), str(total))
	seen := map[string]int{}
	var sizes []*Term
	for len(rest) > 0 {
		k, q := head(rest)
		if !c.ob("main:chunk", k != nil, pos, "what follows is not a chunk: %s", text(rest[:min(len(rest), 12)])) {
			return
		}
		c.ob("main:leaf", k.childs == Int(0), pos, "chunk %s declares children of %s bytes", k.id, str(k.childs))
		seen[k.id]++
		// the content runs up to the declared size
		end := -1
		for i := 0; i <= len(q); i++ {
			if l := length(q[:i]); l != nil && proveEq(f, l, k.content) {
				end = i
				break
			}
		}
		what := strings.ToLower(k.id)
		if !c.ob(what+":declared", end >= 0, pos, "chunk %s declares %s bytes of content, which no part of what follows has", k.id, str(k.content)) {
			return
		}
		body := q[:end]
		rest = q[end:]
		switch k.id {
		case "SIZE":
			if !c.ob("size:content", len(body) == 12, pos, "the SIZE chunk has %d bytes", len(body)) {
				continue
			}
			for i, ax := range []string{"X", "Y", "Z"} {
				s := le(body[4*i : 4*i+4])
				why := "is not a number"
				if s != nil {
					why = c.maxIndex(e, f, s, m, i)
				}
				c.ob("size:"+ax, why == "", pos, "the size along %s, %v, %s", ax, s, why)
				sizes = append(sizes, s)
			}
		case "XYZI":
			var s *Term
			if len(body) >= 4 {
				s = le(body[:4])
			}
			c.ob("xyzi:count", s != nil && proveEq(f, s, n), pos, "the number of voxels declared is %v", s)
			if !c.ob("voxels:all", len(body) == 5 && body[4].sum != nil, pos, "the voxels are not written one for each iteration") {
				continue
			}
			for _, lb := range body[4].body {
				key := overMap(body[4].sum.loop, lb.it, m, f)
				if !c.ob("voxels:visit", key != nil && len(lb.bs) == 4, pos, "a voxel is written as %d bytes", len(lb.bs)) {
					continue
				}
				ks := comps(key)
				for i, ax := range []string{"x", "y", "z"} {
					b := lb.bs[i].b
					ok := b == ks[i]
					if !ok && unwrap(b) == ks[i] || b.op == OApp && b.s == "bits" && b.args[0] == ks[i] && b.args[1] == Int(0) {
						ok = true
						fits := prove(lb.it.facts, Le(ks[i], Int(255))) || i < len(sizes) && sizes[i] != nil && prove(f, Le(sizes[i], Int(256))) || c.allFit(e, f, m, i)
						c.ob("voxels:"+ax+"/fits", fits, pos, "index %s may not fit the byte it is written as", ax)
					}
					c.ob("voxels:"+ax, ok, pos, "byte %d of a voxel is %s, not its %s", i, str(b), ax)
				}
				b := lb.bs[3].b
				c.ob("voxels:colour", prove(lb.it.facts, Not(EQ0(unwrap(b)))) && unwrap(b) == b, pos, "the colour index %s may be zero", str(b))
			}
		}
	}
	c.ob("size:once", seen["SIZE"] == 1, pos, "%d SIZE chunks", seen["SIZE"])
	c.ob("xyzi:once", seen["XYZI"] == 1, pos, "%d XYZI chunks", seen["XYZI"])
}

// allFit: some loop over all voxels goes on only while the index fits a byte.
func (c *Check) allFit(e *Eng, f *Facts, m *Term, axis int) bool {
	for _, l := range e.allLoops {
		ok := len(l.iters) > 0
		for _, it := range l.iters {
			key := overMap(l, it, m, f)
			ok = ok && key != nil && prove(it.facts, Le(comps(key)[axis], Int(255)))
		}
		if ok {
			return true
		}
	}
	return false
}

// maxIndex: s is one more than the largest index of all voxels along an axis.
func (c *Check) maxIndex(e *Eng, f *Facts, s, m *Term, axis int) string {
	var sym *Term
	for id := range atomsOf(P(s)) {
		if sym != nil {
			return "is not one more than the largest index"
		}
		sym = allTerms[id]
	}
	if sym == nil || e.summ[sym] == nil {
		return "is not one more than the largest index"
	}
	off := Sub(s, sym)
	if _, ok := constInt(off); !ok {
		return "is not one more than the largest index"
	}
	sm := e.summ[sym]
	if !prove(sm.loop.entry, Le(Add(sm.phi.init, off), Int(1))) {
		return fmt.Sprintf("starts from %s", str(sm.phi.init))
	}
	for _, it := range sm.loop.iters {
		key := overMap(sm.loop, it, m, f)
		if key == nil {
			return "is not taken over all voxels"
		}
		b := it.back[sym]
		want := MaxMin("max", sym, Sub(Add(comps(key)[axis], Int(1)), off))
		if b == nil || !proveEq(it.facts, b, want) {
			return fmt.Sprintf("becomes %v, not %s", b, str(want))
		}
	}
	return ""
}
