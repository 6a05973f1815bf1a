package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: cutting keeps exactly the base voxels that no cut voxel meets.

func init() { checks["C18"] = checkC18 }

func sortedMembers(pk *ssa.Package) []string {
	var out []string
	for n := range pk.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// sigFns lists the functions of a package whose signature is accepted.
func (c *Check) sigFns(rel string, f func(sig *types.Signature) bool) []*ssa.Function {
	var out []*ssa.Function
	pk := c.p.Pkg(rel)
	c.need(pk != nil, "no package %s", rel)
	for _, n := range sortedMembers(pk) {
		if fn, ok := pk.Members[n].(*ssa.Function); ok && len(fn.Blocks) > 0 && f(fn.Signature) {
			out = append(out, fn)
		}
	}
	return out
}

func checkC18(c *Check) {
	c.rule("membership in the result of the cut is evaluated from the loop summaries for a voxel that is or is not in the base, and is or is not met by the cut model; the command is followed from the reading of the files to the writing of the result.")
	bt := c.p.Type("binvox", "BinVOX")
	wt := c.p.Type("binvox", "WhiteVoxelMap")
	kt := c.p.Type("binvox", "Key")
	c.need(bt != nil && wt != nil && kt != nil, "no BinVOX, WhiteVoxelMap or Key in binvox")
	fns := c.sigFns("cmd/voxcut", func(sig *types.Signature) bool {
		n := 0
		for i := 0; i < sig.Params().Len(); i++ {
			if types.Identical(sig.Params().At(i).Type(), types.NewPointer(bt)) {
				n++
			}
		}
		return n == 2 && sig.Params().Len() == 2 && sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), wt)
	})
	c.need(len(fns) == 1, "%d functions of cmd/voxcut cut a model by a model", len(fns))
	fn := fns[0]
	c.counts["functions"]++
	e := NewEng(c.p)
	as, f0 := args(fn)
	base, cut := App("deref", bt, as[0]), App("deref", bt, as[1])
	F := func(b *Term, n string) *Term { return c.fld(b, bt, n) }
	B, C := F(base, "WhiteVoxels"), F(cut, "WhiteVoxels")
	// models as read from files have no colours
	for _, b := range []*Term{base, cut} {
		m := F(b, "ColorVoxels")
		f0 = f0.AddAll([]*Term{Eq(m, Nil(m.typ))})
	}
	max := func(b *Term) *Term { return MaxMin("max", F(b, "NX"), F(b, "NY"), F(b, "NZ")) }
	key := Struct(kt, Sym("k:x", types.Typ[types.Int]), Sym("k:y", types.Typ[types.Int]), Sym("k:z", types.Typ[types.Int]))
	vp := func(f *Facts, b *Term) *Term {
		if f.Entails(GT(F(b, "Scale"))) {
			return Div(max(b), F(b, "Scale"))
		}
		return Int(1)
	}
	for i, l := range [][]*Term{{GT(F(base, "Scale")), GT(F(cut, "Scale"))}, {Not(GT(F(base, "Scale"))), Not(GT(F(cut, "Scale")))}} {
		sc := []string{"scaled", "unscaled"}[i]
		st := e.newState(f0.AddAll(l))
		for _, b := range []*Term{base, cut} {
			m := F(b, "ColorVoxels")
			st.set(mapBase(m), App("map0", nil))
		}
		outs, err := e.Run(fn, as, st)
		c.need(err == nil, "%s: the analysis gave up: %v", c.p.fnName(fn), err)
		c.counts["paths"] += len(outs)
		for _, o := range outs {
			f := o.st.facts
			if o.kind != "ret" {
				c.ob("cut:"+sc+"/ends", false, fn.Pos(), "the cut ends with %s when %v", o.kind, f)
				continue
			}
			noB, noC := f.Entails(EQ0(maplen(B))), f.Entails(EQ0(maplen(C)))
			if o.res[1].op != ONil && !f.Entails(Eq(o.res[1], Nil(nil))) {
				c.ob("cut:"+sc+"/error", noB, fn.Pos(), "the cut is refused when %v", f)
				continue
			}
			for _, cs := range []struct {
				n    string
				b, c bool
			}{{"base", true, false}, {"base-and-cut", true, true}, {"cut", false, true}, {"neither", false, false}} {
				if cs.b && noB || cs.c && noC {
					continue
				}
				ok := false
				why := ""
				// the voxels of both models are equally large, so that either gives the shift
				for _, by := range []*Term{base, cut} {
					v := vp(f, by)
					var ks []*Term
					for j, n := range []string{"TX", "TY", "TZ"} {
						ks = append(ks, Add(key.args[j], Rounding("round", Mul(Sub(F(base, n), F(cut, n)), v))))
					}
					at := Struct(kt, ks...)
					g := f
					lit := func(m, k *Term, on bool) {
						x := App("mok", types.Typ[types.Bool], m, k)
						if !on {
							x = Not(x)
						}
						g = g.AddAll([]*Term{x})
					}
					lit(B, key, cs.b)
					lit(C, at, cs.c)
					m := &members{e: e, st: o.st}
					r := m.in(e.mapContentOf(o.st, o.res[0]), key, g, 0)
					want := 0
					if cs.b && !cs.c {
						want = 1
					}
					if r == want {
						ok = true
						break
					}
					if why == "" {
						why = map[int]string{0: "is left out", 1: "is kept", -1: "is kept or not depending on " + m.why}[r]
					}
				}
				c.ob("cut:"+sc+"/"+cs.n, ok, fn.Pos(), "a voxel that is in %s (shift by the rounded difference of translations) %s when %v", map[string]string{"base": "the base only", "base-and-cut": "the base and the cut model", "cut": "the cut model only", "neither": "neither model"}[cs.n], why, f)
			}
			for b := range o.st.heap {
				rb, _ := splitPtr(b)
				if rb.op != OObj && rb != mapBase(F(base, "ColorVoxels")) && rb != mapBase(F(cut, "ColorVoxels")) {
					c.ob("cut:"+sc+"/pure", false, fn.Pos(), "the cut changes %s", str(b))
				}
			}
		}
	}
	c.cutMain(fn)
	c.atLeast("cut", 12)
	c.atLeast("read", 6)
	c.atLeast("write", 10)
}

func maplen(m *Term) *Term { return App("maplen", types.Typ[types.Int], m) }

// mapContentOf is the content of a map value, a caller's map standing for itself.
func (e *Eng) mapContentOf(s *State, m *Term) *Term {
	if m.op == ONil {
		return App("map0", nil)
	}
	return e.mapContent(s, m)
}

// members evaluates membership in maps built by loops over other maps.
type members struct {
	e   *Eng
	st  *State
	why string
}

// in: 1 the key is in the map, 0 it is not, -1 unknown.
func (m *members) in(cont, key *Term, f *Facts, d int) int {
	if d > 30 {
		m.why = "a long chain of changes"
		return -1
	}
	if cont.op == OApp && cont.s == "map0" || cont.op == ONil {
		return 0
	}
	if cont.op == OApp && (cont.s == "mset" || cont.s == "mdel") {
		eq := Eq(cont.args[1], key)
		switch {
		case f.Entails(eq):
			return map[string]int{"mset": 1, "mdel": 0}[cont.s]
		case f.Entails(Not(eq)):
			return m.in(cont.args[0], key, f, d+1)
		}
		m.why = "whether it is " + str(cont.args[1])
		return -1
	}
	if s := m.e.summ[cont]; s != nil {
		return m.loop(cont, s, key, f, d)
	}
	ok := App("mok", types.Typ[types.Bool], cont, key)
	switch {
	case f.Entails(ok):
		return 1
	case f.Entails(Not(ok)):
		return 0
	}
	m.why = "membership in " + str(cont)
	return -1
}

// loop: the map after a loop over a map, each iteration of which sets or deletes at most one
// key, a translate of the key it visits.
func (m *members) loop(cont *Term, s *Summary, key *Term, f *Facts, d int) int {
	l := s.loop
	var over, vis *Term
	type effect struct {
		kind int // 0 none, 1 set, 2 delete
		it   *IterPath
	}
	var effs []effect
	var off []*Term
	for _, it := range l.iters {
		var mi *Event
		for _, ev := range it.events {
			if ev.kind == "mapiter" && hasMarker(ev.args[1], l.marker) {
				if mi == nil {
					mi = ev
				}
			}
		}
		if mi == nil {
			m.why = "a loop that does not visit a map"
			return -1
		}
		if over == nil {
			over, vis = mi.args[0], mi.args[1]
		}
		if mi.args[0] != over || mi.args[1] != vis {
			m.why = "a loop over several maps"
			return -1
		}
		b := it.back[cont]
		ef := effect{it: it}
		switch {
		case b == cont:
		case b != nil && b.op == OApp && (b.s == "mset" || b.s == "mdel") && b.args[0] == cont:
			ef.kind = map[string]int{"mset": 1, "mdel": 2}[b.s]
			k := comps(b.args[1])
			v := comps(vis)
			if len(k) != len(v) || len(v) == 0 {
				m.why = "the key " + str(b.args[1])
				return -1
			}
			var o []*Term
			for i := range k {
				o = append(o, Sub(k[i], v[i]))
				if hasMarker(o[i], l.marker) {
					m.why = "the key " + str(b.args[1])
					return -1
				}
			}
			if off == nil {
				off = o
			}
			for i := range o {
				if !proveEq(it.facts, o[i], off[i]) {
					m.why = "differently placed keys"
					return -1
				}
			}
		default:
			m.why = "a loop that leaves " + str(b)
			return -1
		}
		effs = append(effs, ef)
	}
	if off == nil {
		return m.in(s.phi.init, key, f, d+1)
	}
	// the loop must not end before it has visited the whole map
	done := false
	for _, x := range f.lits {
		if x.op == OApp && x.s == "exhausted" && strings.HasSuffix(x.args[0].s, l.marker) {
			done = true
		}
	}
	if !done {
		m.why = "where the loop ends"
		return -1
	}
	kc, vc := comps(key), comps(vis)
	sub := map[*Term]*Term{}
	var at []*Term
	for i := range vc {
		x := Sub(kc[i], off[i])
		at = append(at, x)
		sub[vc[i]] = x
	}
	src := m.e.mapContentOf(m.st, over)
	if l.heap0 != nil {
		st := *m.st
		st.heap = l.heap0
		src = m.e.mapContentOf(&st, over)
	}
	switch m.in(src, Struct(key.typ, at...), f, d+1) {
	case 0:
		return m.in(s.phi.init, key, f, d+1)
	case -1:
		return -1
	}
	res := -2
	for _, ef := range effs {
		g := f
		dead := false
		for _, x := range ef.it.newFacts(l) {
			y := subst(x, sub, map[*Term]*Term{})
			if hasMarker(y, l.marker) {
				continue
			}
			if g.Entails(Not(y)) {
				dead = true
				break
			}
			g = g.AddAll([]*Term{y})
		}
		if dead || !valid(g) {
			continue
		}
		r := -1
		switch ef.kind {
		case 0:
			r = m.in(s.phi.init, key, f, d+1)
		case 1:
			r = 1
		case 2:
			r = 0
		}
		if res == -2 {
			res = r
		}
		if r != res || r == -1 {
			m.why = fmt.Sprintf("%v", ef.it.newFacts(l))
			return -1
		}
	}
	if res == -2 {
		m.why = "no iteration"
		return -1
	}
	return res
}

// comps are the components of a key.
func comps(k *Term) []*Term {
	if k.op == OStruct {
		return k.args
	}
	if st, ok := under(k.typ).(*types.Struct); ok {
		var out []*Term
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, fieldOf(k, i, st.Field(i).Type()))
		}
		return out
	}
	return nil
}

// flagSet: whether the text flag is given on the path, -1 if it was not tested.
func flagSet(f *Facts, name string) int {
	fl := flagTerms(f, nil, name)
	switch {
	case fl == nil:
	case f.Entails(Not(Eq(fl, Str("")))):
		return 1
	case f.Entails(Eq(fl, Str(""))):
		return 0
	}
	return -1
}

// outsideCmd makes the functions of the repository and its geometry library opaque, except those of the command.
func outsideCmd(p *Program, pk *ssa.Package, extra ...*ssa.Function) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		for _, x := range extra {
			if fn == x {
				return true
			}
		}
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil || f.Pkg == pk {
			return false
		}
		return strings.HasPrefix(f.Pkg.Pkg.Path(), p.mod+"/") || f.Pkg.Pkg.Path() == glPath
	}
}

// cutMain follows the command.
func (c *Check) cutMain(cutFn *ssa.Function) {
	fn := c.fn("cmd/voxcut", "main")
	bt := c.p.Type("binvox", "BinVOX")
	wt := c.p.Type("binvox", "WhiteVoxelMap")
	read := c.fn("binvox", "Read")
	write := c.fn("binvox", "BinVOX.Write")
	vox := c.sigFns("cmd/voxcut", func(sig *types.Signature) bool {
		for i := 0; i < sig.Params().Len(); i++ {
			if types.Identical(sig.Params().At(i).Type(), wt) {
				return true
			}
		}
		return false
	})
	isVox := map[*ssa.Function]bool{}
	for _, v := range vox {
		isVox[v] = true
	}
	e := NewEng(c.p)
	e.opaque = outsideCmd(c.p, fn.Pkg, append(vox, cutFn)...)
	inputs := Sym("cmd.args", nil)
	var win []*Term
	for _, n := range []string{"sx", "sy", "sz", "cx", "cy", "cz"} {
		win = append(win, Sym("flag:"+n, types.Typ[types.Int]))
	}
	eqWin := func(as []*Term, f *Facts) bool {
		for i, w := range as {
			if !(w.op == OSym && w.s == win[i].s) && !proveEq(f, w, win[i]) {
				return false
			}
		}
		return len(as) == 6
	}
	as, f0 := args(fn)
	wi := -1
	st, _ := under(bt).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "WhiteVoxels" {
			wi = i
		}
	}
	for _, o := range c.run(e, fn, as, f0) {
		if o.kind == "panic" {
			c.ob("read:panic", false, o.pos, "voxcut can panic when %v", o.st.facts)
		}
		if o.kind != "ret" {
			continue
		}
		f := o.st.facts
		evs := o.st.trace.list()
		calls := func(evs []*Event, fn *ssa.Function) []*Event {
			var out []*Event
			for _, ev := range evs {
				if ev.kind == "call" && ev.callee == fn {
					out = append(out, ev)
				}
			}
			return out
		}
		rs := calls(evs, read)
		if !c.ob("read:base", len(rs) == 1 && len(rs[0].args) == 7 && len(rs[0].res) == 2, fn.Pos(), "the base is read by %d calls of binvox.Read", len(rs)) {
			continue
		}
		r := rs[0]
		a := r.args[0]
		c.ob("read:base/first", a.op == OApp && a.s == "elem" && isSym(a.args[0], "cmd.args") && a.args[1] == Int(0), r.pos, "the base is read from %s, not from the first file", str(a))
		if a.op == OApp && a.s == "elem" {
			inputs = a.args[0]
		}
		c.ob("read:base/window", eqWin(r.args[1:], r.facts), r.pos, "the base is read with the window %v", r.args[1:])
		base := r.res[0]
		// the cuts
		cuts := 0
		for _, ev := range evs {
			if ev.loop == nil {
				continue
			}
			if !hasEv([]*Event{ev}, func(x *Event) bool { return x.kind == "call" && x.callee == cutFn }) {
				continue
			}
			cuts++
			for _, it := range ev.loop.iters {
				at := []LoopAt{{ev.loop, it, f}}
				q := it.events
				for _, p := range flat(q) {
					rc, cc := calls(p, read), calls(p, cutFn)
					if len(rc) == 0 && len(cc) == 0 && ev.loop.n != nil && it.facts.Entails(EQ0(ev.loop.n)) {
						continue // the base among the inputs
					}
					if !c.ob("read:cut", len(rc) == 1 && len(rc[0].args) == 7, ev.pos, "one iteration reads %d cut models", len(rc)) {
						continue
					}
					x := rc[0]
					k := x.args[0]
					ok, why := k.op == OApp && k.s == "elem" && k.args[0] == inputs, "not a file given"
					if ok {
						l, w := covers(e, k.args[1], Int(1), Int(1), Len(inputs), at)
						if l == nil && ev.loop.n != nil && it.facts.Entails(GE(Sub(ev.loop.n, Int(1)))) {
							l, w = covers(e, k.args[1], Int(0), Int(1), Len(inputs), at)
						}
						ok, why = l != nil, w
					}
					c.ob("read:cut/each", ok, x.pos, "the cut models read are %s: %s", str(k), why)
					zero := true
					for _, w := range x.args[1:] {
						zero = zero && proveEq(it.facts, w, Int(0))
					}
					c.ob("read:cut/window", zero, x.pos, "the cut model is read in the window %v of its own indices, which may leave out voxels that meet the base", x.args[1:])
					if it.facts.Entails(Not(Eq(x.res[1], Nil(x.res[1].typ)))) {
						c.ob("read:cut/skip", len(cc) == 0, x.pos, "a model that was not read is used for cutting")
						continue
					}
					if !c.ob("cut:applied", len(cc) == 1, x.pos, "a cut model is applied %d times", len(cc)) {
						continue
					}
					y := cc[0]
					c.ob("cut:applied/models", len(y.args) == 2 && y.args[0] == base && y.args[1] == x.res[0], y.pos, "%s is cut by %s", str(y.args[0]), str(y.args[1]))
					got := it.heap[base]
					c.ob("cut:applied/result", got != nil && fieldOf(got, wi, wt) == y.res[0], y.pos, "after a cut the base does not hold the result")
				}
			}
			for _, ph := range ev.loop.phis {
				if ph.base == base {
					c.ob("write:fields", ph.name[strings.LastIndex(ph.name, ".")+1:] == fmt.Sprint(wi), ev.pos, "cutting also changes %s of the base", ph.name)
				}
			}
		}
		if !c.ob("cut:loop", cuts == 1, fn.Pos(), "%d loops apply the cut models", cuts) {
			continue
		}
		// what is written
		final := o.st.heap[base]
		same := func(ev *Event) bool { return ev.heap[base] == final }
		fields := func(key string, ev *Event) {
			if final == nil {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if i != wi {
					c.ob("write:fields", fieldOf(final, i, st.Field(i).Type()) == fieldOf(App("deref", bt, base), i, st.Field(i).Type()), ev.pos, "%s of the base is changed before it is written", st.Field(i).Name())
				}
			}
			c.ob("write:"+key+"/state", same(ev), ev.pos, "the base changes after it is written as %s", key)
		}
		for _, k := range []string{"obinvox", "ovox", "ostl"} {
			var hits []*Event
			for _, p := range evs {
				if p.kind != "call" || p.callee == nil || p.callee == cutFn || p.callee == read {
					continue
				}
				switch {
				case k == "obinvox" && p.callee == write,
					k == "ovox" && isVox[p.callee],
					k == "ostl" && p.callee.Signature.Recv() != nil && len(p.args) > 0 && p.args[0] == base && p.callee != write && len(p.res) == 1 && p.res[0].typ != nil && types.TypeString(p.res[0].typ, nil) == "*"+glPath+".Mesh":
					hits = append(hits, p)
				}
			}
			switch flagSet(f, k) {
			case 0:
				c.ob("write:"+k+"/asked", len(hits) == 0, fn.Pos(), "the result is written as %s without being asked for", k)
			case 1:
				if !c.ob("write:"+k, len(hits) == 1, fn.Pos(), "with -%s the result is written %d times", k, len(hits)) {
					continue
				}
				h := hits[0]
				switch k {
				case "obinvox":
					c.ob("write:"+k+"/model", len(h.args) == 8 && h.args[0] == base && isSym(h.args[1], "flag:"+k) && eqWin(h.args[2:], h.facts), h.pos, "the result is written with %v instead of the name and the window given", h.args)
				case "ovox":
					okm := false
					for _, x := range h.args {
						okm = okm || x == c.fld(e.content(o.st, base), bt, "WhiteVoxels")
					}
					c.ob("write:"+k+"/model", okm, h.pos, "the voxels written are %v", h.args)
				}
				fields(k, h)
			default:
				c.ob("write:"+k, false, fn.Pos(), "whether -%s is given is not tested", k)
			}
		}
	}
}
