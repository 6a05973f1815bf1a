package main

import "go/types"

// C21: accessors. Every path of an accessor must return the value the specification gives
// under the facts of that path.
func init() { checks["C21"] = checkC21 }

func checkC21(c *Check) {
	c.rule("every path summary of each accessor is compared with the specified value under the facts of that path (max terms are split into their cases).")
	c.accessors("binvox", "BinVOX")
	c.accessors("vshell", "VShell")
	c.binvoxMaps()
	c.atLeast("dim", 2)
	c.atLeast("vpmm", 4)
	c.atLeast("mbb", 24)
	c.atLeast("new", 18)
	c.atLeast("get", 3)
	c.atLeast("add", 2)
}

func (c *Check) accessors(rel, tn string) {
	typ := c.p.Type(rel, tn)
	c.need(typ != nil, "no type %s.%s", rel, tn)
	key := func(k, s string) string { return k + ":" + rel + "." + s }

	fn := c.fn(rel, tn+".Dim")
	as, f0 := args(fn)
	_, isPtr := fn.Params[0].Type().Underlying().(*types.Pointer)
	c.need(isPtr, "receiver of Dim is not a pointer")
	recv := func(a *Term) *Term { return App("deref", typ, a) }
	e := NewEng(c.p)
	F := func(a *Term, n string) *Term { return c.fld(recv(a), typ, n) }
	max := func(a *Term) *Term { return MaxMin("max", F(a, "NX"), F(a, "NY"), F(a, "NZ")) }
	for _, o := range c.run(e, fn, as, f0) {
		ok := o.kind == "ret" && len(o.res) == 1
		c.ob(key("dim", "Dim"), ok && proveEq(o.st.facts, o.res[0], max(as[0])), fn.Pos(), "Dim returns %v (%s), not the maximum of NX, NY, NZ, when %v", o.res, o.kind, o.st.facts)
	}
	pos := func(a *Term) *Term { return GT(F(a, "Scale")) }
	// vpmm on one path
	vp := func(f *Facts, a *Term) *Term {
		if f.Entails(pos(a)) {
			return Div(max(a), F(a, "Scale"))
		}
		if f.Entails(Not(pos(a))) {
			return Int(1)
		}
		return nil
	}
	fn = c.fn(rel, tn+".VoxelsPerMM")
	as, f0 = args(fn)
	for _, l := range []*Term{pos(as[0]), Not(pos(as[0]))} {
		f1, _ := f0.Assume(l)
		for _, o := range c.run(e, fn, as, f1) {
			ok := o.kind == "ret" && len(o.res) == 1
			c.ob(key("vpmm", "VoxelsPerMM"), ok && proveEq(o.st.facts, o.res[0], vp(o.st.facts, as[0])), fn.Pos(), "VoxelsPerMM returns %v (%s) when %v", o.res, o.kind, o.st.facts)
		}
	}
	fn = c.fn(rel, tn+".MBB")
	as, f0 = args(fn)
	box := c.p.Type("gl", "Box")
	vec := c.p.Type("gl", "Vector")
	c.need(box != nil && vec != nil, "no fauxgl.Box")
	for _, l := range []*Term{pos(as[0]), Not(pos(as[0]))} {
		f1, _ := f0.Assume(l)
		// the maximum dimension of a model with positive scale is not zero (the divisions are defined)
		f1, _ = f1.Assume(Not(EQ0(max(as[0]))))
		for _, o := range c.run(e, fn, as, f1) {
			if !c.ob(key("mbb-ret", "MBB"), o.kind == "ret" && len(o.res) == 1, fn.Pos(), "MBB ends with %s", o.kind) {
				continue
			}
			b := e.load(o.st, o.res[0])
			for _, ax := range []string{"X", "Y", "Z"} {
				mn := c.fld(c.fld(b, box, "Min"), vec, ax)
				mx := c.fld(c.fld(b, box, "Max"), vec, ax)
				c.ob(key("mbb", "MBB.Min."+ax), proveEq(o.st.facts, mn, F(as[0], "T"+ax)), fn.Pos(), "MBB.Min.%s is %s, not T%s", ax, str(mn), ax)
				want := Add(F(as[0], "T"+ax), Div(F(as[0], "N"+ax), vp(o.st.facts, as[0])))
				c.ob(key("mbb", "MBB.Max."+ax), proveEq(o.st.facts, mx, want), fn.Pos(), "MBB.Max.%s is %s, not %s", ax, str(mx), str(want))
			}
		}
	}
}

func (c *Check) binvoxMaps() {
	typ := c.p.Type("binvox", "BinVOX")
	col := c.p.Type("binvox", "Color")
	c.need(col != nil, "no binvox.Color")
	e := NewEng(c.p)
	fn := c.fn("binvox", "New")
	as, f0 := args(fn)
	c.need(len(as) == 8, "binvox.New has %d parameters", len(as))
	full := as[7]
	for _, l := range []*Term{full, Not(full)} {
		f1, _ := f0.Assume(l)
		for _, o := range c.run(e, fn, as, f1) {
			if !c.ob("new-ret:New", o.kind == "ret" && len(o.res) == 1, fn.Pos(), "New ends with %s", o.kind) {
				continue
			}
			m := e.load(o.st, o.res[0])
			for i, n := range []string{"NX", "NY", "NZ", "TX", "TY", "TZ", "Scale"} {
				got := c.fld(m, typ, n)
				c.ob("new:New."+n, got == as[i], fn.Pos(), "field %s of the new model is %s, not argument %d", n, str(got), i)
			}
			for _, n := range []string{"WhiteVoxels", "ColorVoxels"} {
				got := c.fld(m, typ, n)
				want := (n == "ColorVoxels") == (l == full)
				empty := false
				if got.op == OObj {
					k := e.mapContent(o.st, got)
					empty = k.op == OApp && k.s == "map0"
				}
				if want {
					c.ob("new:New."+n, empty, fn.Pos(), "%s is %s, not an empty map", n, str(got))
				} else {
					c.ob("new:New."+n, empty || got.op == ONil, fn.Pos(), "%s is %s, not empty", n, str(got))
				}
			}
		}
	}
	// Add, AddColor
	for _, n := range []string{"Add", "AddColor"} {
		fn := c.fn("binvox", "BinVOX."+n)
		as, f0 := args(fn)
		c.need(len(as) >= 4, "BinVOX.%s has %d parameters", n, len(as))
		mf := map[string]string{"Add": "WhiteVoxels", "AddColor": "ColorVoxels"}[n]
		m := c.fld(App("deref", typ, as[0]), typ, mf)
		f1, _ := f0.Assume(Not(Eq(m, Nil(m.typ))))
		for _, o := range c.run(e, fn, as, f1) {
			cont := e.content(o.st, mapBase(m))
			k := Struct(c.p.Type("binvox", "Key"), as[1], as[2], as[3])
			ok := o.kind == "ret" && cont.op == OApp && cont.s == "mset" && cont.args[0] == m && o.st.facts.EqTerm(cont.args[1], k)
			if ok && n == "AddColor" {
				ok = o.st.facts.EqTerm(cont.args[2], as[4])
			}
			c.ob("add:"+n, ok, fn.Pos(), "%s leaves %s holding %s (%s)", n, mf, str(cont), o.kind)
			for b := range o.st.heap {
				if b == mapBase(m) {
					continue
				}
				rb, _ := splitPtr(b)
				c.ob("add-other:"+n, rb.op == OObj, fn.Pos(), "%s also changes %s", n, str(b))
			}
		}
	}
	// Get
	fn = c.fn("binvox", "BinVOX.Get")
	as, f0 = args(fn)
	c.need(len(as) == 4, "BinVOX.Get has %d parameters", len(as))
	k := Struct(c.p.Type("binvox", "Key"), as[1], as[2], as[3])
	wm := c.fld(App("deref", typ, as[0]), typ, "WhiteVoxels")
	cm := c.fld(App("deref", typ, as[0]), typ, "ColorVoxels")
	ps := &PS{State: e.newState(f0), env: nil}
	_, wok := mapGet(e.content(ps.State, mapBase(wm)), k, types.NewStruct(nil, nil), f0)
	cv, cok := mapGet(e.content(ps.State, mapBase(cm)), k, col, f0)
	one := Struct(col, Int(1), Int(1), Int(1), Int(1))
	for _, cs := range []struct {
		n  string
		l  []*Term
		v  *Term
		ok bool
	}{{"white", []*Term{wok}, one, true}, {"color", []*Term{Not(wok), cok}, cv, true}, {"absent", []*Term{Not(wok), Not(cok)}, nil, false}} {
		f1 := f0
		for _, l := range cs.l {
			f1, _ = f1.Assume(l)
		}
		for _, o := range c.run(e, fn, as, f1) {
			ok := o.kind == "ret" && len(o.res) == 2 && proveEq(o.st.facts, o.res[1], Bool(cs.ok))
			if ok && cs.v != nil {
				ok = proveEq(o.st.facts, o.res[0], cs.v)
			}
			c.ob("get:"+cs.n, ok, fn.Pos(), "Get of a %s voxel gives %v (%s)", cs.n, o.res, o.kind)
		}
	}
}
