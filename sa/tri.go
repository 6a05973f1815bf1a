package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: triangles keep their vertices through every transport.

func init() { checks["C25"] = checkC25 }

// triStruct: a struct with three vertices.
func triStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "V1", "V2", "V3":
			n++
		}
	}
	if n != 3 {
		return nil
	}
	return s
}

func triList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && triStruct(s.Elem()) != nil
}

// triTalk: the type is a triangle, a list of triangles or a message holding some (a mesh is not a message).
func triTalk(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		if triStruct(t) != nil {
			return true
		}
		if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() == glPath {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return triTalk(u.Elem(), seen)
	case *types.Slice:
		return triTalk(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if triTalk(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

type triCheck struct {
	c    *Check
	e    *Eng
	root *ssa.Function
	as   []*Term
	seen map[*Term]bool
	done map[*Term]map[*Facts]bool
	list int
	// where in their stream bytes were read from, and where loops begin to read
	offs   map[*Term]int64
	starts map[*Loop]int64
	scans  map[*Term]int64
}

// offsets follows the position in each stream along a path.
func (x *triCheck) offsets(evs []*Event) {
	at := map[*Term]int64{}
	for _, path := range flat(evs) {
		for _, ev := range path {
			switch {
			case ev.kind == "newreader":
				at[ev.args[0]] = 0
			case ev.kind == "call" && ev.fn == "read":
				n, ok := constInt(ev.args[1])
				if !ok {
					n = 1 << 40
				}
				for i, b := range ev.args[2:] {
					x.offs[b] = at[ev.args[0]] + int64(i)
				}
				at[ev.args[0]] += n
			case ev.kind == "call" && strings.HasSuffix(ev.fn, ".Seek") && len(ev.args) == 3:
				s := x.e.stream(&State{heap: map[*Term]*Term{}}, ev.args[0])
				n, ok := constInt(ev.args[1])
				w, ok2 := constInt(ev.args[2])
				switch {
				case ok && ok2 && w == 0:
					at[s] = n
				case ok && ok2 && w == 1:
					at[s] += n
				default:
					at[s] = 1 << 40
				}
			case ev.kind == "call" && ev.fn == "bufio.NewScanner":
				x.scans[x.e.stream(&State{heap: map[*Term]*Term{}}, ev.args[0])] = at[x.e.stream(&State{heap: map[*Term]*Term{}}, ev.args[0])]
			case ev.loop != nil:
				for _, it := range ev.loop.iters {
					for _, q := range it.events {
						if q.kind == "call" && q.fn == "read" {
							if _, ok := x.starts[ev.loop]; !ok {
								x.starts[ev.loop] = at[q.args[0]]
							}
						}
					}
				}
			}
		}
	}
}

func fieldByName(v *Term, t types.Type, name string) (*Term, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldOf(v, i, s.Field(i).Type()), s.Field(i).Type()
		}
	}
	return nil, nil
}

// coords are the coordinates of a triangle in memory; nil where a vertex is missing.
func (x *triCheck) coords(st *State, v *Term, t types.Type) (r [9]*Term, err error) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.op == ONil || st.facts.Entails(Eq(v, Nil(t))) {
			return r, nil
		}
		t = p.Elem()
		v = x.e.load(st, v)
	}
	for i, n := range []string{"V1", "V2", "V3"} {
		a, at := fieldByName(v, t, n)
		if a == nil {
			return r, fmt.Errorf("no vertex %s", n)
		}
		if p, ok := at.Underlying().(*types.Pointer); ok {
			if a.op == ONil || st.facts.Entails(Eq(a, Nil(at))) {
				continue
			}
			at = p.Elem()
			a = x.e.load(st, a)
		}
		if b, bt := fieldByName(a, at, "Position"); b != nil {
			a, at = b, bt
		}
		switch u := at.Underlying().(type) {
		case *types.Array:
			for k := 0; k < 3; k++ {
				r[3*i+k] = elemOf(a, Int(int64(k)), u.Elem(), st.facts)
			}
		case *types.Struct:
			for k, n := range []string{"X", "Y", "Z"} {
				b, _ := fieldByName(a, at, n)
				if b == nil {
					return r, fmt.Errorf("no coordinate %s", n)
				}
				r[3*i+k] = b
			}
		default:
			return r, fmt.Errorf("a vertex of type %s", at)
		}
	}
	return r, nil
}

// plain drops conversions between floating-point widths.
func plain(t *Term) *Term {
	for t != nil && t.op == OApp && (t.s == "f32" || t.s == "fbits32" || t.s == "fbits64") {
		t = t.args[0]
	}
	return t
}

var coordName = []string{"V1.X", "V1.Y", "V1.Z", "V2.X", "V2.Y", "V2.Z", "V3.X", "V3.Y", "V3.Z"}

// walk visits the events of a path with the facts and loops around them.
func walkEvents(evs []*Event, f *Facts, stack []LoopAt, g func(ev *Event, f *Facts, stack []LoopAt)) {
	for _, ev := range evs {
		g(ev, f, stack)
		for _, a := range ev.alts {
			walkEvents(a, f, stack, g)
		}
		if ev.loop != nil {
			for _, it := range ev.loop.iters {
				st := append(append([]LoopAt{}, stack...), LoopAt{ev.loop, it, f})
				walkEvents(it.events, it.facts, st, g)
			}
		}
	}
}

func (x *triCheck) at() string { return x.c.p.fnName(x.root) }

// message looks for lists of triangles in a message.
func (x *triCheck) message(st *State, f *Facts, v *Term, t types.Type, pos token.Pos, d int) {
	if d > 8 || v == nil {
		return
	}
	for v.op == OIface {
		t = v.typ
		v = v.args[0]
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return
	}
	if triList(t) {
		x.checkList(st, f, x.e.seqOf(st, v), pos)
		return
	}
	if !triTalk(t, map[types.Type]bool{}) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.op == ONil {
			return
		}
		if b, _ := splitPtr(v); v.op == OPtr && b.op == OObj {
			x.message(st, f, x.e.load(st, v), u.Elem(), pos, d+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.message(st, f, fieldOf(v, i, u.Field(i).Type()), u.Field(i).Type(), pos, d+1)
		}
	case *types.Slice:
		q := x.e.seqOf(st, v)
		for _, part := range catParts(q) {
			if part.op == OArray {
				for _, el := range part.args {
					x.message(st, f, el, u.Elem(), pos, d+1)
				}
			}
			if s := x.e.summ[part]; s != nil {
				for _, it := range s.loop.iters {
					for _, p := range catParts(it.back[part]) {
						if p.op == OArray {
							for _, el := range p.args {
								x.message(it.st, it.facts, el, u.Elem(), pos, d+1)
							}
						}
						if p.op == OApp && p.s == "store" {
							x.message(it.st, it.facts, p.args[2], u.Elem(), pos, d+1)
						}
					}
				}
			}
		}
	}
}

// element: what one iteration puts into a list, and at which place it is.
func element(b, list *Term) (val, idx *Term) {
	if v := appended(b, list); v != nil {
		return v, nil
	}
	if b != nil && b.op == OApp && b.s == "store" && b.args[0] == list {
		return b.args[2], b.args[1]
	}
	return nil, nil
}

// source finds the list element a value comes from.
func sourceElem(t *Term) *Term {
	var el *Term
	mentions(t, func(y *Term) bool {
		if y.op == OApp && y.s == "elem" && len(y.args) == 2 && y.typ != nil && triStruct(y.typ) != nil {
			el = y
			return true
		}
		return false
	})
	return el
}

// checkList: each element of the list is one triangle of the source, in order.
func (x *triCheck) checkList(st *State, f *Facts, seq *Term, pos token.Pos) {
	c, key := x.c, x.at()
	if seq.op == OArray && len(seq.args) == 0 {
		none := false
		for _, l := range f.lits {
			mentions(l, func(y *Term) bool {
				if y.op == OApp && y.s == "len" && f.Entails(EQ0(y)) {
					none = true
				}
				return none
			})
		}
		c.ob("list:"+key, none, pos, "a mesh without triangles is passed on in %s", key)
		return
	}
	if seq.op == OApp && seq.s == "sub" && seq.args[1] == Int(0) && x.e.summ[seq.args[0]] != nil && proveEq(f, seq.args[2], Len(x.e.summ[seq.args[0]].phi.init)) {
		seq = seq.args[0] // all of a list made with its length
	}
	s := x.e.summ[seq]
	if s == nil {
		if seq.op == OApp && (strings.HasPrefix(seq.s, "fld") || seq.s == "deref") || seq.op == OSym {
			return // passed on as it is
		}
		c.ob("list:"+key, false, pos, "the list of triangles passed on in %s is not understood: %s", key, str(seq))
		return
	}
	if x.done[seq] == nil {
		x.done[seq] = map[*Facts]bool{}
		x.list++
	}
	if x.done[seq][f] {
		return
	}
	x.done[seq][f] = true
	var size *Term
	if n, ok := constInt(Len(s.phi.init)); !ok || n != 0 {
		size = Len(s.phi.init)
		if !(s.phi.init.op == OApp && s.phi.init.s == "zeros") {
			c.ob("list:"+key, false, pos, "the list of triangles passed on in %s does not begin empty: %s", key, str(s.phi.init))
			return
		}
	}
	whole := 0
	for _, it := range s.loop.iters {
		v, idx := element(it.back[seq], seq)
		if v == nil && it.back[seq] == seq && x.malformed(it) {
			continue
		}
		if !c.ob("each:"+key, v != nil, pos, "in %s an iteration does not add exactly one triangle: the list becomes %s when %v", key, str(it.back[seq]), it.facts) {
			continue
		}
		et := v.typ
		if et == nil || triStruct(et) == nil {
			et = listElem(x.e, seq, v)
		}
		if !c.ob("each:"+key, et != nil, pos, "in %s the list holds %s", key, str(v)) {
			continue
		}
		co, err := x.coords(it.st, v, et)
		if !c.ob("each:"+key, err == nil, pos, "in %s: %v", key, err) {
			continue
		}
		stack := []LoopAt{{s.loop, it, f}}
		if idx != nil {
			_, why := covers(x.e, idx, Int(0), Int(1), size, stack)
			c.ob("order:"+key, why == "", pos, "in %s triangles are put at %s: %s", key, str(idx), why)
		}
		if x.compare(it.st, stack, co, size, pos) {
			whole++
		}
	}
	c.ob("whole:"+key, whole > 0, pos, "in %s no iteration adds a whole triangle", key)
}

func listElem(e *Eng, list, v *Term) types.Type {
	for _, t := range []types.Type{list.typ} {
		if t == nil {
			continue
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	if v.op == OPtr {
		b, _ := splitPtr(v)
		if t := leafType(v.args[1:], baseType(b)); t != nil && triStruct(t) != nil {
			return types.NewPointer(t)
		}
	}
	return nil
}

// malformed: on the path some part of the triangle is missing.
func (x *triCheck) malformed(it *IterPath) bool {
	for _, l := range it.facts.lits {
		if l.op != OEq || len(l.args) != 2 {
			continue
		}
		for k, y := range l.args {
			if l.args[1-k].op == ONil && y.typ != nil && mentions(y, func(z *Term) bool { return z.op == OApp && z.s == "elem" && triStruct(z.typ) != nil }) {
				if _, ok := y.typ.Underlying().(*types.Pointer); ok {
					return true
				}
			}
		}
	}
	return false
}

// compare the nine coordinates with those of the source; it reports whether the triangle is whole.
func (x *triCheck) compare(st *State, stack []LoopAt, co [9]*Term, size *Term, pos token.Pos) bool {
	c, key := x.c, x.at()
	var src *Term
	for _, t := range co {
		if t != nil && src == nil {
			src = sourceElem(plain(t))
		}
	}
	last := len(stack) - 1
	if src != nil {
		want, err := x.coords(st, src, src.typ)
		if !c.ob("coord:"+key, err == nil, pos, "%v", err) {
			return false
		}
		all := true
		for i := range co {
			if want[i] == nil { // a missing vertex reads as any
				all = false
				continue
			}
			c.ob("coord:"+key+"/"+coordName[i], plain(co[i]) == plain(want[i]), pos, "in %s coordinate %s becomes %s, not %s", key, coordName[i], str(co[i]), str(want[i]))
		}
		list := src.args[0]
		if x.e.summ[list] != nil {
			x.checkList(st, stack[last].exit, list, pos)
		}
		_, why := covers(x.e, src.args[1], Int(0), Int(1), Len(list), stack)
		c.ob("all:"+key, why == "", pos, "in %s not all triangles are passed on in order: %s", key, why)
		return all
	}
	if x.fromBytes(stack, co, size, pos) || x.fromText(stack, co, pos) {
		return true
	}
	missing := true
	for _, t := range co {
		missing = missing && (t == nil || t == Int(0))
	}
	if missing && x.malformed(stack[last].it) {
		return false
	}
	c.ob("coord:"+key, false, pos, "in %s the source of coordinate %s is not known", key, str(co[0]))
	return false
}

// fromBytes: the coordinates are those of one record of a binary STL file.
func (x *triCheck) fromBytes(stack []LoopAt, co [9]*Term, size *Term, pos token.Pos) bool {
	c, key := x.c, x.at()
	l := stack[len(stack)-1]
	var rec *Event
	n := 0
	for _, ev := range l.it.events {
		if ev.kind == "call" && ev.fn == "read" {
			rec = ev
			n++
		}
	}
	if rec == nil || plain(co[0]) == nil || plain(co[0]).s != "lefloat" {
		return false
	}
	c.ob("record:"+key, n == 1 && rec.args[1] == Int(50), pos, "in %s an iteration reads %d records, of %s bytes", key, n, str(rec.args[1]))
	for i, t := range co {
		t = plain(t)
		ok := t != nil && t.op == OApp && t.s == "lefloat" && len(t.args) == 4
		for k := 0; ok && k < 4; k++ {
			at := 2 + 12 + 4*i + k
			ok = at < len(rec.args) && t.args[k] == rec.args[at]
		}
		c.ob("coord:"+key+"/"+coordName[i], ok, pos, "in %s coordinate %s is not read from bytes %d to %d of the record", key, coordName[i], 12+4*i, 15+4*i)
	}
	// the count is the one of the header
	if size == nil && l.loop.n != nil {
		for _, v := range l.it.facts.lits {
			mentions(v, func(y *Term) bool {
				if y.op == OApp && y.s == "le" && len(y.args) == 4 && x.offs[y.args[0]] == 80 {
					if _, why := covers(x.e, l.loop.n, Int(0), Int(1), y, stack); size == nil || why == "" {
						size = y
					}
				}
				return false
			})
		}
	}
	ok := size != nil && size.op == OApp && size.s == "le" && len(size.args) == 4
	for k := 0; ok && k < 4; k++ {
		off, known := x.offs[size.args[k]]
		ok = known && off == int64(80+k)
	}
	start, known := x.starts[l.loop]
	c.ob("record:"+key, known && start == 84, pos, "in %s the records are read from byte %d of the data", key, start)
	c.ob("all:"+key, ok, pos, "in %s the number of records is %v, not the count in the header", key, size)
	if ok {
		_, why := covers(x.e, l.loop.n, Int(0), Int(1), size, stack)
		c.ob("all:"+key, why == "", pos, "in %s not all records are read: %s", key, why)
	}
	return true
}

// fromText: the coordinates are those of three vertex lines that follow each other.
func (x *triCheck) fromText(stack []LoopAt, co [9]*Term, pos token.Pos) bool {
	c, key := x.c, x.at()
	l := stack[len(stack)-1]
	var list, first *Term
	for i, t := range co {
		for t != nil && t.op == OApp && strings.HasPrefix(t.s, "fld") {
			if t.s != fmt.Sprintf("fld%d", i%3) {
				c.ob("coord:"+key+"/"+coordName[i], false, pos, "in %s coordinate %s is %s", key, coordName[i], str(co[i]))
			}
			t = t.args[0]
		}
		if t == nil || !(t.op == OApp && t.s == "elem" && x.e.summ[t.args[0]] != nil) {
			return false
		}
		if first == nil {
			list, first = t.args[0], t.args[1]
		}
		c.ob("coord:"+key+"/"+coordName[i], t.args[0] == list && proveEq(l.it.facts, t.args[1], Add(first, Int(int64(i/3)))), pos, "in %s vertex %d is number %s of the file, the first being %s", key, i/3+1, str(t.args[1]), str(first))
	}
	_, why := covers(x.e, first, Int(0), Int(3), Len(list), stack)
	if why != "" {
		_, why = covers(x.e, first, Int(0), Int(3), Sub(Len(list), Int(2)), stack)
	}
	c.ob("all:"+key, why == "", pos, "in %s not all vertices are used: %s", key, why)
	// the list of vertices
	s := x.e.summ[list]
	c.ob("text:"+key, Len(s.phi.init) == Int(0), pos, "in %s the list of vertices begins as %s", key, str(s.phi.init))
	lines := 0
	for _, it := range s.loop.iters {
		var fields *Term
		for _, lit := range it.facts.lits {
			mentions(lit, func(y *Term) bool {
				if y.op == OApp && y.s == "strings.Fields" {
					fields = y
				}
				return false
			})
		}
		isVertex := And()
		if fields != nil {
			isVertex = And(EQ0(Sub(Len(fields), Int(4))), Eq(App("elem", types.Typ[types.String], fields, Int(0)), Str("vertex")))
		}
		if it.back[list] == list {
			c.ob("text:"+key, fields != nil && prove(it.facts, Not(isVertex)), pos, "in %s a line with a vertex is passed over when %v", key, it.facts)
			continue
		}
		v := appended(it.back[list], list)
		if !c.ob("text:"+key, v != nil && fields != nil && comps(v) != nil && len(comps(v)) == 3, pos, "in %s the list of vertices becomes %s", key, str(it.back[list])) {
			continue
		}
		lines++
		for i, t := range comps(v) {
			from := x.parsed(it, t)
			want := App("elem", types.Typ[types.String], fields, Int(int64(i+1)))
			c.ob("text:"+key+"/"+"XYZ"[i:i+1], from != nil && (from == want || proveEq(it.facts, from, want)), pos, "in %s coordinate %s of a vertex line is %s", key, "XYZ"[i:i+1], str(t))
		}
	}
	c.ob("text:"+key, lines > 0, pos, "in %s no line is read as a vertex", key)
	return true
}

// parsed is the text a number was read from.
func (x *triCheck) parsed(it *IterPath, t *Term) *Term {
	var from *Term
	walkEvents(it.events, it.facts, nil, func(ev *Event, f *Facts, stack []LoopAt) {
		if ev.kind != "call" || len(ev.res) == 0 {
			return
		}
		switch {
		case ev.fn == "strconv.ParseFloat" && ev.res[0] == t:
			from = ev.args[0]
		case strings.HasSuffix(ev.fn, "fauxgl.ParseFloats") && t.op == OApp && t.s == "elem" && t.args[0] == ev.res[0]:
			st := *it.st
			st.heap = ev.heap
			from = elemOf(x.e.seqOf(&st, ev.args[0]), t.args[1], types.Typ[types.String], it.facts)
		}
	})
	return from
}

// stlBytes: the bytes are a binary STL file of the triangles of a mesh.
func (x *triCheck) stlBytes(st *State, f *Facts, seq *Term, pos token.Pos) bool {
	c, key := x.c, x.at()
	ps, err := x.e.pieces(seq)
	if err != nil {
		return false
	}
	k := -1
	for i, p := range ps {
		if p.b == nil {
			k = i
		}
	}
	if k < 0 || x.seen[seq] {
		return false
	}
	x.seen[seq] = true
	x.list++
	if !c.ob("list:"+key, k == 84 && len(ps) == 85, pos, "in %s the header of the STL data has %d bytes, and %d pieces follow", key, k, len(ps)-k) {
		return true
	}
	p := ps[k]
	for _, lb := range p.body {
		if !c.ob("each:"+key, len(lb.bs) == 50, pos, "in %s a triangle is written as %d bytes", key, len(lb.bs)) {
			continue
		}
		var co [9]*Term
		for i := range co {
			v := le(lb.bs[12+4*i : 16+4*i])
			if v != nil {
				co[i] = plain(v)
			}
		}
		var src *Term
		if co[0] != nil {
			src = sourceElem(co[0])
		}
		if !c.ob("coord:"+key, src != nil, pos, "in %s the source of coordinate %v is not known", key, co[0]) {
			continue
		}
		x.compare(lb.it.st, []LoopAt{{p.sum.loop, lb.it, f}}, co, nil, pos)
		n := le(ps[80:84])
		c.ob("count:"+key, n != nil && proveEq(f, n, Len(src.args[0])), pos, "in %s the count declared is %v", key, n)
	}
	return true
}

func checkC25(c *Check) {
	c.rule("abstract interpretation of every function that turns triangles into messages, STL bytes or meshes: each iteration adds exactly one triangle, whose nine coordinates are the corresponding ones of the triangle read in that iteration, and the iterations run through all of the source in order.")
	roots := map[*ssa.Function]bool{}
	var climb func(fn *ssa.Function, d int)
	climb = func(fn *ssa.Function, d int) {
		if fn.Parent() != nil && d < 12 {
			climb(fn.Parent(), d+1)
			return
		}
		talks := false
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			talks = talks || triTalk(sig.Params().At(i).Type(), map[types.Type]bool{})
		}
		for i := 0; i < sig.Results().Len(); i++ {
			talks = talks || triTalk(sig.Results().At(i).Type(), map[types.Type]bool{})
		}
		var callers []*ssa.Function
		if talks && d < 12 {
			if n := fn.Name(); sig.Recv() != nil || !token.IsExported(n) || fn.Pkg.Pkg.Name() == "main" {
				callers = c.staticCallers(fn)
			}
		}
		if len(callers) == 0 {
			roots[fn] = true
			return
		}
		for _, g := range callers {
			if g != fn {
				climb(g, d+1)
			}
		}
	}
	for _, fn := range c.p.allFns() {
		if fn.Pkg == nil || !c.p.own(fn) || strings.HasSuffix(fn.Pkg.Pkg.Path(), "/binvox") || strings.Contains(c.p.posStr(fn.Pos()), ".pb.go") {
			continue
		}
		if makesTriangles(fn) || loadsBytes(fn) {
			climb(fn, 0)
		}
	}
	var list []*ssa.Function
	for fn := range roots {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return c.p.fnName(list[i]) < c.p.fnName(list[j]) })
	pks := map[string]int{}
	for _, fn := range list {
		x := &triCheck{c: c, root: fn, seen: map[*Term]bool{}, done: map[*Term]map[*Facts]bool{}, offs: map[*Term]int64{}, starts: map[*Loop]int64{}, scans: map[*Term]int64{}}
		e := NewEng(c.p)
		x.e = e
		e.opaque = func(g *ssa.Function) bool {
			f := g
			for f.Parent() != nil {
				f = f.Parent()
			}
			if f.Pkg == nil {
				return false
			}
			if f.Pkg.Pkg.Path() == glPath {
				switch f.Name() {
				case "NewTriangleMesh", "ParseFloats", "LoadSTL", "BoundingBox", "FixNormals", "Normal":
					return true
				}
				return false
			}
			if strings.Contains(c.p.posStr(f.Pos()), ".pb.go") {
				return false
			}
			return c.p.own(f) && f.Pkg != fn.Pkg
		}
		as, f0 := args(fn)
		x.as = as
		c.counts["functions"]++
		for _, o := range c.run(e, fn, as, f0) {
			if o.kind == "panic" {
				continue
			}
			x.offsets(o.st.trace.list())
			x.choice(o)
			walkEvents(o.st.trace.list(), o.st.facts, nil, func(ev *Event, f *Facts, stack []LoopAt) {
				if ev.kind != "call" || ev.heap == nil {
					return
				}
				st := *o.st
				st.heap, st.facts = ev.heap, f
				if strings.HasSuffix(ev.fn, "fauxgl.NewTriangleMesh") && len(ev.args) == 1 {
					x.checkList(&st, f, x.e.seqOf(&st, ev.args[0]), ev.pos)
					return
				}
				if strings.HasPrefix(ev.fn, "log.") || strings.HasPrefix(ev.fn, "fmt.") || strings.HasPrefix(ev.fn, "github.com/golang/protobuf/proto.Unmarshal") {
					return
				}
				for _, a := range ev.args {
					if a.typ != nil {
						x.message(&st, f, a, a.typ, ev.pos, 0)
					}
				}
			})
			if o.kind != "ret" {
				continue
			}
			for i, r := range o.res {
				x.message(o.st, o.st.facts, r, fn.Signature.Results().At(i).Type(), fn.Pos(), 0)
				if r.op == OPtr {
					if u, ok := deref(fn.Signature.Results().At(i).Type()).Underlying().(*types.Struct); ok {
						m := e.load(o.st, r)
						for k := 0; k < u.NumFields(); k++ {
							if b, ok := u.Field(k).Type().Underlying().(*types.Slice); ok && types.Identical(b.Elem(), types.Typ[types.Uint8]) {
								x.stlBytes(o.st, o.st.facts, e.seqOf(o.st, fieldOf(m, k, u.Field(k).Type())), fn.Pos())
							}
						}
					}
				}
				if types.TypeString(fn.Signature.Results().At(i).Type(), nil) == "[]byte" {
					x.stlBytes(o.st, o.st.facts, e.seqOf(o.st, r), fn.Pos())
				}
			}
		}
		c.ob("sink:"+x.at(), x.list > 0, fn.Pos(), "where the triangles made by %s go was not found", x.at())
		pks[fn.Pkg.Pkg.Path()]++
	}
	c.atLeast("sink", 7)
	c.atLeast("choice", 2)
	c.atLeast("coord", 50)
	for _, p := range []string{"stl2svx/stl", "stl2svx/stl2svx-client", "cmd/stldice-mr", "server/stldice-slave"} {
		c.ob("anchor:"+p, pks[c.p.mod+"/"+p] > 0, token.NoPos, "no function of %s that passes triangles on was found", p)
	}
}

// loadsBytes: the function makes a mesh of bytes.
func loadsBytes(fn *ssa.Function) bool {
	in, out := false, false
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		in = in || types.TypeString(sig.Params().At(i).Type(), nil) == "[]byte"
	}
	for i := 0; i < sig.Results().Len(); i++ {
		out = out || types.TypeString(sig.Results().At(i).Type(), nil) == "*"+glPath+".Mesh"
	}
	return in && out
}

// choice: data of the length a binary file has is not read as text, and text is read from its beginning.
func (x *triCheck) choice(o Outcome) {
	c, key := x.c, x.at()
	if !loadsBytes(x.root) || o.kind != "ret" || o.res[0].op == ONil {
		return
	}
	text := false
	for _, ev := range o.st.trace.list() {
		text = text || ev.kind == "call" && ev.fn == "bufio.NewScanner"
	}
	c.counts["choice"]++
	for _, at := range x.scans {
		c.ob("choice:"+key, at == 0, x.root.Pos(), "in %s the text is read from byte %d", key, at)
	}
	var buf *Term
	var ns []*Term
	for i, p := range x.root.Params {
		if types.TypeString(p.Type(), nil) == "[]byte" {
			buf = x.as[i]
		}
	}
	for b, off := range x.offs {
		if off == 80 {
			for _, l := range o.st.facts.lits {
				mentions(l, func(y *Term) bool {
					if y.op == OApp && y.s == "le" && len(y.args) == 4 && y.args[0] == b {
						ns = append(ns, y)
					}
					return false
				})
			}
		}
	}
	ok := false
	for _, n := range ns {
		size := Add(Int(84), Mul(Int(50), n))
		if text {
			ok = ok || prove(o.st.facts, Not(EQ0(Sub(Len(buf), size))))
		} else {
			ok = ok || prove(o.st.facts, Le(size, Len(buf)))
		}
	}
	c.ob("choice:"+key, ok, x.root.Pos(), "in %s data of the length of a binary file may be read as text, or shorter data as binary, when %v", key, o.st.facts)
}

// makesTriangles: the function builds a mesh of triangles, a triangle message or an STL record.
func makesTriangles(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch y := i.(type) {
			case ssa.CallInstruction:
				if g := y.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == glPath && g.Name() == "NewTriangleMesh" {
					return true
				}
			case *ssa.Alloc:
				if t := deref(y.Type()); triStruct(t) != nil {
					if n, ok := t.(*types.Named); ok && n.Obj().Name() != "" {
						return true
					}
				}
			}
		}
	}
	return false
}

// staticCallers lists the functions of the repository that call fn directly.
func (c *Check) staticCallers(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, g := range c.p.allFns() {
		if c.p.own(g) && callsFn(g, fn) {
			r = append(r, g)
		}
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// allFns lists the functions of the repository, closures included, without generated code.
func (p *Program) allFns() []*ssa.Function {
	var fs []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fs = append(fs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.repo {
		for _, f := range p.fnsOf(pk) {
			add(f)
		}
	}
	return fs
}

// own: a function of the repository.
func (p *Program) own(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && p.inRepo(fn.Pkg.Pkg)
}
