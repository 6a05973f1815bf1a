package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one externally visible (or otherwise recorded) effect on a path.
type Event struct {
	kind   string
	fn     string // callee or operation name
	callee *ssa.Function
	args   []*Term
	res    []*Term
	pos    token.Pos
	in     *ssa.Function
	facts  *Facts
	locks  []*Term
	task   *Task
	loop   *Loop
	alts   [][]*Event
	heap   map[*Term]*Term // snapshot where content matters
	seq    int
}

// TNode is a node of a persistent trace.
type TNode struct {
	prev *TNode
	ev   *Event
	n    int
}

func (t *TNode) list() []*Event { return t.since(nil) }

func (t *TNode) since(root *TNode) []*Event {
	var out []*Event
	for x := t; x != root && x != nil; x = x.prev {
		if x.ev != nil {
			out = append(out, x.ev)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Task is a goroutine (or the entry's own thread).
type Task struct {
	id     string
	parent *Task
	fn     *ssa.Function
	pos    token.Pos
	loop   string // loop markers at the spawn
	args   []*Term
	clos   *Term
	ctx    string
	locks  []*Term
}

// State is everything that changes along a path except local registers.
type State struct {
	heap    map[*Term]*Term
	shared  bool
	facts   *Facts
	trace   *TNode
	counts  map[string]int
	cshared bool
	locks   []*Term
	pending []*Task
	active  []*Task
	task    *Task
}

func (s *State) clone() *State {
	n := *s
	s.shared, n.shared = true, true
	s.cshared, n.cshared = true, true
	return &n
}

func (s *State) set(base, v *Term) {
	if s.shared {
		h := make(map[*Term]*Term, len(s.heap)+1)
		for k, x := range s.heap {
			h[k] = x
		}
		s.heap = h
		s.shared = false
	}
	s.heap[base] = v
}

func (s *State) count(k string) int {
	if s.cshared {
		h := make(map[string]int, len(s.counts)+1)
		for k, x := range s.counts {
			h[k] = x
		}
		s.counts = h
		s.cshared = false
	}
	n := s.counts[k]
	s.counts[k] = n + 1
	return n
}

func (s *State) emit(ev *Event) {
	ev.facts = s.facts
	ev.locks = s.locks
	ev.task = s.task
	if ev.kind == "call" {
		ev.heap = s.heap
		s.shared = true
	}
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &TNode{prev: s.trace, ev: ev, n: n}
}

func (s *State) assume(l *Term) bool {
	f, ok := s.facts.Assume(l)
	s.facts = f
	return ok
}

// PS is a path state inside a function.
type PS struct {
	*State
	env    map[ssa.Value]*Term
	defers []*deferred
}

type deferred struct {
	call *ssa.CallCommon
	fnv  *Term
	args []*Term
	pos  token.Pos
	site ssa.Instruction
}

func (p *PS) clone() *PS {
	e := make(map[ssa.Value]*Term, len(p.env)+4)
	for k, v := range p.env {
		e[k] = v
	}
	return &PS{State: p.State.clone(), env: e, defers: p.defers}
}

// Outcome of a call.
type Outcome struct {
	st   *State
	kind string // ret, panic, exit
	res  []*Term
	code *Term
	pos  token.Pos
}

// ---------------------------------------------------------------- memory

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// baseType is the type of the content stored at a base.
func baseType(b *Term) types.Type {
	if b.op == OObj {
		return b.typ
	}
	if b.op == OApp && b.s == "arr" {
		return b.args[0].typ
	}
	return pointee(b.typ)
}

func (e *Eng) content(s *State, b *Term) *Term {
	if c, ok := s.heap[b]; ok {
		return c
	}
	if c, ok := e.base[b]; ok {
		return c
	}
	if b.op == OApp && b.s == "arr" {
		return b.args[0]
	}
	if b.op == OApp && b.s == "mapof" {
		return b.args[0]
	}
	if b.op == OApp && b.s == "bufof" {
		return Str("")
	}
	if b.op == OObj {
		return App("init", b.typ, b)
	}
	return App("deref", baseType(b), b)
}

func splitPtr(p *Term) (*Term, []*Term) {
	if p.op == OPtr {
		return p.args[0], p.args[1:]
	}
	return p, nil
}

func addStep(p, step *Term) *Term {
	b, st := splitPtr(p)
	return Ptr(b, append(append([]*Term{}, st...), step)...)
}

func walkRead(c *Term, typ types.Type, steps []*Term, f *Facts) *Term {
	for _, s := range steps {
		if isFieldStep(s) {
			i := fieldStepIndex(s)
			var ft types.Type
			if st, ok := under(typ).(*types.Struct); ok && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			c = fieldOf(c, i, ft)
			typ = ft
		} else {
			et := elemType(typ)
			c = elemOf(c, s.args[0], et, f)
			typ = et
		}
	}
	return c
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func walkWrite(c *Term, typ types.Type, steps []*Term, v *Term, f *Facts) *Term {
	if len(steps) == 0 {
		return v
	}
	s := steps[0]
	if isFieldStep(s) {
		i := fieldStepIndex(s)
		st, ok := under(typ).(*types.Struct)
		if !ok {
			return App("upd", typ, c, s, v)
		}
		var fs []*Term
		for j := 0; j < st.NumFields(); j++ {
			x := fieldOf(c, j, st.Field(j).Type())
			if j == i {
				x = walkWrite(x, st.Field(j).Type(), steps[1:], v, f)
			}
			fs = append(fs, x)
		}
		return Struct(typ, fs...)
	}
	et := elemType(typ)
	idx := s.args[0]
	nv := v
	if len(steps) > 1 {
		nv = walkWrite(elemOf(c, idx, et, f), et, steps[1:], v, f)
	}
	if n, ok := constInt(idx); ok && c.op == OArray && n >= 0 && int(n) < len(c.args) {
		a := append([]*Term{}, c.args...)
		a[n] = nv
		return Array(c.typ, a...)
	}
	// overwrite of the most recent store at the same index
	if c.op == OApp && c.s == "store" && c.args[1] == idx {
		c = c.args[0]
	}
	return App("store", c.typ, c, idx, nv)
}

// elemOf reads element idx of a sequence.
func elemOf(c, idx *Term, et types.Type, f *Facts) *Term {
	n, isC := constInt(idx)
	for {
		switch {
		case c.op == OArray && isC:
			if n >= 0 && int(n) < len(c.args) {
				return c.args[n]
			}
		case c.op == OStr && isC:
			if n >= 0 && int(n) < len(c.s) {
				return Int(int64(c.s[n]))
			}
		case c.op == OArray && len(c.args) > 0:
			same := true
			for _, a := range c.args {
				if a != c.args[0] {
					same = false
				}
			}
			if same {
				return c.args[0]
			}
		case c.op == OApp && c.s == "cat":
			off := Int(0)
			next := (*Term)(nil)
			for _, p := range c.args {
				l := Len(p)
				rel := Sub(idx, off)
				if rc, ok := constInt(rel); ok {
					if lc, ok := constInt(l); ok {
						if rc >= 0 && rc < lc {
							next = p
							idx = rel
							break
						}
						off = Add(off, l)
						continue
					}
				}
				if f != nil && f.Entails(GE(rel)) && f.Entails(GE(Sub(Sub(l, rel), Int(1)))) {
					next = p
					idx = rel
					break
				}
				if f != nil && f.Entails(GE(Sub(rel, l))) {
					off = Add(off, l)
					continue
				}
				break
			}
			if next != nil {
				c = next
				n, isC = constInt(idx)
				continue
			}
		case c.op == OApp && c.s == "sub":
			idx = Add(idx, c.args[1])
			c = c.args[0]
			n, isC = constInt(idx)
			continue
		case c.op == OApp && c.s == "store":
			if c.args[1] == idx {
				return c.args[2]
			}
			d := EQ0(Sub(c.args[1], idx))
			if d.op == OBool && !d.b || f != nil && f.Entails(Not(d)) {
				c = c.args[0]
				continue
			}
			if f != nil && f.Entails(d) {
				return c.args[2]
			}
		case c.op == OApp && c.s == "zeros":
			if et != nil {
				return zeroValue(et)
			}
		case c.op == OApp && c.s == "repeat" && c.args[0].op == OArray:
			if len(c.args[0].args) == 1 {
				return c.args[0].args[0]
			}
		}
		break
	}
	return App("elem", et, c, idx)
}

func (e *Eng) load(s *State, p *Term) *Term {
	b, st := splitPtr(p)
	return walkRead(e.content(s, b), baseType(b), st, s.facts)
}

func (e *Eng) store(s *State, p, v *Term) {
	b, st := splitPtr(p)
	s.set(b, walkWrite(e.content(s, b), baseType(b), st, v, s.facts))
}

// seqOf returns the element sequence of a slice value.
func (e *Eng) seqOf(s *State, v *Term) *Term {
	switch v.op {
	case ONil:
		return Array(nil)
	case OSlice:
		c := e.content(s, v.args[0])
		return subSeq(c, v.args[1], Add(v.args[1], v.args[2]))
	case OArray, OStr:
		return v
	case OApp:
		if v.s == "cat" || v.s == "sub" || v.s == "store" || v.s == "zeros" || v.s == "repeat" {
			return v
		}
	}
	if c, ok := s.heap[arrOf(v)]; ok {
		return c
	}
	return v
}

func arrOf(v *Term) *Term { return mk(OApp, "arr", nil, v) }

func subSeq(c, lo, hi *Term) *Term {
	if l, ok := constInt(lo); ok && l == 0 && hi == Len(c) {
		if c.op == OArray && c.typ != nil {
			return Array(nil, c.args...)
		}
		return c
	}
	l, ok1 := constInt(lo)
	h, ok2 := constInt(hi)
	if c.op == OArray && ok1 && ok2 && l >= 0 && h <= int64(len(c.args)) && l <= h {
		return Array(nil, c.args[l:h]...)
	}
	if c.op == OStr && ok1 && ok2 && l >= 0 && h <= int64(len(c.s)) && l <= h {
		return Str(c.s[l:h])
	}
	if c.op == OApp && c.s == "cat" && ok1 {
		// drop leading known pieces; keep a suffix
		if hi == Len(c) {
			off := int64(0)
			for i, p := range c.args {
				pl, ok := constInt(Len(p))
				if !ok {
					break
				}
				if off+pl > l {
					first := subSeq(p, Int(l-off), Int(pl))
					return Cat(append([]*Term{first}, c.args[i+1:]...)...)
				}
				off += pl
				if off == l {
					return Cat(c.args[i+1:]...)
				}
			}
		}
		// a prefix that ends at a piece border
		if l == 0 {
			end := Int(0)
			for i, p := range c.args {
				end = Add(end, Len(p))
				if end == hi {
					return Cat(c.args[:i+1]...)
				}
			}
		}
	}
	if c.op == OApp && c.s == "sub" {
		return subSeq(c.args[0], Add(c.args[1], lo), Add(c.args[1], hi))
	}
	return App("sub", c.typ, c, lo, hi)
}

func (e *Eng) newObj(s *State, site string, typ types.Type, c *Term) *Term {
	name := site + e.scope
	n := s.count("o:" + name)
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	o := Obj(name, typ)
	s.set(o, c)
	return o
}

// mkSlice allocates a fresh backing array with the given elements.
func (e *Eng) mkSlice(s *State, site string, et types.Type, seq *Term) *Term {
	o := e.newObj(s, site, types.NewSlice(et), seq)
	return mk(OSlice, "", nil, o, Int(0), Len(seq))
}

func (e *Eng) freshSym(s *State, name string, typ types.Type) *Term {
	name += e.scope
	n := s.count("s:" + name)
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	return Sym(name, typ)
}

// ---------------------------------------------------------------- maps

// mapGet returns the possible (value, present) results of a lookup.
// When undetermined, a single symbolic pair is returned.
func mapGet(c, k *Term, vt types.Type, f *Facts) (v, ok *Term) {
	for {
		if c.op == OApp {
			switch c.s {
			case "map0":
				return zeroValue(vt), Bool(false)
			case "mset":
				d := Eq(c.args[1], k)
				if f.Entails(d) {
					return c.args[2], Bool(true)
				}
				if f.Entails(Not(d)) {
					c = c.args[0]
					continue
				}
			case "mdel":
				d := Eq(c.args[1], k)
				if f.Entails(d) {
					return zeroValue(vt), Bool(false)
				}
				if f.Entails(Not(d)) {
					c = c.args[0]
					continue
				}
			}
		}
		if c.op == ONil {
			return zeroValue(vt), Bool(false)
		}
		break
	}
	return App("mget", vt, c, k), App("mok", types.Typ[types.Bool], c, k)
}

func (e *Eng) mapContent(s *State, m *Term) *Term {
	if m.op == ONil {
		return m
	}
	return e.content(s, mapBase(m))
}

// maps are references: a map value is its own base
func mapBase(m *Term) *Term {
	if m.op == OObj {
		return m
	}
	return mk(OApp, "mapof", m.typ, m)
}

func heapDiff(a, b map[*Term]*Term) []*Term {
	var out []*Term
	for k, v := range b {
		if a[k] != v {
			out = append(out, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func sameHeap(a, b map[*Term]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func locksKey(l []*Term) string { return idsKey(l) }

func addLock(ls []*Term, l *Term) []*Term {
	out := append(append([]*Term{}, ls...), l)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func delLock(ls []*Term, l *Term) ([]*Term, bool) {
	for i, x := range ls {
		if x == l {
			return append(append([]*Term{}, ls[:i]...), ls[i+1:]...), true
		}
	}
	return ls, false
}

func (ev *Event) String() string {
	var a []string
	for _, x := range ev.args {
		a = append(a, x.String())
	}
	s := ev.kind
	if ev.fn != "" {
		s += " " + ev.fn
	}
	s += "(" + strings.Join(a, ", ") + ")"
	if len(ev.res) > 0 {
		var r []string
		for _, x := range ev.res {
			r = append(r, x.String())
		}
		s += " = " + strings.Join(r, ", ")
	}
	return s
}

func dumpEvents(evs []*Event, ind string, f func(string)) {
	for _, ev := range evs {
		f(fmt.Sprintf("%s%s", ind, ev))
		if ev.loop != nil {
			for _, ph := range ev.loop.phis {
				f(fmt.Sprintf("%s   phi %s: header=%v init=%v", ind, ph.name, ph.sym, ph.init))
			}
			for i, it := range ev.loop.iters {
				f(fmt.Sprintf("%s  iter %d [%v]", ind, i, it.newFacts(ev.loop)))
				for _, ph := range ev.loop.phis {
					f(fmt.Sprintf("%s     %s := %v", ind, ph.name, it.back[ph.sym]))
				}
				dumpEvents(it.events, ind+"      ", f)
			}
		}
		for i, alt := range ev.alts {
			f(fmt.Sprintf("%s  alt %d", ind, i))
			dumpEvents(alt, ind+"      ", f)
		}
	}
}
