package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A field-sensitive inclusion-based points-to analysis over the functions reachable from a set of
// roots. Code of the repository, of fauxgl and of the generic helper packages is analysed; other
// library functions are summarised by what they may write.

type ptObj struct {
	id   int
	kind string // alloc, global, in, box, fn, ext
	typ  types.Type
	name string
	site ssa.Instruction
	fn   *ssa.Function // fn: the function
	in   *ssa.Function // alloc: where
	glob *ssa.Global
	init bool // made before main starts
}

type ptLoc struct {
	o    *ptObj
	path string
}

type ptNode struct {
	pts   map[ptLoc]bool
	order []ptLoc
	succ  []int
	uses  []func(ptLoc) // called once for each location that arrives
	has   map[int]bool
}

type ptKey struct {
	v    interface{} // ssa.Value or *ptObj
	path string
}

type ptWrite struct {
	ins  ssa.Instruction
	fn   *ssa.Function
	kind string // store, map, copy, append, delete, ext, read
	node int
	path string // added to the locations of the node
}

type Pts struct {
	p      *Program
	nodes  []*ptNode
	keys   map[ptKey]int
	objs   []*ptObj
	sites  map[string]*ptObj
	done   map[*ssa.Function]bool
	fns    []*ssa.Function
	writes []ptWrite
	reads  []ptWrite
	work   []int
	called map[string]bool
	leafMm map[types.Type][]ptLeaf
	follow func(fn *ssa.Function) bool
	edges  map[*ssa.Function][]ptCall // call graph
	ecalls map[string]bool
	cells  map[*ssa.Alloc]bool
	shorts []int // slices that may end before their backing array does

	derive  func(types.Type) bool // library types whose methods hand out views of the object
	derived map[ptLoc]bool
	globals bool // what package-level variables hold is unknown input
}

// shortened are the arrays of which some slice leaves out the end: appending to it overwrites them.
func (a *Pts) shortened() map[*ptObj]bool {
	r := map[*ptObj]bool{}
	for _, n := range a.shorts {
		for _, l := range a.nodes[n].order {
			r[l.o] = true
		}
	}
	return r
}

type ptCall struct {
	site ssa.Instruction
	to   *ssa.Function
}

type ptLeaf struct {
	path string
	typ  types.Type
}

func NewPts(p *Program) *Pts {
	return &Pts{p: p, keys: map[ptKey]int{}, sites: map[string]*ptObj{}, done: map[*ssa.Function]bool{}, called: map[string]bool{}, leafMm: map[types.Type][]ptLeaf{},
		edges: map[*ssa.Function][]ptCall{}, ecalls: map[string]bool{}, cells: map[*ssa.Alloc]bool{}, derived: map[ptLoc]bool{}}
}

// leaves are the parts of a value that hold addresses.
func (a *Pts) leaves(t types.Type) []ptLeaf {
	if l, ok := a.leafMm[t]; ok {
		return l
	}
	var r []ptLeaf
	add := func(pre string, t types.Type) {
		for _, l := range a.leaves(t) {
			r = append(r, ptLeaf{pre + l.path, l.typ})
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		r = append(r, ptLeaf{"", t})
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			r = append(r, ptLeaf{"", t})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			add("."+strconv.Itoa(i), u.Field(i).Type())
		}
	case *types.Array:
		add(".[]", u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			add("."+strconv.Itoa(i), u.At(i).Type())
		}
	}
	a.leafMm[t] = r
	return r
}

func (a *Pts) node(v interface{}, path string) int {
	k := ptKey{v, path}
	if n, ok := a.keys[k]; ok {
		return n
	}
	n := len(a.nodes)
	a.nodes = append(a.nodes, &ptNode{pts: map[ptLoc]bool{}, has: map[int]bool{}})
	a.keys[k] = n
	switch x := v.(type) {
	case *ssa.Global:
		a.add(n, ptLoc{a.global(x), ""})
	case *ssa.Function:
		o := a.obj("fn:"+x.String(), "fn", x.Type())
		o.fn = x
		a.add(n, ptLoc{o, ""})
	}
	return n
}

func (a *Pts) obj(site, kind string, t types.Type) *ptObj {
	if o, ok := a.sites[site]; ok {
		return o
	}
	o := &ptObj{id: len(a.objs), kind: kind, typ: t, name: site}
	a.objs = append(a.objs, o)
	a.sites[site] = o
	return o
}

func (a *Pts) global(g *ssa.Global) *ptObj {
	o := a.obj("global:"+g.String(), "global", pointee(g.Type()))
	if o.glob == nil && a.globals {
		o.glob = g
		a.input("in", g.String(), pointee(g.Type()), o, "", map[string]*ptObj{})
	}
	o.glob = g
	o.init = true
	return o
}

func (a *Pts) add(n int, l ptLoc) {
	nd := a.nodes[n]
	if nd.pts[l] {
		return
	}
	nd.pts[l] = true
	nd.order = append(nd.order, l)
	a.work = append(a.work, n)
}

func (a *Pts) copy(from, to int) {
	if from == to || a.nodes[from].has[to] {
		return
	}
	f := a.nodes[from]
	f.has[to] = true
	f.succ = append(f.succ, to)
	for _, l := range f.order {
		a.add(to, l)
	}
}

// use calls f for every location the node points to, now and later.
func (a *Pts) use(n int, f func(ptLoc)) {
	nd := a.nodes[n]
	nd.uses = append(nd.uses, f)
	for i := 0; i < len(nd.order); i++ {
		f(nd.order[i])
	}
}

func (a *Pts) solve() {
	seen := map[[2]int]int{} // node, use -> locations handled
	for len(a.work) > 0 {
		n := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		nd := a.nodes[n]
		for i := 0; i < len(nd.succ); i++ {
			for j := 0; j < len(nd.order); j++ {
				a.add(nd.succ[i], nd.order[j])
			}
		}
		for i := 0; i < len(nd.uses); i++ {
			k := [2]int{n, i}
			for j := seen[k]; j < len(nd.order); j++ {
				seen[k] = j + 1
				nd.uses[i](nd.order[j])
			}
		}
	}
}

// content is the node of a place in an object.
func (a *Pts) content(l ptLoc, path string) int { return a.node(l.o, l.path+path) }

func (a *Pts) load(ptr int, path string, t types.Type, dst interface{}, dpath string) {
	for _, lf := range a.leaves(t) {
		lf := lf
		d := a.node(dst, dpath+lf.path)
		a.use(ptr, func(l ptLoc) { a.copy(a.content(l, path+lf.path), d) })
	}
}

func (a *Pts) store(ptr int, path string, t types.Type, src ssa.Value) {
	for _, lf := range a.leaves(t) {
		lf := lf
		s := a.node(src, lf.path)
		a.use(ptr, func(l ptLoc) { a.copy(s, a.content(l, path+lf.path)) })
	}
}

// input makes the objects a parameter of a root may lead to.
func (a *Pts) input(kind, name string, t types.Type, v interface{}, path string, chain map[string]*ptObj) {
	for _, lf := range a.leaves(t) {
		var o *ptObj
		mk := func(ct types.Type) (*ptObj, bool) {
			if c, ok := chain[ct.String()]; ok {
				return c, false
			}
			o := a.obj(kind+":"+name+lf.path, kind, ct)
			return o, true
		}
		sub := func(o *ptObj, pre string, ct types.Type) {
			ch := map[string]*ptObj{}
			for k, c := range chain {
				ch[k] = c
			}
			ch[o.typ.String()] = o
			a.input(kind, name+lf.path+pre, ct, o, pre, ch)
		}
		switch u := lf.typ.Underlying().(type) {
		case *types.Pointer:
			n, fresh := mk(u.Elem())
			if o = n; fresh {
				sub(o, "", u.Elem())
			}
		case *types.Slice:
			n, fresh := mk(types.NewArray(u.Elem(), 0))
			if o = n; fresh {
				sub(o, ".[]", u.Elem())
			}
		case *types.Map:
			n, fresh := mk(lf.typ)
			if o = n; fresh {
				sub(o, ".k", u.Key())
				sub(o, ".v", u.Elem())
			}
		case *types.Chan:
			n, fresh := mk(lf.typ)
			if o = n; fresh {
				sub(o, ".c", u.Elem())
			}
		default:
			continue
		}
		a.add(a.node(v, path+lf.path), ptLoc{o, ""})
	}
}

// Root adds a function entered from outside with unknown arguments.
func (a *Pts) Root(fn *ssa.Function) { a.RootOn(fn, nil) }

// RootOn adds a method called on the same object as another.
func (a *Pts) RootOn(fn *ssa.Function, recv *ssa.Parameter) {
	for i, p := range fn.Params {
		if i == 0 && recv != nil {
			for _, lf := range a.leaves(p.Type()) {
				a.copy(a.node(recv, lf.path), a.node(p, lf.path))
			}
			continue
		}
		a.input("in", a.p.fnName(fn)+"/"+p.Name(), p.Type(), p, "", map[string]*ptObj{})
	}
	a.visit(fn)
	a.solve()
}

func (a *Pts) follows(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if a.follow != nil {
		return a.follow(fn)
	}
	pk := pkgOfFn(fn)
	if pk == nil {
		return true // wrappers
	}
	if a.p.inRepo(pk) {
		return !generatedFn(a.p, fn)
	}
	switch pk.Path() {
	case glPath, "maps", "slices", "cmp", "iter":
		return true
	}
	return false
}

func siteKey(ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return ins.Parent().String() + "#" + strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
		}
	}
	return "?"
}

func isInitFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

func (a *Pts) visit(fn *ssa.Function) {
	if a.done[fn] {
		return
	}
	a.done[fn] = true
	a.fns = append(a.fns, fn)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			a.instr(fn, ins)
		}
	}
}

func (a *Pts) write(fn *ssa.Function, ins ssa.Instruction, kind string, ptr ssa.Value, path string) {
	a.writes = append(a.writes, ptWrite{ins, fn, kind, a.node(ptr, ""), path})
}

func (a *Pts) read(fn *ssa.Function, ins ssa.Instruction, kind string, ptr ssa.Value, path string) {
	a.reads = append(a.reads, ptWrite{ins, fn, kind, a.node(ptr, ""), path})
}

func (a *Pts) fresh(ins ssa.Instruction, tag, kind string, t types.Type) *ptObj {
	o := a.obj(kind+":"+siteKey(ins)+tag, kind, t)
	o.site, o.in = ins, ins.Parent()
	o.init = isInitFn(ins.Parent())
	return o
}

func (a *Pts) instr(fn *ssa.Function, ins ssa.Instruction) {
	copyAll := func(src, dst ssa.Value, sp, dp string, t types.Type) {
		for _, lf := range a.leaves(t) {
			a.copy(a.node(src, sp+lf.path), a.node(dst, dp+lf.path))
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		a.add(a.node(x, ""), ptLoc{a.fresh(x, "", "alloc", pointee(x.Type())), ""})
	case *ssa.MakeSlice:
		a.add(a.node(x, ""), ptLoc{a.fresh(x, "", "alloc", types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), 0)), ""})
	case *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		a.add(a.node(v, ""), ptLoc{a.fresh(ins, "", "alloc", v.Type()), ""})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		o := a.fresh(x, "", "fn", x.Type())
		o.fn = f
		a.add(a.node(x, ""), ptLoc{o, ""})
		for i, b := range x.Bindings {
			copyAll(b, f.FreeVars[i], "", "", b.Type())
		}
	case *ssa.FieldAddr:
		d := a.node(x, "")
		a.use(a.node(x.X, ""), func(l ptLoc) { a.add(d, ptLoc{l.o, l.path + "." + strconv.Itoa(x.Field)}) })
	case *ssa.IndexAddr:
		d := a.node(x, "")
		a.use(a.node(x.X, ""), func(l ptLoc) { a.add(d, ptLoc{l.o, l.path + ".[]"}) })
	case *ssa.Field:
		copyAll(x.X, x, "."+strconv.Itoa(x.Field), "", x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			copyAll(x.X, x, ".[]", "", x.Type())
		}
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		a.read(fn, x, "map", x.X, "")
		pre := ""
		if x.CommaOk {
			pre = ".0"
		}
		a.load(a.node(x.X, ""), ".v", m.Elem(), x, pre)
	case *ssa.Range:
		copyAll(x.X, x, "", "", x.X.Type())
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.read(fn, x, "map", x.X, "")
		}
	case *ssa.Next:
		r, _ := x.Iter.(*ssa.Range)
		if r == nil {
			return
		}
		if m, ok := r.X.Type().Underlying().(*types.Map); ok {
			a.read(fn, x, "map", r, "")
			a.load(a.node(r, ""), ".k", m.Key(), x, ".1")
			a.load(a.node(r, ""), ".v", m.Elem(), x, ".2")
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.read(fn, x, "load", x.X, "")
			a.load(a.node(x.X, ""), "", x.Type(), x, "")
		case token.ARROW:
			pre := ""
			if x.CommaOk {
				pre = ".0"
			}
			a.load(a.node(x.X, ""), ".c", x.X.Type().Underlying().(*types.Chan).Elem(), x, pre)
		}
	case *ssa.Store:
		a.write(fn, x, "store", x.Addr, "")
		if al, ok := x.Addr.(*ssa.Alloc); ok && a.simpleCell(al) {
			loads, calls := reachOf(x, al)
			for _, ld := range loads {
				copyAll(x.Val, ld, "", "", ld.Type())
			}
			if !calls {
				return
			}
		}
		a.store(a.node(x.Addr, ""), "", x.Val.Type(), x.Val)
	case *ssa.MapUpdate:
		a.write(fn, x, "map", x.Map, "")
		a.store(a.node(x.Map, ""), ".k", x.Key.Type(), x.Key)
		a.store(a.node(x.Map, ""), ".v", x.Value.Type(), x.Value)
	case *ssa.Send:
		a.store(a.node(x.Chan, ""), ".c", x.X.Type(), x.X)
	case *ssa.Select:
		n := 2
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				a.store(a.node(st.Chan, ""), ".c", st.Send.Type(), st.Send)
			} else {
				a.load(a.node(st.Chan, ""), ".c", st.Chan.Type().Underlying().(*types.Chan).Elem(), x, "."+strconv.Itoa(n))
				n++
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			copyAll(e, x, "", "", x.Type())
		}
	case *ssa.ChangeType:
		copyAll(x.X, x, "", "", x.Type())
	case *ssa.Convert:
		if len(a.leaves(x.Type())) > 0 {
			if len(a.leaves(x.X.Type())) > 0 {
				copyAll(x.X, x, "", "", x.X.Type())
			} else if s, ok := x.Type().Underlying().(*types.Slice); ok {
				a.add(a.node(x, ""), ptLoc{a.fresh(x, "", "alloc", types.NewArray(s.Elem(), 0)), ""})
			}
		}
	case *ssa.MultiConvert:
		copyAll(x.X, x, "", "", x.X.Type())
	case *ssa.ChangeInterface:
		copyAll(x.X, x, "", "", x.Type())
	case *ssa.SliceToArrayPointer:
		a.copy(a.node(x.X, ""), a.node(x, ""))
	case *ssa.MakeInterface:
		o := a.fresh(x, "", "box", x.X.Type())
		a.add(a.node(x, ""), ptLoc{o, ""})
		for _, lf := range a.leaves(x.X.Type()) {
			a.copy(a.node(x.X, lf.path), a.node(o, lf.path))
		}
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = ".0"
		}
		if types.IsInterface(x.AssertedType) {
			a.copy(a.node(x.X, ""), a.node(x, pre))
			return
		}
		a.use(a.node(x.X, ""), func(l ptLoc) {
			if l.o.kind == "box" && types.Identical(l.o.typ, x.AssertedType) {
				for _, lf := range a.leaves(x.AssertedType) {
					a.copy(a.node(l.o, lf.path), a.node(x, pre+lf.path))
				}
			}
		})
	case *ssa.Slice:
		zero := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Int64() == 0
		}
		if x.High != nil && x.Max == nil {
			a.shorts = append(a.shorts, a.node(x, ""))
		}
		if x.Max != nil && zero(x.Max) {
			return // nothing can be reached through it
		}
		if len(a.leaves(x.X.Type())) > 0 {
			a.copy(a.node(x.X, ""), a.node(x, ""))
		}
	case *ssa.Extract:
		copyAll(x.Tuple, x, "."+strconv.Itoa(x.Index), "", x.Type())
	case ssa.CallInstruction:
		a.call(fn, x)
	}
}

func (a *Pts) call(fn *ssa.Function, x ssa.CallInstruction) {
	cc := x.Common()
	var res ssa.Value
	if v, ok := x.(*ssa.Call); ok {
		res = v
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(fn, x, b.Name(), res)
		return
	}
	if cc.IsInvoke() {
		any := false
		a.use(a.node(cc.Value, ""), func(l ptLoc) {
			if l.o.kind != "box" {
				return
			}
			any = true
			f := a.p.prog.LookupMethod(l.o.typ, cc.Method.Pkg(), cc.Method.Name())
			if f == nil {
				return
			}
			a.link(fn, x, f, nil, l.o, cc.Args, res)
		})
		_ = any
		a.external(fn, x, cc.Method.FullName(), res, true)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
		a.link(fn, x, f, nil, nil, cc.Args, res)
		return
	}
	a.use(a.node(cc.Value, ""), func(l ptLoc) {
		if l.o.kind == "fn" {
			a.link(fn, x, l.o.fn, nil, nil, cc.Args, res)
		}
	})
	a.external(fn, x, "?", res, true)
}

func (a *Pts) link(fn *ssa.Function, x ssa.CallInstruction, f *ssa.Function, _ interface{}, box *ptObj, args []ssa.Value, res ssa.Value) {
	k := siteKey(x) + ">" + f.String()
	if box != nil {
		k += strconv.Itoa(box.id)
	}
	if a.called[k] {
		return
	}
	a.called[k] = true
	if !a.follows(f) {
		a.external(fn, x, f.String(), res, false)
		return
	}
	a.edges[fn] = append(a.edges[fn], ptCall{x, f})
	a.visit(f)
	ps := f.Params
	if box != nil {
		for _, lf := range a.leaves(box.typ) {
			a.copy(a.node(box, lf.path), a.node(ps[0], lf.path))
		}
		ps = ps[1:]
	}
	for i, p := range ps {
		if i < len(args) {
			for _, lf := range a.leaves(p.Type()) {
				a.copy(a.node(args[i], lf.path), a.node(p, lf.path))
			}
		}
	}
	if res == nil {
		return
	}
	multi := f.Signature.Results().Len() > 1
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range r.Results {
			pre := ""
			if multi {
				pre = "." + strconv.Itoa(i)
			}
			for _, lf := range a.leaves(v.Type()) {
				a.copy(a.node(v, lf.path), a.node(res, pre+lf.path))
			}
		}
	}
}

func (a *Pts) builtin(fn *ssa.Function, x ssa.CallInstruction, name string, res ssa.Value) {
	as := x.Common().Args
	switch name {
	case "append":
		s := as[0].Type().Underlying().(*types.Slice)
		v, ok := x.(*ssa.Call)
		if !ok {
			return
		}
		a.write(fn, x, "append", as[0], ".[]")
		a.copy(a.node(as[0], ""), a.node(v, ""))
		a.add(a.node(v, ""), ptLoc{a.fresh(x, "", "alloc", types.NewArray(s.Elem(), 0)), ""})
		for _, lf := range a.leaves(s.Elem()) {
			lf := lf
			for _, q := range as[:] {
				if _, ok := q.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				a.use(a.node(q, ""), func(l ptLoc) {
					a.use(a.node(v, ""), func(m ptLoc) {
						a.copy(a.content(l, ".[]"+lf.path), a.content(m, ".[]"+lf.path))
					})
				})
			}
		}
	case "copy":
		s := as[0].Type().Underlying().(*types.Slice)
		a.write(fn, x, "copy", as[0], ".[]")
		for _, lf := range a.leaves(s.Elem()) {
			lf := lf
			a.use(a.node(as[1], ""), func(l ptLoc) {
				a.use(a.node(as[0], ""), func(m ptLoc) {
					a.copy(a.content(l, ".[]"+lf.path), a.content(m, ".[]"+lf.path))
				})
			})
		}
	case "delete", "clear":
		p := ""
		if _, ok := as[0].Type().Underlying().(*types.Slice); ok {
			p = ".[]"
		}
		a.write(fn, x, "map", as[0], p)
	case "len":
		if _, ok := as[0].Type().Underlying().(*types.Map); ok {
			a.read(fn, x, "map", as[0], "")
		}
	}
}

// extWrites gives the arguments a library function writes to, with the path written.
func extWrites(name string) (args []int, path string) {
	switch {
	case strings.HasPrefix(name, "sort."):
		return []int{0}, ".[]"
	case name == "encoding/binary.Read":
		return []int{2}, "*"
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []int{1}, ".[]"
	case strings.HasSuffix(name, ".Read") && strings.HasPrefix(name, "("):
		return []int{1}, ".[]"
	case strings.HasSuffix(name, "json.Unmarshal"), strings.HasSuffix(name, "xml.Unmarshal"):
		return []int{1}, "*"
	case strings.HasSuffix(name, ".Decode"):
		return []int{1}, "*"
	case strings.HasPrefix(name, "fmt.Sscan"), strings.HasPrefix(name, "fmt.Fscan"):
		return []int{1, 2}, "*"
	case strings.HasPrefix(name, "image/draw.Draw"):
		return []int{0}, "*"
	}
	return nil, ""
}

func (a *Pts) external(fn *ssa.Function, x ssa.CallInstruction, name string, res ssa.Value, dyn bool) {
	cc := x.Common()
	k := siteKey(x) + "!" + name
	if a.ecalls[k] {
		return
	}
	a.ecalls[k] = true
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	ws, path := extWrites(name)
	for _, i := range ws {
		if i >= len(args) {
			continue
		}
		if types.IsInterface(args[i].Type()) || path == "*" {
			// what the interface holds
			n := a.node(ptKey{x, "ext" + strconv.Itoa(i)}, "")
			a.use(a.node(args[i], ""), func(l ptLoc) {
				if l.o.kind == "box" {
					p := ""
					if _, ok := l.o.typ.Underlying().(*types.Slice); ok {
						p = ".[]"
					}
					a.use(a.node(l.o, ""), func(m ptLoc) { a.add(n, ptLoc{m.o, m.path + p}) })
				} else {
					a.add(n, l)
				}
			})
			a.writes = append(a.writes, ptWrite{x, fn, "ext", n, ""})
			continue
		}
		a.write(fn, x, "ext", args[i], path)
	}
	// functions handed to the library are called by it
	for _, v := range args {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			a.use(a.node(v, ""), func(l ptLoc) {
				if l.o.kind == "fn" && a.follows(l.o.fn) {
					a.edges[fn] = append(a.edges[fn], ptCall{x, l.o.fn})
					for _, p := range l.o.fn.Params {
						a.input("ext", l.o.fn.String()+"/"+p.Name(), p.Type(), p, "", map[string]*ptObj{})
					}
					a.visit(l.o.fn)
				}
			})
		}
	}
	if res != nil && a.derive != nil {
		a.views(x, name, args, res)
	}
	if res != nil && !dyn {
		a.input("ext", siteKey(x), res.Type(), res, "", map[string]*ptObj{})
	} else if res != nil {
		// results of an interface method nothing here implements
		a.input("ext", siteKey(x), res.Type(), res, "", map[string]*ptObj{})
	}
}

// views: what a method of a library object returns as an interface may be a part of the object.
func (a *Pts) views(x ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	if len(args) == 0 {
		return
	}
	f := x.Common().StaticCallee()
	if f == nil || f.Signature.Recv() == nil {
		return
	}
	t := pointee(args[0].Type())
	if t == nil || !a.derive(t) {
		return
	}
	pre := []string{""}
	ts := []types.Type{res.Type()}
	if tu, ok := res.Type().(*types.Tuple); ok {
		pre, ts = nil, nil
		for i := 0; i < tu.Len(); i++ {
			pre = append(pre, "."+strconv.Itoa(i))
			ts = append(ts, tu.At(i).Type())
		}
	}
	for i, t := range ts {
		if !types.IsInterface(t) || t.String() == "error" {
			continue
		}
		d := a.node(res, pre[i])
		a.use(a.node(args[0], ""), func(l ptLoc) {
			a.derived[l] = true
			a.add(d, l)
		})
	}
}

// locs lists what a recorded access may touch.
func (a *Pts) locs(w ptWrite) []ptLoc {
	var r []ptLoc
	for _, l := range a.nodes[w.node].order {
		r = append(r, ptLoc{l.o, l.path + w.path})
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].o.id != r[j].o.id {
			return r[i].o.id < r[j].o.id
		}
		return r[i].path < r[j].path
	})
	return r
}

// pathName turns a path in an object into field names.
func pathName(t types.Type, path string) string {
	r := ""
	for _, p := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if p == "" {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if i, err := strconv.Atoi(p); err == nil && i < u.NumFields() {
				r += "." + u.Field(i).Name()
				t = u.Field(i).Type()
				continue
			}
		case *types.Array:
			r += "[]"
			t = u.Elem()
			continue
		case *types.Map:
			r += "[]"
			if p == "k" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
			continue
		}
		r += "." + p
	}
	return r
}

// simpleCell says whether a variable is only loaded, stored and captured by closures which are
// called here or handed to a call.
func (a *Pts) simpleCell(al *ssa.Alloc) bool {
	if v, ok := a.cells[al]; ok {
		return v
	}
	ok := func() bool {
		for _, b := range al.Parent().Blocks {
			for _, ins := range b.Instrs {
				if _, isGo := ins.(*ssa.Go); isGo {
					return false
				}
			}
		}
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == ssa.Value(al) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for _, u := range *x.Referrers() {
					switch u.(type) {
					case *ssa.Call, *ssa.Defer, *ssa.DebugRef:
					default:
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}()
	a.cells[al] = ok
	return ok
}

// reachOf finds the loads of a simple variable that may see a store, and whether the value is still
// there at a call after a closure that may read it was made.
func reachOf(st *ssa.Store, al *ssa.Alloc) (loads []*ssa.UnOp, calls bool) {
	type at struct {
		b    *ssa.BasicBlock
		made bool
	}
	defers := false
	for _, b := range al.Parent().Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				defers = true
			}
		}
	}
	seen := map[at]bool{}
	var scan func(b *ssa.BasicBlock, from int, made bool)
	scan = func(b *ssa.BasicBlock, from int, made bool) {
		for _, ins := range b.Instrs[from:] {
			switch x := ins.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(al) {
					return
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && x.X == ssa.Value(al) {
					loads = append(loads, x)
				}
			case *ssa.MakeClosure:
				for _, v := range x.Bindings {
					made = made || v == ssa.Value(al)
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok && made {
					calls = true
				}
			case *ssa.Defer:
				calls = calls || made
			case *ssa.RunDefers:
				calls = calls || defers
			}
		}
		for _, s := range b.Succs {
			if k := (at{s, made}); !seen[k] {
				seen[k] = true
				scan(s, 0, made)
			}
		}
	}
	made := false
	for _, r := range *al.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok && reachesInstr(mc, st) {
			made = true
		}
	}
	for i, ins := range st.Block().Instrs {
		if ins == ssa.Instruction(st) {
			scan(st.Block(), i+1, made)
		}
	}
	return
}

// reachesInstr says whether control may go from one instruction to another.
func reachesInstr(from, to ssa.Instruction) bool {
	if from.Block() == to.Block() {
		for _, ins := range from.Block().Instrs {
			if ins == from {
				return true
			}
			if ins == to {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block())
}
