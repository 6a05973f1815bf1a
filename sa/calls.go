package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errType is the universe error type.
var errType = types.Universe.Lookup("error").Type()

func isErrType(t types.Type) bool { return t != nil && types.Identical(t, errType) }

func (e *Eng) calleeName(cc *ssa.CallCommon, fnv *Term) string {
	if cc.IsInvoke() {
		return "invoke:" + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	if fnv != nil && fnv.op == OClosure {
		return fnv.fn.RelString(nil)
	}
	return "dynamic"
}

func (e *Eng) call(fr *Frame, ps *PS, cc *ssa.CallCommon, site ssa.Instruction, ctx string) []Outcome {
	var fnv *Term
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = e.val(ps, cc.Value)
	}
	args := make([]*Term, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = e.val(ps, a)
	}
	return e.callValue(fr, ps, cc, fnv, args, site, ctx)
}

// cx carries what a model needs.
type cx struct {
	e    *Eng
	fr   *Frame
	ps   *PS
	fn   *ssa.Function
	name string
	args []*Term
	sig  *types.Signature
	site ssa.Instruction
	ctx  string
	pos  token.Pos
}

func ret(ps *PS, rs ...*Term) []Outcome {
	return []Outcome{{st: ps.State, kind: "ret", res: rs}}
}

func (e *Eng) callValue(fr *Frame, ps *PS, cc *ssa.CallCommon, fnv *Term, args []*Term, site ssa.Instruction, ctx string) []Outcome {
	c := &cx{e: e, fr: fr, ps: ps, args: args, site: site, ctx: ctx, pos: cc.Pos(), sig: cc.Signature()}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(c, b)
	}
	if cc.IsInvoke() {
		if fnv.op == OIface {
			if m := e.p.prog.LookupMethod(fnv.typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.args = append([]*Term{fnv.args[0]}, args...)
				return e.callFn(c, m, nil)
			}
		}
		if fnv.op == ONil {
			e.oblige(ps, "nil-deref", Bool(false), cc.Pos(), fr.fn)
			return []Outcome{{st: ps.State, kind: "panic", pos: cc.Pos()}}
		}
		if !neverNil(fnv) {
			if e.condNil(fnv) {
				e.oblige(ps, "nil-deref", Not(Eq(fnv, Nil(nil))), cc.Pos(), fr.fn)
			}
		}
		c.args = append([]*Term{fnv}, args...)
		c.name = "invoke:" + typKey(cc.Value.Type()) + "." + cc.Method.Name()
		if m, ok := models[c.name]; ok {
			if o := m(c); o != nil {
				return o
			}
		}
		return e.external(c)
	}
	switch fnv.op {
	case OClosure:
		return e.callFn(c, fnv.fn, fnv.args)
	case ONil:
		e.oblige(ps, "nil-deref", Bool(false), cc.Pos(), fr.fn)
		return []Outcome{{st: ps.State, kind: "panic", pos: cc.Pos()}}
	}
	if strings.HasPrefix(fnv.s, "builtin:") {
		return e.builtin(c, &ssa.Builtin{})
	}
	if alts, ok := e.joins[fnv]; ok {
		var out []Outcome
		for _, a := range alts {
			q := ps.clone()
			okA := true
			for _, l := range a.facts {
				if !q.assume(l) {
					okA = false
				}
			}
			if okA {
				out = append(out, e.callValue(fr, q, cc, a.val, args, site, ctx)...)
			}
		}
		return out
	}
	c.name = "dynamic:" + fnv.String()
	c.args = append([]*Term{fnv}, args...)
	return e.external(c)
}

// condNil: interface values coming from callers are assumed usable unless they are errors.
func (e *Eng) condNil(v *Term) bool { return isErrType(v.typ) }

func (e *Eng) callFn(c *cx, fn *ssa.Function, binds []*Term) []Outcome {
	c.fn = fn
	c.name = fn.RelString(nil)
	if fn.Origin() != nil && fn.Origin() != fn {
		c.name = fn.Origin().RelString(nil)
	}
	c.sig = fn.Signature
	e.callLog[fn] = true
	if e.hook != nil {
		if o, ok := e.hook(e, c.ps, fn, c.args, c.site); ok {
			return o
		}
	}
	if e.opaque != nil && e.opaque(fn) {
		return e.external(c)
	}
	if m, ok := models[c.name]; ok {
		if o := m(c); o != nil {
			return o
		}
	}
	if len(fn.Blocks) > 0 && e.inlinable(fn) {
		rec := 0
		for _, f := range e.stack {
			if f == fn {
				rec++
			}
		}
		if rec < 3 && e.depth < 60 {
			return e.execFn(fn, c.args, binds, c.ps.State, c.ctx)
		}
	}
	return e.external(c)
}

func pkgOfFn(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

var inlineStd = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

func (e *Eng) inlinable(fn *ssa.Function) bool {
	pk := pkgOfFn(fn)
	if pk == nil {
		return true // wrappers
	}
	if pk.Path() == glPath || e.p.inRepo(pk) {
		return true
	}
	return inlineStd[pk.Path()]
}

// ---------------------------------------------------------------- unknown callees

func (e *Eng) errSym(ps *PS, name, ctx string) *Term {
	return e.freshSym(ps.State, "err:"+name+"@"+ctx, errType)
}

// results makes fresh results for a call.
func (e *Eng) results(c *cx) []*Term {
	rs := c.sig.Results()
	var out []*Term
	var er *Term
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isErrType(t) {
			er = e.errSym(c.ps, c.name, c.ctx)
			out = append(out, er)
			continue
		}
		out = append(out, e.freshSym(c.ps.State, "res:"+c.name+"."+strconv.Itoa(i)+"@"+c.ctx, t))
	}
	for _, r := range out {
		if r != er {
			e.pairErr[r] = er
		}
	}
	return out
}

func (e *Eng) emitCall(c *cx, res []*Term) {
	c.ps.emit(&Event{kind: "call", fn: c.name, callee: c.fn, args: c.args, res: res, pos: c.pos, in: c.fr.fn})
}

// external treats a call as opaque: pure functions become applications, the rest events.
func (e *Eng) external(c *cx) []Outcome {
	if isPure(c.name) {
		return ret(c.ps, e.pureApp(c)...)
	}
	for _, a := range c.args {
		e.havocArg(c, a)
	}
	res := e.results(c)
	e.emitCall(c, res)
	return ret(c.ps, res...)
}

func (e *Eng) pureApp(c *cx) []*Term {
	var as []*Term
	for i, a := range c.args {
		if i < c.sig.Params().Len()+1 {
			a = e.deepSeq(c.ps.State, a)
		}
		as = append(as, a)
	}
	rs := c.sig.Results()
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		n := c.name
		if rs.Len() > 1 {
			n += "." + strconv.Itoa(i)
		}
		out = append(out, App(n, rs.At(i).Type(), as...))
	}
	return out
}

// deepSeq replaces slices by their contents.
func (e *Eng) deepSeq(s *State, v *Term) *Term {
	if v.op == OSlice {
		q := e.seqOf(s, v)
		if q.op == OArray {
			var as []*Term
			for _, x := range q.args {
				as = append(as, e.deepSeq(s, x))
			}
			return Array(nil, as...)
		}
		return q
	}
	if v.op == OIface {
		return e.deepSeq(s, v.args[0])
	}
	return v
}

func (e *Eng) havocArg(c *cx, a *Term) {
	if a.op == OIface {
		a = a.args[0]
	}
	if a.op == OSlice {
		if q := e.seqOf(c.ps.State, a); q.op == OArray && len(q.args) < 20 {
			for _, x := range q.args {
				if x.op == OIface && x.args[0].op == OPtr {
					e.havocArg(c, x)
				}
			}
		}
		return
	}
	if a.op != OPtr || readOnlyCallee(c.name) {
		return
	}
	b, _ := splitPtr(a)
	if b.op != OObj || strings.HasPrefix(b.s, "global:") {
		return
	}
	t := leafType(a.args[1:], baseType(b))
	if t == nil {
		return
	}
	e.store(c.ps.State, a, e.freshSym(c.ps.State, "hav:"+c.name+"@"+c.ctx, t))
}

func readOnlyCallee(n string) bool {
	for _, p := range []string{"fmt.", "(*log.", "log.", "encoding/xml.Marshal", "github.com/golang/protobuf/proto.Marshal", "github.com/golang/protobuf/proto.CompactTextString", "(*golang.org/x/net", "google.golang.org/grpc", "image/png.Encode",
		"invoke:", "(github.com", "(*github.com", "github.com/gmlewis", "github.com/fogleman"} {
		if strings.HasPrefix(n, p) {
			return !strings.HasPrefix(n, "fmt.Sscan") && !strings.HasPrefix(n, "fmt.Fscan") && !strings.HasPrefix(n, "fmt.Scan")
		}
	}
	return false
}

// ---------------------------------------------------------------- builtins

func (e *Eng) builtin(c *cx, b *ssa.Builtin) []Outcome {
	ps, a := c.ps, c.args
	switch b.Name() {
	case "len":
		v := a[0]
		var t types.Type
		if call, ok := c.site.(ssa.CallInstruction); ok && len(call.Common().Args) > 0 {
			t = call.Common().Args[0].Type()
		}
		if _, ok := under(t).(*types.Map); ok {
			return ret(ps, e.mapLen(ps, v))
		}
		if p, ok := under(t).(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				return ret(ps, Int(at.Len()))
			}
		}
		if at, ok := under(t).(*types.Array); ok {
			return ret(ps, Int(at.Len()))
		}
		if _, ok := under(t).(*types.Chan); ok {
			return ret(ps, e.freshSym(ps.State, "nat:chanlen@"+c.ctx, types.Typ[types.Int]))
		}
		if v.op == OSlice || v.op == ONil {
			return ret(ps, Len(v))
		}
		return ret(ps, Len(e.seqOf(ps.State, v)))
	case "cap":
		if a[0].op == OSlice {
			return ret(ps, App("cap", types.Typ[types.Int], a[0]))
		}
		return ret(ps, App("cap", types.Typ[types.Int], a[0]))
	case "append":
		if a[1].op == ONil || a[1].op == OSlice && a[1].args[2] == Int(0) {
			return ret(ps, a[0])
		}
		x := e.seqOf(ps.State, a[1])
		if x.op == OArray && len(x.args) == 0 || x.op == OStr && x.s == "" {
			return ret(ps, a[0])
		}
		s := e.seqOf(ps.State, a[0])
		if call, ok := c.site.(ssa.CallInstruction); ok && e.trackMem {
			_ = call
			e.access(ps, Ptr(sliceBase(a[0]), IndexStep(Sym("any", nil))), true, c.pos, c.fr.fn)
		}
		et := elemType(c.sig.Results().At(0).Type())
		ps.emit(&Event{kind: "append", args: []*Term{a[0], x}, pos: c.pos, in: c.fr.fn})
		return ret(ps, e.mkSlice(ps.State, "app@"+c.ctx, et, Cat(s, x)))
	case "copy":
		src := e.seqOf(ps.State, a[1])
		dst := a[0]
		n := Len(src)
		dl := Len(dst)
		if dst.op == OSlice {
			b := dst.args[0]
			cont := e.content(ps.State, b)
			f := ps.facts
			switch {
			case f.Entails(GE(Sub(dl, n))):
			case f.Entails(GE(Sub(n, dl))):
				src = subSeq(src, Int(0), dl)
				n = dl
			default:
				n = MaxMin("min", n, dl)
				src = subSeq(src, Int(0), n)
			}
			tot := Len(cont)
			lo := dst.args[1]
			hi := Add(lo, n)
			nc := Cat(subSeq(cont, Int(0), lo), src, subSeq(cont, hi, tot))
			if lo == Int(0) && f.EqTerm(hi, tot) {
				nc = src
			}
			ps.set(b, nc)
			e.access(ps, Ptr(b, IndexStep(Sym("any", nil))), true, c.pos, c.fr.fn)
			return ret(ps, n)
		}
		ps.set(arrOf(dst), App("copied", nil, e.seqOf(ps.State, dst), src))
		return ret(ps, MaxMin("min", n, dl))
	case "delete":
		m := a[0]
		if m.op == ONil {
			return ret(ps)
		}
		cont := e.mapContent(ps.State, m)
		e.access(ps, Ptr(mapBase(m)), true, c.pos, c.fr.fn)
		ps.emit(&Event{kind: "mapdel", args: []*Term{m, a[1]}, pos: c.pos, in: c.fr.fn})
		for cont.op == OApp && (cont.s == "mset" || cont.s == "mdel") && cont.args[1] == a[1] {
			cont = cont.args[0]
		}
		ps.set(mapBase(m), App("mdel", cont.typ, cont, a[1]))
		return ret(ps)
	case "close":
		e.closeChan(ps, a[0], c.pos, c.fr.fn)
		return ret(ps)
	case "min", "max":
		if bt, ok := c.sig.Results().At(0).Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return ret(ps, App("str"+b.Name(), c.sig.Results().At(0).Type(), a...))
		}
		return ret(ps, e.maxMin(ps, b.Name(), a...))
	case "clear":
		if a[0].op == OObj {
			ps.set(a[0], App("map0", a[0].typ))
		}
		return ret(ps)
	case "print", "println":
		return ret(ps)
	case "recover":
		return ret(ps, Nil(nil))
	case "ssa:wrapnilchk":
		e.nilCheck(ps, a[0], c.pos, c.fr.fn)
		return ret(ps, a[0])
	}
	e.fail("builtin %v", b.Name())
	return nil
}

func sliceBase(v *Term) *Term {
	if v.op == OSlice {
		return v.args[0]
	}
	return arrOf(v)
}

// maxMin picks the extreme when the facts decide it.
func (e *Eng) maxMin(ps *PS, f string, as ...*Term) *Term {
	keep := append([]*Term{}, as...)
	for i := 0; i < len(keep); i++ {
		for j := 0; j < len(keep); j++ {
			if i == j {
				continue
			}
			d := Sub(keep[j], keep[i])
			if f == "min" {
				d = Neg(d)
			}
			if ps.facts.Entails(GE(d)) { // keep[j] dominates keep[i]
				keep = append(keep[:i], keep[i+1:]...)
				i = -1
				break
			}
		}
	}
	if len(keep) == 1 {
		return keep[0]
	}
	return MaxMin(f, keep...)
}

func (e *Eng) mapLen(ps *PS, m *Term) *Term {
	if m.op == ONil {
		return Int(0)
	}
	c := e.mapContent(ps.State, m)
	if c.op == OApp && c.s == "map0" {
		return Int(0)
	}
	if c.op == OApp && c.s == "mset" {
		// at least one
		r := App("maplen", types.Typ[types.Int], c)
		ps.facts = ps.facts.AddAll([]*Term{GE(Sub(r, Int(1)))})
		return r
	}
	r := App("maplen", types.Typ[types.Int], c)
	ps.facts = ps.facts.AddAll([]*Term{GE(r)})
	return r
}

// ---------------------------------------------------------------- range over maps and strings

func (e *Eng) next(fr *Frame, ps *PS, x *ssa.Next) []*PS {
	it := e.val(ps, x.Iter)
	if x.IsString {
		s := it.args[0]
		i := e.freshSym(ps.State, "nat:stridx@"+e.siteID(x), types.Typ[types.Int])
		q := ps.clone()
		r := App("rune", types.Typ[types.Rune], s, i)
		ps.facts = ps.facts.AddAll([]*Term{GE(i), GE(Sub(Sub(Len(s), i), Int(1)))})
		ps.env[x] = Tuple(Bool(true), i, r)
		q.env[x] = Tuple(Bool(false), Int(0), Int(0))
		return []*PS{ps, q}
	}
	m, c := it.args[0], it.args[1]
	mt := it.typ.Underlying().(*types.Map)
	if c.op == ONil || c.op == OApp && c.s == "map0" {
		ps.env[x] = Tuple(Bool(false), zeroValue(mt.Key()), zeroValue(mt.Elem()))
		return []*PS{ps}
	}
	q := ps.clone()
	q.env[x] = Tuple(Bool(false), zeroValue(mt.Key()), zeroValue(mt.Elem()))
	if e.scope != "" {
		q.facts = q.facts.AddAll([]*Term{exhausted(e.scope)})
	}
	k := e.freshSym(ps.State, "key@"+e.siteID(x)+"^"+fr.ctx, mt.Key())
	if st, ok := mt.Key().Underlying().(*types.Struct); ok {
		k = expandStruct(k, st)
	}
	ps.emit(&Event{kind: "mapiter", args: []*Term{m, k, c}, pos: x.Pos(), in: fr.fn})
	v, ok := mapGet(c, k, mt.Elem(), ps.facts)
	if v.op == OApp && v.s == "mget" {
		if st, isS := mt.Elem().Underlying().(*types.Struct); isS {
			v = expandStruct(v, st)
		}
	}
	ps.env[x] = Tuple(Bool(true), k, v)
	if ok.op != OBool && !ps.assume(ok) {
		return []*PS{q}
	}
	if e.onIter != nil {
		var out []*PS
		for _, r := range e.onIter(ps, c, k, v, mt) {
			r.ps.env[x] = Tuple(Bool(true), k, r.v)
			out = append(out, r.ps)
		}
		return append(out, q)
	}
	return []*PS{ps, q}
}

// exhausted is the fact that the range loop with this marker went through the whole map.
func exhausted(scope string) *Term { return App("exhausted", types.Typ[types.Bool], Str(scope)) }

type iterAlt struct {
	ps *PS
	v  *Term
}

// lookupAlts splits a lookup in a map written by known assignments.
type lookAlt struct {
	facts   []*Term
	v, ok   *Term
	install map[*Term]*Term
}

func (e *Eng) lookupAlts(ps *PS, c, k *Term, vt types.Type) []lookAlt {
	if !(c.op == OApp && (c.s == "mset" || c.s == "mdel")) || e.noSplit {
		return nil
	}
	var out []lookAlt
	var pre []*Term
	for depth := 0; depth < 40; depth++ {
		if c.op == OApp && (c.s == "mset" || c.s == "mdel") {
			d := Eq(c.args[1], k)
			f := ps.facts.AddAll(pre)
			if f.Entails(Not(d)) {
				c = c.args[0]
				continue
			}
			a := lookAlt{facts: append(append([]*Term{}, pre...), d)}
			if c.s == "mset" {
				a.v, a.ok = c.args[2], Bool(true)
			} else {
				a.v, a.ok = zeroValue(vt), Bool(false)
			}
			out = append(out, a)
			if f.Entails(d) {
				return out
			}
			pre = append(pre, Not(d))
			c = c.args[0]
			if len(out) > 12 {
				return nil
			}
			continue
		}
		break
	}
	v, ok := mapGet(c, k, vt, ps.facts)
	out = append(out, lookAlt{facts: pre, v: v, ok: ok})
	if ok.op != OBool {
		// absent reads give zero
		out[len(out)-1].v = App("mgetz", vt, c, k)
	}
	return out
}

// ---------------------------------------------------------------- goroutines and channels

func (e *Eng) spawn(fr *Frame, ps *PS, x *ssa.Go) {
	cc := &x.Call
	var fnv *Term
	args := []*Term{}
	if cc.IsInvoke() {
		r := e.val(ps, cc.Value)
		if r.op == OIface {
			if m := e.p.prog.LookupMethod(r.typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				fnv = Closure(m)
				args = append(args, r.args[0])
			}
		}
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = e.val(ps, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(ps, a))
	}
	e.spawnFn(fr, ps, x, cc, fnv, args)
}

// spawnFn starts the function value as a task at the site.
func (e *Eng) spawnFn(fr *Frame, ps *PS, x ssa.Instruction, cc *ssa.CallCommon, fnv *Term, args []*Term) {
	id := "go@" + e.siteID(x) + "^" + fr.ctx + e.scope
	n := ps.count("t:" + id)
	if n > 0 {
		id += "#" + strconv.Itoa(n)
	}
	t := &Task{id: id, parent: ps.task, pos: x.Pos(), loop: e.scope, args: args, clos: fnv, ctx: ctxAt(e, fr, x), locks: nil}
	if fnv != nil && fnv.op == OClosure {
		t.fn = fnv.fn
	}
	ps.emit(&Event{kind: "go", fn: id, args: args, pos: x.Pos(), in: fr.fn, callee: t.fn})
	if t.fn == nil || len(t.fn.Blocks) == 0 || !e.inlinable(t.fn) {
		ps.emit(&Event{kind: "go-opaque", fn: e.calleeName(cc, fnv), args: args, pos: x.Pos(), in: fr.fn})
		return
	}
	ps.pending = append(append([]*Task{}, ps.pending...), t)
	ps.active = append(append([]*Task{}, ps.active...), t)
}

// runPending runs the not yet executed goroutines selected by want.
func (e *Eng) runPending(s *State, want func(*Task) bool) []*State {
	cur := []*State{s}
	for rounds := 0; rounds < 50; rounds++ {
		var next []*State
		progress := false
		for _, st := range cur {
			var t *Task
			for _, p := range st.pending {
				if want(p) {
					t = p
					break
				}
			}
			if t == nil {
				next = append(next, st)
				continue
			}
			progress = true
			n := st.clone()
			n.pending = nil
			for _, p := range st.pending {
				if p != t {
					n.pending = append(n.pending, p)
				}
			}
			ot, ol := n.task, n.locks
			n.task, n.locks = t, nil
			n.emit(&Event{kind: "task-start", fn: t.id, in: t.fn, pos: t.pos})
			oldScope := e.scope
			if !strings.HasPrefix(e.scope, t.loop) {
				e.scope = t.loop
			}
			var outs []Outcome
			fake := &Frame{fn: t.fn, ctx: t.ctx, info: e.info(t.fn)}
			c := &cx{e: e, fr: fake, ps: &PS{State: n, env: map[ssa.Value]*Term{}}, args: t.args, ctx: t.ctx + "!go", pos: t.pos, sig: t.fn.Signature}
			outs = e.callFn(c, t.fn, t.clos.args)
			e.scope = oldScope
			for _, o := range outs {
				if o.kind != "ret" {
					e.goExits = append(e.goExits, o)
					continue
				}
				m := o.st.clone()
				if len(m.locks) > 0 {
					e.obls = append(e.obls, &Obl{kind: "lock-balance", pos: t.pos, in: t.fn, what: Bool(false), facts: m.facts, task: t})
				}
				m.emit(&Event{kind: "task-end", fn: t.id, in: t.fn, pos: t.pos})
				m.task, m.locks = ot, ol
				next = append(next, m)
			}
		}
		cur = next
		if !progress {
			return cur
		}
		if len(cur) > e.cap {
			cur = cur[:e.cap]
			e.fail("too many goroutine outcomes")
		}
	}
	return cur
}

// recvsFrom reports whether the function (or what it calls statically) receives from channels.
func (e *Eng) chanUse(fn *ssa.Function, seen map[*ssa.Function]bool) (sends, recvs []types.Type) {
	if fn == nil || seen[fn] {
		return
	}
	seen[fn] = true
	sends, recvs = e.chanUseIn(fn.Blocks, seen)
	for _, a := range fn.AnonFuncs {
		s, r := e.chanUse(a, seen)
		sends, recvs = append(sends, s...), append(recvs, r...)
	}
	return
}

func (e *Eng) chanUseIn(blocks []*ssa.BasicBlock, seen map[*ssa.Function]bool) (sends, recvs []types.Type) {
	for _, b := range blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Send:
				sends = append(sends, x.Chan.Type().Underlying().(*types.Chan).Elem())
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					recvs = append(recvs, x.X.Type().Underlying().(*types.Chan).Elem())
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly {
						sends = append(sends, s.Chan.Type().Underlying().(*types.Chan).Elem())
					} else {
						recvs = append(recvs, s.Chan.Type().Underlying().(*types.Chan).Elem())
					}
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					if b.Name() == "close" {
						sends = append(sends, x.Common().Args[0].Type().Underlying().(*types.Chan).Elem())
					}
					continue
				}
				if f := x.Common().StaticCallee(); f != nil && e.inlinable(f) {
					s, r := e.chanUse(f, seen)
					sends, recvs = append(sends, s...), append(recvs, r...)
				}
			}
		}
	}
	return
}

// feed runs, before a loop that receives, the goroutines that only send what it receives.
func (e *Eng) feed(in []*PS, il *loopInfo) []*PS {
	var blocks []*ssa.BasicBlock
	for b := range il.blocks {
		blocks = append(blocks, b)
	}
	_, want := e.chanUseIn(blocks, map[*ssa.Function]bool{})
	if len(want) == 0 {
		return in
	}
	var out []*PS
	for _, p := range in {
		if len(p.pending) == 0 {
			out = append(out, p)
			continue
		}
		for _, s := range e.runPending(p.State, func(t *Task) bool {
			sends, recvs := e.chanUse(t.fn, map[*ssa.Function]bool{})
			if len(recvs) > 0 {
				return false
			}
			for _, x := range sends {
				for _, y := range want {
					if types.Identical(x, y) {
						return true
					}
				}
			}
			return false
		}) {
			env := map[ssa.Value]*Term{}
			for k, v := range p.env {
				env[k] = v
			}
			out = append(out, &PS{State: s, env: env, defers: p.defers})
		}
	}
	return out
}

// flushTasks runs goroutines started in this iteration that do not wait for input.
func (e *Eng) flushTasks(in []*PS, marker string) []*PS {
	var out []*PS
	for _, p := range in {
		has := false
		for _, t := range p.pending {
			if strings.Contains(t.loop, marker) {
				has = true
			}
		}
		if !has {
			out = append(out, p)
			continue
		}
		for _, s := range e.runPending(p.State, func(t *Task) bool {
			if !strings.Contains(t.loop, marker) {
				return false
			}
			_, r := e.chanUse(t.fn, map[*ssa.Function]bool{})
			return len(r) == 0
		}) {
			out = append(out, &PS{State: s, env: p.env, defers: p.defers})
		}
	}
	return out
}

func chanParts(c *Term) (seq, closed, size, got *Term, ok bool) {
	if c.op != OStruct || len(c.args) < 3 {
		return nil, nil, nil, nil, false
	}
	got = Int(0)
	if len(c.args) > 3 {
		got = c.args[3]
	}
	return c.args[0], c.args[1], c.args[2], got, true
}

func (e *Eng) send(ps *PS, ch, v *Term, pos token.Pos, in *ssa.Function) {
	c := e.content(ps.State, mapBase(ch))
	ps.emit(&Event{kind: "send", args: []*Term{ch, v}, pos: pos, in: in})
	seq, closed, size, got, ok := chanParts(c)
	if !ok {
		return
	}
	e.oblige(ps, "send-closed", Not(closed), pos, in)
	ps.set(mapBase(ch), Struct(nil, Cat(seq, Array(nil, v)), closed, size, got))
}

func (e *Eng) closeChan(ps *PS, ch *Term, pos token.Pos, in *ssa.Function) {
	c := e.content(ps.State, mapBase(ch))
	ps.emit(&Event{kind: "close", args: []*Term{ch}, pos: pos, in: in})
	seq, closed, size, got, ok := chanParts(c)
	if !ok {
		return
	}
	e.oblige(ps, "close-closed", Not(closed), pos, in)
	ps.set(mapBase(ch), Struct(nil, seq, Bool(true), size, got))
}

func (e *Eng) recv(fr *Frame, ps *PS, x *ssa.UnOp, ch *Term, commaOk bool) []*PS {
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	alts := e.recvAlts(fr, ps, ch, et, x.Pos(), e.siteID(x)+"^"+fr.ctx)
	var out []*PS
	for _, a := range alts {
		if commaOk {
			a.ps.env[x] = Tuple(a.v, a.ok)
		} else {
			a.ps.env[x] = a.v
		}
		out = append(out, a.ps)
	}
	return out
}

type recvAlt struct {
	ps    *PS
	v, ok *Term
}

func (e *Eng) recvAlts(fr *Frame, ps *PS, ch *Term, et types.Type, pos token.Pos, site string) []recvAlt {
	states := e.runPending(ps.State, func(t *Task) bool {
		s, _ := e.chanUse(t.fn, map[*ssa.Function]bool{})
		for _, x := range s {
			if types.Identical(x, et) {
				return true
			}
		}
		return false
	})
	var out []recvAlt
	for _, s := range states {
		q := &PS{State: s, env: ps.env, defers: ps.defers}
		if len(states) > 1 {
			q = q.clone()
		}
		c := e.content(q.State, mapBase(ch))
		seq, closed, size, got, ok := chanParts(c)
		if !ok {
			v := e.freshSym(q.State, "recv@"+site, et)
			okv := e.freshSym(q.State, "recvok@"+site, types.Typ[types.Bool])
			q.emit(&Event{kind: "recv", args: []*Term{ch}, res: []*Term{v, okv}, pos: pos, in: fr.fn})
			out = append(out, recvAlt{q, v, okv})
			continue
		}
		n := Len(seq)
		has := GE(Sub(Sub(n, got), Int(1)))
		q2 := q.clone()
		if q.assume(has) {
			v := elemOf(seq, got, et, q.facts)
			if v.op == OApp && v.s == "elem" {
				if st, ok := under(et).(*types.Struct); ok {
					v = expandStruct2(v, st, et)
				}
			}
			q.set(mapBase(ch), Struct(nil, seq, closed, size, Add(got, Int(1))))
			q.emit(&Event{kind: "recv", args: []*Term{ch}, res: []*Term{v, Bool(true)}, pos: pos, in: fr.fn})
			out = append(out, recvAlt{q, v, Bool(true)})
		}
		if q2.assume(Not(has)) {
			// blocks for ever unless the channel has been closed
			e.oblige(q2, "recv-blocks", closed, pos, fr.fn)
			if q2.assume(closed) {
				q2.emit(&Event{kind: "recv", args: []*Term{ch}, res: []*Term{zeroValue(et), Bool(false)}, pos: pos, in: fr.fn})
				out = append(out, recvAlt{q2, zeroValue(et), Bool(false)})
			}
		}
	}
	return out
}

func (e *Eng) selectStmt(fr *Frame, ps *PS, x *ssa.Select) []*PS {
	// results: index, recvOk, then one value per receive
	var out []*PS
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mkTuple := func(idx int, ok *Term, slot int, v *Term) *Term {
		ts := []*Term{Int(int64(idx)), ok}
		k := 0
		for _, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if k == slot {
				ts = append(ts, v)
			} else {
				ts = append(ts, zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
			k++
		}
		return Tuple(ts...)
	}
	slot := 0
	for i, s := range x.States {
		q := ps.clone()
		ch := e.val(q, s.Chan)
		if s.Dir == types.RecvOnly {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			for _, a := range e.recvAlts(fr, q, ch, et, x.Pos(), e.siteID(x)+"."+strconv.Itoa(i)+"^"+fr.ctx) {
				a.ps.env[x] = mkTuple(i, a.ok, slot, a.v)
				out = append(out, a.ps)
			}
			slot++
		} else {
			e.send(q, ch, e.val(q, s.Send), x.Pos(), fr.fn)
			q.env[x] = mkTuple(i, Bool(false), -1, nil)
			out = append(out, q)
		}
	}
	if !x.Blocking {
		q := ps.clone()
		q.env[x] = mkTuple(-1, Bool(false), -1, nil)
		out = append(out, q)
	}
	return out
}

var _ = big.NewInt
