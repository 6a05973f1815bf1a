package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: typestate of locks, wait groups and channels along every path of every root. A goroutine
// is followed where it is started; what it leaves behind (sends nobody took, a range that needs
// a close) becomes part of the state of the channel.

func init() { checks["C14"] = checkC14 }

type chSt struct {
	n                               int  // items nobody has received yet
	debt                            int  // plain receives of goroutines that wait for an item
	bound                           int  // the loop with this bound (AV id) sends one item per iteration
	lo                              bool // some iteration may send none
	matched                         bool // a loop with that bound received them
	closed, dg, dr, opaque, gs, lib bool
	dep                             string // channels that must be closed before an item or the close arrives
	regs                            string // wait groups of the goroutines that send
	regd                            string // wait groups of the goroutines that drain
}

func (c chSt) String() string {
	b := func(x bool) string {
		if x {
			return "1"
		}
		return "0"
	}
	return fmt.Sprintf("ch|%d|%d|%d|%s%s%s%s%s%s%s%s|%s|%s|%s", c.n, c.debt, c.bound, b(c.lo), b(c.matched), b(c.closed), b(c.dg), b(c.dr), b(c.opaque), b(c.gs), b(c.lib), c.dep, c.regs, c.regd)
}

func parseCh(s string) (chSt, bool) {
	if !strings.HasPrefix(s, "ch|") {
		return chSt{}, false
	}
	p := strings.Split(s, "|")
	var c chSt
	c.n, _ = strconv.Atoi(p[1])
	c.debt, _ = strconv.Atoi(p[2])
	c.bound, _ = strconv.Atoi(p[3])
	f := p[4]
	c.lo, c.matched, c.closed, c.dg, c.dr, c.opaque, c.gs, c.lib = f[0] == '1', f[1] == '1', f[2] == '1', f[3] == '1', f[4] == '1', f[5] == '1', f[6] == '1', f[7] == '1'
	c.dep, c.regs, c.regd = p[5], p[6], p[7]
	return c, true
}

const chMany = 5

type syncSim struct {
	c     *Check
	s     *Sim
	viols map[string]string
	obs   map[string]token.Pos
	okOf  map[*AV]*AV // ok of a receive -> channel
	selOk map[*AV]bool
	order map[string]map[string]string // lock class -> lock class -> where
	doms  map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
}

func setAdd(l, x string) string {
	if l == "" {
		return x
	}
	for _, y := range strings.Split(l, ",") {
		if y == x {
			return l
		}
	}
	ls := append(strings.Split(l, ","), x)
	sort.Strings(ls)
	return strings.Join(ls, ",")
}

func setHas(l, x string) bool {
	for _, y := range strings.Split(l, ",") {
		if y == x {
			return true
		}
	}
	return false
}

func isSyncFn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go, *ssa.Send, *ssa.MakeChan, *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					return true
				}
				if c := x.Common().StaticCallee(); c != nil && strings.HasPrefix(c.String(), "(*sync.") {
					return true
				}
				if x.Common().IsInvoke() && strings.HasPrefix(x.Common().Method.FullName(), "(sync.Locker)") {
					return true
				}
			}
		}
	}
	return false
}

// symbolicCount: the function sizes a channel or a wait group by a number it does not fix.
func symbolicCount(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go:
				if inLoop(x) {
					return true
				}
			case *ssa.MakeChan:
				if _, ok := x.Size.(*ssa.Const); !ok {
					return true
				}
			case ssa.CallInstruction:
				if c := x.Common().StaticCallee(); c != nil && c.String() == "(*sync.WaitGroup).Go" && inLoop(ins) {
					return true
				} else if c != nil && c.String() == "(*sync.WaitGroup).Add" {
					if _, ok := x.Common().Args[1].(*ssa.Const); !ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// loopBoundAV gives the number of iterations of the innermost loop around an instruction that
// executes it once per iteration, or nil.
func (y *syncSim) loopBound(st *SimSt, ins ssa.Instruction, env map[ssa.Value]*AV) *AV {
	b := ins.Block()
	if b == nil {
		return nil
	}
	// innermost loop header: a dominator of b with a back edge from a block reachable from b
	for h := b; h != nil; h = h.Idom() {
		var latch []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				latch = append(latch, p)
			}
		}
		if len(latch) == 0 {
			continue
		}
		body := map[*ssa.BasicBlock]bool{h: true}
		work := append([]*ssa.BasicBlock(nil), latch...)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if body[x] {
				continue
			}
			body[x] = true
			work = append(work, x.Preds...)
		}
		if !body[b] {
			continue
		}
		for _, l := range latch {
			if !b.Dominates(l) {
				return nil // not once per iteration
			}
		}
		for _, q := range h.Instrs {
			ph, ok := q.(*ssa.Phi)
			if !ok {
				break
			}
			l := countedBy(ph)
			if l == nil || l.first != 0 {
				continue
			}
			exits := 0
			for x := range body {
				for _, sc := range x.Succs {
					if !body[sc] {
						exits++
					}
				}
			}
			if exits != 1 {
				return nil
			}
			return y.eval(st, l.bound, env)
		}
		for x := range body { // the only exit is the header
			if x == h {
				continue
			}
			for _, sc := range x.Succs {
				if !body[sc] {
					return nil
				}
			}
		}
		i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		switch cnd := i.Cond.(type) {
		case *ssa.Extract:
			n, ok := cnd.Tuple.(*ssa.Next)
			if !ok || n.IsString {
				return nil
			}
			r := y.s.get(env, n.Iter)
			if r.k == aOp && r.s == "range" {
				return mkAV(aOp, "len", 0, types.Typ[types.Int], nil, r.args[0])
			}
		}
		return nil
	}
	return nil
}

// counterOf gives the variable of a loop that counts from 0 in steps of one, given its condition.
func counterOf(cnd *ssa.BinOp) *ssa.Phi {
	if cnd.Op != token.LSS {
		return nil
	}
	iv := cnd.X
	start := int64(0)
	if add, ok := iv.(*ssa.BinOp); ok && add.Op == token.ADD { // range over a slice
		iv = add.X
		start = -1
	}
	ph, ok := iv.(*ssa.Phi)
	if !ok {
		return nil
	}
	h := ph.Block()
	for j, e := range ph.Edges {
		if h.Dominates(h.Preds[j]) {
			if add, ok := e.(*ssa.BinOp); !ok || add.Op != token.ADD || !isOne(add.Y) || add.X != ssa.Value(ph) {
				return nil
			}
		} else if k, ok := e.(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != strconv.FormatInt(start, 10) {
			return nil
		}
	}
	return ph
}

// eval gives the value of a side-effect free operand that may no longer be in the environment.
func (y *syncSim) eval(st *SimSt, v ssa.Value, env map[ssa.Value]*AV) *AV {
	if _, ok := env[v]; ok {
		return y.s.get(env, v)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return y.s.loadAV(st, y.eval(st, x.X, env), x.Type())
		}
	case *ssa.FieldAddr:
		return mkAV(aFldAdr, "", x.Field, x.Type(), nil, y.eval(st, x.X, env))
	case *ssa.Field:
		return avFieldOf(y.eval(st, x.X, env), x.Field, x.Type())
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := y.eval(st, x.Call.Args[0], env)
			if l, ok := st.mem[mkAV(aOp, "lencell", 0, nil, nil, a)]; ok {
				return l
			}
			return mkAV(aOp, "len", 0, x.Type(), nil, a)
		}
	}
	return y.s.get(env, v)
}

func isOne(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "1"
}

func (y *syncSim) bad(key string, pos token.Pos, f string, a ...interface{}) {
	y.obs[key] = pos
	if _, ok := y.viols[key]; !ok {
		y.viols[key] = fmt.Sprintf(f, a...)
	}
}

func (y *syncSim) seen(key string, pos token.Pos) {
	if _, ok := y.obs[key]; !ok {
		y.obs[key] = pos
	}
}

// class names the lock, wait group or channel for messages and keys.
func (y *syncSim) class(v *AV) string {
	v = v.strip()
	switch v.k {
	case aFldAdr:
		b := v.args[0]
		if b.typ != nil {
			t := b.typ
			if p := pointee(t); p != nil {
				t = p
			}
			if st, ok := t.Underlying().(*types.Struct); ok && v.n < st.NumFields() {
				return types.TypeString(t, func(*types.Package) string { return "" }) + "." + st.Field(v.n).Name()
			}
		}
		return y.class(b) + "." + strconv.Itoa(v.n)
	case aAlloc:
		s := v.s
		if i := strings.LastIndex(s, "/"); i >= 0 {
			// the function name holds slashes of its import path: cut at the package
			s = s[i+1:]
		}
		if i := strings.LastIndex(s, "#"); i >= 0 {
			s = s[:i]
		}
		t := v.typ
		if p := pointee(t); p != nil {
			t = p
		}
		return s + " " + types.TypeString(t, func(p *types.Package) string { return p.Name() })
	case aGlobal:
		return v.s
	case aParam:
		return v.s
	}
	if v.typ != nil {
		return types.TypeString(v.typ, func(p *types.Package) string { return p.Name() })
	}
	return "?"
}

func (y *syncSim) capOf(st *SimSt, ch *AV) *AV {
	return st.mem[mkAV(aOp, "capcell", 0, nil, nil, ch)]
}

func (y *syncSim) fits(st *SimSt, n int, ch *AV) bool {
	if n <= 0 {
		return true
	}
	if n >= chMany {
		return false
	}
	k := y.capOf(st, ch)
	if k == nil {
		return false
	}
	if k.k == aConst {
		x, err := strconv.Atoi(k.s)
		return err == nil && n <= x
	}
	return n == 1 && st.truth(ltZero(k)) == 1
}

func (y *syncSim) fnName(ins ssa.Instruction) string {
	if ins == nil || ins.Parent() == nil {
		return "?"
	}
	return y.c.p.fnName(ins.Parent())
}

func (y *syncSim) tagName(k string) string { return fmt.Sprintf("go%d:%s", y.s.depth, k) }

func (y *syncSim) note(st *SimSt, k, x string) {
	t := y.tagName(k)
	st.tag[t] = setAdd(st.tag[t], x)
}

func (y *syncSim) local(v *AV) bool { // made by the goroutine being followed
	if len(y.s.gofns) == 0 {
		return true
	}
	f := y.s.gofns[len(y.s.gofns)-1]
	return f != nil && rootAdr(v).k == aAlloc && strings.Contains(rootAdr(v).s, "/"+f.String()+"#")
}

// blockingUnder: the caller blocks for goroutines while it holds a lock one of them takes.
func (y *syncSim) blockingUnder(st *SimSt, what string, ins ssa.Instruction) {
	for m, t := range st.ts {
		if strings.HasPrefix(t, "!lock|") && st.tag["gl:"+strconv.Itoa(m.id)] != "" {
			y.bad("lock:"+y.fnName(ins)+":"+y.class(m)+":"+what, ins.Pos(), "%s waits (%s) for goroutines while it holds %s, which one of them locks", y.fnName(ins), what, y.class(m))
		}
	}
}

func (y *syncSim) deps(st *SimSt, ch *AV, c chSt, ins ssa.Instruction) {
	if c.dep == "" {
		return
	}
	for v, t := range st.ts {
		if d, ok := parseCh(t); ok && setHas(c.dep, strconv.Itoa(v.id)) && !d.closed && !d.opaque {
			y.bad("recv:"+y.fnName(ins)+":"+y.class(ch), ins.Pos(), "%s waits on %s, which is only served after %s is closed, and that has not happened", y.fnName(ins), y.class(ch), y.class(v))
		}
	}
}

func checkC14(c *Check) {
	c.rule("typestate simulation of every root: each lock, wait group and channel operation must be possible in the state of its object (lock order acyclic, wait-group counts zero at Wait, sends that have a receiver or room, receives that have a sender or a close, closes on every path), and nothing may be left blocked when the root returns.")
	y := &syncSim{c: c, s: NewSim(c.p), viols: map[string]string{}, obs: map[string]token.Pos{}, okOf: map[*AV]*AV{}, order: map[string]map[string]string{}}
	s := y.s
	s.inline = isSyncFn
	sym := map[*ssa.Function]bool{}
	symbolic := func(fn *ssa.Function) bool {
		r, ok := sym[fn]
		if !ok {
			r = symbolicCount(fn)
			sym[fn] = r
		}
		return r
	}
	s.keep = func(fn *ssa.Function, x *ssa.If) bool {
		b, ok := x.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		if _, ok := b.X.Type().Underlying().(*types.Basic); !ok {
			return false
		}
		return symbolic(fn)
	}
	s.coarse = func(ph *ssa.Phi) bool {
		if !symbolic(ph.Parent()) {
			return true
		}
		b := ph.Block()
		loop := false
		for _, p := range b.Preds {
			loop = loop || b.Dominates(p)
		}
		if !loop {
			return false
		}
		return countedBy(ph) == nil
	}
	s.interest = func(n string, cc *ssa.CallCommon, in *ssa.Function) bool {
		return strings.HasPrefix(n, "(*sync.") || n == "builtin.close" || strings.HasPrefix(n, "(sync.Locker)")
	}
	s.onInstr = func(st *SimSt, ins ssa.Instruction, env map[ssa.Value]*AV, key string) []*SimSt {
		switch x := ins.(type) {
		case *ssa.MakeChan:
			y.c.counts["channels"]++
			k := "make:" + y.fnName(x) + ":" + x.Type().String()
			y.seen(k, x.Pos())
			v := s.get(env, x.Size)
			ok := false
			switch {
			case v.k == aConst:
				ok = !strings.HasPrefix(v.s, "-")
			case v.k == aOp && v.s == "len", st.truth(ltZero(v)) == 1, st.truth(mkAV(aOp, "<", 0, nil, nil, v, mkAV(aConst, "0", 0, nil, nil))) == -1:
				ok = true
			default:
				for a, b := range st.mem { // the length of a slice
					if b == v && a.k == aOp && a.s == "lencell" {
						ok = true
					}
				}
			}
			if !ok && st.truth(ltZero(v)) != -1 && !subtracts(x.Size) {
				ok = true // a count computed elsewhere
			}
			if !ok {
				y.bad(k, x.Pos(), "%s makes a channel whose size may be negative", y.fnName(x))
			}
		case *ssa.Send:
			y.send(st, s.get(env, x.Chan), x, env)
		case *ssa.Select:
			for _, ss := range x.States {
				ch := s.get(env, ss.Chan)
				if c, ok := parseCh(st.ts[ch]); ok {
					c.opaque = true
					st.ts[ch] = c.String()
				}
			}
		case *ssa.Return:
			// channels handed to the caller of a root
			if len(s.fstack) == 1 {
				for _, v := range x.Results {
					ch := s.get(env, v).strip()
					if c, ok := parseCh(st.ts[ch]); ok {
						c.opaque, c.lib = true, true
						st.ts[ch] = c.String()
					}
				}
			}
		}
		return nil
	}
	s.onMake = func(st *SimSt, v *AV) { st.ts[v] = chSt{}.String() }
	s.onRecv = func(st *SimSt, x *ssa.UnOp, ch, v, ok *AV) {
		c, tracked := parseCh(st.ts[ch])
		if !tracked {
			return
		}
		if x.CommaOk {
			y.okOf[ok] = ch
			y.seen("recv:"+y.fnName(x)+":"+y.class(ch), x.Pos())
			if s.depth == 0 {
				y.blockingUnder(st, "receive", x)
			}
			return
		}
		y.recv(st, ch, c, x, s.curEnv)
	}
	s.onBranch = func(st *SimSt, cond *AV, v bool) {
		for cond.k == aOp && cond.s == "not" {
			cond, v = cond.args[0], !v
		}
		if i, ok := s.cur.(*ssa.If); ok && symbolic(i.Parent()) {
			if e, ok := i.Cond.(*ssa.Extract); ok {
				if n, ok := e.Tuple.(*ssa.Next); ok && !n.IsString {
					// whether the loop ran at all
					r := s.get(s.curEnv, n.Iter)
					k := "ran:" + strconv.Itoa(r.id)
					switch {
					case r.k != aOp || r.s != "range":
					case v:
						st.tag[k] = "1"
					case st.tag[k] == "":
						l := mkAV(aOp, "len", 0, types.Typ[types.Int], nil, r.args[0])
						st.facts[mkAV(aOp, "<", 0, types.Typ[types.Bool], nil, mkAV(aConst, "0", 0, nil, nil), l)] = false
					default:
						delete(st.tag, k)
					}
				}
			}
		}
		ch, ok := y.okOf[cond]
		if !ok {
			return
		}
		c, tracked := parseCh(st.ts[ch])
		if !tracked {
			return
		}
		if v {
			if c.n > 0 && c.n < chMany {
				c.n--
			}
			st.ts[ch] = c.String()
			return
		}
		ins := s.cur
		key := "recv:" + y.fnName(ins) + ":" + y.class(ch)
		if s.depth == 0 {
			if !c.closed && !c.opaque {
				y.bad(key, ins.Pos(), "%s receives from %s until it is closed, but a path does not close it", y.fnName(ins), y.class(ch))
			}
			y.deps(st, ch, c, ins)
			c.dr, c.n, c.gs, c.bound = true, 0, false, 0
		} else {
			c.n, c.bound = 0, 0
			if !c.closed {
				c.dg = true
				y.note(st, "drain", strconv.Itoa(ch.id))
			}
		}
		st.ts[ch] = c.String()
	}
	s.onBuiltin = func(st *SimSt, name string, args []*AV) {
		if name != "close" {
			return
		}
		ch := args[0]
		c, tracked := parseCh(st.ts[ch])
		if !tracked {
			return
		}
		ins := s.cur
		key := "close:" + y.fnName(ins) + ":" + y.class(ch)
		y.seen(key, ins.Pos())
		y.c.counts["closes"]++
		if c.closed {
			y.bad(key, ins.Pos(), "%s may close %s twice", y.fnName(ins), y.class(ch))
		}
		if c.gs && !y.sentHere(st, ch) {
			y.bad(key, ins.Pos(), "%s closes %s while goroutines may still send on it", y.fnName(ins), y.class(ch))
		}
		c.closed = true
		c.debt = 0
		if s.depth > 0 {
			for _, d := range strings.Split(st.tag[y.tagName("drain")], ",") {
				if d != "" && d != strconv.Itoa(ch.id) {
					c.dep = setAdd(c.dep, d)
				}
			}
		}
		st.ts[ch] = c.String()
	}
	s.onSpawn = y.spawn
	s.onCall = y.call
	n := 0
	for _, r := range c.p.roots() {
		if !s.relevant(r) || simOnly != "" && simOnly != c.p.fnName(r) {
			continue
		}
		n++
		outs := s.RunRoot(r)
		rn := c.p.fnName(r)
		c.counts["paths"] += len(outs)
		c.counts["states"] += s.steps
		for _, o := range outs {
			if o.kind != "ret" {
				continue
			}
			for v, t := range o.st.ts {
				if strings.HasPrefix(t, "!lock|") {
					p := strings.SplitN(t, "|", 3)
					y.bad("lock:"+p[2]+":"+y.class(v), o.pos, "%s returns (at %s) while %s, locked by %s, is still locked", rn, c.p.posStr(o.pos), y.class(v), p[2])
				}
				ch, ok := parseCh(t)
				if ok && ch.lib && ch.gs && !ch.closed {
					y.bad("end:"+rn+":"+y.class(v), o.pos, "%s returns (at %s) without %s being closed by the goroutine that sends on it", rn, c.p.posStr(o.pos), y.class(v))
				}
				if !ok || ch.opaque {
					continue
				}
				if simOnly != "" {
					fmt.Println("PATH", o.res, o.st.trail, v, t)
				}
				key := "end:" + rn + ":" + y.class(v)
				y.seen(key, o.pos)
				k := y.capOf(o.st, v)
				switch {
				case ch.n > 0 && !ch.dg && !ch.dr && !y.fits(o.st, ch.n, v):
					y.bad(key, o.pos, "%s returns (at %s) while a goroutine still waits to send on %s, which nobody receives any more", rn, c.p.posStr(o.pos), y.class(v))
				case ch.bound != 0 && !ch.matched && !ch.dg && !ch.dr && (k == nil || k.id != ch.bound):
					y.bad(key, o.pos, "%s returns (at %s) while goroutines still wait to send on %s, which nobody receives any more", rn, c.p.posStr(o.pos), y.class(v))
				case ch.dg && !ch.closed:
					y.bad(key, o.pos, "%s returns (at %s) without closing %s, which a goroutine drains: that goroutine never ends", rn, c.p.posStr(o.pos), y.class(v))
				case ch.debt > 0 && !ch.closed:
					y.bad(key, o.pos, "%s returns (at %s) while a goroutine still waits to receive from %s", rn, c.p.posStr(o.pos), y.class(v))
				}
			}
		}
	}
	c.counts["roots"] = n
	c.counts["functions"] = len(s.inlined)
	// the lock order
	y.cycles()
	var ks []string
	for k := range y.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m, badly := y.viols[k]
		c.ob(k, !badly, y.obs[k], "%s", m)
	}
	c.atLeast("roots", 5)
	c.atLeast("spawn", 3)
	c.atLeast("lock", 3)
	c.atLeast("end", 2)
	if os.Getenv("SIM_OBS") != "" {
		for _, k := range ks {
			fmt.Println(k, y.viols[k])
		}
	}
}

func (y *syncSim) sentHere(st *SimSt, ch *AV) bool {
	return y.s.depth > 0 && setHas(st.tag[y.tagName("sent")], strconv.Itoa(ch.id)) && !strings.Contains(st.tag["gsown:"+strconv.Itoa(ch.id)], "1")
}

func (y *syncSim) send(st *SimSt, ch *AV, x ssa.Instruction, env map[ssa.Value]*AV) {
	c, tracked := parseCh(st.ts[ch])
	if !tracked {
		return
	}
	y.c.counts["sends"]++
	key := "send:" + y.fnName(x) + ":" + y.class(ch)
	y.seen(key, x.Pos())
	if c.closed {
		y.bad(key, x.Pos(), "%s may send on %s after it is closed", y.fnName(x), y.class(ch))
	}
	if y.s.depth > 0 {
		y.note(st, "sent", strconv.Itoa(ch.id))
		for _, d := range strings.Split(st.tag[y.tagName("drain")], ",") {
			if d != "" && d != strconv.Itoa(ch.id) {
				c.dep = setAdd(c.dep, d)
			}
		}
	}
	switch {
	case c.dg || c.opaque:
	case c.debt > 0:
		if c.debt < chMany {
			c.debt--
		}
	case y.s.depth > 0:
		if c.n < chMany {
			c.n++
		}
	case y.fits(st, c.n+1, ch):
		c.n++
	default:
		k, b := y.capOf(st, ch), y.loopBound(st, x, env)
		if k != nil && k == b && c.bound == 0 || c.bound != 0 && k != nil && k.id == c.bound && k == b {
			c.bound = k.id
			break
		}
		y.bad(key, x.Pos(), "%s sends on %s, which may have no receiver and no room left", y.fnName(x), y.class(ch))
	}
	if y.s.depth == 0 {
		y.blockingUnder(st, "send", x)
	}
	st.ts[ch] = c.String()
}

func (y *syncSim) recv(st *SimSt, ch *AV, c chSt, x ssa.Instruction, env map[ssa.Value]*AV) {
	key := "recv:" + y.fnName(x) + ":" + y.class(ch)
	y.seen(key, x.Pos())
	y.c.counts["receives"]++
	if y.s.depth == 0 {
		y.blockingUnder(st, "receive", x)
		y.deps(st, ch, c, x)
	}
	switch {
	case c.n > 0:
		if c.n < chMany {
			c.n--
		}
		if c.n == 0 && c.bound == 0 {
			c.gs = false
		}
	case c.bound != 0:
		if b := y.loopBound(st, x, env); b != nil && b.id == c.bound {
			if c.lo {
				y.bad(key, x.Pos(), "%s receives one item per goroutine from %s, but a goroutine may send none", y.fnName(x), y.class(ch))
			}
			c.matched = true
			c.gs = false
		} else if y.s.depth == 0 && b == nil && inLoop(x) {
			y.bad(key, x.Pos(), "%s receives from %s in a loop not known to match the number of items", y.fnName(x), y.class(ch))
		}
	case c.closed || c.opaque:
	case y.s.depth > 0:
		if c.debt < chMany {
			c.debt++
		}
	default:
		y.bad(key, x.Pos(), "%s receives from %s, which is neither closed nor sent to by then", y.fnName(x), y.class(ch))
	}
	st.ts[ch] = c.String()
}

func inLoop(ins ssa.Instruction) bool {
	b := ins.Block()
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func (y *syncSim) spawn(st *SimSt, site ssa.Instruction, in, fn *ssa.Function, args []*AV, env map[ssa.Value]*AV) func(*SimSt) {
	y.c.counts["spawns"]++
	name := "goroutine"
	if fn != nil {
		name = y.c.p.fnName(fn)
	}
	key := "spawn:" + y.fnName(site) + ":" + name
	y.seen(key, site.Pos())
	if fn == nil || !y.s.relevant(fn) {
		// not followed: nothing in it synchronises, unless it is unknown
		if fn == nil {
			y.bad(key, site.Pos(), "%s starts a goroutine whose function is not known here", y.fnName(site))
		}
	}
	held := map[*AV]string{}
	before := map[*AV]chSt{}
	wgs := map[*AV]string{}
	bound := y.loopBound(st, site, env)
	for v, t := range st.ts {
		if strings.HasPrefix(t, "!lock|") {
			held[v] = t
			delete(st.ts, v)
		}
		if c, ok := parseCh(t); ok {
			before[v] = c
		}
		if strings.HasPrefix(t, "wg|S|") {
			p := strings.Split(t, "|")
			if bound != nil && p[2] == strconv.Itoa(bound.id) {
				wgs[v] = "wg|S|" + p[2] + "|1"
				st.ts[v] = "wg|1"
			}
		}
	}
	var own *AV
	if x, ok := site.(ssa.CallInstruction); ok {
		if c := x.Common().StaticCallee(); c != nil && c.String() == "(*sync.WaitGroup).Go" {
			own = y.s.get(env, x.Common().Args[0])
		}
	}
	d := y.s.depth + 1
	tg := func(k string) string { return fmt.Sprintf("go%d:%s", d, k) }
	for _, k := range []string{"sent", "drain", "done"} {
		delete(st.tag, tg(k))
	}
	return func(st *SimSt) {
		for v, t := range st.ts {
			if strings.HasPrefix(t, "!lock|") {
				p := strings.SplitN(t, "|", 3)
				y.bad("lock:"+p[2]+":"+y.class(v), site.Pos(), "the goroutine %s started by %s ends while %s, locked by %s, is still locked", name, y.fnName(site), y.class(v), p[2])
				delete(st.ts, v)
			}
		}
		for v, t := range held {
			st.ts[v] = t
		}
		for v, t := range wgs {
			if _, left := st.ts[v]; left {
				y.bad(key, site.Pos(), "a path of the goroutine %s does not call Done on %s exactly once", name, y.class(v))
			}
			st.ts[v] = t
		}
		done := st.tag[tg("done")]
		if own != nil {
			done = setAdd(done, strconv.Itoa(own.id))
		}
		for v, t := range st.ts {
			c, ok := parseCh(t)
			if !ok {
				continue
			}
			id := strconv.Itoa(v.id)
			if setHas(st.tag[tg("sent")], id) {
				if !c.dr {
					c.gs = true
				}
				for _, w := range strings.Split(done, ",") {
					if w != "" {
						c.regs = setAdd(c.regs, w)
					}
				}
			}
			if setHas(st.tag[tg("drain")], id) {
				for _, w := range strings.Split(done, ",") {
					if w != "" {
						c.regd = setAdd(c.regd, w)
					}
				}
			}
			if b, had := before[v]; had && bound != nil {
				switch {
				case c.n == b.n+1 && (c.bound == 0 || c.bound == bound.id):
					c.n = b.n
					c.bound = bound.id
				case c.n == b.n && c.bound == bound.id && fn != nil && sendsIn(fn):
					c.lo = true
				}
			}
			st.ts[v] = c.String()
		}
		for _, k := range []string{"sent", "drain", "done"} {
			delete(st.tag, tg(k))
		}
	}
}

func sendsIn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Send); ok {
				return true
			}
		}
	}
	return false
}

func (y *syncSim) call(sc *SimCall) []*SimSt {
	st := sc.st
	if strings.HasPrefix(sc.name, "(*bytes.Buffer).Write") || strings.HasPrefix(sc.name, "(*strings.Builder).Write") {
		if n := len(sc.res); n > 0 && sc.res[n-1].typ != nil && isErrType(sc.res[n-1].typ) {
			st.assume(avIsNil(sc.res[n-1]), true)
		}
		return nil
	}
	name := sc.name
	if !strings.HasPrefix(name, "(*sync.") && !strings.HasPrefix(name, "(sync.Locker)") {
		// a channel handed to a library
		for _, a := range sc.args {
			a = a.strip()
			if c, ok := parseCh(st.ts[a]); ok {
				c.opaque, c.lib = true, true
				st.ts[a] = c.String()
			}
		}
		return nil
	}
	if len(sc.args) == 0 {
		return nil
	}
	m := sc.args[0].strip()
	ins := sc.site
	fnn := y.fnName(ins)
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		y.lock(st, m, ins, strings.HasSuffix(name, "RLock"))
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		t := st.clone()
		t.assume(sc.res[0], false)
		st.assume(sc.res[0], true)
		y.lock(st, m, ins, strings.HasSuffix(name, "RLock"))
		return []*SimSt{st, t}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		key := "unlock:" + fnn + ":" + y.class(m)
		y.seen(key, ins.Pos())
		t := st.ts[m]
		want := "!lock|w|"
		if strings.HasSuffix(name, "RUnlock") {
			want = "!lock|r|"
		}
		if !strings.HasPrefix(t, want) {
			y.bad(key, ins.Pos(), "%s unlocks %s, which it does not hold there", fnn, y.class(m))
		}
		delete(st.ts, m)
	case "(*sync.WaitGroup).Add":
		key := "wg:" + fnn + ":" + y.class(m) + ":add"
		y.seen(key, ins.Pos())
		t, ok := st.ts[m]
		if !ok {
			t = "wg|0"
		}
		k := sc.args[1]
		n, err := strconv.Atoi(k.s)
		switch {
		case k.k == aConst && err == nil && !strings.HasPrefix(t, "wg|S"):
			o, _ := strconv.Atoi(strings.TrimPrefix(t, "wg|"))
			if y.s.depth > 0 && o == 0 && n > 0 && !y.local(m) {
				y.bad(key, ins.Pos(), "%s adds to %s inside the goroutine: a Wait may not see it", fnn, y.class(m))
			}
			if o+n < 0 {
				y.bad(key, ins.Pos(), "%s makes the count of %s negative", fnn, y.class(m))
				n = -o
			}
			if o+n > chMany {
				n = chMany - o
			}
			setWG(st, m, o+n)
		case k.k != aConst && (t == "wg|0" || t == "wg|S|"+strconv.Itoa(k.id)+"|1"):
			st.ts[m] = "wg|S|" + strconv.Itoa(k.id) + "|0"
			if st.truth(ltZero(k)) == -1 {
				delete(st.ts, m)
			}
		default:
			y.bad(key, ins.Pos(), "%s adds a number to %s that cannot be related to the goroutines it starts", fnn, y.class(m))
		}
	case "(*sync.WaitGroup).Done":
		key := "wg:" + fnn + ":" + y.class(m) + ":done"
		y.seen(key, ins.Pos())
		t, ok := st.ts[m]
		if !ok {
			t = "wg|0"
		}
		if strings.HasPrefix(t, "wg|S") {
			y.bad(key, ins.Pos(), "Done of %s in %s cannot be related to its count", y.class(m), fnn)
			return nil
		}
		o, _ := strconv.Atoi(strings.TrimPrefix(t, "wg|"))
		if o == 0 {
			y.bad(key, ins.Pos(), "%s makes the count of %s negative", fnn, y.class(m))
			return nil
		}
		if o < chMany {
			o--
		}
		setWG(st, m, o)
		if y.s.depth > 0 {
			y.note(st, "done", strconv.Itoa(m.id))
		}
	case "(*sync.WaitGroup).Wait":
		key := "wait:" + fnn + ":" + y.class(m)
		y.seen(key, ins.Pos())
		y.c.counts["waits"]++
		t, ok := st.ts[m]
		switch {
		case !ok || t == "wg|0":
		case strings.HasPrefix(t, "wg|S"):
			p := strings.Split(t, "|")
			zero := false
			for f, b := range st.facts {
				if f.k == aOp && f.s == "<" && !b && f.args[0].k == aConst && f.args[0].s == "0" && strconv.Itoa(f.args[1].id) == p[2] {
					zero = true
				}
				if f.k == aOp && f.s == "==" && b && (strconv.Itoa(f.args[1].id) == p[2] && f.args[0].s == "0" || strconv.Itoa(f.args[0].id) == p[2] && f.args[1].s == "0") {
					zero = true
				}
			}
			if p[3] != "1" && !zero {
				y.bad(key, ins.Pos(), "%s waits for %s, whose count was raised by a number not known to match the goroutines started", fnn, y.class(m))
			}
		default:
			y.bad(key, ins.Pos(), "%s waits for %s, but on some path a goroutine counted there does not call Done (count %s)", fnn, y.class(m), strings.TrimPrefix(t, "wg|"))
		}
		delete(st.ts, m)
		id := strconv.Itoa(m.id)
		if y.s.depth == 0 {
			y.blockingUnder(st, "wait", ins)
		}
		for v, t := range st.ts {
			c, ok := parseCh(t)
			if !ok || c.opaque {
				continue
			}
			if y.s.depth == 0 {
				k := y.capOf(st, v)
				if setHas(c.regs, id) && !c.dg && !c.dr && (!y.fits(st, c.n, v) || c.bound != 0 && !c.matched && (k == nil || k.id != c.bound)) {
					y.bad(key, ins.Pos(), "%s waits for goroutines that may still wait to send on %s", fnn, y.class(v))
				}
				if setHas(c.regd, id) && !c.closed {
					y.bad(key, ins.Pos(), "%s waits for a goroutine that drains %s before closing it", fnn, y.class(v))
				}
			}
			c.gs = false
			st.ts[v] = c.String()
		}
		if y.s.depth == 0 {
			for k := range st.tag {
				if strings.HasPrefix(k, "gl:") {
					delete(st.tag, k)
				}
			}
		}
	}
	return nil
}

func setWG(st *SimSt, m *AV, n int) {
	if n == 0 {
		delete(st.ts, m)
		return
	}
	st.ts[m] = "wg|" + strconv.Itoa(n)
}

func (y *syncSim) lock(st *SimSt, m *AV, ins ssa.Instruction, read bool) {
	fnn := y.fnName(ins)
	cl := y.class(m)
	key := "lock:" + fnn + ":" + cl
	y.seen(key, ins.Pos())
	y.c.counts["locks"]++
	for v, t := range st.ts {
		if !strings.HasPrefix(t, "!lock|") {
			continue
		}
		if v == m {
			y.bad(key, ins.Pos(), "%s locks %s while it already holds it (locked by %s)", fnn, cl, strings.SplitN(t, "|", 3)[2])
			continue
		}
		h := y.class(v)
		if y.order[h] == nil {
			y.order[h] = map[string]string{}
		}
		y.order[h][cl] = fnn
	}
	mode := "w"
	if read {
		mode = "r"
	}
	st.ts[m] = "!lock|" + mode + "|" + fnn
	if y.s.depth > 0 && !y.local(m) {
		st.tag["gl:"+strconv.Itoa(m.id)] = "1"
	}
}

// cycles reports locks that are taken in different orders.
func (y *syncSim) cycles() {
	var nodes []string
	for a := range y.order {
		nodes = append(nodes, a)
	}
	sort.Strings(nodes)
	for _, a := range nodes {
		for b, where := range y.order[a] {
			y.seen("order:"+a+">"+b, token.NoPos)
			// can b reach a?
			seen := map[string]bool{b: true}
			work := []string{b}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if x == a {
					y.bad("order:"+a+">"+b, token.NoPos, "%s locks %s while holding %s, and elsewhere (%s) they are taken the other way round", where, b, a, y.order[b])
					break
				}
				for z := range y.order[x] {
					if !seen[z] {
						seen[z] = true
						work = append(work, z)
					}
				}
			}
		}
	}
}

// subtracts: the value is the difference of others.
func subtracts(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return subtracts(x.X)
	case *ssa.BinOp:
		return x.Op == token.SUB || subtracts(x.X) || subtracts(x.Y)
	case *ssa.UnOp:
		return x.Op == token.SUB
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.SUB {
				return true
			}
		}
	}
	return false
}
