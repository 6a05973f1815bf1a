package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// C23: the commands voxcut-dice generates tile the model.

func init() { checks["C23"] = checkC23 }

// flagSym is the value of a flag of the command, by name.
func flagTerms(f *Facts, t *Term, name string) *Term {
	var r *Term
	find := func(x *Term) bool {
		if x.op == OSym && x.s == "flag:"+name {
			r = x
		}
		return false
	}
	if t != nil {
		mentions(t, find)
	}
	for _, l := range f.lits {
		mentions(l, find)
	}
	return r
}

// seqList is the list of the elements of a sequence: known elements, and whole parts of unknown length.
func seqList(t *Term) []*Term {
	var out []*Term
	for _, x := range catParts(t) {
		if x.op == OArray {
			out = append(out, x.args...)
		} else {
			out = append(out, App("…", nil, x))
		}
	}
	return out
}

// words cuts the text of a command line.
func words(t *Term) []*Term {
	var parts []*Term
	var tail *Term
	for _, x := range catParts(t) {
		if x.op == OStr && strings.HasSuffix(x.s, "\n") && tail == nil {
			x = Str(strings.TrimSuffix(x.s, "\n"))
		}
		parts = append(parts, x)
	}
	var q []*Term
	// blanks cannot be told from those inside file names: every unknown text counts as one word
	out := []*Term{Str("")}
	for _, x := range parts {
		switch {
		case x.op == OStr:
			for i, w := range strings.Split(x.s, " ") {
				if i > 0 {
					out = append(out, Str(""))
				}
				out[len(out)-1] = Cat(out[len(out)-1], Str(w))
			}
		case x.op == OApp && x.s == "join" && len(x.args) == 2 && x.args[1].op == OStr && x.args[1].s == " ":
			for i, y := range seqList(x.args[0]) {
				if i > 0 {
					out = append(out, Str(""))
				}
				if y.op == OApp && y.s == "…" || !(out[len(out)-1].op == OStr) {
					out[len(out)-1] = catIf(out[len(out)-1], y)
					continue
				}
				z := words(y)
				out[len(out)-1] = catIf(out[len(out)-1], z[0])
				out = append(out, z[1:]...)
			}
		default:
			out[len(out)-1] = catIf(out[len(out)-1], x)
		}
	}
	for _, x := range out {
		if !(x.op == OStr && x.s == "") {
			q = append(q, x)
		}
	}
	return q
}

func catIf(a, b *Term) *Term {
	if a.op == OStr && a.s == "" {
		return b
	}
	return Cat(a, b)
}

func checkC23(c *Check) {
	c.rule("path summaries of the dicing command: on each path of the innermost iteration exactly one command; its start options are affine in the iteration numbers of three loops (first 0, step size, below the dimension while iterating, not below it afterwards), its counts the size, its outputs those requested, its inputs all of them.")
	fn := c.fn("cmd/voxcut-dice", "main")
	e := NewEng(c.p)
	e.opaque = opaqueNames(c.p, "binvox.Read")
	e.unrollCap = 16
	as, f0 := args(fn)
	outs := c.run(e, fn, as, f0)
	for _, o := range outs {
		if o.kind == "panic" {
			c.ob("refuse:panic", false, o.pos, "the command can panic when %v", o.st.facts)
			continue
		}
		if o.kind != "ret" {
			continue
		}
		c.diceOutcome(e, o)
	}
	c.atLeast("tile", 6)
	c.atLeast("outputs", 8)
	c.atLeast("once", 2)
	c.atLeast("inputs", 2)
}

func (c *Check) diceOutcome(e *Eng, o Outcome) {
	pos := token.NoPos
	f := o.st.facts
	evs := o.st.trace.list()
	bt := c.p.Type("binvox", "BinVOX")
	c.need(bt != nil, "no type BinVOX")
	// the size is positive
	size := flagTerms(f, nil, "size")
	if !c.ob("refuse:size", size != nil && f.Entails(GT(size)), pos, "a size that is not positive is not refused: %v", f) {
		return
	}
	// the model whose header is read
	var head *Event
	for _, ev := range evs {
		if callEv("github.com/gmlewis/stldice/v4/binvox.Read")(ev) {
			head = ev
		}
	}
	if !c.ob("header:binvox.Read", head != nil && len(head.res) == 2, pos, "the dimensions of the model are not read") {
		return
	}
	inputs := Sym("cmd.args", nil)
	first := head.args[0]
	okFirst := first.op == OApp && first.s == "elem" && len(first.args) == 2 && first.args[1] == Int(0) && isSym(first.args[0], "cmd.args")
	if okFirst {
		inputs = first.args[0]
	}
	c.ob("header:first", okFirst, head.pos, "the dimensions are those of %s, not of the first file", str(first))
	base := App("deref", bt, head.res[0])
	dim := map[string]*Term{}
	for _, a := range []string{"X", "Y", "Z"} {
		dim[a] = c.fld(base, bt, "N"+a)
	}
	dry := flagTerms(f, nil, "n")
	mode := -1
	switch {
	case dry == nil:
	case f.Entails(dry):
		mode = 1
	case f.Entails(Not(dry)):
		mode = 0
	}
	isCmd := func(ev *Event) bool {
		if mode == 1 {
			return ev.kind == "call" && (ev.fn == "write" || ev.fn == "bufwrite") && len(ev.args) == 2 && startsText(ev.args[1], "voxcut ")
		}
		return ev.kind == "call" && ev.callee == nil && ev.fn == "os/exec.Command" || callEv("os/exec.Command", "os/exec.CommandContext")(ev)
	}
	c.need(mode >= 0, "voxcut-dice: the dry-run flag is not decided on a path: %v", f)
	key := map[int]string{0: "run", 1: "dry-run"}[mode]
	err := once(evs, f, nil, isCmd, func(ev *Event, path []*Event, stack []LoopAt) {
		var ws []*Term
		if mode == 1 {
			ws = words(ev.args[1])
		} else {
			as := ev.args
			if callEv("os/exec.CommandContext")(ev) {
				as = as[1:]
			}
			if len(as) == 2 {
				ws = append(ws, as[0])
				st := o.st
				if len(stack) > 0 {
					st = stack[len(stack)-1].it.st
				}
				ws = append(ws, seqList(e.seqAt(ev, st, as[1]))...)
			}
			ran := 0
			for _, x := range path {
				if x.kind == "call" && x != ev && len(x.args) > 0 && x.args[0] == ev.res[0] {
					switch x.fn[strings.LastIndex(x.fn, ".")+1:] {
					case "CombinedOutput", "Output", "Run", "Start":
						ran++
					}
				}
			}
			c.ob("once:started", ran == 1, ev.pos, "the command is started %d times in one iteration", ran)
		}
		c.diceCommand(e, key, ev, ws, size, dim, inputs, stack)
	})
	if !c.ob("once:"+key, err == nil, pos, "the command of a window is %v", err) {
		return
	}
}

func isSym(t *Term, name string) bool { return t.op == OSym && t.s == name }

func startsText(t *Term, pre string) bool {
	ps := catParts(t)
	x := ps[0]
	if x.op == OApp && x.s == "join" {
		q := seqList(x.args[0])
		if len(q) > 0 {
			return startsText(Cat(q[0], Str(" ")), pre)
		}
		return false
	}
	return x.op == OStr && strings.HasPrefix(x.s, pre)
}

// seqAt is the content of a slice argument when the event happened.
func (e *Eng) seqAt(ev *Event, s *State, v *Term) *Term {
	if ev.heap != nil {
		n := *s
		n.heap = ev.heap
		return e.seqOf(&n, v)
	}
	return e.seqOf(s, v)
}

func (c *Check) diceCommand(e *Eng, key string, ev *Event, ws []*Term, size *Term, dim map[string]*Term, inputs *Term, stack []LoopAt) {
	fs := ev.facts
	if len(stack) > 0 {
		fs = stack[len(stack)-1].it.facts
	}
	if !c.ob("command:"+key, len(ws) > 0 && ws[0] == Str("voxcut"), ev.pos, "the command run is not voxcut: %v", ws) {
		return
	}
	opts := map[string]*Term{}
	i := 1
	for i+1 < len(ws) && ws[i].op == OStr && strings.HasPrefix(ws[i].s, "-") {
		n := strings.TrimLeft(ws[i].s, "-")
		if _, dup := opts[n]; dup {
			c.ob("outputs:"+n, false, ev.pos, "option -%s is given twice", n)
		}
		opts[n] = ws[i+1]
		i += 2
	}
	rest := ws[i:]
	c.ob("inputs:"+key, len(rest) == 1 && rest[0].op == OApp && rest[0].s == "…" && rest[0].args[0] == inputs, ev.pos, "the input files passed on are %v, not all of them in order", rest)
	starts := map[string]*Term{}
	used := map[*Loop]string{}
	for _, a := range []string{"X", "Y", "Z"} {
		o := "s" + strings.ToLower(a)
		var v *Term
		if t := opts[o]; t != nil {
			if v = intArg(t); v == nil && t.op == OStr {
				v = t
			}
		}
		if !c.ob("tile:"+key+"/"+o, v != nil && v.op != OStr, ev.pos, "option -%s is %v, not the start of the window", o, opts[o]) {
			continue
		}
		starts[a] = v
		l, why := covers(e, v, Int(0), size, dim[a], stack)
		if c.ob("tile:"+key+"/"+a, l != nil, ev.pos, "the starts along %s (option -%s) do not run through the multiples of the size below %s: %s", a, o, str(dim[a]), why) {
			c.ob("tile:"+key+"/"+a+"/own", used[l] == "", ev.pos, "the starts along %s and %s are those of one loop", a, used[l])
			used[l] = a
		}
		o = "c" + strings.ToLower(a)
		var n *Term
		if t := opts[o]; t != nil {
			n = intArg(t)
		}
		c.ob("tile:"+key+"/"+o, n != nil && proveEq(fs, n, size), ev.pos, "option -%s is %v, not the size", o, opts[o])
	}
	// outputs
	known := map[string]bool{}
	for _, a := range []string{"sx", "sy", "sz", "cx", "cy", "cz"} {
		known[a] = true
	}
	kinds := []string{"ovox", "obinvox", "ostl"}
	for _, k := range kinds {
		known[k] = true
		fl := flagTerms(fs, nil, k)
		if fl == nil {
			fl = flagTerms(emptyFacts, opts[k], k)
		}
		empty := false
		full := false
		if fl != nil {
			empty = fs.Entails(Eq(fl, Str("")))
			full = fs.Entails(Not(Eq(fl, Str(""))))
		}
		v := opts[k]
		switch {
		case full:
			if c.ob("outputs:"+key+"/"+k, v != nil, ev.pos, "the output -%s is requested but not produced", k) {
				why := outName(v, fl, starts, size)
				c.ob("outputs:"+key+"/"+k+"/name", why == "", ev.pos, "the file name of output -%s, %s, %s", k, str(v), why)
			}
		case empty:
			c.ob("outputs:"+key+"/"+k, v == nil, ev.pos, "the output -%s is produced but not requested", k)
		default:
			c.ob("outputs:"+key+"/"+k, false, ev.pos, "whether output -%s is requested is not tested", k)
		}
	}
	var extra []string
	for o := range opts {
		if !known[o] {
			extra = append(extra, "-"+o)
		}
	}
	sort.Strings(extra)
	c.ob("outputs:"+key+"/only", len(extra) == 0, ev.pos, "voxcut is given further options: %v", extra)
}

// outName: the name holds the prefix, the start of the window and the size.
func outName(v, prefix *Term, starts map[string]*Term, size *Term) string {
	ps := catParts(v)
	if len(ps) == 0 || ps[0] != prefix {
		return "does not begin with the prefix"
	}
	var nums []*Term
	sep := false
	for _, x := range ps[1:] {
		if x.op == OStr {
			if x.s != "" {
				sep = true
			}
			continue
		}
		n := numShown(x)
		if n == nil {
			continue
		}
		if !sep {
			return "runs numbers together"
		}
		sep = false
		nums = append(nums, n)
	}
	want := []*Term{starts["X"], starts["Y"], starts["Z"], size}
	for i, w := range want {
		if w == nil {
			return "cannot be compared with the start"
		}
		if i >= len(nums) || nums[i] != w {
			return fmt.Sprintf("shows %v instead of the start along X, Y, Z and the size", nums)
		}
	}
	return ""
}

// numShown: the number shown by a part of a text, perhaps formatted twice.
func numShown(x *Term) *Term {
	if n := intArg(x); n != nil {
		return n
	}
	if x.op == OApp && strings.HasPrefix(x.s, "fmt:") && len(x.args) == 1 {
		return numShown(x.args[0])
	}
	return nil
}
