package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Queries over the path summaries of the interpreter.

// LoopAt is a loop an event lies in: the iteration path, and the facts that hold after the loop.
type LoopAt struct {
	loop *Loop
	it   *IterPath
	exit *Facts
}

// flat lists every way through a sequence of events with joined alternatives.
func flat(evs []*Event) [][]*Event {
	res := [][]*Event{nil}
	for _, ev := range evs {
		if len(ev.alts) == 0 {
			for i := range res {
				res[i] = append(res[i], ev)
			}
			continue
		}
		var n [][]*Event
		for _, a := range ev.alts {
			for _, q := range flat(a) {
				for _, r := range res {
					n = append(n, append(append([]*Event{}, r...), q...))
				}
			}
		}
		res = n
		if len(res) > 4096 {
			panic(giveUp{"too many joined paths"})
		}
	}
	return res
}

// hasEv: some event of the sequence, or of a loop in it, matches.
func hasEv(evs []*Event, pred func(*Event) bool) bool {
	for _, ev := range evs {
		if pred(ev) {
			return true
		}
		for _, a := range ev.alts {
			if hasEv(a, pred) {
				return true
			}
		}
		if ev.loop != nil {
			for _, it := range ev.loop.iters {
				if hasEv(it.events, pred) {
					return true
				}
			}
		}
	}
	return false
}

// once visits the matching events, each of which must happen exactly once in every
// combination of iterations of the loops around it: on each path exactly one match, or one
// loop whose every iteration has exactly one.
func once(evs []*Event, exit *Facts, stack []LoopAt, pred func(*Event) bool, f func(ev *Event, path []*Event, stack []LoopAt)) error {
	for _, path := range flat(evs) {
		n := 0
		for _, ev := range path {
			if ev.loop != nil && !pred(ev) {
				l := ev.loop
				any := false
				for _, it := range l.iters {
					any = any || hasEv(it.events, pred)
				}
				if !any {
					continue
				}
				n++
				for _, it := range l.iters {
					st := append(append([]LoopAt{}, stack...), LoopAt{l, it, exit})
					if err := once(it.events, it.facts, st, pred, f); err != nil {
						return err
					}
				}
				continue
			}
			if pred(ev) {
				n++
				f(ev, path, stack)
			}
		}
		if n != 1 {
			where := ""
			if len(stack) > 0 {
				where = " in one iteration"
			}
			return fmt.Errorf("done %d times%s", n, where)
		}
	}
	return nil
}

// callEv matches calls of a function by its full name.
func callEv(names ...string) func(*Event) bool {
	return func(ev *Event) bool {
		if ev.kind != "call" {
			return false
		}
		for _, n := range names {
			if ev.fn == n || ev.callee != nil && ev.callee.String() == n {
				return true
			}
		}
		return false
	}
}

// iterVar: the value is an affine function of the iteration number of one of the loops; it
// returns that loop, its value in the first iteration and its step.
func iterVar(t *Term, stack []LoopAt) (at *LoopAt, first, step *Term) {
	for i := range stack {
		l := &stack[i]
		if l.loop.n == nil || !mentions(t, func(x *Term) bool { return x == l.loop.n }) {
			continue
		}
		if at != nil {
			return nil, nil, nil
		}
		at = l
	}
	if at == nil {
		return nil, nil, nil
	}
	n := at.loop.n
	sub := func(v *Term) *Term { return subst(t, map[*Term]*Term{n: v}, map[*Term]*Term{}) }
	first = sub(Int(0))
	step = Sub(sub(Add(n, Int(1))), t)
	if mentions(step, func(x *Term) bool { return x == n }) {
		return nil, nil, nil
	}
	return at, first, step
}

// covers: the loop runs the variable through first, first+step, … exactly below the bound.
func covers(e *Eng, t, first, step, bound *Term, stack []LoopAt) (*Loop, string) {
	if t.op == OApp && t.s == "elem" && e.summ[t.args[0]] != nil {
		// an element of a list built before: all of the list, and the list built of the values
		list := t.args[0]
		s := e.summ[list]
		in, why := covers(e, t.args[1], Int(0), Int(1), Len(list), stack)
		if in == nil {
			return nil, "of the list, " + why
		}
		var l *Loop
		for _, it := range s.loop.iters {
			v := appended(it.back[list], list)
			if s.phi.init == nil || Len(s.phi.init) != Int(0) || v == nil {
				return nil, fmt.Sprintf("the list %s is not built of one value for each iteration", str(list))
			}
			var exit *Facts
			for i := range stack {
				if stack[i].loop == in {
					exit = stack[i].loop.facts
				}
			}
			l, why = covers(e, v, first, step, bound, []LoopAt{{s.loop, it, exit}})
			if l == nil {
				return nil, "of the list, " + why
			}
		}
		return in, ""
	}
	at, f0, d := iterVar(t, stack)
	if at == nil {
		return nil, fmt.Sprintf("%s does not count the iterations of one loop", str(t))
	}
	fs := at.it.facts
	if !proveEq(fs, f0, first) {
		return nil, fmt.Sprintf("it starts at %s instead of %s", str(f0), str(first))
	}
	if !proveEq(fs, d, step) {
		return nil, fmt.Sprintf("it advances by %s instead of %s", str(d), str(step))
	}
	if !prove(fs, Lt(t, bound)) {
		return nil, fmt.Sprintf("%s may reach %s", str(t), str(bound))
	}
	if !prove(at.exit, Le(bound, t)) {
		return nil, fmt.Sprintf("the loop may end while %s is below %s", str(t), str(bound))
	}
	return at.loop, ""
}

// opaqueIn makes the functions opaque that the predicate selects.
func opaqueNames(p *Program, names ...string) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		n := p.fnName(fn)
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	}
}

// catParts are the parts of a concatenation.
func catParts(t *Term) []*Term {
	if t.op == OApp && t.s == "cat" {
		return t.args
	}
	return []*Term{t}
}

// intArg: the number a formatted-integer part shows.
func intArg(t *Term) *Term {
	if t.op == OApp && strings.HasPrefix(t.s, "fmt:") && len(t.args) == 1 && (strings.HasSuffix(t.s, "d") || strings.HasSuffix(t.s, "v")) && polyIsInt(P(t.args[0])) {
		return t.args[0]
	}
	return nil
}

// appended: the value that the list t is longer by.
func appended(t, list *Term) *Term {
	ps := catParts(t)
	if len(ps) == 2 && ps[0] == list && ps[1].op == OArray && len(ps[1].args) == 1 {
		return ps[1].args[0]
	}
	return nil
}
