package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects the obligations of one property on the current tree.
type Check struct {
	id      string
	p       *Program
	tier    string
	counts  map[string]int
	total   int
	good    int
	viol    []viol
	known   map[string]string // key -> description
	hits    map[string]bool
	samples []string
	notes   []string
	rules   []string
	assume  []string
	seen    map[string]bool
}

type viol struct{ key, msg string }

type giveUp struct{ msg string }

// need aborts the check with an undecided obligation (reported as a violation).
func (c *Check) need(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(giveUp{fmt.Sprintf(f, a...)})
	}
}

// ob records one obligation.
func (c *Check) ob(key string, ok bool, pos token.Pos, f string, a ...interface{}) bool {
	c.total++
	c.counts[strings.SplitN(key, ":", 2)[0]]++
	if ok {
		c.good++
		if len(c.samples) < 12 && !c.seen[strings.SplitN(key, ":", 2)[0]] {
			c.seen[strings.SplitN(key, ":", 2)[0]] = true
			c.samples = append(c.samples, "discharged "+key+" at "+c.p.posStr(pos))
		}
		return true
	}
	m := fmt.Sprintf(f, a...)
	if d, k := c.known[key]; k {
		if !c.hits[key] {
			c.hits[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.id, key, d)
		}
		return false
	}
	c.viol = append(c.viol, viol{key, fmt.Sprintf("%s: [%s] %s", c.p.posStr(pos), key, m)})
	return false
}

func (c *Check) count(k string, n int) { c.counts[k] += n }

// atLeast fails the check when fewer instances than confirmed by hand were analysed.
func (c *Check) atLeast(k string, n int) {
	if c.counts[k] < n {
		c.viol = append(c.viol, viol{"coverage:" + k, fmt.Sprintf("?: [coverage:%s] only %d instances were found and analysed, at least %d exist", k, c.counts[k], n)})
	}
}

func (c *Check) rule(s string) { c.rules = append(c.rules, s) }

type checkFn func(c *Check)

var checks = map[string]checkFn{}

func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" ")
		if !strings.HasPrefix(rest, "key=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(rest, "key="), " -- ", 2)
		d := ""
		if len(parts) > 1 {
			d = parts[1]
		}
		out[strings.TrimSpace(parts[0])] = d
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("SA_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(id string) int {
	t0 := time.Now()
	fn := checks[id]
	c := &Check{id: id, counts: map[string]int{}, known: knownFindings(id), hits: map[string]bool{}, seen: map[string]bool{}, tier: os.Getenv("VERIF_TIER")}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if fn == nil {
		fmt.Println("no check", id)
		return 2
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case giveUp:
					c.viol = append(c.viol, viol{"undecided", "[undecided] " + x.msg})
				case bail:
					c.viol = append(c.viol, viol{"undecided", "[undecided] the analysis gave up: " + x.msg})
				default:
					c.viol = append(c.viol, viol{"undecided", fmt.Sprintf("[undecided] the analysis failed: %v\n%s", r, debug.Stack())})
				}
			}
		}()
		p, err := Load()
		if err != nil {
			c.viol = append(c.viol, viol{"load", "[load] the source does not load or type-check: " + err.Error()})
			return
		}
		c.p = p
		fn(c)
	}()
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": "Static analysis of /repo's current source in SSA form; " + strings.Join(c.rules, " "),
		"obligations": c.total, "discharged": c.good, "samples": c.samples, "analysed": c.counts,
	}
	var ks []string
	for k := range c.hits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	cov["known_findings_met"] = ks
	ev := map[string]interface{}{
		"property": id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(c.viol),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	if len(c.viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d\n", id, c.total, c.good, len(c.hits))
		return 0
	}
	rp := filepath.Join(dir, "replay", id+".txt")
	var sb strings.Builder
	for i, v := range c.viol {
		if i < 40 {
			fmt.Println(v.msg)
		}
		sb.WriteString(v.msg + "\n")
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// ---------------------------------------------------------------- helpers

func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.p.Fn(rel, name)
	c.need(f != nil && len(f.Blocks) > 0, "no function %s.%s", rel, name)
	c.counts["functions"]++
	return f
}

// fld is the field of t (of struct type typ) with the given name.
func (c *Check) fld(t *Term, typ types.Type, name string) *Term {
	st, ok := under(typ).(*types.Struct)
	c.need(ok, "%v is not a struct", typ)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fieldOf(t, i, st.Field(i).Type())
		}
	}
	c.need(false, "%v has no field %s", typ, name)
	return nil
}

func (c *Check) fldStep(typ types.Type, name string) *Term {
	st, ok := under(typ).(*types.Struct)
	c.need(ok, "%v is not a struct", typ)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return FieldStep(i)
		}
	}
	c.need(false, "%v has no field %s", typ, name)
	return nil
}

// args makes one symbol per parameter; pointer parameters are assumed not to be nil.
func args(fn *ssa.Function) ([]*Term, *Facts) {
	var as []*Term
	f := emptyFacts
	for _, p := range fn.Params {
		a := Sym("arg:"+p.Name(), p.Type())
		as = append(as, a)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			f = f.AddAll([]*Term{Not(Eq(a, Nil(p.Type())))})
		}
	}
	return as, f
}

func (c *Check) run(e *Eng, fn *ssa.Function, as []*Term, f *Facts) []Outcome {
	outs, err := e.Run(fn, as, e.newState(f))
	c.need(err == nil, "%s: the analysis gave up: %v", c.p.fnName(fn), err)
	c.counts["paths"] += len(outs)
	return outs
}

// valid reports a contradiction-free set of facts.
func valid(f *Facts) bool { return !f.Entails(GT(Int(-1))) && !f.Entails(GE(Int(-1))) }

// prove decides a goal under facts, splitting the cases of max and min terms.
func prove(f *Facts, goal *Term) bool { return proveN(f, goal, 4) }

func proveN(f *Facts, goal *Term, d int) bool {
	if f.Entails(goal) {
		return true
	}
	if d == 0 {
		return false
	}
	if goal.op == OApp && goal.s == "and" {
		for _, g := range goal.args {
			if !proveN(f, g, d) {
				return false
			}
		}
		return true
	}
	if goal.op == ONot && goal.args[0].op == OApp && goal.args[0].s == "and" {
		for i, a := range goal.args[0].args {
			// one of them, the others failing
			g, ok := f, true
			for j, b := range goal.args[0].args {
				if j != i && ok {
					g, ok = g.Assume(b)
				}
			}
			if !ok || proveN(g, Not(a), d-1) {
				return true
			}
		}
		return false
	}
	var at *Term
	find := func(t *Term) bool {
		if t.op == OApp && (t.s == "max" || t.s == "min") {
			at = t
			return true
		}
		return false
	}
	if !mentions(goal, find) {
		// cases of a disjunction
		for _, l := range f.lits {
			if !(l.op == ONot && l.args[0].op == OApp && l.args[0].s == "and") {
				continue
			}
			h := f.without(l)
			all := true
			for _, a := range l.args[0].args {
				g, ok := h.Assume(Not(a))
				if ok && valid(g) && !proveN(g, goal, d-1) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
		return false
	}
	return splitOn(f, goal, at, d)
}

// proveSplit is prove, with the cases of max and min terms in what is known as well.
func proveSplit(f *Facts, goal *Term) bool {
	if prove(f, goal) {
		return true
	}
	var at []*Term
	for _, l := range f.lits {
		if l.op != OCmp {
			continue
		}
		for id := range atomsOf(P(l.args[0])) {
			if t := allTerms[id]; t.op == OApp && (t.s == "max" || t.s == "min") {
				at = append(at, t)
			}
		}
	}
	for _, t := range at {
		if splitOn(f, goal, t, 4) {
			return true
		}
	}
	return false
}

// splitOn decides the goal for each value a max or min term may have.
func splitOn(f *Facts, goal, at *Term, d int) bool {
	for _, a := range at.args {
		g := f
		ok := true
		for _, b := range at.args {
			if a == b {
				continue
			}
			l := Le(b, a)
			if at.s == "min" {
				l = Le(a, b)
			}
			if g, ok = g.Assume(l); !ok {
				break
			}
		}
		if !ok {
			continue
		}
		m := map[*Term]*Term{at: a}
		memo := map[*Term]*Term{}
		var ls []*Term
		for _, l := range g.lits {
			ls = append(ls, subst(l, m, memo))
		}
		h := emptyFacts.AddAll(ls)
		dead := false
		for _, l := range ls {
			if l.op == OBool && !l.b {
				dead = true
			}
		}
		if dead {
			continue
		}
		if !proveN(h, subst(goal, m, memo), d-1) {
			return false
		}
	}
	return true
}

func (f *Facts) without(l *Term) *Facts {
	var ls []*Term
	for _, x := range f.lits {
		if x != l {
			ls = append(ls, x)
		}
	}
	return emptyFacts.AddAll(ls)
}

// proveEq decides a = b under facts.
func proveEq(f *Facts, a, b *Term) bool { return a == b || prove(f, Eq(a, b)) }

func str(t *Term) string {
	s := t.String()
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}
