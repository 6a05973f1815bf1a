package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Facts is an immutable conjunction of literals that hold at a program point.
type Facts struct {
	lits []*Term
	set  map[*Term]bool
	memo map[*Term]bool
	key  string
}

var emptyFacts = &Facts{set: map[*Term]bool{}, memo: map[*Term]bool{}}

var factIntern = map[string]*Facts{}

func mkFacts(lits []*Term) *Facts {
	s := append([]*Term(nil), lits...)
	sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id })
	k := idsKey(s)
	if f, ok := factIntern[k]; ok {
		return f
	}
	f := &Facts{lits: lits, set: make(map[*Term]bool, len(lits)), memo: map[*Term]bool{}, key: k}
	for _, l := range lits {
		f.set[l] = true
	}
	factIntern[k] = f
	return f
}

// Assume adds a literal; ok is false when the result is contradictory.
func (f *Facts) Assume(l *Term) (*Facts, bool) {
	if l.op == OBool {
		return f, l.b
	}
	if l.op == OApp && l.s == "and" {
		g := f
		ok := true
		for _, x := range l.args {
			if g, ok = g.Assume(x); !ok {
				return g, false
			}
		}
		return g, true
	}
	if f.set[l] {
		return f, true
	}
	if f.Entails(Not(l)) {
		return f, false
	}
	return mkFacts(append(append(make([]*Term, 0, len(f.lits)+1), f.lits...), l)), true
}

// AddAll assumes all of ls, ignoring contradictions.
func (f *Facts) AddAll(ls []*Term) *Facts {
	out := append([]*Term(nil), f.lits...)
	seen := map[*Term]bool{}
	for _, l := range out {
		seen[l] = true
	}
	for _, l := range ls {
		if l.op == OBool {
			continue
		}
		if l.op == OApp && l.s == "and" {
			for _, x := range l.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return mkFacts(out)
}

// Intersect keeps the literals of f that g entails too, and vice versa.
func (f *Facts) Intersect(g *Facts) *Facts {
	if f == g {
		return f
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range f.lits {
		if g.set[l] || g.Entails(l) {
			out = append(out, l)
			seen[l] = true
		}
	}
	for _, l := range g.lits {
		if !seen[l] && f.Entails(l) {
			out = append(out, l)
		}
	}
	return mkFacts(out)
}

// Without returns the literals of f that g does not contain.
func (f *Facts) Without(g *Facts) []*Term {
	var out []*Term
	for _, l := range f.lits {
		if !g.set[l] {
			out = append(out, l)
		}
	}
	return out
}

func (f *Facts) String() string {
	var s []string
	for _, l := range f.lits {
		s = append(s, l.String())
	}
	return strings.Join(s, " ; ")
}

// Entails decides, soundly but incompletely, whether the facts imply l.
func (f *Facts) Entails(l *Term) bool {
	if l.op == OBool {
		return l.b
	}
	if f.set[l] {
		return true
	}
	if r, ok := f.memo[l]; ok {
		return r
	}
	f.memo[l] = false
	r := f.entails(l)
	f.memo[l] = r
	return r
}

func (f *Facts) entails(l *Term) bool {
	if f.set[Not(l)] {
		return false
	}
	switch l.op {
	case OApp:
		if l.s == "and" {
			for _, x := range l.args {
				if !f.Entails(x) {
					return false
				}
			}
			return true
		}
	case OCmp:
		p := P(l.args[0])
		switch l.s {
		case "ge":
			return f.infeasible(con{p: polyAdd(mkPoly(nil), p, ratMinus), strict: true})
		case "gt":
			return f.infeasible(con{p: polyAdd(mkPoly(nil), p, ratMinus)})
		case "eq":
			if f.infeasible(con{p: p, strict: true}) && f.infeasible(con{p: polyAdd(mkPoly(nil), p, ratMinus), strict: true}) {
				return true
			}
			return f.ZeroBySubst(l.args[0])
		}
	case ONot:
		x := l.args[0]
		if x.op == OCmp && x.s == "eq" {
			p := P(x.args[0])
			return f.infeasible(con{p: p}) || f.infeasible(con{p: polyAdd(mkPoly(nil), p, ratMinus)}) || f.infeasibleEq(p)
		}
		if x.op == OEq {
			// a == c1 refutes a == c2
			for _, g := range f.lits {
				if g.op != OEq {
					continue
				}
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if g.args[i] == x.args[j] && distinctConsts(g.args[1-i], x.args[1-j]) {
							return true
						}
					}
				}
			}
		}
		if x.op == OApp && x.s == "and" {
			for _, y := range x.args {
				if f.Entails(Not(y)) {
					return true
				}
			}
			// assume all but one
			return false
		}
	case OEq:
		// transitivity through constants: a==c and b==c
		for _, g := range f.lits {
			if g.op != OEq {
				continue
			}
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if g.args[i] == l.args[j] && f.set[Eq(g.args[1-i], l.args[1-j])] {
						return true
					}
				}
			}
		}
	}
	// disjunctive facts: !(a & b): if the facts entail a then !b
	for _, g := range f.lits {
		if g.op == ONot && g.args[0].op == OApp && g.args[0].s == "and" {
			cs := g.args[0].args
			for i, c := range cs {
				if Not(c) != l {
					continue
				}
				all := true
				for j, d := range cs {
					if j != i && !f.set[d] && !f.Entails(d) {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func distinctConsts(a, b *Term) bool {
	e := Eq(a, b)
	return e.op == OBool && !e.b
}

// ---------------------------------------------------------------- linear reasoning

type con struct { // p >= 0 or p > 0
	p      *Poly
	strict bool
}

var natMemo = map[*Term][]con{}

func typeRange(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return nil, nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	w := 0
	switch b.Kind() {
	case types.Uint8:
		w = 8
	case types.Uint16:
		w = 16
	case types.Uint32:
		w = 32
	case types.Uint64, types.Uint, types.Uintptr:
		w = 64
	case types.Int8:
		w = -8
	case types.Int16:
		w = -16
	case types.Int32:
		w = -32
	case types.Int64, types.Int:
		w = -64
	default:
		return nil, nil
	}
	if w > 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(-w-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
}

// atomAxioms returns unconditional bounds of a numeric atom.
func atomAxioms(t *Term) []con {
	if c, ok := natMemo[t]; ok {
		return c
	}
	var out []con
	ge := func(p *Term) { out = append(out, con{p: P(p)}) }
	gt := func(p *Term) { out = append(out, con{p: P(p), strict: true}) }
	switch t.op {
	case OSym:
		if strings.HasPrefix(t.s, "iter:") || strings.HasPrefix(t.s, "nat:") {
			ge(t)
		}
	case OApp:
		switch t.s {
		case "len":
			ge(t)
		case "atoi":
			// digits without a sign
			if g := t.args[0]; g.op == OApp && (g.s == "group:[0-9]+" || g.s == `group:\d+`) {
				ge(t)
			}
		case "floor":
			ge(Sub(t.args[0], t))
			gt(Sub(Add(t, Int(1)), t.args[0]))
		case "ceil":
			ge(Sub(t, t.args[0]))
			gt(Sub(Add(t.args[0], Int(1)), t))
		case "round":
			ge(Sub(Add(t.args[0], Rat(big.NewRat(1, 2))), t))
			ge(Sub(t, Sub(t.args[0], Rat(big.NewRat(1, 2)))))
		case "max":
			for _, a := range t.args {
				ge(Sub(t, a))
			}
		case "min":
			for _, a := range t.args {
				ge(Sub(a, t))
			}
		case "bits":
			ge(t)
			if w, ok := constInt(t.args[2]); ok && w < 63 {
				ge(Sub(Int(1<<uint(w)-1), t))
			}
		case "bor", "band":
			ge(t)
		}
	}
	if t.typ != nil && isIntType(t.typ) {
		lo, hi := typeRange(t.typ)
		if lo != nil && lo.Sign() == 0 {
			ge(t)
		}
		if hi != nil && hi.BitLen() <= 32 {
			ge(Sub(Rat(new(big.Rat).SetInt(hi)), t))
			if lo.Sign() != 0 {
				ge(Sub(t, Rat(new(big.Rat).SetInt(lo))))
			}
		}
	}
	natMemo[t] = out
	return out
}

// condAxioms returns bounds of an atom that need a side condition from the facts.
func (f *Facts) condAxioms(t *Term) []con {
	if t.op != OApp {
		return nil
	}
	switch t.s {
	case "idiv":
		a, b := t.args[0], t.args[1]
		if f.Entails(GE(a)) && f.Entails(GE(Sub(b, Int(1)))) {
			r := Sub(a, Mul(b, t))
			return []con{{p: P(r)}, {p: P(Sub(Sub(b, r), Int(1)))}, {p: P(t)}, {p: P(Sub(a, t))}}
		}
		if _, ok := constInt(b); ok {
			return nil
		}
	case "trunc":
		a := t.args[0]
		if f.Entails(GE(a)) {
			return []con{{p: P(Sub(a, t))}, {p: P(Sub(Add(t, Int(1)), a)), strict: true}, {p: P(t)}}
		}
		if f.Entails(GE(Neg(a))) {
			return []con{{p: P(Sub(t, a))}, {p: P(Sub(Add(a, Int(1)), t)), strict: true}, {p: P(Neg(t))}}
		}
	}
	return nil
}

// system gathers the constraints relevant to the polynomials in seed.
func (f *Facts) system(seed []con) ([]con, []*Poly, []*Poly) {
	var cons []con
	var eqs, nes []*Poly
	type item struct {
		c    con
		kind int // 0 ge/gt, 1 eq, 2 ne
	}
	var pool []item
	for _, l := range f.lits {
		switch {
		case l.op == OCmp && l.s == "ge":
			pool = append(pool, item{con{p: P(l.args[0])}, 0})
		case l.op == OCmp && l.s == "gt":
			pool = append(pool, item{con{p: P(l.args[0]), strict: true}, 0})
		case l.op == OCmp && l.s == "eq":
			pool = append(pool, item{con{p: P(l.args[0])}, 1})
		case l.op == ONot && l.args[0].op == OCmp && l.args[0].s == "eq":
			pool = append(pool, item{con{p: P(l.args[0].args[0])}, 2})
		}
	}
	mset := map[string]bool{}
	aset := map[int]bool{}
	var work []int
	addPoly := func(p *Poly) {
		for _, m := range p.monos {
			if len(m.vars) == 0 {
				continue
			}
			mset[monoKey(m.vars)] = true
			for _, v := range m.vars {
				if !aset[v.id] {
					aset[v.id] = true
					work = append(work, v.id)
				}
			}
		}
	}
	for _, c := range seed {
		addPoly(c.p)
		cons = append(cons, c)
	}
	used := make([]bool, len(pool))
	monoDone := map[string]bool{}
	for {
		changed := false
		for len(work) > 0 {
			id := work[len(work)-1]
			work = work[:len(work)-1]
			t := allTerms[id]
			for _, c := range atomAxioms(t) {
				cons = append(cons, c)
				addPoly(c.p)
			}
			for _, c := range f.condAxioms(t) {
				cons = append(cons, c)
				addPoly(c.p)
			}
			if f.positiveFactor(t) && f.signOf1(t) == 1 {
				cons = append(cons, con{p: P(t), strict: true})
			}
			if t.op == OApp && t.s == "idiv" {
				// bounds on a quotient bound the dividend
				if a, b := t.args[0], t.args[1]; !isConstTerm(b) && f.Entails(GE(Sub(b, Int(1)))) {
					qb := Mul(t, b)
					cs := []con{{p: P(Sub(Sub(Add(qb, b), a), Int(1)))}}
					if f.plainInfeasible(con{p: P(Neg(t))}) {
						cs = append(cs, con{p: P(Sub(a, qb))})
					}
					for _, c := range cs {
						cons = append(cons, c)
						addPoly(c.p)
					}
					for _, it := range pool {
						if it.kind == 0 && linearIn(it.c.p, t) {
							x := con{p: polyMul(it.c.p, P(b)), strict: it.c.strict}
							cons = append(cons, x)
							addPoly(x.p)
						}
					}
				}
			}
			changed = true
		}
		for i, it := range pool {
			if used[i] {
				continue
			}
			rel := false
			for _, m := range it.c.p.monos {
				if len(m.vars) > 0 && mset[monoKey(m.vars)] {
					rel = true
					break
				}
			}
			if !rel {
				continue
			}
			used[i] = true
			changed = true
			addPoly(it.c.p)
			switch it.kind {
			case 0:
				cons = append(cons, it.c)
			case 1:
				eqs = append(eqs, it.c.p)
			case 2:
				nes = append(nes, it.c.p)
			}
		}
		// sign of products of atoms of known sign
		for _, p := range polysOf(cons, eqs) {
			for _, m := range p.monos {
				if len(m.vars) < 2 && !(len(m.vars) == 1 && m.vars[0].exp != 1) {
					continue
				}
				k := monoKey(m.vars)
				if monoDone[k] {
					continue
				}
				monoDone[k] = true
				if s := f.monoSign(m.vars); s != 0 {
					q := mkPoly(map[string]mono{k: {vars: m.vars, coef: ratOne}})
					if s < 0 {
						q = polyAdd(mkPoly(nil), q, ratMinus)
					}
					cons = append(cons, con{p: q, strict: s == 2 || s == -2})
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return cons, eqs, nes
}

// plainInfeasible refutes with the inequalities alone.
func (f *Facts) plainInfeasible(c con) bool {
	cons := []con{c}
	seen := map[int]bool{}
	add := func(p *Poly) {
		for _, m := range p.monos {
			for _, v := range m.vars {
				if !seen[v.id] {
					seen[v.id] = true
					cons = append(cons, atomAxioms(allTerms[v.id])...)
				}
			}
		}
	}
	add(c.p)
	for _, l := range f.lits {
		if l.op == OCmp && (l.s == "ge" || l.s == "gt") {
			p := P(l.args[0])
			cons = append(cons, con{p: p, strict: l.s == "gt"})
			add(p)
		}
	}
	return fmInfeasible(cons, nil)
}

func isConstTerm(t *Term) bool { _, ok := constNum(t); return ok }

// linearIn: the atom occurs in the polynomial by itself only.
func linearIn(p *Poly, t *Term) bool {
	found := false
	for _, m := range p.monos {
		for _, v := range m.vars {
			if v.id == t.id {
				if len(m.vars) != 1 || v.exp != 1 {
					return false
				}
				found = true
			}
		}
	}
	return found
}

func polysOf(cons []con, eqs []*Poly) []*Poly {
	out := append([]*Poly(nil), eqs...)
	for _, c := range cons {
		out = append(out, c.p)
	}
	return out
}

// signOf: 2 positive, 1 non-negative, -1 non-positive, -2 negative, 0 unknown; from direct facts only.
func (f *Facts) signOf(t *Term) int {
	s := f.signOf1(t)
	if s == 1 && f.positiveFactor(t) {
		return 2
	}
	return s
}

// positiveFactor: the atom is a factor of a product of numbers that are not negative, and the
// product is known to be positive.
func (f *Facts) positiveFactor(t *Term) bool {
	for _, l := range f.lits {
		if l.op != OCmp || l.s != "ge" && l.s != "gt" {
			continue
		}
		for _, m := range P(l.args[0]).monos {
			if len(m.vars) < 2 || m.coef.Sign() <= 0 {
				continue
			}
			in, ok := false, true
			for _, v := range m.vars {
				in = in || v.id == t.id
				ok = ok && v.exp == 1 && (v.id == t.id || f.signOf1(allTerms[v.id]) > 0)
			}
			if !in || !ok {
				continue
			}
			k := monoKey(m.vars)
			if f.plainInfeasible(con{p: polyAdd(mkPoly(nil), mkPoly(map[string]mono{k: {vars: m.vars, coef: ratOne}}), ratMinus)}) {
				return true
			}
		}
	}
	return false
}

func (f *Facts) signOf1(t *Term) int {
	if f.set[GT(t)] || f.set[GE(Sub(t, Int(1)))] {
		return 2
	}
	for _, l := range f.lits {
		if l.op == OCmp && (l.s == "ge" || l.s == "gt") {
			// single-atom bound: t - c >= 0 with c > 0
			p := P(l.args[0])
			if len(p.monos) == 2 || len(p.monos) == 1 {
				var k = ratZero
				var co *big.Rat
				for _, m := range p.monos {
					if len(m.vars) == 0 {
						k = m.coef
					} else if len(m.vars) == 1 && m.vars[0].id == t.id && m.vars[0].exp == 1 {
						co = m.coef
					} else {
						co = nil
						break
					}
				}
				if co != nil && co.Sign() > 0 && (k.Sign() < 0 || k.Sign() == 0 && l.s == "gt") {
					return 2
				}
			}
		}
	}
	for _, c := range atomAxioms(t) {
		if len(c.p.monos) == 1 && len(c.p.monos[0].vars) == 1 && c.p.monos[0].vars[0].id == t.id && c.p.monos[0].coef.Sign() > 0 {
			return 1
		}
	}
	if f.set[GE(t)] {
		return 1
	}
	if t.op == OApp && (t.s == "max") {
		best := 0
		for _, a := range t.args {
			if s := f.signOf1(a); s > best {
				best = s
			}
		}
		return best
	}
	if t.op == OApp && t.s == "ceil" {
		if f.Entails(GT(t.args[0])) {
			return 2
		}
	}
	return 0
}

func (f *Facts) monoSign(v []varExp) int {
	s := 2
	for _, x := range v {
		if x.exp%2 == 0 && x.exp > 0 {
			if s == 2 {
				s = 1
			}
			continue
		}
		a := f.signOf(allTerms[x.id])
		if a <= 0 {
			return 0
		}
		if x.exp < 0 && a < 2 {
			return 0
		}
		if a < s {
			s = a
		}
	}
	return s
}

func (f *Facts) infeasible(c con) bool {
	cons, eqs, nes := f.system([]con{c})
	if fmInfeasible(cons, eqs) {
		return true
	}
	// strengthen with disequalities p != 0 where one side is known
	if len(nes) > 0 {
		ext := append([]con(nil), cons...)
		added := false
		for _, p := range nes {
			np := polyAdd(mkPoly(nil), p, ratMinus)
			if fmInfeasible(append(append([]con(nil), ext...), con{p: np, strict: true}), eqs) {
				ext = append(ext, con{p: p, strict: true})
				added = true
			} else if fmInfeasible(append(append([]con(nil), ext...), con{p: p, strict: true}), eqs) {
				ext = append(ext, con{p: np, strict: true})
				added = true
			}
		}
		if added && fmInfeasible(ext, eqs) {
			return true
		}
	}
	return false
}

// infeasibleEq reports whether p = 0 contradicts the facts.
func (f *Facts) infeasibleEq(p *Poly) bool {
	np := polyAdd(mkPoly(nil), p, ratMinus)
	cons, eqs, nes := f.system([]con{{p: p}, {p: np}})
	if fmInfeasible(cons, eqs) {
		return true
	}
	for _, q := range nes {
		// q != 0 but p = 0 makes q = 0?
		nq := polyAdd(mkPoly(nil), q, ratMinus)
		if fmInfeasible(append(append([]con(nil), cons...), con{p: q, strict: true}), eqs) &&
			fmInfeasible(append(append([]con(nil), cons...), con{p: nq, strict: true}), eqs) {
			return true
		}
	}
	return false
}

type lin struct {
	co     map[string]*big.Rat
	k      *big.Rat
	strict bool
	isInt  bool
}

func toLin(c con) lin {
	l := lin{co: map[string]*big.Rat{}, k: ratZero, strict: c.strict, isInt: polyIsInt(c.p)}
	for _, m := range c.p.monos {
		if len(m.vars) == 0 {
			l.k = m.coef
		} else {
			l.co[monoKey(m.vars)] = m.coef
		}
	}
	if l.isInt && l.strict {
		l.k = new(big.Rat).Sub(l.k, ratOne)
		l.strict = false
	}
	return l
}

// fmInfeasible is Fourier-Motzkin elimination over the monomials.
func fmInfeasible(cons []con, eqs []*Poly) bool {
	var ls []lin
	seen := map[string]bool{}
	add := func(c con) {
		k := c.p.key
		if c.strict {
			k += "!"
		}
		if !seen[k] {
			seen[k] = true
			ls = append(ls, toLin(c))
		}
	}
	for _, c := range cons {
		add(c)
	}
	// equalities: eliminate by substitution
	var es []lin
	for _, p := range eqs {
		es = append(es, toLin(con{p: p}))
	}
	for len(es) > 0 {
		e := es[len(es)-1]
		es = es[:len(es)-1]
		var v string
		for k, c := range e.co {
			if c.Sign() != 0 && (v == "" || k < v) {
				v = k
			}
		}
		if v == "" {
			if e.k.Sign() != 0 {
				return true
			}
			continue
		}
		// prefer unit coefficients
		for k, c := range e.co {
			if c.IsInt() && c.Num().IsInt64() && (c.Num().Int64() == 1 || c.Num().Int64() == -1) && (e.co[v].Num().CmpAbs(big.NewInt(1)) != 0 || k < v) {
				v = k
			}
		}
		cv := e.co[v]
		sub := func(l lin) lin {
			c, ok := l.co[v]
			if !ok || c.Sign() == 0 {
				return l
			}
			f := new(big.Rat).Quo(c, cv)
			n := lin{co: map[string]*big.Rat{}, k: new(big.Rat).Sub(l.k, new(big.Rat).Mul(f, e.k)), strict: l.strict, isInt: l.isInt}
			for k, x := range l.co {
				n.co[k] = x
			}
			for k, x := range e.co {
				y := new(big.Rat).Mul(f, x)
				if z, ok := n.co[k]; ok {
					y = new(big.Rat).Sub(z, y)
				} else {
					y = y.Neg(y)
				}
				if y.Sign() == 0 {
					delete(n.co, k)
				} else {
					n.co[k] = y
				}
			}
			return n
		}
		for i := range es {
			es[i] = sub(es[i])
		}
		for i := range ls {
			ls[i] = sub(ls[i])
		}
	}
	tighten := func(l *lin) {
		if !l.isInt {
			return
		}
		var g *big.Int
		for _, c := range l.co {
			if !c.IsInt() {
				return
			}
			a := new(big.Int).Abs(c.Num())
			if g == nil {
				g = a
			} else {
				g = new(big.Int).GCD(nil, nil, g, a)
			}
		}
		if g == nil || g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
			if l.k.IsInt() {
				return
			}
			g = big.NewInt(1)
		}
		gr := new(big.Rat).SetInt(g)
		n := map[string]*big.Rat{}
		for k, c := range l.co {
			n[k] = new(big.Rat).Quo(c, gr)
		}
		q := new(big.Rat).Quo(l.k, gr)
		l.k = new(big.Rat).SetInt(new(big.Int).Div(q.Num(), q.Denom()))
		l.co = n
	}
	for i := range ls {
		tighten(&ls[i])
	}
	for rounds := 0; rounds < 60; rounds++ {
		pos := map[string]int{}
		neg := map[string]int{}
		var rest []lin
		for _, l := range ls {
			if len(l.co) == 0 {
				if l.k.Sign() < 0 || l.strict && l.k.Sign() == 0 {
					return true
				}
				continue
			}
			rest = append(rest, l)
			for k, c := range l.co {
				if c.Sign() > 0 {
					pos[k]++
				} else if c.Sign() < 0 {
					neg[k]++
				}
			}
		}
		ls = rest
		if len(ls) == 0 {
			return false
		}
		best, bc := "", 1<<30
		keys := map[string]bool{}
		for k := range pos {
			keys[k] = true
		}
		for k := range neg {
			keys[k] = true
		}
		for k := range keys {
			c := pos[k]*neg[k] - pos[k] - neg[k]
			if c < bc || c == bc && k < best {
				best, bc = k, c
			}
		}
		var ps, ns, out []lin
		for _, l := range ls {
			c, ok := l.co[best]
			switch {
			case !ok || c.Sign() == 0:
				out = append(out, l)
			case c.Sign() > 0:
				ps = append(ps, l)
			default:
				ns = append(ns, l)
			}
		}
		if len(ps)*len(ns)+len(out) > 600 {
			return false
		}
		dedupe := map[string]bool{}
		for _, p := range ps {
			for _, n := range ns {
				a := new(big.Rat).Neg(n.co[best])
				b := p.co[best]
				r := lin{co: map[string]*big.Rat{}, strict: p.strict || n.strict, isInt: p.isInt && n.isInt}
				r.k = new(big.Rat).Add(new(big.Rat).Mul(p.k, a), new(big.Rat).Mul(n.k, b))
				for k, x := range p.co {
					r.co[k] = new(big.Rat).Mul(x, a)
				}
				for k, x := range n.co {
					y := new(big.Rat).Mul(x, b)
					if z, ok := r.co[k]; ok {
						y.Add(y, z)
					}
					r.co[k] = y
				}
				for k, x := range r.co {
					if x.Sign() == 0 {
						delete(r.co, k)
					}
				}
				tighten(&r)
				key := linKey(r)
				if dedupe[key] {
					continue
				}
				dedupe[key] = true
				out = append(out, r)
			}
		}
		ls = out
	}
	return false
}

func linKey(l lin) string {
	ks := make([]string, 0, len(l.co))
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteString(l.co[k].RatString())
		sb.WriteByte(';')
	}
	sb.WriteString(l.k.RatString())
	if l.strict {
		sb.WriteByte('!')
	}
	return sb.String()
}

// Equalities returns polynomials that the facts force to be zero.
func (f *Facts) equalities(rel map[int]bool) []*Poly {
	var out []*Poly
	for _, l := range f.lits {
		if l.op != OCmp {
			continue
		}
		p := P(l.args[0])
		hit := false
		for a := range atomsOf(p) {
			if rel[a] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		switch l.s {
		case "eq":
			out = append(out, p)
		case "ge":
			if f.infeasible(con{p: p, strict: true}) {
				out = append(out, p)
			}
		}
	}
	return out
}

// ZeroBySubst decides p = 0 using the equalities implied by the facts, also inside products.
func (f *Facts) ZeroBySubst(t *Term) bool {
	p := P(t)
	for round := 0; round < 8; round++ {
		if len(p.monos) == 0 {
			return true
		}
		rel := atomsOf(p)
		progress := false
		for _, e := range f.equalities(rel) {
			// solve e for an atom that occurs once, linearly, alone in its monomial
			for _, m := range e.monos {
				if len(m.vars) != 1 || m.vars[0].exp != 1 || !rel[m.vars[0].id] {
					continue
				}
				id := m.vars[0].id
				n := 0
				for _, m2 := range e.monos {
					for _, v := range m2.vars {
						if v.id == id {
							n++
						}
					}
				}
				if n != 1 {
					continue
				}
				at := allTerms[id]
				rhs := numPoly(polyAdd(polyAtom(at), e, new(big.Rat).Neg(new(big.Rat).Inv(m.coef))))
				q := P(subst(numPoly(p), map[*Term]*Term{at: rhs}, map[*Term]*Term{}))
				if q.key != p.key && (len(q.monos) == 0 || len(q.monos) <= len(p.monos)) {
					p = q
					progress = true
					break
				}
			}
			if progress {
				break
			}
		}
		if !progress {
			return false
		}
	}
	return len(p.monos) == 0
}

// EqTerm decides whether two values are equal under the facts.
func (f *Facts) EqTerm(a, b *Term) bool {
	if a == b {
		return true
	}
	return f.Entails(Eq(a, b))
}
