package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a symbolic value.
type Op uint8

const (
	ONum     Op = iota // polynomial over numeric atoms
	OBool              // boolean constant
	OStr               // string constant
	OStruct            // struct with known fields
	OArray             // array / element list with known elements
	OTuple             // tuple
	ONil               // nil of some type
	OPtr               // address: args[0] base object, args[1:] path steps
	OObj               // identity of a heap object
	OSlice             // args: object, offset, length
	OClosure           // function value with bindings
	OIface             // interface holding args[0] of dynamic type typ
	OSym               // opaque input or havoc symbol
	OApp               // uninterpreted (or structurally normalised) application
	OCmp               // comparison of a polynomial with zero: s in ge, gt, eq
	ONot               // negation
	OEq                // equality of two non-numeric terms
)

// Term is a hash-consed symbolic value.
type Term struct {
	id   int
	op   Op
	s    string
	args []*Term
	typ  types.Type
	num  *Poly
	fn   *ssa.Function
	b    bool
	// scope of the loops in whose generic iteration a symbol was created.
	scope string
	maxd  int
}

var (
	interned = map[string]*Term{}
	allTerms []*Term
	typKeys  = map[types.Type]string{}
)

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typKeys[t] = k
	return k
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := interned[key]; ok {
		return t
	}
	t := mk()
	t.id = len(allTerms)
	allTerms = append(allTerms, t)
	interned[key] = t
	for _, a := range t.args {
		if a.maxd >= t.maxd {
			t.maxd = a.maxd + 1
		}
	}
	return t
}

func idsKey(args []*Term) string {
	var sb strings.Builder
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func mk(op Op, s string, typ types.Type, args ...*Term) *Term {
	key := fmt.Sprintf("%d|%s|%s|%s", op, s, typKey(typ), idsKey(args))
	return intern(key, func() *Term {
		return &Term{op: op, s: s, typ: typ, args: append([]*Term(nil), args...)}
	})
}

// ---------------------------------------------------------------- polynomials

type varExp struct{ id, exp int }

type mono struct {
	vars []varExp
	coef *big.Rat
}

// Poly is a Laurent polynomial with rational coefficients; atoms are term ids.
type Poly struct {
	monos []mono // sorted by key
	key   string
}

func monoKey(v []varExp) string {
	var sb strings.Builder
	for _, x := range v {
		fmt.Fprintf(&sb, "%d^%d*", x.id, x.exp)
	}
	return sb.String()
}

func mkPoly(m map[string]mono) *Poly {
	p := &Poly{}
	keys := make([]string, 0, len(m))
	for k, x := range m {
		if x.coef.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		p.monos = append(p.monos, m[k])
		sb.WriteString(m[k].coef.RatString())
		sb.WriteByte('*')
		sb.WriteString(k)
		sb.WriteByte('+')
	}
	p.key = sb.String()
	return p
}

func polyConst(r *big.Rat) *Poly {
	return mkPoly(map[string]mono{"": {coef: r}})
}

func polyAtom(t *Term) *Poly {
	v := []varExp{{t.id, 1}}
	return mkPoly(map[string]mono{monoKey(v): {vars: v, coef: big.NewRat(1, 1)}})
}

func polyAdd(a, b *Poly, kb *big.Rat) *Poly {
	m := make(map[string]mono, len(a.monos)+len(b.monos))
	for _, x := range a.monos {
		m[monoKey(x.vars)] = x
	}
	for _, x := range b.monos {
		k := monoKey(x.vars)
		c := new(big.Rat).Mul(x.coef, kb)
		if y, ok := m[k]; ok {
			c.Add(c, y.coef)
		}
		m[k] = mono{vars: x.vars, coef: c}
	}
	return mkPoly(m)
}

func mulVars(a, b []varExp) []varExp {
	m := map[int]int{}
	for _, x := range a {
		m[x.id] += x.exp
	}
	for _, x := range b {
		m[x.id] += x.exp
	}
	var out []varExp
	for id, e := range m {
		if e != 0 {
			out = append(out, varExp{id, e})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func polyMul(a, b *Poly) *Poly {
	m := map[string]mono{}
	for _, x := range a.monos {
		for _, y := range b.monos {
			v := mulVars(x.vars, y.vars)
			k := monoKey(v)
			c := new(big.Rat).Mul(x.coef, y.coef)
			if z, ok := m[k]; ok {
				c.Add(c, z.coef)
			}
			m[k] = mono{vars: v, coef: c}
		}
	}
	return mkPoly(m)
}

func (p *Poly) isConst() (*big.Rat, bool) {
	switch len(p.monos) {
	case 0:
		return new(big.Rat), true
	case 1:
		if len(p.monos[0].vars) == 0 {
			return p.monos[0].coef, true
		}
	}
	return nil, false
}

func (p *Poly) constPart() *big.Rat {
	for _, m := range p.monos {
		if len(m.vars) == 0 {
			return m.coef
		}
	}
	return new(big.Rat)
}

// ---------------------------------------------------------------- constructors

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNumType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

// isIntTerm reports whether an atom always holds an integer.
func isIntTerm(t *Term) bool {
	if t.op == OApp {
		switch t.s {
		case "trunc", "floor", "ceil", "idiv", "len", "round":
			return true
		case "max", "min":
			for _, a := range t.args {
				if !polyIsInt(a.num) {
					return false
				}
			}
			return true
		case "wrap", "bits", "bor", "band", "bxor", "inv":
			return t.s != "inv"
		}
	}
	return isIntType(t.typ)
}

func polyIsInt(p *Poly) bool {
	if p == nil {
		return false
	}
	for _, m := range p.monos {
		if !m.coef.IsInt() {
			return false
		}
		for _, v := range m.vars {
			if v.exp < 0 || !isIntTerm(allTerms[v.id]) {
				return false
			}
		}
	}
	return true
}

func numPoly(p *Poly) *Term {
	// a polynomial that is exactly one atom is that atom itself
	if len(p.monos) == 1 && len(p.monos[0].vars) == 1 && p.monos[0].vars[0].exp == 1 && p.monos[0].coef.Cmp(ratOne) == 0 {
		return allTerms[p.monos[0].vars[0].id]
	}
	return intern("N|"+p.key, func() *Term {
		t := &Term{op: ONum, num: p}
		for _, m := range p.monos {
			for _, v := range m.vars {
				if d := allTerms[v.id].maxd; d >= t.maxd {
					t.maxd = d + 1
				}
			}
		}
		return t
	})
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)
var ratMinus = big.NewRat(-1, 1)

// P returns the polynomial view of a numeric term.
func P(t *Term) *Poly {
	if t.op == ONum {
		return t.num
	}
	if t.num == nil {
		t.num = polyAtom(t)
	}
	return t.num
}

func Rat(r *big.Rat) *Term { return numPoly(polyConst(r)) }
func Int(i int64) *Term    { return Rat(new(big.Rat).SetInt64(i)) }
func Add(a, b *Term) *Term { return numPoly(polyAdd(P(a), P(b), ratOne)) }
func Sub(a, b *Term) *Term { return numPoly(polyAdd(P(a), P(b), ratMinus)) }
func Mul(a, b *Term) *Term { return numPoly(polyMul(P(a), P(b))) }
func Neg(a *Term) *Term    { return Sub(Int(0), a) }
func MulK(a *Term, num, den int64) *Term {
	return numPoly(polyMul(P(a), polyConst(big.NewRat(num, den))))
}

func constNum(t *Term) (*big.Rat, bool) {
	if t.op != ONum {
		return nil, false
	}
	return t.num.isConst()
}

func constInt(t *Term) (int64, bool) {
	r, ok := constNum(t)
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

// Inv returns 1/a.
func Inv(a *Term) *Term {
	p := P(a)
	if r, ok := p.isConst(); ok && r.Sign() != 0 {
		return Rat(new(big.Rat).Inv(r))
	}
	if len(p.monos) == 1 {
		m := p.monos[0]
		var v []varExp
		for _, x := range m.vars {
			// inv(q)^-1 = q
			v = append(v, varExp{x.id, -x.exp})
		}
		r := mkPoly(map[string]mono{monoKey(v): {vars: v, coef: new(big.Rat).Inv(m.coef)}})
		return numPoly(expandInv(r))
	}
	// normalise by the leading coefficient
	if len(p.monos) == 0 {
		return mk(OApp, "inv", nil, a)
	}
	lead := p.monos[0].coef
	if lead.Cmp(ratOne) != 0 {
		q := polyMul(p, polyConst(new(big.Rat).Inv(lead)))
		return Mul(Rat(new(big.Rat).Inv(lead)), Inv(numPoly(q)))
	}
	return mk(OApp, "inv", nil, a)
}

// expandInv rewrites inv(q)^-n into q^n.
func expandInv(p *Poly) *Poly {
	need := false
	for _, m := range p.monos {
		for _, v := range m.vars {
			if v.exp < 0 && allTerms[v.id].op == OApp && allTerms[v.id].s == "inv" {
				need = true
			}
		}
	}
	if !need {
		return p
	}
	res := mkPoly(nil)
	for _, m := range p.monos {
		acc := polyConst(m.coef)
		for _, v := range m.vars {
			t := allTerms[v.id]
			if v.exp < 0 && t.op == OApp && t.s == "inv" {
				for i := 0; i < -v.exp; i++ {
					acc = polyMul(acc, P(t.args[0]))
				}
			} else {
				vv := []varExp{v}
				acc = polyMul(acc, mkPoly(map[string]mono{monoKey(vv): {vars: vv, coef: ratOne}}))
			}
		}
		res = polyAdd(res, acc, ratOne)
	}
	return res
}

// Div is real division.
func Div(a, b *Term) *Term {
	// polynomial / inv(...)
	return numPoly(expandInv(polyMul(P(a), P(Inv(b)))))
}

// IDiv is Go integer division (truncating).
func IDiv(a, b *Term, f *Facts) *Term {
	if x, ok := constInt(a); ok {
		if y, ok := constInt(b); ok && y != 0 {
			return Int(x / y)
		}
	}
	if y, ok := constInt(b); ok && y == 1 {
		return a
	}
	if a == b && f != nil && f.Entails(GE(Sub(b, Int(1)))) {
		return Int(1)
	}
	// exact polynomial division a = q*b
	q := Div(a, b)
	if polyIsInt(P(q)) {
		return q
	}
	if f != nil {
		// 0 <= a < b  gives 0
		if f.Entails(GE(a)) && f.Entails(GE(Sub(Sub(b, a), Int(1)))) {
			return Int(0)
		}
		// (q*b + r) / b with 0<=r<b
	}
	return mk(OApp, "idiv", nil, a, b)
}

func Mod(a, b *Term, f *Facts) *Term {
	if x, ok := constInt(a); ok {
		if y, ok := constInt(b); ok && y != 0 {
			return Int(x % y)
		}
	}
	return Sub(a, Mul(b, IDiv(a, b, f)))
}

func Bool(b bool) *Term {
	return intern(fmt.Sprintf("B|%v", b), func() *Term { return &Term{op: OBool, b: b} })
}

func Str(s string) *Term { return mk(OStr, s, nil) }

func Nil(t types.Type) *Term { return mk(ONil, "", nil) }

// Sym returns a named opaque symbol.
func Sym(name string, typ types.Type) *Term { return mk(OSym, name, typ) }

func App(f string, typ types.Type, args ...*Term) *Term { return mk(OApp, f, typ, args...) }

func Obj(name string, typ types.Type) *Term { return mk(OObj, name, typ) }

func Struct(typ types.Type, fs ...*Term) *Term { return mk(OStruct, "", typ, fs...) }
func Array(typ types.Type, fs ...*Term) *Term  { return mk(OArray, "", typ, fs...) }
func Tuple(fs ...*Term) *Term                  { return mk(OTuple, "", nil, fs...) }

func Closure(fn *ssa.Function, binds ...*Term) *Term {
	key := fmt.Sprintf("C|%p|%s", fn, idsKey(binds))
	return intern(key, func() *Term {
		return &Term{op: OClosure, fn: fn, args: append([]*Term(nil), binds...), typ: fn.Signature, s: fn.String()}
	})
}

func Iface(dyn types.Type, v *Term) *Term { return mk(OIface, "", dyn, v) }

func FieldStep(i int) *Term      { return mk(OApp, "fld"+strconv.Itoa(i), nil) }
func IndexStep(t *Term) *Term    { return mk(OApp, "idx", nil, t) }
func isFieldStep(t *Term) bool   { return strings.HasPrefix(t.s, "fld") }
func fieldStepIndex(t *Term) int { i, _ := strconv.Atoi(t.s[3:]); return i }

func Ptr(base *Term, steps ...*Term) *Term {
	return mk(OPtr, "", nil, append([]*Term{base}, steps...)...)
}

// ---------------------------------------------------------------- booleans

func content(p *Poly) *big.Rat {
	// positive rational g such that p/g has coprime integer coefficients
	var g *big.Int
	l := big.NewInt(1)
	for _, m := range p.monos {
		d := m.coef.Denom()
		gg := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Div(d, gg))
	}
	for _, m := range p.monos {
		n := new(big.Int).Mul(m.coef.Num(), new(big.Int).Div(l, m.coef.Denom()))
		n.Abs(n)
		if g == nil {
			g = n
		} else {
			g = new(big.Int).GCD(nil, nil, g, n)
		}
	}
	if g == nil || g.Sign() == 0 {
		return ratOne
	}
	return new(big.Rat).SetFrac(g, l)
}

func cmp(rel string, a *Term) *Term {
	p := P(a)
	if r, ok := p.isConst(); ok {
		switch rel {
		case "ge":
			return Bool(r.Sign() >= 0)
		case "gt":
			return Bool(r.Sign() > 0)
		default:
			return Bool(r.Sign() == 0)
		}
	}
	isInt := polyIsInt(p)
	c := content(p)
	if rel == "eq" {
		if p.monos[0].coef.Sign() < 0 {
			c = new(big.Rat).Neg(c)
		}
	}
	if isInt && rel != "eq" {
		// normalise the constant: g*x + c >= 0  <=>  x + floor(c/g) >= 0
		if rel == "gt" {
			p = polyAdd(p, polyConst(ratOne), ratMinus)
		}
		k := p.constPart()
		body := polyAdd(p, polyConst(k), ratMinus)
		g := content(body)
		q := new(big.Rat).Quo(k, g)
		fl := new(big.Int).Div(q.Num(), q.Denom()) // Euclidean: floor for positive denominators
		p = polyAdd(polyMul(body, polyConst(new(big.Rat).Inv(g))), polyConst(new(big.Rat).SetInt(fl)), ratOne)
		return mk(OCmp, "ge", nil, numPoly(p))
	}
	p = polyMul(p, polyConst(new(big.Rat).Inv(c)))
	return mk(OCmp, rel, nil, numPoly(p))
}

func GE(a *Term) *Term    { return cmp("ge", a) }
func GT(a *Term) *Term    { return cmp("gt", a) }
func EQ0(a *Term) *Term   { return cmp("eq", a) }
func Le(a, b *Term) *Term { return GE(Sub(b, a)) }
func Lt(a, b *Term) *Term { return GT(Sub(b, a)) }

func Not(t *Term) *Term {
	switch t.op {
	case OBool:
		return Bool(!t.b)
	case ONot:
		return t.args[0]
	case OCmp:
		switch t.s {
		case "ge":
			return cmp("gt", Neg(t.args[0]))
		case "gt":
			return cmp("ge", Neg(t.args[0]))
		}
	}
	return mk(ONot, "", nil, t)
}

func isNumeric(t *Term) bool {
	switch t.op {
	case ONum:
		return true
	case OSym:
		return isNumType(t.typ)
	case OApp:
		switch t.s {
		case "idiv", "trunc", "floor", "ceil", "len", "wrap", "bits", "bor", "band", "bxor", "inv", "max", "min", "round":
			return true
		}
		return isNumType(t.typ)
	}
	return false
}

// neverNil reports whether a value is known not to be nil from its form.
func neverNil(t *Term) bool {
	switch t.op {
	case OPtr, OObj, OClosure, OIface:
		return true
	case OSlice:
		return false
	case OApp:
		return t.s == "errorf"
	}
	return false
}

// Eq is equality of two values.
func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if isNumeric(a) && isNumeric(b) {
		return EQ0(Sub(a, b))
	}
	if a.op == OStr && b.op == OStr {
		return Bool(a.s == b.s)
	}
	if a.op == OBool && b.op == OBool {
		return Bool(a.b == b.b)
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool {
		if b.b {
			return a
		}
		return Not(a)
	}
	if a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil {
		if neverNil(a) {
			return Bool(false)
		}
		if a.op == OSlice {
			return Bool(false)
		}
	}
	if a.op == OPtr && b.op == OPtr || a.op == OObj && b.op == OObj {
		if a.args != nil && len(a.args) == 1 && len(b.args) == 1 {
			return Eq(a.args[0], b.args[0])
		}
		if a.op == OObj {
			return Bool(false)
		}
		if len(a.args) != len(b.args) && a.args[0].op == OObj && b.args[0].op == OObj {
			return Bool(false)
		}
		if a.args[0] != b.args[0] && a.args[0].op == OObj && b.args[0].op == OObj {
			return Bool(false)
		}
	}
	if (a.op == OStruct && b.op == OStruct || a.op == OArray && b.op == OArray) && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			c := Eq(a.args[i], b.args[i])
			if c.op == OBool {
				if !c.b {
					return c
				}
				continue
			}
			cs = append(cs, c)
		}
		return And(cs...)
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return Bool(false)
		}
		return Eq(a.args[0], b.args[0])
	}
	if (a.op == OStruct) != (b.op == OStruct) {
		st, o := a, b
		if b.op == OStruct {
			st, o = b, a
		}
		if o.typ != nil {
			if str, ok := o.typ.Underlying().(*types.Struct); ok && str.NumFields() == len(st.args) {
				return Eq(st, expandStruct(o, str))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, "", nil, a, b)
}

func expandStruct(o *Term, str *types.Struct) *Term {
	fs := make([]*Term, str.NumFields())
	for i := range fs {
		fs[i] = fieldOf(o, i, str.Field(i).Type())
	}
	return Struct(o.typ, fs...)
}

// And of several booleans (kept flat).
func And(cs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(c *Term) bool
	add = func(c *Term) bool {
		if c.op == OBool {
			return c.b
		}
		if c.op == OApp && c.s == "and" {
			for _, x := range c.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[c.id] {
			seen[c.id] = true
			out = append(out, c)
		}
		return true
	}
	for _, c := range cs {
		if !add(c) {
			return Bool(false)
		}
	}
	for _, c := range out {
		if seen[Not(c).id] {
			return Bool(false)
		}
	}
	if len(out) == 0 {
		return Bool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(OApp, "and", types.Typ[types.Bool], out...)
}

func Or(cs ...*Term) *Term {
	n := make([]*Term, len(cs))
	for i, c := range cs {
		n[i] = Not(c)
	}
	return Not(And(n...))
}

// ---------------------------------------------------------------- aggregates

func fieldOf(t *Term, i int, typ types.Type) *Term {
	if t.op == OStruct || t.op == OTuple {
		return t.args[i]
	}
	return mk(OApp, "fld"+strconv.Itoa(i), typ, t)
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return termStr(t, 0) }

func short(typ types.Type) string {
	s := typKey(typ)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func termStr(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	list := func(a []*Term) string {
		var s []string
		for i, x := range a {
			if i > 24 {
				s = append(s, "…")
				break
			}
			s = append(s, termStr(x, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case ONum:
		return polyStr(t.num, d)
	case OBool:
		return fmt.Sprint(t.b)
	case OStr:
		return strconv.Quote(t.s)
	case ONil:
		return "nil"
	case OStruct:
		return "{" + list(t.args) + "}"
	case OArray:
		return "[" + list(t.args) + "]"
	case OTuple:
		return "(" + list(t.args) + ")"
	case OPtr:
		s := "&" + termStr(t.args[0], d+1)
		for _, x := range t.args[1:] {
			if isFieldStep(x) {
				s += "." + x.s[3:]
			} else {
				s += "[" + termStr(x.args[0], d+1) + "]"
			}
		}
		return s
	case OObj:
		return "obj:" + t.s
	case OSlice:
		return "slice(" + list(t.args) + ")"
	case OClosure:
		return "func:" + t.fn.Name()
	case OIface:
		return "iface:" + short(t.typ) + "(" + list(t.args) + ")"
	case OSym:
		return "$" + t.s
	case OApp:
		return t.s + "(" + list(t.args) + ")"
	case OCmp:
		return termStr(t.args[0], d+1) + map[string]string{"ge": " >= 0", "gt": " > 0", "eq": " == 0"}[t.s]
	case ONot:
		return "!(" + termStr(t.args[0], d+1) + ")"
	case OEq:
		return termStr(t.args[0], d+1) + " == " + termStr(t.args[1], d+1)
	}
	return "?"
}

func polyStr(p *Poly, d int) string {
	if len(p.monos) == 0 {
		return "0"
	}
	var s []string
	for _, m := range p.monos {
		var f []string
		if m.coef.Cmp(ratOne) != 0 || len(m.vars) == 0 {
			f = append(f, m.coef.RatString())
		}
		for _, v := range m.vars {
			x := termStr(allTerms[v.id], d+1)
			if v.exp != 1 {
				x += "^" + strconv.Itoa(v.exp)
			}
			f = append(f, x)
		}
		s = append(s, strings.Join(f, "*"))
	}
	return strings.Join(s, " + ")
}

// ---------------------------------------------------------------- substitution

// subst replaces terms according to m (by identity), rebuilding and renormalising.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case ONum:
		acc := mkPoly(nil)
		changed := false
		for _, mo := range t.num.monos {
			for _, v := range mo.vars {
				if subst(allTerms[v.id], m, memo) != allTerms[v.id] {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		for _, mo := range t.num.monos {
			x := Rat(mo.coef)
			for _, v := range mo.vars {
				a := subst(allTerms[v.id], m, memo)
				e := v.exp
				if e < 0 {
					a = Inv(a)
					e = -e
				}
				for i := 0; i < e; i++ {
					x = numPoly(expandInv(polyMul(P(x), P(a))))
				}
			}
			acc = polyAdd(acc, P(x), ratOne)
		}
		r = numPoly(acc)
	default:
		if len(t.args) == 0 {
			r = t
			break
		}
		changed := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				changed = true
			}
		}
		if !changed {
			r = t
			break
		}
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OCmp:
		return cmp(t.s, args[0])
	case ONot:
		return Not(args[0])
	case OEq:
		return Eq(args[0], args[1])
	case OClosure:
		return Closure(t.fn, args...)
	case OApp:
		switch t.s {
		case "and":
			return And(args...)
		case "idiv":
			return IDiv(args[0], args[1], nil)
		case "inv":
			return Inv(args[0])
		case "max", "min":
			return MaxMin(t.s, args...)
		case "bor":
			return BOr(args...)
		case "cat":
			return Cat(args...)
		case "len":
			return Len(args[0])
		case "floor", "ceil", "trunc", "round":
			return Rounding(t.s, args[0])
		}
		if strings.HasPrefix(t.s, "fld") && len(args) == 1 && args[0].op == OStruct {
			i := fieldStepIndex(t)
			return args[0].args[i]
		}
	}
	return mk(t.op, t.s, t.typ, args...)
}

// contains reports whether t contains a subterm satisfying f.
func contains(t *Term, f func(*Term) bool, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	r := f(t)
	if !r {
		if t.op == ONum {
			for _, m := range t.num.monos {
				for _, v := range m.vars {
					if contains(allTerms[v.id], f, memo) {
						r = true
					}
				}
			}
		}
		for _, a := range t.args {
			if r {
				break
			}
			r = contains(a, f, memo)
		}
	}
	memo[t] = r
	return r
}

func mentions(t *Term, f func(*Term) bool) bool { return contains(t, f, map[*Term]bool{}) }

// atomsOf collects the numeric atoms of a polynomial term.
func atomsOf(p *Poly) map[int]bool {
	m := map[int]bool{}
	for _, x := range p.monos {
		for _, v := range x.vars {
			m[v.id] = true
		}
	}
	return m
}

func Rounding(f string, a *Term) *Term {
	if polyIsInt(P(a)) {
		return a
	}
	if r, ok := constNum(a); ok {
		n := new(big.Int)
		switch f {
		case "floor":
			n.Div(r.Num(), r.Denom())
		case "ceil":
			n.Neg(n.Div(new(big.Int).Neg(r.Num()), r.Denom()))
		case "trunc":
			n.Quo(r.Num(), r.Denom())
		case "round":
			h := new(big.Rat).Add(new(big.Rat).Abs(r), big.NewRat(1, 2))
			n.Div(h.Num(), h.Denom())
			if r.Sign() < 0 {
				n.Neg(n)
			}
		}
		return Rat(new(big.Rat).SetInt(n))
	}
	// pull out the integer part: floor(x + k) = floor(x) + k
	if f == "floor" || f == "ceil" {
		ip := map[string]mono{}
		fp := map[string]mono{}
		for _, m := range P(a).monos {
			one := mkPoly(map[string]mono{monoKey(m.vars): m})
			if polyIsInt(one) {
				ip[monoKey(m.vars)] = m
			} else {
				fp[monoKey(m.vars)] = m
			}
		}
		if len(ip) > 0 && len(fp) > 0 {
			return Add(numPoly(mkPoly(ip)), mk(OApp, f, nil, numPoly(mkPoly(fp))))
		}
	}
	if f == "round" || f == "trunc" {
		// odd functions: the leading coefficient is kept positive
		if ms := P(a).monos; len(ms) > 0 && leadCoef(P(a)).Sign() < 0 {
			return Neg(mk(OApp, f, nil, Neg(a)))
		}
	}
	return mk(OApp, f, nil, a)
}

// MaxMin builds a flattened max/min.
func MaxMin(f string, args ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var k *big.Rat
	var add func(a *Term)
	add = func(a *Term) {
		if a.op == OApp && a.s == f {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		if r, ok := constNum(a); ok {
			if k == nil || (f == "max") == (r.Cmp(k) > 0) {
				k = r
			}
			return
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range args {
		add(a)
	}
	if k != nil {
		out = append(out, Rat(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(OApp, f, nil, out...)
}

// BOr is a flattened bitwise or.
func BOr(args ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	k := new(big.Int)
	var add func(a *Term)
	add = func(a *Term) {
		if a.op == OApp && a.s == "bor" {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		if r, ok := constNum(a); ok && r.IsInt() && r.Sign() >= 0 {
			k.Or(k, r.Num())
			return
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range args {
		add(a)
	}
	if k.Sign() != 0 || len(out) == 0 {
		out = append(out, Rat(new(big.Rat).SetInt(k)))
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(OApp, "bor", nil, out...)
}

// Cat is a flattened concatenation of sequences (strings or element lists).
func Cat(args ...*Term) *Term {
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		switch {
		case a.op == OApp && a.s == "cat":
			for _, x := range a.args {
				add(x)
			}
			return
		case a.op == OStr && a.s == "", a.op == OArray && len(a.args) == 0:
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == OStr && a.op == OStr {
				out[n-1] = Str(l.s + a.s)
				return
			}
			if l.op == OArray && a.op == OArray {
				out[n-1] = Array(nil, append(append([]*Term{}, l.args...), a.args...)...)
				return
			}
		}
		if a.op == OArray && a.typ != nil {
			a = Array(nil, a.args...)
		}
		out = append(out, a)
	}
	isStr := false
	for _, a := range args {
		if a.op == OStr {
			isStr = true
		}
		add(a)
	}
	if len(out) == 0 {
		if isStr {
			return Str("")
		}
		return Array(nil)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OApp, "cat", nil, out...)
}

// Len is the length of a sequence, map or string term.
func Len(a *Term) *Term {
	switch a.op {
	case OStr:
		return Int(int64(len(a.s)))
	case OArray:
		return Int(int64(len(a.args)))
	case OSlice:
		return a.args[2]
	case ONil:
		return Int(0)
	case OApp:
		if a.s == "cat" {
			s := Int(0)
			for _, x := range a.args {
				s = Add(s, Len(x))
			}
			return s
		}
		if a.s == "sub" { // sub(seq, lo, hi)
			return Sub(a.args[2], a.args[1])
		}
		if a.s == "zeros" || a.s == "repeat" {
			return a.args[len(a.args)-1]
		}
		if a.s == "store" {
			return Len(a.args[0])
		}
		if a.s == "map0" {
			return Int(0)
		}
	}
	return mk(OApp, "len", nil, a)
}

func constTerm(c constant.Value, typ types.Type) *Term {
	if c == nil {
		return zeroValue(typ)
	}
	switch c.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c))
	case constant.String:
		return Str(constant.StringVal(c))
	case constant.Int, constant.Float:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			break
		}
		r, ok := new(big.Rat).SetString(constant.ToFloat(c).ExactString())
		if ok {
			return Rat(r)
		}
	}
	return Sym("const:"+c.ExactString(), typ)
}

func zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
		return Nil(t)
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroValue(u.Field(i).Type())
		}
		return Struct(t, fs...)
	case *types.Array:
		if u.Len() <= 4096 {
			z := zeroValue(u.Elem())
			es := make([]*Term, u.Len())
			for i := range es {
				es[i] = z
			}
			return Array(t, es...)
		}
		return App("zeros", t, Int(u.Len()))
	}
	return Nil(t)
}

// leadCoef is the coefficient of the first monomial that is not constant.
func leadCoef(p *Poly) *big.Rat {
	for _, m := range p.monos {
		if len(m.vars) > 0 {
			return m.coef
		}
	}
	return ratOne
}
