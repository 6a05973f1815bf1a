package main

import (
	"go/constant"
	"go/types"
	"html"
	"math/big"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(c *cx) []Outcome

var models map[string]modelFn

var pureFns = map[string]bool{
	"fmt.Sprint": true, "fmt.Sprintln": true, "strconv.FormatInt": true, "strconv.FormatFloat": true, "strconv.Quote": true,
	"regexp.MustCompile": true, "regexp.QuoteMeta": true, "image.Rect": true, "image.Pt": true,
	"(image.Rectangle).Dx": true, "(image.Rectangle).Dy": true, "(image.Rectangle).Size": true,
	"path/filepath.Glob": false, "runtime.NumCPU": true, "os.IsExist": true, "os.IsNotExist": true, "errors.Is": true,
	"unicode.IsSpace": true, "path.Base": true, "path.Ext": true, "path.Join": true, "path.Dir": true, "context.Background": true, "context.TODO": true,
	"slices.Sorted": true, "(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).MatchString": true, "os.Getpid": true,
	"encoding/binary.Size": true, "invoke:error.Error": true, "invoke:net.Addr.String": true, "fmt.Append": true,
}

func isPure(n string) bool {
	if v, ok := pureFns[n]; ok {
		return v
	}
	for _, p := range []string{"math.", "strings.", "strconv.", "path/filepath.", "unicode.", "bytes.", "math/bits.", "unicode/utf8."} {
		if strings.HasPrefix(n, p) {
			switch n {
			case "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir":
				return false
			}
			return true
		}
	}
	return strings.HasPrefix(n, "(github.com/fogleman/fauxgl.") && false
}

func bufBase(p *Term) *Term { return mk(OApp, "bufof", nil, p) }

// stream resolves wrappers to the stream they write to or read from.
func (e *Eng) stream(s *State, w *Term) *Term {
	for i := 0; i < 10; i++ {
		if w.op == OIface {
			w = w.args[0]
			continue
		}
		if t, ok := s.heap[mk(OApp, "wraps", nil, w)]; ok {
			w = t
			continue
		}
		if w.op == OApp && w.s == "rd" {
			w = w.args[0]
			continue
		}
		break
	}
	return w
}

// writeTo appends bytes to a stream.
func (e *Eng) writeTo(c *cx, w, seq *Term) (raw *Term) {
	for w.op == OIface {
		w = w.args[0]
	}
	b := bufBase(w)
	cur := e.content(c.ps.State, b)
	if e.trackMem {
		e.access(c.ps, w, true, c.pos, c.fr.fn)
	}
	c.ps.set(b, Cat(cur, seq))
	return w
}

func inMemory(w *Term) bool { return w.op == OPtr && w.args[0].op == OObj }

func (e *Eng) writeEvent(c *cx, w, seq *Term) []Outcome {
	for w.op == OIface {
		w = w.args[0]
	}
	var er *Term
	n := Len(seq)
	if inMemory(w) && !e.buffered(c.ps.State, w) {
		er = Nil(errType)
	} else {
		er = e.errSym(c.ps, "write", c.ctx)
	}
	e.writeTo(c, w, seq)
	name := "write"
	if e.buffered(c.ps.State, w) {
		name = "bufwrite"
	}
	c.ps.emit(&Event{kind: "call", fn: name, callee: c.fn, args: []*Term{w, seq}, res: []*Term{n, er}, pos: c.pos, in: c.fr.fn})
	return ret(c.ps, n, er)
}

func (e *Eng) buffered(s *State, w *Term) bool {
	_, ok := s.heap[mk(OApp, "wraps", nil, w)]
	return ok
}

func strArg(t *Term) (string, bool) {
	if t.op == OStr {
		return t.s, true
	}
	return "", false
}

// variadic returns the elements of a ...interface{} argument.
func (e *Eng) variadic(s *State, v *Term) ([]*Term, bool) {
	q := e.seqOf(s, v)
	if q.op == OArray {
		var out []*Term
		for _, x := range q.args {
			out = append(out, x)
		}
		return out, true
	}
	return []*Term{q}, false
}

// fmtVal renders one value the way the verb does.
func (e *Eng) fmtVal(s *State, verb string, v *Term) *Term {
	var dyn types.Type
	if v.op == OIface {
		dyn = v.typ
		v = v.args[0]
	}
	if dyn == nil {
		dyn = v.typ
	}
	var b *types.Basic
	if dyn != nil {
		b, _ = dyn.Underlying().(*types.Basic)
	}
	hasMethod := false
	if dyn != nil {
		if _, isB := dyn.(*types.Named); isB {
			ms := types.NewMethodSet(dyn)
			for i := 0; i < ms.Len(); i++ {
				if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" {
					hasMethod = true
				}
			}
		}
	}
	if b != nil && !hasMethod {
		switch {
		case b.Info()&types.IsString != 0 && (verb == "v" || verb == "s"):
			return v
		case b.Info()&types.IsInteger != 0 && (verb == "v" || verb == "d"):
			if n, ok := constInt(v); ok {
				return Str(strconv.FormatInt(n, 10))
			}
			return App("fmt:d", types.Typ[types.String], v)
		case b.Info()&types.IsFloat != 0 && (verb == "v" || verb == "g"):
			return App("fmt:g", types.Typ[types.String], v)
		case b.Info()&types.IsBoolean != 0 && (verb == "v" || verb == "t"):
			if v.op == OBool {
				return Str(strconv.FormatBool(v.b))
			}
			return App("fmt:t", types.Typ[types.String], v)
		}
	}
	return App("fmt:"+verb, types.Typ[types.String], e.deepSeq(s, v))
}

func (e *Eng) format(c *cx, f *Term, vs []*Term, exact bool) *Term {
	fs, ok := strArg(f)
	s := c.ps.State
	if !ok || !exact {
		return App("fmt.Sprintf", types.Typ[types.String], append([]*Term{f}, e.deepAll(s, vs)...)...)
	}
	var out []*Term
	ai := 0
	indexed := false
	lit := ""
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.ContainsRune("+-# 0123456789.*[]", rune(fs[j])) {
			j++
		}
		if j >= len(fs) {
			lit += "%!(NOVERB)"
			break
		}
		verb := fs[i+1 : j+1]
		i = j
		if verb == "%" {
			lit += "%"
			continue
		}
		if k := strings.IndexByte(verb, '['); k >= 0 { // explicit argument index
			if q := strings.IndexByte(verb, ']'); q > k {
				if n, err := strconv.Atoi(verb[k+1 : q]); err == nil && n >= 1 {
					ai = n - 1
					indexed = true
					verb = verb[:k] + verb[q+1:]
				}
			}
		}
		if ai >= len(vs) {
			lit += "%!" + verb + "(MISSING)"
			continue
		}
		out = append(out, Str(lit), e.fmtVal(s, verb, vs[ai]))
		lit = ""
		ai++
	}
	out = append(out, Str(lit))
	if ai < len(vs) && !indexed {
		out = append(out, App("fmt:extra", types.Typ[types.String], e.deepAll(s, vs[ai:])...))
	}
	return Cat(out...)
}

func (e *Eng) deepAll(s *State, vs []*Term) []*Term {
	var out []*Term
	for _, v := range vs {
		out = append(out, e.deepSeq(s, v))
	}
	return out
}

// sprint is fmt.Sprint/Sprintln of the values.
func (e *Eng) sprint(c *cx, vs []*Term, exact, ln bool) *Term {
	if !exact {
		n := "fmt.Sprint"
		if ln {
			n += "ln"
		}
		return App(n, types.Typ[types.String], e.deepAll(c.ps.State, vs)...)
	}
	var out []*Term
	for i, v := range vs {
		if i > 0 {
			isS := func(t *Term) bool {
				if t.op == OIface && t.typ != nil {
					b, ok := t.typ.Underlying().(*types.Basic)
					return ok && b.Info()&types.IsString != 0
				}
				return false
			}
			if ln || !isS(v) && !isS(vs[i-1]) {
				out = append(out, Str(" "))
			}
		}
		out = append(out, e.fmtVal(c.ps.State, "v", v))
	}
	if ln {
		out = append(out, Str("\n"))
	}
	if len(out) == 0 {
		return Str("")
	}
	return Cat(out...)
}

// bytesOf encodes a fixed-size value.
func (e *Eng) bytesOf(s *State, v *Term, t types.Type, little bool) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		n := int(types.SizesFor("gc", "amd64").Sizeof(u))
		if u.Info()&types.IsFloat != 0 {
			v = App("fbits"+strconv.Itoa(n*8), types.Typ[types.Uint64], v)
		} else if u.Info()&types.IsInteger != 0 {
			if lo, _ := typeRange(u); lo != nil && lo.Sign() < 0 {
				if k, ok := constNum(v); ok && k.Sign() < 0 {
					v = Rat(new(big.Rat).Add(k, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n*8)))))
				}
			}
		} else if u.Info()&types.IsBoolean != 0 {
			v = Gate(v, Int(1))
		}
		bs := make([]*Term, n)
		for i := range bs {
			k := i
			if !little {
				k = n - 1 - i
			}
			bs[i] = byteOf(v, k, n)
		}
		return Array(nil, bs...)
	case *types.Struct:
		out := Array(nil)
		for i := 0; i < u.NumFields(); i++ {
			out = Cat(out, e.bytesOf(s, fieldOf(v, i, u.Field(i).Type()), u.Field(i).Type(), little))
		}
		return out
	case *types.Array:
		out := Array(nil)
		for i := int64(0); i < u.Len(); i++ {
			out = Cat(out, e.bytesOf(s, elemOf(v, Int(i), u.Elem(), s.facts), u.Elem(), little))
		}
		return out
	case *types.Pointer:
		return e.bytesOf(s, e.load(s, v), u.Elem(), little)
	case *types.Slice:
		q := e.seqOf(s, v)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
			return q
		}
		if q.op == OArray {
			out := Array(nil)
			for _, x := range q.args {
				out = Cat(out, e.bytesOf(s, x, u.Elem(), little))
			}
			return out
		}
		return App("encseq", nil, q, Bool(little))
	}
	return App("enc", nil, v, Bool(little))
}

// byteOf is byte k of an n-byte value.
func byteOf(v *Term, k, n int) *Term {
	if n == 1 {
		return v
	}
	if v.op == OApp && v.s == "le" && k < len(v.args) {
		return v.args[k]
	}
	return Bits(v, 8*k, 8)
}

func sizeOfEnc(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }

// readBytes takes n fresh bytes from a stream.
func (e *Eng) readBytes(c *cx, st *Term, n int, er *Term) []*Term {
	var bs []*Term
	for i := 0; i < n; i++ {
		bs = append(bs, e.freshSym(c.ps.State, "byte:"+c.ctx, types.Typ[types.Uint8]))
	}
	c.ps.emit(&Event{kind: "call", fn: "read", callee: c.fn, args: append([]*Term{st, Int(int64(n))}, bs...), res: []*Term{er}, pos: c.pos, in: c.fr.fn})
	return bs
}

func (e *Eng) decode(bs []*Term, t types.Type, little bool) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		if len(bs) == 1 {
			return bs[0]
		}
		x := append([]*Term{}, bs...)
		if !little {
			for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
				x[i], x[j] = x[j], x[i]
			}
		}
		if u.Info()&types.IsFloat != 0 {
			return App("lefloat", t, x...)
		}
		return App("le", t, x...)
	case *types.Struct:
		var fs []*Term
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			n := int(packedSize(u.Field(i).Type()))
			fs = append(fs, e.decode(bs[off:off+n], u.Field(i).Type(), little))
			off += n
		}
		return Struct(t, fs...)
	case *types.Array:
		var fs []*Term
		n := int(packedSize(u.Elem()))
		for i := 0; i < int(u.Len()); i++ {
			fs = append(fs, e.decode(bs[i*n:(i+1)*n], u.Elem(), little))
		}
		return Array(t, fs...)
	}
	return nil
}

func packedSize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			n += packedSize(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return u.Len() * packedSize(u.Elem())
	}
	return sizeOfEnc(t)
}

func (e *Eng) isLittle(v *Term) (bool, bool) {
	n := typKey(v.typ)
	if v.op == OIface {
		n = typKey(v.typ)
	}
	if strings.Contains(n, "littleEndian") {
		return true, true
	}
	if strings.Contains(n, "bigEndian") {
		return false, true
	}
	s := v.String()
	if strings.Contains(s, "LittleEndian") {
		return true, true
	}
	if strings.Contains(s, "BigEndian") {
		return false, true
	}
	return true, false
}

// subPatterns lists the capture groups of a pattern.
func subPatterns(pat string) ([]string, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	var out []string
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture {
			out = append(out, r.Sub[0].String())
		}
		for _, s := range r.Sub {
			walk(s)
		}
	}
	walk(re)
	return out, true
}

func init() {
	m := map[string]modelFn{}
	models = m
	nop := func(c *cx) []Outcome { return ret(c.ps) }
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix", "log.SetOutput", "time.Sleep",
		"(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print", "flag.PrintDefaults", "runtime.GC", "runtime.Gosched"} {
		m[n] = nop
	}
	exit := func(code *Term) modelFn {
		return func(c *cx) []Outcome {
			k := code
			if k == nil {
				k = c.args[0]
			}
			c.ps.emit(&Event{kind: "exit", fn: c.name, args: []*Term{k}, pos: c.pos, in: c.fr.fn})
			c.e.exits = append(c.e.exits, &Event{kind: "exit", fn: c.name, args: []*Term{k}, pos: c.pos, in: c.fr.fn, facts: c.ps.facts, task: c.ps.task})
			return []Outcome{{st: c.ps.State, kind: "exit", code: k, pos: c.pos}}
		}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatalf", "(*log.Logger).Fatal", "(*log.Logger).Fatalln"} {
		m[n] = exit(Int(1))
	}
	m["os.Exit"] = exit(nil)
	pan := func(c *cx) []Outcome {
		c.e.oblige(c.ps, "panic", Bool(false), c.pos, c.fr.fn)
		return []Outcome{{st: c.ps.State, kind: "panic", pos: c.pos}}
	}
	m["log.Panicf"], m["log.Panic"], m["log.Panicln"] = pan, pan, pan

	// flags
	fl := func(i int) modelFn {
		return func(c *cx) []Outcome {
			name, _ := strArg(c.args[i])
			t := pointee(c.sig.Results().At(0).Type())
			o := Obj("flag:"+name, t)
			if _, ok := c.e.base[o]; !ok {
				c.e.base[o] = Sym("flag:"+name, t)
			}
			c.e.flagDefault[name] = c.args[i+1]
			return ret(c.ps, Ptr(o))
		}
	}
	for _, n := range []string{"Int", "String", "Bool", "Float64", "Int64", "Uint", "Duration"} {
		m["flag."+n] = fl(0)
	}
	for _, n := range []string{"IntVar", "StringVar", "BoolVar", "Float64Var"} {
		m["flag."+n] = func(c *cx) []Outcome {
			name, _ := strArg(c.args[1])
			b, st := splitPtr(c.args[0])
			c.e.store(c.ps.State, c.args[0], Sym("flag:"+name, leafType(st, baseType(b))))
			return ret(c.ps)
		}
	}
	m["flag.Parse"] = nop
	argsSym := Sym("cmd.args", types.NewSlice(types.Typ[types.String]))
	m["flag.Args"] = func(c *cx) []Outcome { return ret(c.ps, argsSym) }
	m["flag.NArg"] = func(c *cx) []Outcome { return ret(c.ps, Len(argsSym)) }
	m["flag.Arg"] = func(c *cx) []Outcome {
		i := c.args[0]
		if c.ps.facts.Entails(And(GE(i), GE(Sub(Sub(Len(argsSym), i), Int(1))))) {
			return ret(c.ps, App("elem", types.Typ[types.String], argsSym, i))
		}
		return ret(c.ps, App("flag.Arg", types.Typ[types.String], i))
	}

	// fmt
	m["fmt.Sprintf"] = func(c *cx) []Outcome {
		vs, ex := c.e.variadic(c.ps.State, c.args[1])
		return ret(c.ps, c.e.format(c, c.args[0], vs, ex))
	}
	m["fmt.Sprint"] = func(c *cx) []Outcome {
		vs, ex := c.e.variadic(c.ps.State, c.args[0])
		return ret(c.ps, c.e.sprint(c, vs, ex, false))
	}
	m["fmt.Sprintln"] = func(c *cx) []Outcome {
		vs, ex := c.e.variadic(c.ps.State, c.args[0])
		return ret(c.ps, c.e.sprint(c, vs, ex, true))
	}
	m["fmt.Errorf"] = func(c *cx) []Outcome {
		vs, ex := c.e.variadic(c.ps.State, c.args[1])
		return ret(c.ps, App("errorf", errType, c.e.format(c, c.args[0], vs, ex)))
	}
	m["errors.New"] = func(c *cx) []Outcome { return ret(c.ps, App("errorf", errType, c.args[0])) }
	m["errors.Join"] = func(c *cx) []Outcome {
		vs, ex := c.e.variadic(c.ps.State, c.args[0])
		if ex {
			var out []*Term
			for _, v := range vs {
				if v.op == ONil {
					continue
				}
				if neverNil(v) {
					return ret(c.ps, App("errorf", errType, vs...))
				}
				out = append(out, v)
			}
			if len(out) == 0 {
				return ret(c.ps, Nil(errType))
			}
			if len(out) == 1 {
				return ret(c.ps, out[0])
			}
			// non-nil exactly when one of them is
			var res []Outcome
			rest := c.ps
			for _, v := range out {
				q := rest.clone()
				if q.assume(Not(Eq(v, Nil(errType)))) {
					res = append(res, Outcome{st: q.State, kind: "ret", res: []*Term{App("errorf", errType, vs...)}})
				}
				rest = rest.clone()
				if !rest.assume(Eq(v, Nil(errType))) {
					return res
				}
			}
			return append(res, Outcome{st: rest.State, kind: "ret", res: []*Term{Nil(errType)}})
		}
		return nil
	}
	status := func(c *cx) []Outcome {
		return ret(c.ps, App("errorf", errType, c.e.deepAll(c.ps.State, c.args)...))
	}
	for _, n := range []string{"google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error", "google.golang.org/grpc.Errorf"} {
		m[n] = status
	}
	m["invoke:error.Error"] = func(c *cx) []Outcome {
		return ret(c.ps, App("error.Error", types.Typ[types.String], c.args[0]))
	}
	fprint := func(kind string) modelFn {
		return func(c *cx) []Outcome {
			w := c.args[0]
			var text *Term
			if kind == "f" {
				vs, ex := c.e.variadic(c.ps.State, c.args[2])
				text = c.e.format(c, c.args[1], vs, ex)
			} else {
				vs, ex := c.e.variadic(c.ps.State, c.args[1])
				text = c.e.sprint(c, vs, ex, kind == "ln")
			}
			return c.e.doWrite(c, w, text)
		}
	}
	m["fmt.Fprintf"], m["fmt.Fprint"], m["fmt.Fprintln"] = fprint("f"), fprint(""), fprint("ln")
	stdout := Ptr(Obj("global:os.Stdout*", nil))
	print := func(kind string) modelFn {
		return func(c *cx) []Outcome {
			var text *Term
			if kind == "f" {
				vs, ex := c.e.variadic(c.ps.State, c.args[1])
				text = c.e.format(c, c.args[0], vs, ex)
			} else {
				vs, ex := c.e.variadic(c.ps.State, c.args[0])
				text = c.e.sprint(c, vs, ex, kind == "ln")
			}
			return c.e.doWrite(c, stdout, text)
		}
	}
	m["fmt.Printf"], m["fmt.Print"], m["fmt.Println"] = print("f"), print(""), print("ln")
	m["strconv.Itoa"] = func(c *cx) []Outcome {
		return ret(c.ps, c.e.fmtVal(c.ps.State, "d", Iface(types.Typ[types.Int], c.args[0])))
	}
	m["strconv.FormatInt"] = func(c *cx) []Outcome {
		if b, ok := constInt(c.args[1]); ok && b == 10 {
			return ret(c.ps, c.e.fmtVal(c.ps.State, "d", Iface(types.Typ[types.Int], c.args[0])))
		}
		return nil
	}
	m["strconv.Atoi"] = func(c *cx) []Outcome {
		return ret(c.ps, App("atoi", types.Typ[types.Int], c.args[0]), App("atoierr", errType, c.args[0]))
	}
	m["strconv.ParseInt"] = func(c *cx) []Outcome {
		if b, ok := constInt(c.args[1]); ok && b == 10 {
			return ret(c.ps, App("atoi", types.Typ[types.Int], c.args[0]), App("atoierr", errType, c.args[0]))
		}
		return nil
	}
	m["strconv.ParseFloat"] = func(c *cx) []Outcome {
		return ret(c.ps, App("atof", types.Typ[types.Float64], c.args[0]), App("atoferr", errType, c.args[0]))
	}

	// strings
	str := types.Typ[types.String]
	m["strings.Join"] = func(c *cx) []Outcome {
		q := c.e.seqOf(c.ps.State, c.args[0])
		if q.op == OArray {
			var out []*Term
			for i, x := range q.args {
				if i > 0 {
					out = append(out, c.args[1])
				}
				out = append(out, x)
			}
			if len(out) == 0 {
				return ret(c.ps, Str(""))
			}
			return ret(c.ps, Cat(out...))
		}
		return ret(c.ps, App("join", str, q, c.args[1]))
	}
	// replacements of everything, and escaping, are functions of the text
	m["strings.ReplaceAll"] = func(c *cx) []Outcome {
		return ret(c.ps, App("replaced", str, c.args...))
	}
	m["strings.Replace"] = func(c *cx) []Outcome {
		if n, ok := constInt(c.args[3]); !ok || n >= 0 {
			return nil
		}
		return ret(c.ps, App("replaced", str, c.args[:3]...))
	}
	m["html.EscapeString"] = func(c *cx) []Outcome {
		var ps []*Term
		for _, p := range catParts(c.args[0]) {
			switch t, ok := strArg(p); {
			case ok:
				p = Str(html.EscapeString(t))
			case !intText(p):
				p = App("escaped", str, p)
			}
			ps = append(ps, p)
		}
		return ret(c.ps, Cat(ps...))
	}
	m["strings.Repeat"] = func(c *cx) []Outcome {
		c.e.oblige(c.ps, "repeat-count", GE(c.args[1]), c.pos, c.fr.fn)
		return ret(c.ps, App("strings.Repeat", str, c.args...))
	}
	cstr := func(n int, f func(a []string) *Term) modelFn {
		return func(c *cx) []Outcome {
			var a []string
			for i := 0; i < n; i++ {
				s, ok := strArg(c.args[i])
				if !ok {
					return nil
				}
				a = append(a, s)
			}
			return ret(c.ps, f(a))
		}
	}
	split := func(fields bool) modelFn {
		return func(c *cx) []Outcome {
			sep := " "
			if !fields {
				var ok bool
				if sep, ok = strArg(c.args[1]); !ok || sep == "" {
					return nil
				}
			}
			fs := splitCat(c.args[0], sep)
			if fs == nil {
				return nil
			}
			if fields {
				var gs []*Term
				for _, x := range fs {
					if !(x.op == OStr && x.s == "") {
						gs = append(gs, x)
					}
					if x.op == OStr && strings.ContainsAny(x.s, "\n\t\r\v\f") {
						return nil
					}
				}
				fs = gs
			}
			return ret(c.ps, c.e.mkSlice(c.ps.State, c.e.siteID(c.site)+"^"+c.fr.ctx, str, Array(nil, fs...)))
		}
	}
	m["strings.Split"], m["strings.Fields"] = split(false), split(true)
	m["strings.ToLower"] = cstr(1, func(a []string) *Term { return Str(strings.ToLower(a[0])) })
	m["strings.TrimSpace"] = cstr(1, func(a []string) *Term { return Str(strings.TrimSpace(a[0])) })
	m["strings.HasPrefix"] = cstr(2, func(a []string) *Term { return Bool(strings.HasPrefix(a[0], a[1])) })
	m["strings.HasSuffix"] = func(c *cx) []Outcome {
		suf, ok := strArg(c.args[1])
		if !ok {
			return nil
		}
		if s := lastLit(c.args[0]); s != "" && len(s) >= len(suf) {
			return ret(c.ps, Bool(strings.HasSuffix(s, suf)))
		}
		return nil
	}
	m["strings.TrimSuffix"] = func(c *cx) []Outcome {
		suf, ok := strArg(c.args[1])
		if !ok {
			return nil
		}
		if s, ok := strArg(c.args[0]); ok {
			return ret(c.ps, Str(strings.TrimSuffix(s, suf)))
		}
		if s := lastLit(c.args[0]); len(s) >= len(suf) && c.args[0].op == OApp {
			t := strings.TrimSuffix(s, suf)
			as := append([]*Term{}, c.args[0].args...)
			as[len(as)-1] = Str(t)
			return ret(c.ps, Cat(as...))
		}
		return nil
	}
	m["bytes.Repeat"] = func(c *cx) []Outcome {
		c.e.oblige(c.ps, "repeat-count", GE(c.args[1]), c.pos, c.fr.fn)
		q := c.e.seqOf(c.ps.State, c.args[0])
		k := c.args[1]
		if n, ok := constInt(k); ok && n >= 0 && n < 64 {
			out := Array(nil)
			for i := int64(0); i < n; i++ {
				out = Cat(out, q)
			}
			return ret(c.ps, c.e.mkSlice(c.ps.State, "rep@"+c.ctx, types.Typ[types.Uint8], out))
		}
		seq := App("rep", nil, q, k)
		return ret(c.ps, c.e.mkSlice(c.ps.State, "rep@"+c.ctx, types.Typ[types.Uint8], seq))
	}

	// byte buffers and writers
	w1 := func(c *cx) []Outcome { // Write, WriteString
		return c.e.doWrite(c, c.args[0], c.e.seqOf(c.ps.State, c.args[1]))
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.Writer).", "(*os.File)."} {
		m[t+"Write"], m[t+"WriteString"] = w1, w1
		m[t+"WriteByte"] = func(c *cx) []Outcome {
			o := c.e.doWrite(c, c.args[0], Array(nil, c.args[1]))
			for i := range o {
				o[i].res = o[i].res[1:]
			}
			return o
		}
		m[t+"WriteRune"] = func(c *cx) []Outcome {
			var x *Term
			if k, ok := constInt(c.args[1]); ok {
				x = Str(string(rune(k)))
			} else {
				x = App("chr", str, c.args[1])
			}
			return c.e.doWrite(c, c.args[0], x)
		}
		m[t+"Bytes"] = func(c *cx) []Outcome {
			q := c.e.content(c.ps.State, bufBase(c.args[0]))
			return ret(c.ps, c.e.mkSlice(c.ps.State, "bytes@"+c.ctx, types.Typ[types.Uint8], q))
		}
		m[t+"String"] = func(c *cx) []Outcome { return ret(c.ps, c.e.content(c.ps.State, bufBase(c.args[0]))) }
		m[t+"Len"] = func(c *cx) []Outcome { return ret(c.ps, Len(c.e.content(c.ps.State, bufBase(c.args[0])))) }
		m[t+"Reset"] = func(c *cx) []Outcome { c.ps.set(bufBase(c.args[0]), Str("")); return ret(c.ps) }
		m[t+"Grow"] = nop
		m[t+"WriteTo"] = func(c *cx) []Outcome {
			q := c.e.content(c.ps.State, bufBase(c.args[0]))
			c.ps.set(bufBase(c.args[0]), Str(""))
			return c.e.doWrite(c, c.args[1], q)
		}
	}
	m["(*bytes.Buffer).ReadFrom"] = func(c *cx) []Outcome { return nil }
	m["(*os.File).String"] = nil
	delete(m, "(*os.File).String")
	m["bytes.NewBuffer"] = func(c *cx) []Outcome {
		q := c.e.seqOf(c.ps.State, c.args[0])
		o := c.e.newObj(c.ps.State, "buf@"+c.ctx, pointee(c.sig.Results().At(0).Type()), zeroValue(pointee(c.sig.Results().At(0).Type())))
		c.ps.set(bufBase(Ptr(o)), q)
		return ret(c.ps, Ptr(o))
	}
	m["bytes.NewBufferString"] = func(c *cx) []Outcome {
		o := c.e.newObj(c.ps.State, "buf@"+c.ctx, pointee(c.sig.Results().At(0).Type()), zeroValue(pointee(c.sig.Results().At(0).Type())))
		c.ps.set(bufBase(Ptr(o)), c.args[0])
		return ret(c.ps, Ptr(o))
	}
	m["bufio.NewWriter"] = func(c *cx) []Outcome {
		t := pointee(c.sig.Results().At(0).Type())
		o := c.e.newObj(c.ps.State, "bufw@"+c.ctx, t, App("bufw", t))
		c.ps.set(mk(OApp, "wraps", nil, Ptr(o)), c.args[0])
		return ret(c.ps, Ptr(o))
	}
	m["bufio.NewWriterSize"] = m["bufio.NewWriter"]
	m["(*bufio.Writer).Flush"] = func(c *cx) []Outcome {
		b := c.args[0]
		q := c.e.content(c.ps.State, bufBase(b))
		t, ok := c.ps.heap[mk(OApp, "wraps", nil, b)]
		if !ok {
			return nil
		}
		c.ps.set(bufBase(b), Str(""))
		o := c.e.doWrite(c, t, q)
		for i := range o {
			o[i].res = o[i].res[1:]
		}
		return o
	}
	rd := func(c *cx) []Outcome {
		s := c.e.stream(c.ps.State, c.args[0])
		c.ps.emit(&Event{kind: "bufreader", args: []*Term{s}, pos: c.pos, in: c.fr.fn})
		return ret(c.ps, App("rd", c.sig.Results().At(0).Type(), s))
	}
	m["bufio.NewReader"], m["bufio.NewReaderSize"] = rd, rd
	m["bytes.NewReader"] = func(c *cx) []Outcome {
		c.ps.emit(&Event{kind: "newreader", args: []*Term{App("bytesreader", nil, c.e.seqOf(c.ps.State, c.args[0]))}, pos: c.pos, in: c.fr.fn})
		return ret(c.ps, App("rd", c.sig.Results().At(0).Type(), App("bytesreader", nil, c.e.seqOf(c.ps.State, c.args[0]))))
	}
	m["io.WriteString"] = func(c *cx) []Outcome { return c.e.doWrite(c, c.args[0], c.args[1]) }
	m["io.Copy"] = func(c *cx) []Outcome {
		src := c.args[1]
		for src.op == OIface {
			src = src.args[0]
		}
		if inMemory(src) {
			q := c.e.content(c.ps.State, bufBase(src))
			c.ps.set(bufBase(src), Str(""))
			return c.e.doWrite(c, c.args[0], q)
		}
		return nil
	}
	m["invoke:io.Writer.Write"] = w1
	m["encoding/binary.Write"] = func(c *cx) []Outcome {
		little, ok := c.e.isLittle(c.args[1])
		v := c.args[2]
		if !ok || v.op != OIface {
			return nil
		}
		o := c.e.doWrite(c, c.args[0], c.e.bytesOf(c.ps.State, v.args[0], v.typ, little))
		for i := range o {
			o[i].res = o[i].res[1:]
		}
		return o
	}
	m["encoding/binary.Read"] = func(c *cx) []Outcome {
		little, ok := c.e.isLittle(c.args[1])
		v := c.args[2]
		if !ok || v.op != OIface || v.args[0].op != OPtr {
			return nil
		}
		t := pointee(v.typ)
		switch t.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
		default:
			return nil
		}
		er := c.e.errSym(c.ps, "read", c.ctx)
		bs := c.e.readBytes(c, c.e.stream(c.ps.State, c.args[0]), int(packedSize(t)), er)
		x := c.e.decode(bs, t, little)
		if x == nil {
			return nil
		}
		c.e.store(c.ps.State, v.args[0], x)
		return ret(c.ps, er)
	}
	readByte := func(c *cx) []Outcome {
		er := c.e.errSym(c.ps, "read", c.ctx)
		bs := c.e.readBytes(c, c.e.stream(c.ps.State, c.args[0]), 1, er)
		return ret(c.ps, bs[0], er)
	}
	m["(*bufio.Reader).ReadByte"], m["(*bytes.Reader).ReadByte"], m["invoke:io.ByteReader.ReadByte"] = readByte, readByte, readByte
	m["io.ReadFull"] = func(c *cx) []Outcome {
		s := c.args[1]
		n, ok := constInt(Len(s))
		if !ok || s.op != OSlice || n > 64 {
			return nil
		}
		er := c.e.errSym(c.ps, "read", c.ctx)
		bs := c.e.readBytes(c, c.e.stream(c.ps.State, c.args[0]), int(n), er)
		for i, b := range bs {
			c.e.store(c.ps.State, Ptr(s.args[0], IndexStep(Add(s.args[1], Int(int64(i))))), b)
		}
		return ret(c.ps, Int(n), er)
	}
	for _, w := range []int{2, 4, 8} {
		w := w
		nm := map[int]string{2: "Uint16", 4: "Uint32", 8: "Uint64"}[w]
		for _, o := range []string{"littleEndian", "bigEndian"} {
			little := o == "littleEndian"
			m["(encoding/binary."+o+")."+nm] = func(c *cx) []Outcome {
				q := c.e.seqOf(c.ps.State, c.args[1])
				var bs []*Term
				for i := 0; i < w; i++ {
					bs = append(bs, elemOf(q, Int(int64(i)), types.Typ[types.Uint8], c.ps.facts))
				}
				return ret(c.ps, c.e.decode(bs, c.sig.Results().At(0).Type(), little))
			}
			m["(encoding/binary."+o+").Put"+nm] = func(c *cx) []Outcome {
				s := c.args[1]
				if s.op != OSlice {
					return nil
				}
				t := c.sig.Params().At(1).Type()
				bs := c.e.bytesOf(c.ps.State, c.args[2], t, little)
				for i, b := range bs.args {
					c.e.store(c.ps.State, Ptr(s.args[0], IndexStep(Add(s.args[1], Int(int64(i))))), b)
				}
				return ret(c.ps)
			}
			m["(encoding/binary."+o+").Append"+nm] = func(c *cx) []Outcome {
				t := c.sig.Params().At(1).Type()
				bs := c.e.bytesOf(c.ps.State, c.args[2], t, little)
				return ret(c.ps, c.e.mkSlice(c.ps.State, "app@"+c.ctx, types.Typ[types.Uint8], Cat(c.e.seqOf(c.ps.State, c.args[1]), bs)))
			}
		}
	}
	m["math.Float32bits"] = func(c *cx) []Outcome { return ret(c.ps, App("fbits32", types.Typ[types.Uint32], c.args[0])) }
	m["math.Float64bits"] = func(c *cx) []Outcome { return ret(c.ps, App("fbits64", types.Typ[types.Uint64], c.args[0])) }
	m["math.Float32frombits"] = func(c *cx) []Outcome {
		if v := c.args[0]; v.op == OApp && v.s == "le" {
			return ret(c.ps, App("lefloat", types.Typ[types.Float32], v.args...))
		}
		return nil
	}

	// regexp
	m["(*regexp.Regexp).FindStringSubmatch"] = func(c *cx) []Outcome {
		re := c.args[0]
		if re.op != OApp || re.s != "regexp.MustCompile" {
			return nil
		}
		pat, ok := strArg(re.args[0])
		if !ok {
			return nil
		}
		subs, ok := subPatterns(pat)
		if !ok {
			return nil
		}
		s := c.args[1]
		hit := App("match", types.Typ[types.Bool], re.args[0], s)
		gs := []*Term{App("group:"+pat, str, re.args[0], s, Int(0))}
		for i, sp := range subs {
			gs = append(gs, App("group:"+sp, str, re.args[0], s, Int(int64(i+1))))
		}
		q := c.ps.clone()
		var out []Outcome
		if q.assume(hit) {
			v := c.e.mkSlice(q.State, "match@"+c.ctx, str, Array(nil, gs...))
			out = append(out, ret(q, v)...)
		}
		if c.ps.assume(Not(hit)) {
			out = append(out, ret(c.ps, Nil(types.NewSlice(str)))...)
		}
		return out
	}
	m["(*regexp.Regexp).MatchString"] = func(c *cx) []Outcome {
		if re := c.args[0]; re.op == OApp && re.s == "regexp.MustCompile" {
			return ret(c.ps, App("match", types.Typ[types.Bool], re.args[0], c.args[1]))
		}
		return nil
	}

	// numeric
	rnd := func(f string) modelFn {
		return func(c *cx) []Outcome { return ret(c.ps, Rounding(f, c.args[0])) }
	}
	m["math.Floor"], m["math.Ceil"], m["math.Trunc"], m["math.Round"] = rnd("floor"), rnd("ceil"), rnd("trunc"), rnd("round")
	m["math.Max"] = func(c *cx) []Outcome { return ret(c.ps, c.e.maxMin(c.ps, "max", c.args...)) }
	m["math.Min"] = func(c *cx) []Outcome { return ret(c.ps, c.e.maxMin(c.ps, "min", c.args...)) }
	m["math.Abs"] = func(c *cx) []Outcome {
		v := c.args[0]
		if c.ps.facts.Entails(GE(v)) {
			return ret(c.ps, v)
		}
		if c.ps.facts.Entails(GE(Neg(v))) {
			return ret(c.ps, Neg(v))
		}
		return ret(c.ps, MaxMin("max", v, Neg(v)))
	}
	m["math.Inf"] = func(c *cx) []Outcome {
		if k, ok := constInt(c.args[0]); ok {
			return ret(c.ps, Sym("inf:"+strconv.FormatBool(k >= 0), types.Typ[types.Float64]))
		}
		return nil
	}

	// synchronisation
	m["(*sync.Mutex).Lock"] = func(c *cx) []Outcome { return c.e.lock(c, "w") }
	m["(*sync.Mutex).Unlock"] = func(c *cx) []Outcome { return c.e.unlock(c, "w") }
	m["(*sync.RWMutex).Lock"] = m["(*sync.Mutex).Lock"]
	m["(*sync.RWMutex).Unlock"] = m["(*sync.Mutex).Unlock"]
	m["(*sync.RWMutex).RLock"] = func(c *cx) []Outcome { return c.e.lock(c, "r") }
	m["(*sync.RWMutex).RUnlock"] = func(c *cx) []Outcome { return c.e.unlock(c, "r") }
	m["(*sync.WaitGroup).Add"] = func(c *cx) []Outcome {
		c.ps.emit(&Event{kind: "wg.add", args: c.args, pos: c.pos, in: c.fr.fn})
		return ret(c.ps)
	}
	m["(*sync.WaitGroup).Done"] = func(c *cx) []Outcome {
		c.ps.emit(&Event{kind: "wg.done", args: c.args, pos: c.pos, in: c.fr.fn})
		return ret(c.ps)
	}
	m["(*sync.WaitGroup).Wait"] = func(c *cx) []Outcome {
		var out []Outcome
		for _, s := range c.e.runPending(c.ps.State, func(t *Task) bool { return true }) {
			q := &PS{State: s}
			q.emit(&Event{kind: "wg.wait", args: c.args, pos: c.pos, in: c.fr.fn})
			q.State.active = nil
			out = append(out, Outcome{st: q.State, kind: "ret"})
		}
		return out
	}
	m["(*sync.WaitGroup).Go"] = func(c *cx) []Outcome {
		x, ok := c.site.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		c.ps.emit(&Event{kind: "wg.add", args: c.args, pos: c.pos, in: c.fr.fn})
		c.e.spawnFn(c.fr, c.ps, x, x.Common(), c.args[1], nil)
		return ret(c.ps)
	}
	m["(*sync.Once).Do"] = func(c *cx) []Outcome {
		if c.args[1].op == OClosure {
			cc := *c
			cc.args = nil
			return c.e.callFn(&cc, c.args[1].fn, c.args[1].args)
		}
		return nil
	}

	// sorting
	m["sort.Strings"] = func(c *cx) []Outcome {
		v := c.args[0]
		q := App("sorted", nil, c.e.seqOf(c.ps.State, v))
		if v.op == OSlice {
			c.ps.set(v.args[0], q)
		} else if v.op != ONil {
			c.ps.set(arrOf(v), q)
		}
		return ret(c.ps)
	}
	m["slices.Sort"] = m["sort.Strings"]
	sortBy := func(c *cx) []Outcome {
		v := c.args[0]
		if v.op == OIface {
			v = v.args[0]
		}
		q := App("sortedby", nil, c.e.seqOf(c.ps.State, v), c.args[1])
		c.ps.emit(&Event{kind: "sort", fn: c.name, args: []*Term{v, c.args[1], c.e.seqOf(c.ps.State, v)}, pos: c.pos, in: c.fr.fn})
		if v.op == OSlice {
			c.ps.set(v.args[0], q)
		} else if v.op != ONil {
			c.ps.set(arrOf(v), q)
		}
		return ret(c.ps)
	}
	m["sort.Slice"], m["sort.SliceStable"], m["slices.SortFunc"], m["slices.SortStableFunc"] = sortBy, sortBy, sortBy, sortBy
	m["time.Now"] = func(c *cx) []Outcome {
		return ret(c.ps, c.e.freshSym(c.ps.State, "time@"+c.ctx, c.sig.Results().At(0).Type()))
	}
	m["image/png.Encode"] = func(c *cx) []Outcome {
		er := c.e.errSym(c.ps, "png.Encode", c.ctx)
		img := c.args[1]
		for img.op == OIface {
			img = img.args[0]
		}
		snap := img
		if img.op == OPtr {
			snap = c.e.load(c.ps.State, img)
		}
		c.e.writeTo(c, c.args[0], App("png", nil, img))
		w := c.args[0]
		for w.op == OIface {
			w = w.args[0]
		}
		c.ps.emit(&Event{kind: "call", fn: "image/png.Encode", callee: c.fn, args: []*Term{w, img, snap}, res: []*Term{er}, pos: c.pos, in: c.fr.fn})
		return ret(c.ps, er)
	}
	_ = constant.MakeBool
	_ = ssa.BuilderMode(0)
}

// doWrite appends text to a writer, whatever its kind.
func (e *Eng) doWrite(c *cx, w, text *Term) []Outcome {
	for w.op == OIface {
		// a concrete writer type of the repository: run its Write
		if m := e.p.prog.LookupMethod(w.typ, nil, "Write"); m != nil && e.inlinable(m) && len(m.Blocks) > 0 {
			cc := *c
			s := e.mkSlice(c.ps.State, "wr@"+c.ctx, types.Typ[types.Uint8], text)
			cc.args = []*Term{w.args[0], s}
			return e.callFn(&cc, m, nil)
		}
		w = w.args[0]
	}
	return e.writeEvent(c, w, text)
}

func lastLit(t *Term) string {
	if t.op == OStr {
		return t.s
	}
	if t.op == OApp && t.s == "cat" {
		return lastLit(t.args[len(t.args)-1])
	}
	return ""
}

func (e *Eng) lock(c *cx, kind string) []Outcome {
	l := App("lock:"+kind, nil, c.args[0])
	for _, x := range c.ps.locks {
		if x.args[0] == c.args[0] {
			e.oblige(c.ps, "double-lock", Bool(false), c.pos, c.fr.fn)
		}
	}
	c.ps.locks = addLock(c.ps.locks, l)
	c.ps.emit(&Event{kind: "lock", args: []*Term{c.args[0]}, pos: c.pos, in: c.fr.fn})
	if e.onLock != nil {
		e.onLock(c.ps, c.args[0])
	}
	return ret(c.ps)
}

func (e *Eng) unlock(c *cx, kind string) []Outcome {
	ls, ok := delLock(c.ps.locks, App("lock:"+kind, nil, c.args[0]))
	if !ok {
		e.oblige(c.ps, "unlock-unlocked", Bool(false), c.pos, c.fr.fn)
	}
	c.ps.locks = ls
	c.ps.emit(&Event{kind: "unlock", args: []*Term{c.args[0]}, pos: c.pos, in: c.fr.fn})
	return ret(c.ps)
}

// splitCat cuts a text at the separator; nil when an unknown part might contain it.
func splitCat(t *Term, sep string) []*Term {
	ps := []*Term{t}
	if t.op == OApp && t.s == "cat" {
		ps = t.args
	}
	out := []*Term{Str("")}
	for _, x := range ps {
		switch {
		case x.op == OStr:
			for i, q := range strings.Split(x.s, sep) {
				if i > 0 {
					out = append(out, Str(""))
				}
				out[len(out)-1] = Cat(out[len(out)-1], Str(q))
			}
		case intText(x) && strings.Trim(sep, "-+0123456789") == sep && sep != "":
			out[len(out)-1] = Cat(out[len(out)-1], x)
		default:
			return nil
		}
	}
	return out
}

// intText: a formatted integer, without blanks.
func intText(t *Term) bool {
	if t.op != OApp || !strings.HasPrefix(t.s, "fmt:") || len(t.args) != 1 {
		return false
	}
	v := t.s[4:]
	if v == "d" {
		return true
	}
	if !strings.HasSuffix(v, "d") && !strings.HasSuffix(v, "v") || v[0] != '0' || !polyIsInt(P(t.args[0])) {
		return false
	}
	_, err := strconv.Atoi(v[:len(v)-1])
	return err == nil
}
