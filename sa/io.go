package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11 and C12: every failure of an I/O call reaches the caller or the exit status, every
// output is finished with a checked Close or Flush before success, every handle is closed.

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
}

// roots are the functions that can be entered from outside: main functions, exported functions
// and methods, functions whose value is taken, and functions nothing calls statically.
func (p *Program) roots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	var all []*ssa.Function
	for _, pk := range p.repo {
		for _, f := range p.fnsOf(pk) {
			all = append(all, f)
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						var callee ssa.Value
						if x, ok := ins.(ssa.CallInstruction); ok && !x.Common().IsInvoke() {
							callee = x.Common().Value
							if c := x.Common().StaticCallee(); c != nil {
								called[c] = true
							}
						}
						for _, op := range ins.Operands(nil) {
							if g, ok := (*op).(*ssa.Function); ok && *op != callee {
								taken[g] = true
							}
						}
					}
				}
				for _, a := range f.AnonFuncs {
					visit(a)
				}
			}
			visit(f)
		}
		if init := pk.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							if x, isCall := ins.(ssa.CallInstruction); isCall && x.Common().Value == g {
								continue
							}
							taken[g] = true
						}
					}
				}
			}
		}
	}
	var rs []*ssa.Function
	for _, f := range all {
		o := f.Object()
		if o == nil {
			continue
		}
		isMain := f.Name() == "main" && f.Pkg.Pkg.Name() == "main"
		exported := o.Exported() && f.Pkg.Pkg.Name() != "main" || o.Exported() && f.Signature.Recv() != nil
		if isMain || exported || taken[f] || !called[f] {
			rs = append(rs, f)
		}
	}
	return rs
}

// fnsOf lists the declared functions and methods of a package, without generated code.
func (p *Program) fnsOf(pk *ssa.Package) []*ssa.Function {
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || f.Synthetic != "" || f.Pkg != pk || generatedFn(p, f) {
			return
		}
		seen[f] = true
		fs = append(fs, f)
	}
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := pk.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(p.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return fs
}

// ioExempt lists calls with an error result that are no input or output of a file, archive,
// image or network reply: parsing of strings, in-memory buffers, diagnostics.
func ioExempt(name string, args []*AV) bool {
	for _, p := range []string{"strconv.", "fmt.Print", "fmt.Sscan", "errors.", "log.", "(*bytes.Buffer).", "(*strings.Builder).", "(*bytes.Reader).", "(*strings.Reader).", "flag.", "(*flag.", "regexp.", "(*regexp.", "net/url.", "time.", "context.", "golang.org/x/net/context.", "builtin.", "math"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	switch name {
	case "fmt.Errorf", "os.Stat", "os.Lstat", "path/filepath.Glob", "path/filepath.Abs", "path/filepath.Rel", "path/filepath.Match", "(*net.Interface).Addrs", "(net.Interface).Addrs",
		"os.Getwd", "os.UserHomeDir", "(error).Error", "dynamic", "(*bufio.Scanner).Err",
		"google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf", "(context.Context).Err":
		return true
	}
	if len(args) > 0 && (strings.HasPrefix(name, "fmt.Fprint") || name == "encoding/binary.Write" || name == "io.WriteString" || strings.HasSuffix(name, ".Write") || strings.HasSuffix(name, ".WriteString") || strings.HasSuffix(name, ".WriteByte") || strings.HasSuffix(name, ".WriteRune")) {
		w := args[0]
		t := ""
		if w.k == aIface {
			t = w.typ.String()
		} else if w.typ != nil {
			t = w.typ.String()
		}
		switch t {
		case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer", "*text/tabwriter.Writer": // never fail or keep the error until Flush
			return true
		}
		s := w.strip().String()
		if s == "*(&os.Stderr)" || s == "*(&os.Stdout)" {
			return true
		}
	}
	return false
}

func resultErr(cc *ssa.CallCommon) int {
	r := cc.Signature().Results()
	if n := r.Len(); n > 0 && isErrType(r.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// handleKind classifies a result that must be released, and one that must be finished.
func handleKind(name string, t types.Type, args []*AV) (release, finish bool) {
	switch t.String() {
	case "*os.File":
		release = true
		finish = name == "os.Create" || strings.HasPrefix(name, "os.CreateTemp") || strings.HasSuffix(name, "ioutil.TempFile")
		if name == "os.OpenFile" {
			finish = !(len(args) > 1 && args[1].k == aConst && args[1].s == "0")
		}
	case "*archive/zip.ReadCloser", "io.ReadCloser", "net.Conn", "*net.TCPConn", "*google.golang.org/grpc.ClientConn":
		release = true
	case "*archive/zip.Writer", "*bufio.Writer", "*compress/gzip.Writer", "*compress/zlib.Writer", "*compress/flate.Writer", "*archive/tar.Writer", "io.WriteCloser":
		finish = true
	}
	if strings.HasPrefix(name, "os/exec.") || strings.HasPrefix(name, "(*os/exec.") {
		release = false
	}
	return
}

type ioClient struct {
	c     *Check
	s     *Sim
	sites map[string]token.Pos // source sites seen
	hands map[string]token.Pos
	viols map[string]string
	eof   map[*AV]*AV // error returned by a callee -> the failure it stands for
}

func finAV(h *AV) *AV { return mkAV(aOp, "unfinished", 0, nil, nil, h) }

func newIO(c *Check) *ioClient {
	io := &ioClient{c: c, s: NewSim(c.p), sites: map[string]token.Pos{}, hands: map[string]token.Pos{}, viols: map[string]string{}, eof: map[*AV]*AV{}}
	s := io.s
	s.interest = func(n string, cc *ssa.CallCommon, in *ssa.Function) bool {
		if strings.HasPrefix(n, "(sort.Interface)") {
			return false
		}
		if resultErr(cc) >= 0 && !ioExempt(n, nil) {
			return true
		}
		r := cc.Signature().Results()
		for i := 0; i < r.Len(); i++ {
			if a, b := handleKind(n, r.At(i).Type(), nil); a || b {
				return true
			}
		}
		return n == "(*bufio.Scanner).Scan" || strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Flush")
	}
	s.onCall = io.call
	s.onLeave = io.leave
	s.onBranch = func(st *SimSt, cond *AV, v bool) {
		// the regular end of a stream is no failure
		for cond.k == aOp && cond.s == "not" {
			cond, v = cond.args[0], !v
		}
		if !v || cond.k != aOp || cond.s != "==" && cond.s != "errors.Is" {
			return
		}
		for i, x := range cond.args {
			if x.strip().String() == "*(&io.EOF)" {
				for k := range st.ts {
					if e := cond.args[1-i]; k == e || k == io.eof[e] {
						delete(st.ts, k)
					}
				}
			}
		}
	}
	return io
}

func (io *ioClient) siteKey(in *ssa.Function, name string) string {
	for in.Parent() != nil {
		in = in.Parent()
	}
	return io.c.p.fnName(in) + "->" + io.short(name)
}

func (io *ioClient) short(n string) string { return strings.ReplaceAll(n, io.c.p.mod+"/", "") }

func (io *ioClient) call(c *SimCall) []*SimSt {
	st := c.st
	name := c.name
	if io.s.ownFn(c.fn) { // opaque repository functions do no I/O
		return nil
	}
	if name == "(*bufio.Scanner).Scan" {
		// a failed read ends the scan; only Err tells
		e := mkAV(aOp, "scanerr", 0, nil, nil, c.args[0])
		k := io.siteKey(c.in, name)
		io.sites[k] = c.site.Pos()
		ok, end, bad := st.clone(), st.clone(), st.clone()
		ok.assume(c.res[0], true)
		end.assume(c.res[0], false)
		bad.assume(c.res[0], false)
		bad.ts[e] = fmt.Sprintf("!err|%s|%s", k, io.c.p.posStr(c.site.Pos()))
		return []*SimSt{ok, end, bad}
	}
	if name == "(*bufio.Scanner).Err" {
		e := mkAV(aOp, "scanerr", 0, nil, nil, c.args[0])
		if v, bad := st.ts[e]; bad {
			delete(st.ts, e)
			st.ts[c.res[0]] = v
			st.assume(avIsNil(c.res[0]), false)
		} else {
			st.assume(avIsNil(c.res[0]), true)
		}
		return nil
	}
	ei := resultErr(c.cc)
	recv := func() *AV {
		if len(c.args) == 0 {
			return nil
		}
		return c.args[0].strip()
	}
	isClose := strings.HasSuffix(name, ").Close") || strings.HasSuffix(name, ").Flush")
	if isClose && recv() != nil {
		h := recv()
		_, unfin := st.ts[finAV(h)]
		delete(st.ts, h)
		zw := false
		if c.args[0].typ != nil {
			_, zw = handleKind("", c.args[0].typ, nil)
		}
		if !unfin && !(zw && h.k != aAlloc && h.k != aSym) || ei < 0 {
			delete(st.ts, finAV(h))
			return nil
		}
		k := io.siteKey(c.in, name)
		io.sites[k] = c.site.Pos()
		bad := st.clone()
		delete(st.ts, finAV(h))
		if !st.assume(avIsNil(c.res[ei]), true) || !bad.assume(avIsNil(c.res[ei]), false) {
			return nil
		}
		bad.ts[c.res[ei]] = fmt.Sprintf("!err|%s|%s", k, io.c.p.posStr(c.site.Pos()))
		return []*SimSt{st, bad}
	}
	hand := func(t *SimSt) {
		for i, r := range c.res {
			rel, fin := handleKind(name, c.cc.Signature().Results().At(i).Type(), c.args)
			if rel || fin {
				t.facts[avIsNil(r)] = false
			}
			k := io.siteKey(c.in, name)
			if rel {
				io.hands["release:"+k] = c.site.Pos()
				t.ts[r] = fmt.Sprintf("!open|%s|%s", k, io.c.p.posStr(c.site.Pos()))
			}
			if fin {
				io.hands["finish:"+k] = c.site.Pos()
				t.ts[finAV(r)] = fmt.Sprintf("!unfin|%s|%s", k, io.c.p.posStr(c.site.Pos()))
			}
		}
	}
	if ei < 0 || ioExempt(name, c.args) {
		hand(st)
		return nil
	}
	// a fallible operation: both outcomes
	k := io.siteKey(c.in, name)
	io.sites[k] = c.site.Pos()
	if name == "google.golang.org/grpc.Dial" || name == "google.golang.org/grpc.NewClient" {
		for e, v := range st.ts { // trying again replaces the failed attempt
			if strings.HasPrefix(v, "!err|"+k+"|") {
				delete(st.ts, e)
			}
		}
	}
	bad := st.clone()
	st.assume(avIsNil(c.res[ei]), true)
	bad.assume(avIsNil(c.res[ei]), false)
	bad.ts[c.res[ei]] = fmt.Sprintf("!err|%s|%s", k, io.c.p.posStr(c.site.Pos()))
	for i, r := range c.res {
		rel, fin := handleKind(name, c.cc.Signature().Results().At(i).Type(), c.args)
		if rel || fin {
			bad.facts[avIsNil(r)] = true
		}
	}
	hand(st)
	return []*SimSt{st, bad}
}

// leave replaces the failures inside a function that returned an error by that error.
func (io *ioClient) leave(in, fn *ssa.Function, site ssa.Instruction, key string, args []*AV, st *SimSt, o *simOut) {
	n := len(o.res)
	for h, v := range st.ts {
		// a handle nobody knows any more
		if strings.HasPrefix(v, "!open|") && h.k == aSym && strings.HasPrefix(h.s, key+"/") && !io.known(h, st, o.res) {
			p := strings.SplitN(v, "|", 3)
			io.viols["release:"+p[1]] = fmt.Sprintf("%s: the handle opened by %s is not closed when %s returns (at %s)", p[2], p[1], io.c.p.fnName(fn), io.c.p.posStr(o.pos))
		}
	}
	if n == 0 || !isErrType(fn.Signature.Results().At(n-1).Type()) {
		return
	}
	e := o.res[n-1]
	if st.truth(avIsNil(e)) != -1 {
		return
	}
	for k, v := range st.ts {
		if strings.HasPrefix(v, "!err|") && (k.k == aSym && strings.HasPrefix(k.s, key+"/") || k == e) {
			delete(st.ts, k)
		}
	}
	callee := io.c.p.fnName(fn)
	if io.c.p.inRepo(in.Pkg.Pkg) && strings.HasSuffix(in.Pkg.Pkg.Path(), "/cmd/voxcut") && callee == "binvox.Read" && len(args) > 0 && args[0].String() != "flag.Arg(0)" {
		return // an unreadable cut model is skipped with a message
	}
	k := io.siteKey(in, callee)
	io.sites[k] = site.Pos()
	f := mkAV(aSym, key+".fail", 0, nil, nil)
	if e.k == aSym {
		io.eof[e] = f
	}
	st.ts[f] = fmt.Sprintf("!err|%s|%s", k, io.c.p.posStr(site.Pos()))
}

func (io *ioClient) run() {
	n := 0
	for _, r := range io.c.p.roots() {
		if !io.s.relevant(r) || simOnly != "" && simOnly != io.c.p.fnName(r) {
			continue
		}
		n++
		outs := io.s.RunRoot(r)
		rn := io.c.p.fnName(r)
		io.c.counts["paths"] += len(outs)
		io.c.counts["states"] += io.s.steps
		for _, o := range outs {
			success := o.kind == "exit0"
			if o.kind == "ret" {
				success = true
				rs := r.Signature.Results()
				if k := rs.Len(); k > 0 && isErrType(rs.At(k-1).Type()) {
					success = o.st.truth(avIsNil(o.res[k-1])) != -1
				}
			}
			for k, v := range o.st.ts {
				p := strings.SplitN(v, "|", 3)
				if len(p) < 3 {
					continue
				}
				how := "returns"
				if o.kind == "exit0" {
					how = "exits with status 0"
				}
				switch {
				case p[0] == "!err" && success:
					if simOnly != "" {
						fmt.Println("PATH", o.kind, o.res, o.st.trail, o.st.ts, o.st.mem, o.st.facts)
					}
					io.viols["error:"+p[1]] = fmt.Sprintf("%s: when %s fails, %s %s as if it had succeeded (at %s)", p[2], p[1], rn, how, io.c.p.posStr(o.pos))
				case p[0] == "!unfin" && success && !io.inRes(k.args[0], o.res):
					io.viols["finish:"+p[1]] = fmt.Sprintf("%s: the output made by %s is not closed or flushed with its error checked before %s %s successfully (at %s)", p[2], p[1], rn, how, io.c.p.posStr(o.pos))
				case p[0] == "!open" && o.kind == "ret" && !io.inRes(k, o.res):
					io.viols["release:"+p[1]] = fmt.Sprintf("%s: the handle opened by %s is not closed when %s returns (at %s)", p[2], p[1], rn, io.c.p.posStr(o.pos))
				}
			}
		}
	}
	io.c.counts["roots"] = n
	io.c.counts["functions"] = len(io.s.inlined)
	io.c.counts["opaque calls"] = io.s.calls
}

// known reports whether a handle can still be reached after a call returned.
func (io *ioClient) known(h *AV, st *SimSt, res []*AV) bool {
	for _, r := range res {
		if hasSym(r, h) {
			return true
		}
	}
	for _, v := range st.mem {
		if hasSym(v, h) {
			return true
		}
	}
	for _, e := range io.s.stack {
		for _, v := range e {
			if hasSym(v, h) {
				return true
			}
		}
	}
	for _, ds := range io.s.dstack {
		for _, d := range ds {
			if hasSym(d.fnv, h) {
				return true
			}
			for _, a := range d.args {
				if hasSym(a, h) {
					return true
				}
			}
		}
	}
	return false
}

func (io *ioClient) inRes(h *AV, res []*AV) bool {
	for _, r := range res {
		if r.strip() == h {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]token.Pos) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func checkC11(c *Check) {
	c.rule("typestate simulation of every root (main functions, exported functions and methods, RPC handlers, registered mappers) through its repository callees, closures and goroutines: each fallible I/O call forks into success and failure, and no path on which one failed may end in a nil error or a normal exit; outputs need a checked Close or Flush on every successful path.")
	io := newIO(c)
	io.run()
	for _, k := range sortedKeys(io.sites) {
		m, bad := io.viols["error:"+k]
		c.ob("error:"+k, !bad, io.sites[k], "%s", m)
	}
	for _, k := range sortedKeys(io.hands) {
		if strings.HasPrefix(k, "finish:") {
			m, bad := io.viols[k]
			c.ob(k, !bad, io.hands[k], "%s", m)
		}
	}
	c.atLeast("error", 80)
	c.atLeast("finish", 3)
	c.atLeast("roots", 20)
}

func checkC12(c *Check) {
	c.rule("typestate simulation of every root through its repository callees, closures and goroutines: a handle opened on a path must be closed (directly, by a callee or by a defer) when the root returns; an output must be closed or flushed before success.")
	io := newIO(c)
	io.run()
	for _, k := range sortedKeys(io.hands) {
		m, bad := io.viols[k]
		c.ob(k, !bad, io.hands[k], "%s", m)
	}
	c.atLeast("release", 7)
	c.atLeast("finish", 3)
	c.atLeast("roots", 20)
}

var simOnly = os.Getenv("SIM_ONLY") // debugging aid: follow only this root
