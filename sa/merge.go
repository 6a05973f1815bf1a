package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: the merge commands replace no file unless the merge succeeded, had inputs that do not
// include the output, and the output was absent or -f was given.

func init() { checks["C24"] = checkC24 }

// destroys gives the argument holding the name of the file a call creates, replaces or removes.
func destroys(name string, args []*AV) int {
	switch name {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Truncate":
		return 0
	case "os.Rename", "(*github.com/fogleman/fauxgl.Mesh).SaveSTL":
		return 1
	case "os.OpenFile":
		if len(args) > 1 && args[1].k == aConst {
			if n, err := strconv.Atoi(args[1].s); err == nil && (n&3 == 0 || n&0200 != 0) {
				return -1 // read only, or exclusive creation
			}
		}
		return 0
	}
	return -1
}

func unclean(v *AV) *AV {
	for v.k == aOp && v.s == "path/filepath.Clean" {
		v = v.args[0]
	}
	return v
}

// boolFlagAV returns the value of the boolean flag of one of the given names.
func boolFlags(pk *ssa.Package, names ...string) map[string]bool {
	r := map[string]bool{}
	for _, f := range []*ssa.Function{pk.Func("init"), pk.Func("main")} {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.Call)
				if !ok || x.Call.StaticCallee() == nil || x.Call.StaticCallee().String() != "flag.Bool" && x.Call.StaticCallee().String() != "flag.BoolVar" {
					continue
				}
				as := x.Call.Args
				ni := 0
				if len(as) == 4 {
					ni = 1
				}
				n, ok := as[ni].(*ssa.Const)
				if !ok {
					continue
				}
				for _, w := range names {
					if constant.StringVal(n.Value) == w {
						if len(as) == 4 {
							if g, ok := as[0].(*ssa.Global); ok {
								r["*(&"+g.Pkg.Pkg.Path()+"."+g.Name()+")"] = true
							}
							continue
						}
						for _, ref := range *x.Referrers() {
							if s, ok := ref.(*ssa.Store); ok {
								if g, ok := s.Addr.(*ssa.Global); ok {
									r["*(*(&"+g.Pkg.Pkg.Path()+"."+g.Name()+"))"] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

func checkC24(c *Check) {
	c.rule("typestate simulation of the merge commands: at each call that creates, replaces or removes a file, the path must have merged a non-empty list that cannot contain that file, with a nil error, and must have found the file absent or the -f flag set.")
	for _, pkn := range []string{"cmd/merge-binvox", "cmd/merge-stl"} {
		pk := c.p.Pkg(pkn)
		if pk == nil {
			c.ob("anchor:"+pkn, false, token.NoPos, "package %s not found", pkn)
			continue
		}
		main := pk.Func("main")
		if main == nil {
			c.ob("anchor:"+pkn, false, token.NoPos, "no main function in %s", pkn)
			continue
		}
		c24main(c, pkn, pk, main)
	}
	c.atLeast("paths", 2)
	c.atLeast("output", 2)
}

func c24main(c *Check, pkn string, pk *ssa.Package, main *ssa.Function) {
	s := NewSim(c.p)
	own := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn.Pkg == pk
	}
	s.inline = func(fn *ssa.Function) bool { return own(fn) }
	isWriter := map[*ssa.Function]bool{}
	writer := func(fn *ssa.Function) bool { // repository functions that may create files
		if r, ok := isWriter[fn]; ok {
			return r
		}
		isWriter[fn] = false
		r := reaches(c.p, fn, func(n string) bool { return n == "os.OpenFile" || destroys(n, nil) >= 0 })
		isWriter[fn] = r
		return r
	}
	s.opaque = func(fn *ssa.Function) bool { return !own(fn) && !writer(fn) }
	s.interest = func(n string, cc *ssa.CallCommon, in *ssa.Function) bool {
		return n == "os.OpenFile" || destroys(n, nil) >= 0
	}
	s.keep = func(fn *ssa.Function, x *ssa.If) bool { return own(fn) }
	force := boolFlags(pk, "f", "force", "overwrite")
	c.ob("anchor:"+pkn+".force", len(force) > 0, main.Pos(), "no -f flag found in %s", pkn)

	elem := func(a *AV) *AV { return mkAV(aOp, "elems", 0, nil, nil, a) }
	// what an element is known to differ from
	diff := func(st *SimSt, v *AV) string {
		var ids []string
		for f, b := range st.facts {
			if b || f.k != aOp || f.s != "==" || v.k == aConst {
				continue
			}
			for i := range f.args {
				x, y := f.args[i], f.args[1-i]
				switch {
				case x == v && y.k == aOp && (y.s == "path/filepath.Clean"):
					ids = append(ids, strconv.Itoa(unclean(y).id))
				case x.k == aOp && y.k == aOp && x.s == y.s && (x.s == "path/filepath.Clean" || x.s == "path/filepath.Base" || x.s == "path/filepath.Abs") && x.args[0] == v:
					ids = append(ids, strconv.Itoa(unclean(y.args[0]).id))
				}
			}
		}
		sort.Strings(ids)
		return strings.Join(ids, ",")
	}
	s.onElem = func(st *SimSt, coll, v *AV) {
		k := elem(coll)
		d := diff(st, v)
		if old, ok := st.ts[k]; ok {
			d = meetIDs(old, d)
		}
		st.ts[k] = d
	}
	listState := func(st *SimSt, a *AV) string {
		if a.k == aNil || st.truth(ltZero(mkAV(aOp, "len", 0, nil, nil, a))) == -1 {
			return "*" // empty
		}
		if d, ok := st.ts[elem(a)]; ok {
			return d
		}
		if a.k == aAlloc {
			return "*"
		}
		return "" // anything
	}
	s.onAppend = func(st *SimSt, args []*AV, res *AV) {
		st.ts[elem(res)] = meetIDs(listState(st, args[0]), listState(st, args[1]))
		if listState(st, args[1]) != "*" && args[1].k == aAlloc {
			st.facts[ltZero(mkAV(aOp, "len", 0, nil, nil, res))] = true
		}
		delete(st.ts, elem(args[1]))
	}
	viol := map[string]string{}
	sites := map[string]token.Pos{}
	refuse := map[*ssa.Function]int{}
	var globs []*AV
	s.onCall = func(sc *SimCall) []*SimSt {
		st := sc.st
		if sc.name == "path/filepath.Glob" && len(sc.args) > 0 {
			globs = append(globs, sc.args[0])
			return nil
		}
		if (sc.name == "os.Stat" || sc.name == "os.Lstat") && len(sc.args) > 0 {
			st.ts[sc.res[1]] = "stat:" + strconv.Itoa(unclean(sc.args[0]).id)
			return nil
		}
		if strings.HasPrefix(sc.name, "slices.DeleteFunc") && len(sc.args) == 2 && sc.args[1].k == aClos {
			f := sc.args[1].fn
			if len(f.Params) == 1 {
				el := mkAV(aSym, sc.key+".elem", 0, f.Params[0].Type(), nil)
				os := s.exec(f, []*AV{el}, sc.args[1].args, st.clone(), sc.key+"/f")
				d := "*"
				for _, o := range os {
					if o.kind == "ret" && o.st.assume(o.res[0], false) {
						d = meetIDs(d, diff(o.st, el))
					}
				}
				st.ts[elem(sc.res[0])] = d
			}
			return nil
		}
		// a merge: a repository function of another package taking the files and returning an error
		if sc.fn != nil && s.ownFn(sc.fn) && !own(sc.fn) {
			ei := resultErr(sc.cc)
			for i, a := range sc.args {
				if i < len(sc.fn.Params) && sc.fn.Params[i].Type().String() == "[]string" && ei >= 0 {
					ne := st.truth(ltZero(mkAV(aOp, "len", 0, nil, nil, a))) == 1
					if !ne {
						r, ok := refuse[sc.fn]
						if !ok {
							r = refusesEmpty(c.p, sc.fn, i)
							refuse[sc.fn] = r
						}
						ne = r == 1
					}
					st.ts[sc.res[ei]] = fmt.Sprintf("merge:%v:%s", ne, listState(st, a))
					k := pkn + "->" + c.p.fnName(sc.fn)
					sites["merge:"+k] = sc.site.Pos()
				}
			}
			return nil
		}
		i := destroys(sc.name, sc.args)
		if i < 0 || i >= len(sc.args) {
			return nil
		}
		name := sc.args[i]
		k := pkn + "->" + sc.name
		sites["output:"+k] = sc.site.Pos()
		at := c.p.posStr(sc.site.Pos())
		merged, nonempty, clean, absent := false, false, false, false
		id := strconv.Itoa(unclean(name).id)
		for e, v := range st.ts {
			switch {
			case strings.HasPrefix(v, "merge:") && st.truth(avIsNil(e)) == 1:
				p := strings.SplitN(v, ":", 3)
				merged = true
				if p[1] == "true" {
					nonempty = true
				}
				if p[2] == "*" || hasID(p[2], id) || disjointNames(globs, name) {
					clean = true
				}
			case v == "stat:"+id:
				if st.truth(avIsNil(e)) == -1 {
					absent = true
				}
				for f, b := range st.facts {
					if b && f.k == aOp && (f.s == "os.IsNotExist" || f.s == "errors.Is") && f.args[0].strip() == e {
						absent = true
					}
				}
			}
		}
		for f, b := range st.facts {
			if b && force[f.String()] {
				absent = true
			}
		}
		bad := func(q, m string) {
			if m != "" {
				viol[q+":"+k] = fmt.Sprintf("%s: %s (path %v)", at, m, st.trail)
			}
		}
		if !merged {
			bad("output", "the output file may be changed on a path without a successful merge")
		} else if !nonempty {
			bad("nonempty", "the output file is written although there may be nothing to merge")
		} else if !clean {
			bad("inputs", "the output file may be one of the merged inputs")
		}
		if !absent {
			bad("exists", "the output file is replaced without -f on a path where it may exist")
		}
		return nil
	}
	outs := s.RunRoot(main)
	c.counts["paths"] += len(outs)
	c.counts["states"] += s.steps
	var ks []string
	for k := range sites {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.ob(k, viol[k] == "", sites[k], "%s", viol[k])
		if strings.HasPrefix(k, "output:") {
			for _, q := range []string{"nonempty", "inputs", "exists"} {
				qk := q + strings.TrimPrefix(k, "output")
				c.ob(qk, viol[qk] == "", sites[k], "%s", viol[qk])
			}
		}
	}
	n := 0
	for _, k := range ks {
		if strings.HasPrefix(k, "output:") {
			n++
		}
	}
	c.ob("writes:"+pkn, n > 0, main.Pos(), "%s writes no output", pkn)
}

func meetIDs(a, b string) string {
	if a == "*" {
		return b
	}
	if b == "*" {
		return a
	}
	var r []string
	for _, x := range strings.Split(a, ",") {
		if x != "" && hasID(b, x) {
			r = append(r, x)
		}
	}
	return strings.Join(r, ",")
}

func hasID(l, id string) bool {
	for _, x := range strings.Split(l, ",") {
		if x == id {
			return true
		}
	}
	return false
}

// disjointNames: no name matching the patterns can equal the output name, by their constant endings.
func disjointNames(globs []*AV, name *AV) bool {
	if len(globs) == 0 {
		return false
	}
	n := constSuffix(unclean(name))
	for _, g := range globs {
		p := constSuffix(g)
		if i := strings.LastIndexAny(p, "*?]"); i >= 0 {
			p = p[i+1:]
		}
		if n == "" || p == "" || strings.HasSuffix(n, p) || strings.HasSuffix(p, n) {
			return false
		}
	}
	return true
}

func constSuffix(v *AV) string {
	if v.k == aOp && v.s == "+" {
		return constSuffix(v.args[len(v.args)-1])
	}
	if v.k == aConst {
		if s, err := strconv.Unquote(v.s); err == nil {
			return s
		}
	}
	return ""
}

// refusesEmpty reports whether a function given an empty slice returns only errors.
func refusesEmpty(p *Program, fn *ssa.Function, i int) int {
	s := NewSim(p)
	s.keep = func(*ssa.Function, *ssa.If) bool { return true }
	s.interest = func(n string, cc *ssa.CallCommon, in *ssa.Function) bool { return false }
	var as []*AV
	st := newSimSt()
	for _, q := range fn.Params {
		as = append(as, mkAV(aParam, q.Name(), 0, q.Type(), nil))
	}
	as[i] = avNil
	r := 1
	func() {
		defer func() {
			if recover() != nil {
				r = 0
			}
		}()
		for _, o := range s.exec(fn, as, nil, st, "") {
			if o.kind == "ret" && o.st.truth(avIsNil(o.res[len(o.res)-1])) != -1 {
				r = 0
			}
		}
	}()
	return r
}

// reaches reports whether a function may call one of the named library functions.
func reaches(p *Program, fn *ssa.Function, want func(string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.inRepo(pkgOfFn(f)) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(ssa.CallInstruction); ok {
					cal := x.Common().StaticCallee()
					if want(extName(x.Common(), cal)) || visit(cal) {
						return true
					}
				}
				if x, ok := ins.(*ssa.MakeClosure); ok && visit(x.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return visit(fn)
}
