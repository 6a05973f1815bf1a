package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: converting, writing and voxelizing do not modify their inputs.

func init() { checks["C20"] = checkC20 }

// inName describes an input object: parameter and the fields leading to it.
func inName(o *ptObj) string { return strings.TrimPrefix(o.name, o.kind+":") }

func checkC20(c *Check) {
	c.rule("points-to and effect analysis: for each operation, every store, map update, copy and library write in the functions it reaches is resolved to the objects it may touch; none may be an object reachable from an input, except those the operation is for.")
	type op struct {
		pkg, fn string
		allow   []string // parameter and field that may change, as name.field
	}
	ops := []op{
		{"binvox", "BinVOX.ToMesh", nil}, {"binvox", "BinVOX.ManifoldMesh", nil}, {"binvox", "BinVOX.MarchingCubes", nil},
		{"binvox", "BinVOX.Write", nil}, {"binvox", "BinVOX.Get", nil}, {"binvox", "BinVOX.Dim", nil},
		{"binvox", "BinVOX.VoxelsPerMM", nil}, {"binvox", "BinVOX.MBB", nil}, {"binvox", "BinVOX.String", nil},
		{"vshell", "VShell.Write", nil}, {"vshell", "VShell.Dim", nil}, {"vshell", "VShell.VoxelsPerMM", nil}, {"vshell", "VShell.MBB", nil}, {"vshell", "VShell.String", nil},
		{"binvox", "BinVOX.Voxelize", []string{"0.WhiteVoxels"}}, {"binvox", "BinVOX.VoxelizeZ", []string{"0.WhiteVoxels"}},
		{"cmd/voxcut", "voxcut", nil},
	}
	for _, o := range ops {
		fn := c.p.Fn(o.pkg, o.fn)
		key := "op:" + o.pkg + "." + o.fn
		if fn == nil {
			c.ob("anchor:"+key, false, 0, "%s.%s not found", o.pkg, o.fn)
			continue
		}
		a := NewPts(c.p)
		a.Root(fn)
		c.counts["functions"] += len(a.fns)
		allowed := map[string]bool{}
		for _, al := range o.allow {
			i := strings.Index(al, ".")
			n := fn.Params[int(al[0]-'0')]
			if st, ok := pointee(n.Type()).Underlying().(*types.Struct); ok {
				for f := 0; f < st.NumFields(); f++ {
					if st.Field(f).Name() == al[i+1:] {
						base := c.p.fnName(fn) + "/" + n.Name()
						allowed[base+fmt.Sprintf("|.%d", f)] = true // the field itself
						allowed[base+fmt.Sprintf(".%d|", f)] = true // the map it holds
					}
				}
			}
		}
		bad := map[string]bool{}
		short := a.shortened()
		for _, w := range a.writes {
			c.counts["writes"]++
			for _, l := range a.locs(w) {
				if l.o.kind != "in" || w.kind == "append" && !short[l.o] {
					continue
				}
				if allowed[inName(l.o)+"|"+l.path] {
					continue
				}
				bad[fmt.Sprintf("%s at %s writes %s", c.p.fnName(w.fn), c.p.posStr(w.ins.Pos()), describeIn(c.p, fn, l))] = true
			}
		}
		c.ob(key, len(bad) == 0, fn.Pos(), "%s changes its input: %s", c.p.fnName(fn), joinSet(bad))
	}
	// package-level data
	a := NewPts(c.p)
	for _, pk := range c.p.repo {
		if f := pk.Func("init"); f != nil {
			a.Root(f)
		}
	}
	for _, r := range c.p.roots() {
		a.Root(r)
	}
	inInit := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	calledBy := map[*ssa.Function][]*ssa.Function{}
	for f, es := range a.edges {
		for _, e := range es {
			calledBy[e.to] = append(calledBy[e.to], f)
		}
	}
	mark = func(f *ssa.Function) {
		if inInit[f] {
			return
		}
		for _, g := range calledBy[f] {
			if !inInit[g] {
				return
			}
		}
		inInit[f] = true
		for _, e := range a.edges[f] {
			mark(e.to)
		}
	}
	for f := range a.done {
		if isInitFn(f) {
			inInit[f] = true
		}
	}
	for f := range a.done {
		if isInitFn(f) {
			for _, e := range a.edges[f] {
				mark(e.to)
			}
		}
	}
	// objects reachable from package-level variables of the model packages, as filled by initialisation
	type gl struct {
		o *ptObj
		g string
	}
	shared := map[*ptObj]string{}
	stored := map[*ptObj]bool{}
	for _, w := range a.writes {
		if inInit[w.fn] {
			for _, l := range a.locs(w) {
				stored[l.o] = true
			}
		}
	}
	nglob := 0
	for _, pkn := range []string{"binvox", "vshell"} {
		pk := c.p.Pkg(pkn)
		if pk == nil {
			c.ob("anchor:"+pkn, false, 0, "package %s not found", pkn)
			continue
		}
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := pk.Members[n].(*ssa.Global)
			if !ok || strings.HasPrefix(n, "init$") {
				continue
			}
			o := a.global(g)
			if !stored[o] {
				continue
			}
			nglob++
			var visit func(o *ptObj)
			visit = func(o *ptObj) {
				if _, ok := shared[o]; ok {
					return
				}
				shared[o] = pkn + "." + n
				for _, nd := range a.contentNodes(o) {
					for _, l := range a.nodes[nd].order {
						if l.o.init && (stored[l.o] || l.o.kind == "box") {
							visit(l.o)
						}
					}
				}
			}
			visit(o)
		}
	}
	c.counts["package variables"] = nglob
	c.counts["shared objects"] = len(shared)
	short := a.shortened()
	bad := map[string]map[string]bool{}
	for _, w := range a.writes {
		if inInit[w.fn] {
			continue
		}
		for _, l := range a.locs(w) {
			if w.kind == "append" && !short[l.o] {
				continue
			}
			if g, ok := shared[l.o]; ok {
				if bad[g] == nil {
					bad[g] = map[string]bool{}
				}
				bad[g][fmt.Sprintf("%s at %s", c.p.fnName(w.fn), c.p.posStr(w.ins.Pos()))] = true
			}
		}
	}
	gs := map[string]bool{}
	for _, g := range shared {
		gs[g] = true
	}
	var names []string
	for g := range gs {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		c.ob("shared:"+g, len(bad[g]) == 0, 0, "data of the package variable %s is changed after start-up by %s", g, joinSet(bad[g]))
	}
	c.atLeast("package variables", 8)
	c.atLeast("shared objects", 30)
	c.atLeast("writes", 100)
}

func (a *Pts) contentNodes(o *ptObj) []int {
	var r []int
	for k, n := range a.keys {
		if k.v == interface{}(o) {
			r = append(r, n)
		}
	}
	sort.Ints(r)
	return r
}

func joinSet(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	if len(r) > 4 {
		r = append(r[:4], fmt.Sprintf("and %d more", len(r)-4))
	}
	return strings.Join(r, "; ")
}

// describeIn names a place in an input by parameter and fields.
func describeIn(p *Program, fn *ssa.Function, l ptLoc) string {
	n := strings.TrimPrefix(inName(l.o), p.fnName(fn)+"/")
	for _, q := range fn.Params {
		if n == q.Name() || strings.HasPrefix(n, q.Name()+".") {
			t := q.Type()
			if e := pointee(t); e != nil {
				t = e
			}
			return q.Name() + pathName(t, n[len(q.Name()):]+l.path)
		}
	}
	return n + l.path
}
