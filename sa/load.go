package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded source of /repo (and fauxgl) in SSA form.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	repo  []*ssa.Package
	ppkgs map[string]*packages.Package
	dir   string
	mod   string
}

const glPath = "github.com/fogleman/fauxgl"

func repoDir() string {
	if d := os.Getenv("SA_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load() (*Program, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOOS=linux"),
	}
	ps, err := packages.Load(cfg, "./...", glPath)
	if err != nil {
		return nil, err
	}
	if cfg.Overlay = countedRanges(ps); len(cfg.Overlay) > 0 {
		if ps, err = packages.Load(cfg, "./...", glPath); err != nil {
			return nil, err
		}
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, ppkgs: map[string]*packages.Package{}, dir: dir}
	for _, x := range ps {
		if x.Module != nil && x.Module.Main {
			p.mod = x.Module.Path
		}
		for _, e := range x.Errors {
			if strings.HasSuffix(x.PkgPath, "/cmd/stl2svx") {
				continue // does not build at the pinned commit
			}
			return nil, fmt.Errorf("%v: %v", x.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p.prog = prog
	p.fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.ppkgs[ps[i].PkgPath] = ps[i]
		if strings.HasSuffix(ps[i].PkgPath, "/cmd/stl2svx") {
			continue
		}
		sp.Build()
		p.pkgs[sp.Pkg.Path()] = sp
		if sp.Pkg.Path() != glPath {
			p.repo = append(p.repo, sp)
		}
	}
	sort.Slice(p.repo, func(i, j int) bool { return p.repo[i].Pkg.Path() < p.repo[j].Pkg.Path() })
	if p.mod == "" || len(p.repo) == 0 {
		return nil, fmt.Errorf("no packages loaded from %v", dir)
	}
	return p, nil
}

// countedRanges rewrites "for i := range n" over a number as the loop with a condition it stands
// for, unless the body writes to i.
func countedRanges(ps []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, x := range ps {
		if x.Module == nil || !x.Module.Main || x.TypesInfo == nil {
			continue
		}
		for _, file := range x.Syntax {
			type edit struct {
				from, to int
				text     string
			}
			var edits []edit
			name := x.Fset.Position(file.FileStart).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			at := func(p token.Pos) int { return x.Fset.PositionFor(p, false).Offset }
			n := 0
			ast.Inspect(file, func(nd ast.Node) bool {
				r, ok := nd.(*ast.RangeStmt)
				if !ok || r.Value != nil || r.Key != nil && r.Tok != token.DEFINE {
					return true
				}
				t := x.TypesInfo.TypeOf(r.X)
				if t == nil {
					return true
				}
				if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				var tn string
				switch t := types.Default(t).(type) {
				case *types.Basic:
					tn = t.Name()
				case *types.Named:
					if t.Obj().Pkg() != x.Types || t.Obj().Parent() != x.Types.Scope() {
						return true
					}
					tn = t.Obj().Name()
				default:
					return true
				}
				if t, ok := x.Types.Scope().Lookup(tn).(*types.TypeName); types.Universe.Lookup(tn) != nil && ok && t != nil {
					return true
				}
				n++
				key := fmt.Sprintf("_i%d", n)
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					key = id.Name
					if writes(x.TypesInfo, r.Body, x.TypesInfo.Defs[id]) {
						return true
					}
				}
				lim := fmt.Sprintf("_n%d", n)
				edits = append(edits, edit{at(r.For), at(r.X.Pos()), fmt.Sprintf("for %s, %s := %s(0), %s(", key, lim, tn, tn)},
					edit{at(r.X.End()), at(r.X.End()), fmt.Sprintf("); %s < %s; %s++", key, lim, key)})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			for _, e := range edits {
				src = append(src[:e.from:e.from], append([]byte(e.text), src[e.to:]...)...)
			}
			out[name] = src
		}
	}
	return out
}

// writes: the body assigns to the variable or takes its address.
func writes(info *types.Info, body ast.Node, v types.Object) bool {
	found := false
	is := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok && info.Uses[id] == v {
			found = true
		}
	}
	ast.Inspect(body, func(nd ast.Node) bool {
		switch s := nd.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				is(l)
			}
		case *ast.IncDecStmt:
			is(s.X)
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				is(s.Key)
				if s.Value != nil {
					is(s.Value)
				}
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				is(s.X)
			}
		}
		return true
	})
	return found
}

func (p *Program) inRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == p.mod || strings.HasPrefix(pkg.Path(), p.mod+"/"))
}

// Pkg finds a repository package by its path relative to the module.
func (p *Program) Pkg(rel string) *ssa.Package { return p.pkgs[p.mod+"/"+rel] }

// Fn finds a function "Name" or "(*T).Name" / "(T).Name" written "T.Name".
func (p *Program) Fn(rel, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if rel == "gl" {
		pk = p.pkgs[glPath]
	}
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		t, ok := pk.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, typ := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := p.prog.MethodSets.MethodSet(typ)
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == name[i+1:] {
					return p.prog.MethodValue(ms.At(j))
				}
			}
		}
		return nil
	}
	return pk.Func(name)
}

func (p *Program) Type(rel, name string) types.Type {
	pk := p.Pkg(rel)
	if rel == "gl" {
		pk = p.pkgs[glPath]
	}
	if pk == nil {
		return nil
	}
	if t, ok := pk.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (p *Program) fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, p.mod+"/", "")
	return s
}
