package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dumpFn prints the summary of one function (debugging aid).
func dumpFn(p *Program, rel, name string) {
	fn := p.Fn(rel, name)
	if fn == nil {
		fmt.Println("no function", rel, name)
		return
	}
	e := NewEng(p)
	if q := os.Getenv("DUMP_OPAQUE"); q != "" {
		e.opaque = func(fn *ssa.Function) bool {
			for _, n := range strings.Split(q, ",") {
				if p.fnName(fn) == n || n == "@" && fn.Pkg != nil && p.Fn(rel, name).Pkg != fn.Pkg && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/gmlewis/") {
					return true
				}
			}
			return false
		}
	}
	st := e.newState(emptyFacts)
	var args []*Term
	for _, a := range fn.Params {
		args = append(args, Sym("arg:"+a.Name(), a.Type()))
	}
	for _, n := range strings.Split(os.Getenv("DUMP_POS"), ",") {
		for _, a := range args {
			if a.s == "arg:"+n {
				st.facts = st.facts.AddAll([]*Term{GE(Sub(a, Int(1)))})
			}
		}
	}
	outs, err := e.Run(fn, args, st)
	if err != nil {
		fmt.Println("GAVE UP:", err)
	}
	for i, o := range outs {
		if k := os.Getenv("DUMP_KIND"); k != "" && k != o.kind {
			continue
		}
		var rs []string
		for _, r := range o.res {
			rs = append(rs, r.String())
		}
		fmt.Printf("--- outcome %d: %s (%s) at %s\n", i, o.kind, strings.Join(rs, ", "), p.posStr(o.pos))
		fmt.Println("   facts:", o.st.facts)
		dumpEvents(o.st.trace.list(), "   ", func(s string) {
			if len(s) > 1500 {
				s = s[:1500] + "…"
			}
			fmt.Println(s)
		})
		var hs []*Term
		for k := range o.st.heap {
			hs = append(hs, k)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].id < hs[j].id })
		for _, k := range hs {
			s := fmt.Sprintf("   heap %v = %v", k, o.st.heap[k])
			if len(s) > 900 {
				s = s[:900] + "…"
			}
			fmt.Println(s)
		}
	}
	for _, o := range e.obls {
		fmt.Printf("obl %s ok=%v at %s: %v\n", o.kind, o.ok, p.posStr(o.pos), o.what)
	}
	fmt.Fprintln(os.Stderr, "steps", e.steps, "terms", len(allTerms))
}
