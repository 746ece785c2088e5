package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func repoRoot() string {
	if r := os.Getenv("GOFRE_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func mustLoad() *Program {
	p, err := loadProgram(repoRoot())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

func cmdExterns() {
	p := mustLoad()
	use := map[string]map[string]bool{}
	for _, fn := range p.repoFunctions() {
		if strings.Contains(fn.String(), "/examples") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var n string
				if c.Common().IsInvoke() {
					n = "invoke " + c.Common().Method.FullName()
				} else if f := c.Common().StaticCallee(); f != nil {
					if p.isRepoFn(f) {
						continue
					}
					n = fnName(f)
				} else {
					continue
				}
				if use[n] == nil {
					use[n] = map[string]bool{}
				}
				use[n][strings.TrimPrefix(fn.String(), modPath+"/")] = true
			}
		}
	}
	for _, k := range sortedKeys(use) {
		var l []string
		for u := range use[k] {
			l = append(l, u)
		}
		sort.Strings(l)
		fmt.Println(k, " <- ", strings.Join(l, ", "))
	}
}

func cmdDump(args []string) {
	p := mustLoad()
	fn := p.fn(args[0], args[1])
	e := newEngine(p)
	e.bounds = os.Getenv("BOUNDS") != ""
	e.panicCalls = os.Getenv("PANICS") != ""
	for _, n := range strings.Fields(os.Getenv("OPAQUE")) {
		e.opaque[n] = true
	}
	e.allStores = os.Getenv("STORES") != ""
	st := newState(e)
	var as []*Term
	for _, pr := range fn.Params {
		as = append(as, mkSym(pr.Name(), pr.Type()))
	}
	outs := e.callFn(st, fn, as, nil, 0)
	for i, o := range outs {
		fmt.Printf("=== outcome %d: %v panic=%v\n", i, o.Vals, o.Panic)
		printItems(p, o.St.trace.items(), "  ")
	}
	for _, k := range sortedKeys(e.obligs) {
		o := e.obligs[k]
		fmt.Println("oblig", o.Kind, o.Fn, p.pos(o.Pos), o.Proved, o.Desc)
	}
	fmt.Println("outcomes", len(outs), "forks", e.forks, "terms", termCount)
}

func printItems(p *Program, items []any, ind string) {
	for _, it := range items {
		switch x := it.(type) {
		case *FactItem:
			fmt.Printf("%sfact %v = %v  (%s)\n", ind, x.T, x.Val, p.pos(x.Pos))
		case *Event:
			fmt.Printf("%sevent %s %s %v args=%v snap=%v res=%v defer=%v (%s)\n", ind, x.Kind, x.Name, x.Callee, x.Args, x.Snap, x.Res, x.Deferred, p.pos(x.Pos))
		case *LoopExit:
			fmt.Printf("%sloop %d part %d\n", ind, x.Node.ID, x.Part)
			for i, v := range x.Node.Vars {
				fmt.Printf("%s   var %s init=%v top=%v part=%v\n", ind, v.Name, v.Init, v.Top, x.Node.Parts[x.Part].Vals[i])
			}
			if os.Getenv("LOOPS") != "" {
				for _, t := range x.Node.Trans {
					fmt.Printf("%s   trans %d->%d next=%v\n", ind, t.From, t.To, t.Next)
					printItems(p, t.Items, ind+"      ")
				}
			}
		}
	}
}

func dbg(args ...any) {
	if os.Getenv("GCDBG") != "" {
		fmt.Fprintln(os.Stderr, args...)
	}
}
