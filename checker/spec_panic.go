package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C46"] = spec{run: checkNoPanic, min: 400,
		explain: "every function of the repository that runs for a request, and every exported function outside the registration of routes, on every path: an obligation at each operation that can panic. Index and slice expressions lie within the length of what they index (inferred loop invariants); an unchecked type assertion succeeds (the value was made with that type, was taken from a pool that holds nothing else, or is read from a field that never holds anything else); nothing that may be nil is dereferenced, called or, for a map, written to: results of calls that failed, missing map entries, configuration the code itself tests against nil, results of methods with an implementation that returns nil; no division by a value that may be zero. The header and cookie maps of a response can always be written to, or the response has none. A panic statement is only on the way of a failing random source, and registration may refuse a route by one",
		assume: []string{"values handed in by the application (handlers, providers, requests of the server, configuration that is never tested against nil) are not nil, and a handler that returns no error returns a response", "library functions do not panic on the arguments given",
			"indexes of the matcher's tables are decided by C48 and those of recorded segments of the path by C47"}}
}

// the checks that walk the code serving requests
var servingChecks = []string{"C01", "C03", "C06", "C08", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C29", "C31", "C32", "C33", "C34", "C36", "C37", "C45"}

// checkNoPanic walks the code that serves requests in the way the other checks do, every time with an obligation at every
// operation that can panic
func checkNoPanic(c *Check) {
	for _, id := range servingChecks {
		sub := &Check{id: id, p: c.p, rules: map[string]int{}, analysed: map[string]bool{}, sites: map[string]bool{}, boundsAll: true}
		func() {
			defer func() {
				// what this walk cannot decide is reported by the check it belongs to
				if r := recover(); r != nil && os.Getenv("GCDBG") != "" {
					fmt.Println(id, "gave up:", r)
				}
			}()
			specs[id].run(sub)
		}()
		for _, e := range sub.engines {
			c.panicFree(e)
		}
		c.paths += sub.paths
		c.engines = append(c.engines, sub.engines...)
	}
	c.mapsGiven()
	c.walkRest()
}

// mapsGiven: the headers and the cookies of a response can be written to: a response either has none at all, or its map is
// there on every path
func (c *Check) mapsGiven() {
	for _, t := range c.respTypes() {
		for _, method := range []string{"Headers", "Cookies"} {
			fn := c.p.prog.LookupMethod(t.recv, c.p.pkg("response").Pkg, method)
			e := c.engine()
			st := newState(e)
			r := mkSym("r", t.recv)
			if isPtr(t.recv) {
				st.facts.assume(mkEq(r, mkNil()), false)
			}
			given, none := 0, 0
			for _, o := range e.callFn(st, fn, []*Term{r}, nil, 0) {
				if o.Panic != nil {
					continue
				}
				isNil := mkEq(stripConv(o.Vals[0]), mkNil())
				switch v := o.St.facts.norm(stripConv(o.Vals[0])); {
				case o.St.facts.always(isNil):
					none++
				case o.St.facts.never(isNil), v.Op == OCall || v.Op == OMakeMap || v.Op == OExtract:
					given++
				default:
					given++
					none++
				}
			}
			c.require(given == 0 || none == 0, "map-given", fn.Pos(), nil, "%s.%s gives no map in some cases", t.name, method)
		}
	}
}

// poolShape is what a pool hands out: the type, and for a pointer to a list the length of the list
type poolShape struct {
	t types.Type
	n int64
}

func (p *Program) poolShape(pool *Term) (types.Type, int64) {
	if pool.Op == OLoad {
		pool = pool.Args[0]
	}
	if pool.Op != OGlobal {
		return nil, 0
	}
	if s, ok := p.pools[pool.G]; ok {
		return s.t, s.n
	}
	if p.pools == nil {
		p.pools = map[*ssa.Global]poolShape{}
	}
	p.pools[pool.G] = poolShape{}
	c := &Check{p: p}
	fns := c.poolNew(pool.G)
	if len(fns) != 1 {
		return nil, 0
	}
	e := newEngine(p)
	var s poolShape
	for i, o := range e.callFn(newState(e), fns[0], nil, nil, 0) {
		if o.Panic != nil {
			continue
		}
		v := stripConv(o.Vals[0])
		if v.Op != OIface || i > 0 && (s.t == nil || !types.Identical(s.t, v.T)) {
			return nil, 0
		}
		n := int64(0)
		if pt, ok := v.T.Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Slice); ok {
				n, _ = o.St.lenOf(o.St.load(v.Args[0]))
			}
		}
		if i > 0 && n != s.n {
			n = 0
		}
		s = poolShape{v.T, n}
	}
	p.pools[pool.G] = s
	return s.t, s.n
}

// alwaysHolds: the value asserted is read from a field in which the repository only ever puts values of that type
func (p *Program) alwaysHolds(x *ssa.TypeAssert) bool {
	u, ok := x.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	owner := deref(fa.X.Type())
	found := false
	for f := range allFns(p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || a.Field != fa.Field || !types.Identical(deref(a.X.Type()), owner) {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Const:
					if !v.IsNil() {
						return false
					}
				case *ssa.MakeInterface:
					if !types.Identical(v.X.Type(), x.AssertedType) {
						return false
					}
					found = true
				default:
					return false
				}
			}
		}
	}
	return found
}

// recorded: the piece of a request path that the parser recorded; the offsets are those of a piece of the path (C47)
func (e *Engine) recorded(b, lo, hi *Term) bool {
	lo, hi = stripConv(lo), stripConv(hi)
	f := func(t *Term, name string) *Term {
		if t.Op != OLoad || t.Args[0].Op != OFieldAddr {
			return nil
		}
		a := t.Args[0]
		if st, ok := structOf(deref(a.Args[0].T)).Field(a.N), true; !ok || st.Name() != name {
			return nil
		}
		return a.Args[0]
	}
	x, y := f(lo, "startIndex"), f(hi, "endIndex")
	return x != nil && x == y && isStringType(b.T)
}

// walkRest walks the exported functions that no check walks, each on its own. Registration is left out: it may refuse a
// pattern or a route by a panic, and runs before any request
func (c *Check) walkRest() {
	parse := c.p.fn("router/path", "ParsePattern")
	registering, _ := c.p.closureOf(parse)
	seen := map[*ssa.Function]bool{}
	for _, e := range c.engines {
		for f := range e.fnsSeen {
			seen[f] = true
		}
	}
	for _, f := range c.p.repoFunctions() {
		if seen[f] || registering[f] || f.Synthetic != "" || isExample(f.Pkg) || f.Parent() != nil || len(f.Blocks) == 0 || !f.Object().Exported() ||
			c.p.callsNamed(f, parse, map[*ssa.Function]bool{}) {
			continue
		}
		e := c.engine()
		e.bounds, e.typePanics, e.nilChecks = true, true, true
		st := newState(e)
		var args []*Term
		for _, p := range f.Params {
			args = append(args, mkSym(p.Name(), p.Type()))
		}
		given := func(s *State) {
			for _, a := range args {
				s.facts.assume(mkEq(a, mkNil()), false)
			}
		}
		if res := f.Signature.Results(); res.Len() == 1 && types.Identical(res.At(0).Type(), c.middlewareType()) {
			c.middleware(e, f, args, given)
		} else {
			given(st)
			e.callFn(st, f, args, nil, 0)
		}
		for g := range e.fnsSeen {
			seen[g] = true
		}
		c.panicFree(e)
	}
}

func (c *Check) panicFree(e *Engine) {
	for _, k := range sortedKeys(e.obligs) {
		o := e.obligs[k]
		if !o.Proved && os.Getenv("GCDBG") != "" {
			fmt.Println(o.Kind, o.Fn, c.p.pos(o.Pos), o.Desc)
		}
		c.require(o.Proved, o.Kind, o.Pos, nil, "%s", o.Desc)
	}
}

// fields of requests that are documented to be nil in some cases
var nilFields = map[string]bool{"f:net/http.Request.TLS": true, "f:net/http.Request.MultipartForm": true, "f:net/http.Request.Response": true, "f:net/http.Request.Cancel": true, "f:net/http.Request.GetBody": true}

// mayBeNil: the value is one that is nil by convention in some cases: read from a field of a type of the repository that
// code of the repository compares with nil, from a field that is documented so, or the result of a method of which an
// implementation in the repository returns nil
func (p *Program) mayBeNil(v *Term) bool {
	if p.nilables == nil {
		p.nilables = map[string]bool{}
		for f := range allFns(p) {
			if !p.isRepoFn(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.BinOp:
						if c, ok := x.Y.(*ssa.Const); ok && c.IsNil() && !isPtr(x.X.Type()) {
							if k := p.fieldOf(x.X, 0); k != "" {
								p.nilables[k] = true
							}
						}
					case ssa.CallInstruction:
						if cc := x.Common(); cc.IsInvoke() && cc.Signature().Results().Len() == 1 {
							for _, m := range p.implementations(cc.Method) {
								if returnsNil(m) {
									p.nilables[cc.Method.FullName()] = true
								}
							}
						}
					}
				}
			}
		}
	}
	switch v.Op {
	case OLoad:
		if a := v.Args[0]; a.Op == OFieldAddr {
			t := deref(a.Args[0].T)
			if s := structOf(t); s != nil && a.N < s.NumFields() {
				k := fieldKey(t, s.Field(a.N).Name())
				return p.nilables[k] || nilFields[k]
			}
		}
	case OField:
		t := v.Args[0].T
		if s := structOf(t); s != nil && v.N < s.NumFields() {
			k := fieldKey(t, s.Field(v.N).Name())
			return p.nilables[k] || nilFields[k]
		}
	case OCall, OPure:
		return p.nilables[v.S]
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func returnsNil(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if c, ok := r.Results[0].(*ssa.Const); ok && c.IsNil() {
				return true
			}
		}
	}
	return false
}

// fieldOf is the field of a type of the repository that the value was read from
func (p *Program) fieldOf(v ssa.Value, depth int) string {
	key := func(t types.Type, i int) string {
		n, ok := t.(*types.Named)
		if !ok || !p.repo[n.Obj().Pkg()] {
			return ""
		}
		return fieldKey(t, structOf(t).Field(i).Name())
	}
	if depth > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return p.fieldOf(x.X, depth+1)
	case *ssa.Field:
		return key(x.X.Type(), x.Field)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return key(deref(a.X.Type()), a.Field)
		case *ssa.Alloc:
			return p.fieldOfCell(a, depth)
		case *ssa.FreeVar:
			f := a.Parent()
			for i, fv := range f.FreeVars {
				if fv != a {
					continue
				}
				for _, mc := range *f.Referrers() {
					if mk, ok := mc.(*ssa.MakeClosure); ok {
						if al, ok := mk.Bindings[i].(*ssa.Alloc); ok {
							return p.fieldOfCell(al, depth)
						}
					}
				}
			}
		}
	}
	return ""
}

// fieldOfCell: the variable is assigned once
func (p *Program) fieldOfCell(a *ssa.Alloc, depth int) string {
	var val ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if val != nil {
				return ""
			}
			val = s.Val
		}
	}
	if val == nil {
		return ""
	}
	return p.fieldOf(val, depth+1)
}

// callsNamed: the function, or one it calls by name, calls the function given
func (p *Program) callsNamed(f, target *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == target {
		return true
	}
	if seen[f] || !p.isRepoFn(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && p.callsNamed(g, target, seen) {
					return true
				}
			}
		}
	}
	return false
}
