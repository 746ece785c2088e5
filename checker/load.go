package main

// Loading of the analysed program: /repo's current source, type-checked and lowered to SSA on every run.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ixtendio/gofre"

type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	root  string
	pkgs  map[string]*ssa.Package // repo packages by import path
	repo  map[*types.Package]bool
	stats struct{ packages, functions int }

	globStores map[*ssa.Global][]*ssa.Store
	globVal    map[*ssa.Global]*Term
	globLoads  map[*ssa.Global][]ssa.Value
	callsOf    map[*ssa.Function][]ssa.CallInstruction // static calls
	asValue    map[*ssa.Function]bool                  // used as a value
	globAddr   map[*ssa.Global]bool                    // address used other than by load/store

	pools    map[*ssa.Global]poolShape
	nilables map[string]bool
	impls    map[*types.Func][]*ssa.Function
	modSets  map[*ssa.Function]*modSet
}

func loadProgram(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  root,
		Env:  append(os.Environ(), "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod"),
	}
	cfg.Env = append(os.Environ(), "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=", "GOWORK=off")
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, root: root, pkgs: map[string]*ssa.Package{}, repo: map[*types.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			p.pkgs[path] = sp
			p.repo[sp.Pkg] = true
			p.stats.packages++
		}
	}
	p.indexGlobals()
	return p, nil
}

// repoFunctions lists the source functions (and closures) of the repository
func (p *Program) repoFunctions() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if p.isRepoFn(fn) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

func (p *Program) isRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.repo[f.Pkg.Pkg]
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return p.repo[o.Pkg.Pkg]
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return p.repo[f.Object().Pkg()]
		}
	}
	return false
}

func (p *Program) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	sp := p.pkgs[path]
	if sp == nil {
		panic(undecided("package " + path + " not found"))
	}
	return sp
}

// fn resolves "rel/pkg.Func" or "rel/pkg.Type.Method"
func (p *Program) fn(rel, name string) *ssa.Function {
	f := p.tryFn(rel, name)
	if f == nil {
		panic(undecided("anchor not found: " + rel + "." + name))
	}
	return f
}

func (p *Program) tryFn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := sp.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := types.NewMethodSet(rt)
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == name[i+1:] {
					f := ms.At(j).Obj().(*types.Func)
					if m := p.prog.FuncValue(f); m != nil {
						return m
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) typ(rel, name string) types.Type {
	t := p.pkg(rel).Type(name)
	if t == nil {
		panic(undecided("type not found: " + rel + "." + name))
	}
	return t.Type()
}

func (p *Program) global(rel, name string) *ssa.Global {
	g := p.pkg(rel).Var(name)
	if g == nil {
		panic(undecided("variable not found: " + rel + "." + name))
	}
	return g
}

// stdType finds a named type of any loaded package
func (p *Program) stdType(path, name string) types.Type {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == path {
			if o := sp.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	panic(undecided("type not found: " + path + "." + name))
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.root+"/") + ":" + fmt.Sprint(q.Line)
}

func (p *Program) indexGlobals() {
	p.globStores = map[*ssa.Global][]*ssa.Store{}
	p.globVal = map[*ssa.Global]*Term{}
	p.globAddr = map[*ssa.Global]bool{}
	p.globLoads = map[*ssa.Global][]ssa.Value{}
	p.callsOf = map[*ssa.Function][]ssa.CallInstruction{}
	p.asValue = map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !p.isRepoFn(fn) {
			continue
		}
		p.stats.functions++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						p.globStores[g] = append(p.globStores[g], st)
					}
				}
				cc, isCall := in.(ssa.CallInstruction)
				if isCall && cc.Common().StaticCallee() != nil {
					p.callsOf[cc.Common().StaticCallee()] = append(p.callsOf[cc.Common().StaticCallee()], cc)
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && !(isCall && op == &cc.Common().Value) {
						p.asValue[f] = true
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp:
							p.globLoads[g] = append(p.globLoads[g], x)
							continue
						case *ssa.Store:
							if x.Addr == *op && x.Val != *op {
								continue
							}
						}
						p.globAddr[g] = true
					}
				}
			}
		}
	}
	// tables may hold the unique errors of other packages
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !p.globAddr[g] && len(p.globStores[g]) == 1 && p.globStores[g][0].Parent().Synthetic != "" {
				if c, ok := p.globStores[g][0].Val.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
						nonNilGlobals[g] = true
						uniqueErrGlobals[g] = true
					}
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			sts := p.globStores[g]
			if len(sts) == 0 && !p.globAddr[g] {
				p.globVal[g] = zeroOf(deref(g.Type()))
				continue
			}
			if len(sts) != 1 || sts[0].Parent().Synthetic == "" || p.globAddr[g] {
				continue
			}
			v := sts[0].Val
			if c, ok := v.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
					nonNilGlobals[g] = true
					uniqueErrGlobals[g] = true
					continue
				}
			}
			if t := p.initValue(v, 0); t != nil {
				if p.onlyReadGlobal(g) {
					p.globVal[g] = t
				} else {
					nonNilGlobals[g] = true
				}
			} else if _, isMake := v.(*ssa.MakeSlice); isMake {
				nonNilGlobals[g] = true
			} else if _, isAlloc := v.(*ssa.Alloc); isAlloc {
				nonNilGlobals[g] = true
			} else if c, ok := v.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && (f.String() == "strings.NewReplacer" || f.String() == "regexp.MustCompile") {
					nonNilGlobals[g] = true
				}
			}
		}
	}
}

// onlyReadGlobal: nothing is written through what the variable refers to (a list or a table)
func (p *Program) onlyReadGlobal(g *ssa.Global) bool {
	switch deref(g.Type()).Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
	default:
		return true
	}
	for _, ld := range p.globLoads[g] {
		if !p.onlyRead(ld, 0, map[ssa.Value]bool{}) {
			if os.Getenv("GCDBG") != "" {
				fmt.Fprintln(os.Stderr, "not constant:", g, ld.Parent())
			}
			return false
		}
	}
	return true
}

// onlyRead: no use of the reference writes to what it refers to or lets somebody else do so
func (p *Program) onlyRead(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if depth > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.If, *ssa.Index:
		case *ssa.UnOp:
			// a load
		case *ssa.IndexAddr, *ssa.FieldAddr:
			for _, q := range *u.(ssa.Value).Referrers() {
				switch y := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if !p.onlyRead(y.(ssa.Value), depth+1, seen) {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
			if !p.onlyRead(u.(ssa.Value), depth+1, seen) {
				return false
			}
		case *ssa.Return:
			// the callers of an unexported function
			f := u.Parent()
			if f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil || p.asValue[f] || f.Parent() != nil {
				return false
			}
			for _, c := range p.callsOf[f] {
				cv, ok := c.(*ssa.Call)
				if !ok {
					continue // go and defer drop the results
				}
				for i, x := range u.Results {
					if x != v {
						continue
					}
					if len(u.Results) == 1 {
						if !p.onlyRead(cv, depth+1, seen) {
							return false
						}
						continue
					}
					for _, q := range *cv.Referrers() {
						if ex, ok := q.(*ssa.Extract); ok && ex.Index == i && !p.onlyRead(ex, depth+1, seen) {
							return false
						} else if _, ok := q.(*ssa.Return); ok {
							return false
						}
					}
				}
			}
		case *ssa.Call:
			if bi, ok := u.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "min", "max", "print", "println":
				case "append", "copy":
					if u.Call.Args[0] == v {
						return false
					}
				default:
					return false
				}
				continue
			}
			if u.Call.IsInvoke() && u.Call.Method.Name() == "Write" && u.Call.Value != v {
				continue // a Writer does not modify what it is given
			}
			f := u.Call.StaticCallee()
			if f == nil {
				return false
			}
			if !p.isRepoFn(f) {
				switch f.Pkg.Pkg.Path() {
				case "strings", "bytes", "fmt", "errors", "strconv", "path", "net/url":
					continue
				}
				return false
			}
			for i, a := range u.Call.Args {
				if a == v && (i >= len(f.Params) || !p.onlyRead(f.Params[i], depth+1, seen)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// initValue evaluates the initialiser of a package variable when it is a constant, a function or a literal of those
func (p *Program) initValue(v ssa.Value, depth int) *Term {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return mkFunc(x)
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return mkFunc(x.Fn.(*ssa.Function))
		}
	case *ssa.ChangeType:
		return p.initValue(x.X, depth+1)
	case *ssa.MakeInterface:
		if t := p.initValue(x.X, depth+1); t != nil {
			return mkIface(x.X.Type(), t)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && !al.Heap {
			return p.initCell(al, deref(al.Type()), depth)
		}
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if t := p.globVal[g]; t != nil {
				return t
			}
			if uniqueErrGlobals[g] {
				return mkLoad(mkGlobal(g), 0)
			}
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		n := arrayLen(al.Type())
		if n < 0 {
			return nil
		}
		elems := make([]*Term, n)
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			i := c.Int64()
			if elems[i] = p.initCell(ia, deref(ia.Type()), depth); elems[i] == nil {
				return nil
			}
		}
		for i := range elems {
			if elems[i] == nil {
				return nil
			}
		}
		return mkList(x.Type(), elems...)
	case *ssa.MakeMap:
		var kv []*Term
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				if u.Map != ssa.Value(x) {
					return nil
				}
				k, w := p.initValue(u.Key, depth+1), p.initValue(u.Value, depth+1)
				if k == nil || w == nil {
					return nil
				}
				kv = append(kv, k, w)
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return intern(Term{Op: OMapLit, Args: kv, T: x.Type()}, "")
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "strings.NewReplacer" {
			if l := p.initValue(x.Call.Args[0], depth+1); l != nil && l.Op == OList {
				t := mkPure("strings.NewReplacer", x.Type(), l.Args...)
				return t
			}
		}
	case *ssa.Convert:
		if t := p.initValue(x.X, depth+1); t != nil {
			return mkConv(x.Type(), t)
		}
	}
	return nil
}

// initCell evaluates what an initialiser stores into a cell once: a value, or the fields of a structure
func (p *Program) initCell(a ssa.Value, t types.Type, depth int) *Term {
	if depth > 6 {
		return nil
	}
	var val *Term
	st := structOf(t)
	var fields []*Term
	if st != nil {
		fields = make([]*Term, st.NumFields())
	}
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			// the finished value is read; a literal is complete by then
		case *ssa.Store:
			if u.Addr != a || val != nil {
				return nil
			}
			if val = p.initValue(u.Val, depth+1); val == nil {
				return nil
			}
		case *ssa.FieldAddr:
			if fields == nil || fields[u.Field] != nil {
				return nil
			}
			if fields[u.Field] = p.initCell(u, deref(u.Type()), depth+1); fields[u.Field] == nil {
				return nil
			}
		default:
			return nil
		}
	}
	if val != nil {
		for _, f := range fields {
			if f != nil {
				return nil
			}
		}
		return val
	}
	for i, f := range fields {
		if f == nil {
			fields[i] = zeroOf(st.Field(i).Type())
		}
	}
	if st != nil {
		return mkStruct(t, fields)
	}
	return nil
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	return mkConst(c.Value, c.Type())
}

// numbers of the SSA constructs of a function and its closures, for the evidence
func fnSize(fns []*ssa.Function) (blocks, instrs int) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			blocks++
			instrs += len(b.Instrs)
		}
	}
	return
}
