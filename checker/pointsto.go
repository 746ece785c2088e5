package main

// Points-to analysis in two phases. Every function of the repository is analysed as it runs while the application is
// set up (parameters come from the application: the shared object S) and, when it is reachable from the places where
// requests arrive, as it runs for a request (parameters come from the request: the object R). Memory is abstracted by
// allocation site, phase and, inside closures, the closure object; struct fields, array elements, map keys and values
// are kept apart. The analysis is flow-insensitive: it over-approximates what each value can refer to.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	phSetup   = 0
	phRequest = 1
)

type aobj struct {
	id    int
	kind  string // ext, global, alloc, box, closure, func
	typ   types.Type
	phase int
	fn    *ssa.Function
	in    ssa.Instruction
	ctx   *actx
	label string
}

type aloc struct {
	obj  *aobj
	path string
}

type pset map[aloc]bool

type actx struct {
	fn      *ssa.Function
	phase   int
	closure *aobj
	id      int
}

type ctxKey struct {
	fn      *ssa.Function
	phase   int
	closure *aobj
}

type valKey struct {
	ctx  *actx
	v    ssa.Value
	path string
}

type objKey struct {
	what any
	ctx  *actx
	n    int
}

type retKey struct {
	ctx  *actx
	path string
}

type pta struct {
	p        *Program
	ctxs     map[ctxKey]*actx
	order    []*actx
	vals     map[valKey]pset
	mem      map[aloc]pset
	rets     map[retKey]pset
	objs     map[objKey]*aobj
	funcs    []*aobj // function values that exist
	ext      [2]*aobj
	changed  bool
	nobj     int
	leafTab  map[types.Type][]string
	calls    map[*actx]map[ssa.CallInstruction]map[*actx]bool // edges for the lock analysis
	once     map[*actx]bool                                   // runs inside a sync.Once
	held     map[*aobj][]heldType
	lockMemo map[*actx][2]map[string]bool
	implTab  map[*types.Func][]*ssa.Function
	keyObj   map[string]*aobj // the mutexes that are variables
}

func newPTA(p *Program) *pta {
	a := &pta{p: p, ctxs: map[ctxKey]*actx{}, vals: map[valKey]pset{}, mem: map[aloc]pset{}, rets: map[retKey]pset{}, objs: map[objKey]*aobj{}, leafTab: map[types.Type][]string{},
		calls: map[*actx]map[ssa.CallInstruction]map[*actx]bool{}, once: map[*actx]bool{}, lockMemo: map[*actx][2]map[string]bool{}, keyObj: map[string]*aobj{}, held: map[*aobj][]heldType{}, implTab: map[*types.Func][]*ssa.Function{}}
	a.ext[phSetup] = a.newObj("ext", nil, phSetup, "memory of the application")
	a.ext[phRequest] = a.newObj("ext", nil, phRequest, "memory of the request")
	return a
}

func (a *pta) newObj(kind string, t types.Type, phase int, label string) *aobj {
	a.nobj++
	return &aobj{id: a.nobj, kind: kind, typ: t, phase: phase, label: label}
}

func (a *pta) object(kind string, what any, ctx *actx, n int, t types.Type, label string) *aobj {
	k := objKey{what, ctx, n}
	if o, ok := a.objs[k]; ok {
		return o
	}
	ph := phSetup
	if ctx != nil {
		ph = ctx.phase
	}
	o := a.newObj(kind, t, ph, label)
	o.ctx = ctx
	if in, ok := what.(ssa.Instruction); ok {
		o.in = in
	}
	a.objs[k] = o
	a.changed = true
	if kind == "func" || kind == "closure" {
		a.funcs = append(a.funcs, o)
	}
	return o
}

func (a *pta) context(fn *ssa.Function, phase int, closure *aobj) *actx {
	k := ctxKey{fn, phase, closure}
	if c, ok := a.ctxs[k]; ok {
		return c
	}
	c := &actx{fn: fn, phase: phase, closure: closure, id: len(a.order)}
	a.ctxs[k] = c
	a.order = append(a.order, c)
	a.changed = true
	return c
}

// leaves lists the places inside a value of the type that refer to memory
func (a *pta) leaves(t types.Type) []string {
	if l, ok := a.leafTab[t]; ok {
		return l
	}
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		out = []string{""}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = []string{""}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range a.leaves(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, l))
			}
		}
	case *types.Array:
		for _, l := range a.leaves(u.Elem()) {
			out = append(out, "[]"+l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range a.leaves(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, l))
			}
		}
	default:
		out = []string{""}
	}
	a.leafTab[t] = out
	return out
}

// typeAt is the type of a place
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		switch {
		case strings.HasPrefix(path, "[]"):
			path = path[2:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			case *types.Chan:
				t = u.Elem()
			default:
				return nil
			}
		case strings.HasPrefix(path, "[k]"):
			path = path[3:]
			u, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t = u.Key()
		case path[0] == '.' || path[0] == '#':
			n, j := 0, 1
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				n = n*10 + int(path[j]-'0')
				j++
			}
			if j == 1 {
				return nil
			}
			mark := path[0]
			path = path[j:]
			if mark == '#' {
				u, ok := t.(*types.Tuple)
				if !ok || n >= u.Len() {
					return nil
				}
				t = u.At(n).Type()
				break
			}
			u, ok := t.Underlying().(*types.Struct)
			if !ok || n >= u.NumFields() {
				return nil
			}
			t = u.Field(n).Type()
		default:
			return nil
		}
	}
	return t
}

func (l aloc) typ() types.Type {
	if l.obj.typ == nil {
		return nil
	}
	return typeAt(l.obj.typ, l.path)
}

// at is a place inside the location; unknown memory has no inside
func (l aloc) at(path string) aloc {
	if l.obj.kind == "ext" {
		return aloc{l.obj, ""}
	}
	if len(l.path)+len(path) > 60 {
		panic(undecided("a place too deep in memory"))
	}
	return aloc{l.obj, l.path + path}
}

func (a *pta) addTo(dst pset, src pset) pset {
	for l := range src {
		if !dst[l] {
			if dst == nil {
				dst = pset{}
			}
			dst[l] = true
			a.changed = true
		}
	}
	return dst
}

func union(dst, src pset) pset {
	for l := range src {
		dst[l] = true
	}
	return dst
}

func (a *pta) addVal(ctx *actx, v ssa.Value, path string, src pset) {
	if len(src) == 0 {
		return
	}
	k := valKey{ctx, v, path}
	a.vals[k] = a.addTo(a.vals[k], src)
}

func (a *pta) addMem(l aloc, src pset) {
	if len(src) == 0 {
		return
	}
	a.mem[l] = a.addTo(a.mem[l], src)
}

func one1(l aloc) pset { return pset{l: true} }

func (a *pta) extSet(phase int) pset { return one1(aloc{a.ext[phase], ""}) }

func (a *pta) get(ctx *actx, v ssa.Value, path string) pset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		if path != "" {
			return nil
		}
		return one1(aloc{a.global(x), ""})
	case *ssa.Function:
		return one1(aloc{a.funcObj(x), ""})
	case *ssa.FreeVar:
		if ctx.closure == nil {
			return a.extSet(ctx.phase)
		}
		for i, fv := range ctx.fn.FreeVars {
			if fv == x {
				return a.mem[aloc{ctx.closure, fmt.Sprintf(".b%d%s", i, path)}]
			}
		}
	}
	return a.vals[valKey{ctx, v, path}]
}

func (a *pta) global(g *ssa.Global) *aobj {
	o := a.object("global", g, nil, 0, deref(g.Type()), "the package variable "+shortName(g.String()))
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		// variables of libraries hold memory of the application
		for _, l := range a.leaves(deref(g.Type())) {
			a.addMem(aloc{o, l}, a.extSet(phSetup))
		}
	}
	return o
}

func (a *pta) funcObj(f *ssa.Function) *aobj {
	o := a.object("func", f, nil, 0, f.Signature, shortName(f.String()))
	o.fn = f
	return o
}

// compatible: a reference of the type may be to the location
func (a *pta) compatible(l aloc, t types.Type) bool {
	if l.obj.kind == "ext" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if l.obj.kind == "box" && l.path == "" {
			return types.Implements(l.obj.typ, u)
		}
		lt := l.typ()
		return lt != nil && types.Implements(types.NewPointer(lt), u)
	case *types.Signature:
		return (l.obj.kind == "func" || l.obj.kind == "closure") && types.Identical(l.obj.typ.Underlying(), u)
	case *types.Pointer:
		if l.obj.kind == "box" && l.path == "" {
			return false
		}
		lt := l.typ()
		return lt != nil && types.Identical(lt.Underlying(), u.Elem().Underlying())
	case *types.Slice:
		lt := l.typ()
		if lt == nil {
			return false
		}
		switch w := lt.Underlying().(type) {
		case *types.Slice:
			return types.Identical(w.Elem(), u.Elem())
		case *types.Array:
			return types.Identical(w.Elem(), u.Elem())
		}
		return false
	case *types.Map:
		lt := l.typ()
		return lt != nil && types.Identical(lt.Underlying(), u)
	case *types.Chan:
		lt := l.typ()
		if lt == nil {
			return false
		}
		w, ok := lt.Underlying().(*types.Chan)
		return ok && types.Identical(w.Elem(), u.Elem())
	}
	return true
}

// load reads the leaf of a value of type t at the locations
func (a *pta) load(locs pset, t types.Type, leaf string) pset {
	out := pset{}
	for l := range locs {
		if l.obj.kind == "ext" {
			out[aloc{l.obj, ""}] = true
			lt := typeAt(t, leaf)
			for _, held := range a.held[l.obj] {
				for m := range a.mem[aloc{l.obj, held.path}] {
					if m.obj.kind == "ext" && (lt == nil || !types.Identical(lt, held.t)) {
						continue // not what was put there
					}
					if lt == nil || a.compatible(m, lt) {
						out[m] = true
					}
				}
			}
			continue
		}
		for m := range a.mem[l.at(leaf)] {
			out[m] = true
		}
	}
	return out
}

// store writes the leaf, of type t, at the locations
func (a *pta) store(locs pset, prefix, leaf string, src pset, t types.Type) {
	for l := range locs {
		if l.obj.kind == "ext" {
			a.give(l.obj, src, t)
			continue
		}
		a.addMem(l.at(prefix+leaf), src)
	}
}

type heldType struct {
	t    types.Type
	path string
}

// give puts values of the type into memory outside
func (a *pta) give(o *aobj, src pset, t types.Type) {
	if len(src) == 0 {
		return
	}
	path := "<" + typeKey(t) + ">"
	l := aloc{o, path}
	if _, ok := a.mem[l]; !ok {
		a.held[o] = append(a.held[o], heldType{t, path})
	}
	a.addMem(l, src)
}

func (a *pta) copyVal(ctx *actx, dst ssa.Value, dpath string, src ssa.Value, spath string, t types.Type) {
	for _, l := range a.leaves(t) {
		a.addVal(ctx, dst, dpath+l, a.get(ctx, src, spath+l))
	}
}

func at(locs pset, path string) pset {
	out := pset{}
	for l := range locs {
		out[l.at(path)] = true
	}
	return out
}

func (a *pta) run() {
	for round := 0; ; round++ {
		if round > 200 {
			panic(undecided("the points-to analysis does not settle"))
		}
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			ctx := a.order[i]
			for _, b := range ctx.fn.Blocks {
				for _, in := range b.Instrs {
					a.instr(ctx, in)
				}
			}
		}
		if !a.changed {
			if os.Getenv("GCDBG") != "" {
				fmt.Fprintln(os.Stderr, "points-to:", round, "rounds", len(a.order), "contexts", len(a.objs), "objects", len(a.vals), "values")
			}
			return
		}
	}
}

func (a *pta) instr(ctx *actx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		a.addVal(ctx, x, "", one1(aloc{a.object("alloc", in, ctx, 0, t, "memory made at "+a.p.pos(x.Pos())), ""}))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.addVal(ctx, v, "", one1(aloc{a.object("alloc", in, ctx, 0, v.Type(), "memory made at "+a.p.pos(v.Pos())), ""}))
	case *ssa.FieldAddr:
		a.addVal(ctx, x, "", at(a.get(ctx, x.X, ""), fmt.Sprintf(".%d", x.Field)))
	case *ssa.IndexAddr:
		a.addVal(ctx, x, "", at(a.get(ctx, x.X, ""), "[]"))
	case *ssa.Slice:
		if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr {
			a.addVal(ctx, x, "", a.get(ctx, x.X, ""))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			locs := a.get(ctx, x.X, "")
			for _, l := range a.leaves(x.Type()) {
				a.addVal(ctx, x, l, a.load(locs, x.Type(), l))
			}
		case token.ARROW:
			locs := a.get(ctx, x.X, "")
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			for _, l := range a.leaves(et) {
				a.addVal(ctx, x, pre+l, a.load(at(locs, "[]"), et, l))
			}
		}
	case *ssa.Store:
		locs := a.get(ctx, x.Addr, "")
		for _, l := range a.leaves(x.Val.Type()) {
			a.store(locs, "", l, a.get(ctx, x.Val, l), typeAt(x.Val.Type(), l))
		}
	case *ssa.MapUpdate:
		locs := a.get(ctx, x.Map, "")
		for _, l := range a.leaves(x.Value.Type()) {
			a.store(locs, "[]", l, a.get(ctx, x.Value, l), typeAt(x.Value.Type(), l))
		}
		for _, l := range a.leaves(x.Key.Type()) {
			a.store(locs, "[k]", l, a.get(ctx, x.Key, l), typeAt(x.Key.Type(), l))
		}
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		locs := at(a.get(ctx, x.X, ""), "[]")
		for _, l := range a.leaves(m.Elem()) {
			a.addVal(ctx, x, pre+l, a.load(locs, m.Elem(), l))
		}
	case *ssa.Range:
		a.addVal(ctx, x, "", a.get(ctx, x.X, ""))
	case *ssa.Next:
		if x.IsString {
			return
		}
		r := x.Iter.(*ssa.Range)
		m, ok := r.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		locs := a.get(ctx, r.X, "")
		for _, l := range a.leaves(m.Key()) {
			a.addVal(ctx, x, "#1"+l, a.load(at(locs, "[k]"), m.Key(), l))
		}
		for _, l := range a.leaves(m.Elem()) {
			a.addVal(ctx, x, "#2"+l, a.load(at(locs, "[]"), m.Elem(), l))
		}
	case *ssa.Send:
		locs := at(a.get(ctx, x.Chan, ""), "[]")
		for _, l := range a.leaves(x.X.Type()) {
			a.store(locs, "", l, a.get(ctx, x.X, l), typeAt(x.X.Type(), l))
		}
	case *ssa.Select:
		n := 2
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				locs := at(a.get(ctx, s.Chan, ""), "[]")
				for _, l := range a.leaves(s.Send.Type()) {
					a.store(locs, "", l, a.get(ctx, s.Send, l), typeAt(s.Send.Type(), l))
				}
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			for _, l := range a.leaves(et) {
				a.addVal(ctx, x, fmt.Sprintf("#%d%s", n, l), a.load(at(a.get(ctx, s.Chan, ""), "[]"), et, l))
			}
			n++
		}
	case *ssa.MakeInterface:
		t := x.X.Type()
		if _, ok := t.Underlying().(*types.Pointer); ok {
			a.addVal(ctx, x, "", a.get(ctx, x.X, ""))
			return
		}
		box := a.object("box", in, ctx, 0, t, "a value at "+a.p.pos(x.Pos()))
		for _, l := range a.leaves(t) {
			a.addMem(aloc{box, l}, a.get(ctx, x.X, l))
		}
		a.addVal(ctx, x, "", one1(aloc{box, ""}))
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		src := a.get(ctx, x.X, "")
		switch x.AssertedType.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			out := pset{}
			for l := range src {
				if a.compatible(l, x.AssertedType) {
					out[l] = true
				}
			}
			a.addVal(ctx, x, pre, out)
		default:
			for l := range src {
				if l.obj.kind == "ext" || l.obj.kind == "box" && types.Identical(l.obj.typ, x.AssertedType) {
					for _, lf := range a.leaves(x.AssertedType) {
						a.addVal(ctx, x, pre+lf, a.load(one1(l), x.AssertedType, lf))
					}
				}
			}
		}
	case *ssa.ChangeInterface:
		a.addVal(ctx, x, "", a.get(ctx, x.X, ""))
	case *ssa.ChangeType:
		a.copyVal(ctx, x, "", x.X, "", x.Type())
	case *ssa.SliceToArrayPointer:
		a.addVal(ctx, x, "", a.get(ctx, x.X, ""))
	case *ssa.Convert:
		if len(a.leaves(x.Type())) == 0 {
			return
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			a.addVal(ctx, x, "", one1(aloc{a.object("alloc", in, ctx, 0, x.Type(), "memory made at "+a.p.pos(x.Pos())), ""}))
			return
		}
		a.addVal(ctx, x, "", a.get(ctx, x.X, ""))
	case *ssa.MultiConvert:
		panic(undecided("a conversion of a type parameter"))
	case *ssa.Extract:
		a.copyVal(ctx, x, "", x.Tuple, fmt.Sprintf("#%d", x.Index), x.Type())
	case *ssa.Field:
		a.copyVal(ctx, x, "", x.X, fmt.Sprintf(".%d", x.Field), x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copyVal(ctx, x, "", x.X, "[]", x.Type())
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(ctx, x, "", e, "", x.Type())
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		o := a.object("closure", in, ctx, 0, fn.Signature, shortName(fn.String()))
		o.fn = fn
		for i, b := range x.Bindings {
			for _, l := range a.leaves(b.Type()) {
				a.addMem(aloc{o, fmt.Sprintf(".b%d%s", i, l)}, a.get(ctx, b, l))
			}
		}
		a.addVal(ctx, x, "", one1(aloc{o, ""}))
	case *ssa.Return:
		for i, r := range x.Results {
			pre := ""
			if len(x.Results) > 1 {
				pre = fmt.Sprintf("#%d", i)
			}
			for _, l := range a.leaves(r.Type()) {
				k := retKey{ctx, pre + l}
				if s := a.get(ctx, r, l); len(s) > 0 {
					a.rets[k] = a.addTo(a.rets[k], s)
				}
			}
		}
	case *ssa.Call, *ssa.Defer, *ssa.Go:
		a.call(ctx, in.(ssa.CallInstruction))
	}
}

// arg is what a call passes: a value of the caller or a set of locations
type parg struct {
	v    ssa.Value
	path string
	sets map[string]pset // used when v is nil, per leaf
	t    types.Type
}

func (a *pta) argSet(ctx *actx, g parg, leaf string) pset {
	if g.v != nil {
		return a.get(ctx, g.v, g.path+leaf)
	}
	if s, ok := g.sets[leaf]; ok {
		return s
	}
	return g.sets["*"]
}

func (a *pta) call(ctx *actx, site ssa.CallInstruction) {
	c := site.Common()
	var res ssa.Value
	if v, ok := site.(*ssa.Call); ok {
		res = v
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(ctx, site, b, c, res)
		return
	}
	var args []parg
	for _, v := range c.Args {
		args = append(args, parg{v: v, t: v.Type()})
	}
	if c.IsInvoke() {
		a.invoke(ctx, site, res, a.get(ctx, c.Value, ""), c.Value.Type(), c.Method, args)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var clo *aobj
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for l := range a.get(ctx, mc, "") {
				clo = l.obj
			}
		}
		a.callFn(ctx, site, res, f, clo, args)
		return
	}
	if libFunc(a.p, c.Value) {
		// what a library function returned calls only what that function was given
		a.extResult(ctx, res, c.Signature().Results(), nil)
		return
	}
	a.callValue(ctx, site, res, a.get(ctx, c.Value, ""), c.Signature(), args)
}

// libFunc: the function value was made by a library, not by the application
func libFunc(p *Program, v ssa.Value) bool {
	if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" {
		return true // CancelFunc
	}
	for {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Call:
			f := x.Call.StaticCallee()
			return f != nil && f.Pkg != nil && !p.repo[f.Pkg.Pkg]
		}
		return false
	}
}

// callValue calls function values
func (a *pta) callValue(ctx *actx, site ssa.CallInstruction, res ssa.Value, fns pset, sig *types.Signature, args []parg) {
	for l := range fns {
		switch l.obj.kind {
		case "closure":
			a.callFn(ctx, site, res, l.obj.fn, l.obj, args)
		case "func":
			a.callFn(ctx, site, res, l.obj.fn, nil, args)
		case "ext":
			// code of the application, or any function value of the repository
			a.extResult(ctx, res, sig.Results(), nil)
			for _, o := range a.funcs {
				if o.fn != nil && types.Identical(o.typ.Underlying(), sigOnly(sig)) {
					if o.kind == "closure" {
						a.callFn(ctx, site, res, o.fn, o, args)
					} else {
						a.callFn(ctx, site, res, o.fn, nil, args)
					}
				}
			}
		}
	}
}

func sigOnly(s *types.Signature) types.Type {
	if s.Recv() == nil {
		return s
	}
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (a *pta) invoke(ctx *actx, site ssa.CallInstruction, res ssa.Value, recv pset, rt types.Type, m *types.Func, args []parg) {
	ext := false
	for l := range recv {
		if l.obj.kind == "ext" {
			ext = true
			a.libCall(ctx, site, res, m.FullName(), nil, m.Type().(*types.Signature), append([]parg{{sets: map[string]pset{"": one1(l)}, t: rt}}, args...))
			for _, f := range a.impls(m) {
				r := parg{sets: map[string]pset{"*": one1(l)}, t: f.Signature.Recv().Type()}
				a.callFn(ctx, site, res, f, nil, append([]parg{r}, args...))
			}
			continue
		}
		var dyn types.Type
		r := parg{}
		if l.obj.kind == "box" && l.path == "" {
			dyn = l.obj.typ
			r.t = dyn
			r.sets = map[string]pset{}
			for _, lf := range a.leaves(dyn) {
				r.sets[lf] = a.mem[aloc{l.obj, lf}]
			}
		} else if lt := l.typ(); lt != nil {
			dyn = types.NewPointer(lt)
			r.t = dyn
			r.sets = map[string]pset{"": one1(l)}
		}
		if dyn == nil {
			continue
		}
		sel := a.p.prog.MethodSets.MethodSet(dyn).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		f := a.p.prog.MethodValue(sel)
		if f == nil {
			continue
		}
		a.callFn(ctx, site, res, f, nil, append([]parg{r}, args...))
	}
	_ = ext
}

// impls are the methods of the repository's types that may be meant
func (a *pta) impls(m *types.Func) []*ssa.Function {
	if l, ok := a.implTab[m]; ok {
		return l
	}
	var out []*ssa.Function
	rt := m.Type().(*types.Signature).Recv().Type()
	it, ok := rt.Underlying().(*types.Interface)
	if ok {
		for _, sp := range a.p.pkgs {
			if isExample(sp) {
				continue
			}
			for _, mem := range sp.Members {
				tn, ok := mem.(*ssa.Type)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if !types.Implements(t, it) {
						continue
					}
					if sel := a.p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
						if f := a.p.prog.MethodValue(sel); f != nil && a.p.isRepoFn(f) {
							out = append(out, f)
						}
					}
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	a.implTab[m] = out
	return out
}

func isExample(sp *ssa.Package) bool {
	return strings.HasPrefix(sp.Pkg.Path(), modPath+"/examples") || sp.Pkg.Name() == "main"
}

func (a *pta) callFn(ctx *actx, site ssa.CallInstruction, res ssa.Value, f *ssa.Function, clo *aobj, args []parg) {
	if len(f.Blocks) == 0 || !(a.p.isRepoFn(f) || f.Pkg == nil && f.Synthetic != "") {
		a.libCall(ctx, site, res, f.String(), f, f.Signature, args)
		return
	}
	if len(f.FreeVars) == 0 {
		clo = nil
	}
	callee := a.context(f, ctx.phase, clo)
	a.edge(ctx, site, callee)
	for i, p := range f.Params {
		if i >= len(args) {
			break
		}
		for _, l := range a.leaves(p.Type()) {
			a.addVal(callee, p, l, a.argSet(ctx, args[i], l))
		}
	}
	if res != nil {
		for _, l := range a.leaves(res.Type()) {
			a.addVal(ctx, res, l, a.rets[retKey{callee, l}])
		}
	}
}

func (a *pta) edge(ctx *actx, site ssa.CallInstruction, callee *actx) {
	if a.calls[ctx] == nil {
		a.calls[ctx] = map[ssa.CallInstruction]map[*actx]bool{}
	}
	if a.calls[ctx][site] == nil {
		a.calls[ctx][site] = map[*actx]bool{}
	}
	a.calls[ctx][site][callee] = true
}

func (a *pta) extResult(ctx *actx, res ssa.Value, results *types.Tuple, alias func(t types.Type) pset) {
	if res == nil {
		return
	}
	for _, l := range a.leaves(res.Type()) {
		a.addVal(ctx, res, l, a.extSet(ctx.phase))
		if alias != nil {
			if t := typeAt(res.Type(), l); t != nil {
				a.addVal(ctx, res, l, alias(t))
			}
		}
	}
}

func (a *pta) builtin(ctx *actx, site ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, res ssa.Value) {
	switch b.Name() {
	case "append":
		base := a.get(ctx, c.Args[0], "")
		st, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok || res == nil {
			return
		}
		o := a.object("alloc", site.(ssa.Instruction), ctx, 0, c.Args[0].Type(), "memory made at "+a.p.pos(site.Pos()))
		all := union(pset{}, base)
		all[aloc{o, ""}] = true
		// what was there moves to the new memory
		leaves := a.leaves(st.Elem())
		for _, l := range leaves {
			src := pset{}
			for x := range a.load(at(base, "[]"), st.Elem(), l) {
				src[x] = true
			}
			a.addMem(aloc{o, "[]" + l}, src)
		}
		if len(c.Args) > 1 {
			if _, isSlice := c.Args[1].Type().Underlying().(*types.Slice); isSlice {
				more := a.get(ctx, c.Args[1], "")
				for _, l := range leaves {
					src := a.load(at(more, "[]"), st.Elem(), l)
					a.store(all, "[]", l, src, typeAt(st.Elem(), l))
				}
			}
		}
		a.addVal(ctx, res, "", all)
	case "copy":
		st, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		if _, isSlice := c.Args[1].Type().Underlying().(*types.Slice); isSlice {
			for _, l := range a.leaves(st.Elem()) {
				a.store(a.get(ctx, c.Args[0], ""), "[]", l, a.load(at(a.get(ctx, c.Args[1], ""), "[]"), st.Elem(), l), typeAt(st.Elem(), l))
			}
		}
	case "recover":
		if res != nil {
			a.addVal(ctx, res, "", a.extSet(ctx.phase))
		}
	case "ssa:wrapnilchk":
		a.addVal(ctx, res, "", a.get(ctx, c.Args[0], ""))
	case "SliceData", "StringData", "Slice", "Add":
		if res != nil && len(a.leaves(res.Type())) > 0 && len(a.leaves(c.Args[0].Type())) > 0 {
			a.addVal(ctx, res, "", a.get(ctx, c.Args[0], ""))
		}
	}
}

// libCall: a call of a function that is not in the repository
func (a *pta) libCall(ctx *actx, site ssa.CallInstruction, res ssa.Value, name string, f *ssa.Function, sig *types.Signature, args []parg) {
	switch name {
	case "(*sync.Pool).Get":
		for l := range a.argSet(ctx, args[0], "") {
			if l.obj.kind == "ext" {
				a.extResult(ctx, res, nil, nil)
				continue
			}
			st := structOf(l.typ())
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					a.callValue(ctx, site, res, a.mem[l.at(fmt.Sprintf(".%d", i))], st.Field(i).Type().Underlying().(*types.Signature), nil)
				}
			}
		}
		return
	case "(*sync.Pool).Put":
		return
	case "context.WithValue":
		a.give(a.ext[ctx.phase], a.argSet(ctx, args[2], ""), args[2].t)
		if res != nil {
			a.addVal(ctx, res, "", a.extSet(ctx.phase))
			a.addVal(ctx, res, "", a.argSet(ctx, args[0], ""))
		}
		return
	case "(*sync.Once).Do":
		before := len(a.order)
		a.callValue(ctx, site, nil, a.argSet(ctx, args[1], ""), types.NewSignatureType(nil, nil, nil, nil, nil, false), nil)
		_ = before
		for callee := range a.calls[ctx][site] {
			a.once[callee] = true
		}
		return
	}
	if !strings.Contains(name, "Clone") {
		a.extResult(ctx, res, sig.Results(), func(t types.Type) pset {
			out := pset{}
			for _, g := range args {
				if g.t != nil && types.Identical(g.t, t) {
					union(out, a.argSet(ctx, g, ""))
				}
			}
			return out
		})
	} else {
		a.extResult(ctx, res, sig.Results(), nil)
	}
	fills := strings.HasSuffix(name, "Unmarshal") || strings.HasSuffix(name, ".Decode") || strings.Contains(name, "Scan") || strings.HasSuffix(name, "errors.As")
	for i, g := range args {
		if g.t == nil {
			continue
		}
		if fills {
			for l := range a.argSet(ctx, g, "") {
				if t := l.typ(); t != nil && (l.obj.kind == "alloc" || l.obj.kind == "global") {
					for _, lf := range a.leaves(t) {
						a.addMem(l.at(lf), a.extSet(ctx.phase))
					}
				}
			}
		}
		switch u := g.t.Underlying().(type) {
		case *types.Signature:
			// the library calls it
			var cargs []parg
			for j := 0; j < u.Params().Len(); j++ {
				cargs = append(cargs, parg{sets: map[string]pset{"*": a.extSet(ctx.phase)}, t: u.Params().At(j).Type()})
			}
			locs := pset{}
			for l := range a.argSet(ctx, g, "") {
				if l.obj.kind != "ext" {
					locs[l] = true
				}
			}
			a.callValue(ctx, site, nil, locs, u, cargs)
		case *types.Interface:
			if i == 0 && f == nil {
				continue // the receiver
			}
			// the library calls the methods of what it is given
			a.callbacks(ctx, site, a.argSet(ctx, g, ""), u)
		}
	}
}

// callbacks: library code may call these methods of the objects
func (a *pta) callbacks(ctx *actx, site ssa.CallInstruction, objs pset, it *types.Interface) {
	for l := range objs {
		if l.obj.kind == "ext" {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sig := m.Type().(*types.Signature)
			var cargs []parg
			for j := 0; j < sig.Params().Len(); j++ {
				cargs = append(cargs, parg{sets: map[string]pset{"*": a.extSet(ctx.phase)}, t: sig.Params().At(j).Type()})
			}
			if m.Exported() {
				a.invokeRepo(ctx, site, l, m, cargs)
			}
		}
	}
}

func (a *pta) invokeRepo(ctx *actx, site ssa.CallInstruction, l aloc, m *types.Func, args []parg) {
	var dyn types.Type
	if l.obj.kind == "box" && l.path == "" {
		dyn = l.obj.typ
	} else if lt := l.typ(); lt != nil {
		dyn = types.NewPointer(lt)
	}
	if dyn == nil {
		return
	}
	sel := a.p.prog.MethodSets.MethodSet(dyn).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return
	}
	if f := a.p.prog.MethodValue(sel); f != nil && (a.p.isRepoFn(f) || f.Synthetic != "" && f.Pkg == nil) && len(f.Blocks) > 0 {
		a.invoke(ctx, site, nil, one1(l), dyn, m, args)
	}
}

// shared computes the objects that more than one request can see
func (a *pta) shared() map[*aobj]string {
	out := map[*aobj]string{}
	var todo []*aobj
	add := func(o *aobj, why string) {
		if o.kind == "ext" && o.phase == phRequest || o.kind == "func" {
			return
		}
		if _, ok := out[o]; !ok {
			out[o] = why
			todo = append(todo, o)
		}
	}
	add(a.ext[phSetup], "memory that the application set up")
	var objs []*aobj
	for _, o := range a.objs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		if o.kind == "global" {
			add(o, o.label)
		} else if o.phase == phSetup {
			add(o, o.label+" while setting up")
		}
	}
	inside := map[*aobj][]pset{}
	for l, s := range a.mem {
		inside[l.obj] = append(inside[l.obj], s)
	}
	for len(todo) > 0 {
		o := todo[0]
		todo = todo[1:]
		for _, s := range inside[o] {
			for m := range s {
				add(m.obj, m.obj.label+", which "+o.label+" refers to")
			}
		}
	}
	return out
}
