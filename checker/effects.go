package main

// Effects of functions, found by scanning their code and that of everything they call.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modSet is what a function and its callees may store to
type modSet struct {
	top  bool
	keys map[string]bool // "f:struct.field", "p:type" (through a plain pointer), "e:type" (elements)
}

func fieldKey(structT types.Type, name string) string { return "f:" + typeKey(structT) + "." + name }

// callees lists the repository functions an instruction may run; ok is false when it may run unknown code
func (p *Program) callees(fn *ssa.Function, c *ssa.CallCommon) (out []*ssa.Function, ok bool) {
	if c.IsInvoke() {
		for _, m := range p.implementations(c.Method) {
			out = append(out, m)
		}
		return out, true
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}, true
	case *ssa.Builtin:
		return nil, true
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, true
	}
	return nil, p.localClosure(fn, c.Value, map[ssa.Value]bool{})
}

// localClosure: the called value is a closure made by the function itself (its code is scanned as part of the function)
func (p *Program) localClosure(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.localClosure(fn, e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return p.localClosure(fn, x.X, seen)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && !p.localClosure(fn, s.Val, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// implementations of an interface method by types of the repository
func (p *Program) implementations(m *types.Func) []*ssa.Function {
	if p.impls == nil {
		p.impls = map[*types.Func][]*ssa.Function{}
	}
	if l, ok := p.impls[m]; ok {
		return l
	}
	var out []*ssa.Function
	it, _ := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	for _, sp := range p.pkgs {
		if !p.repo[sp.Pkg] {
			continue
		}
		for _, mem := range sp.Members {
			t, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if it != nil && types.Implements(rt, it) {
					if f := p.prog.LookupMethod(rt, m.Pkg(), m.Name()); f != nil {
						out = append(out, f)
					}
					break
				}
			}
		}
	}
	p.impls[m] = out
	return out
}

// closureOf collects a function and everything of the repository it may run
func (p *Program) closureOf(fn *ssa.Function) (fns map[*ssa.Function]bool, known bool) {
	fns = map[*ssa.Function]bool{}
	known = true
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if fns[f] || len(f.Blocks) == 0 {
			return
		}
		if !p.isRepoFn(f) && !(f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper")) {
			return
		}
		fns[f] = true
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						rec(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					l, ok := p.callees(f, c.Common())
					if !ok {
						known = false
					}
					for _, g := range l {
						rec(g)
					}
				}
			}
		}
	}
	rec(fn)
	return
}

func (p *Program) mods(fn *ssa.Function) *modSet {
	if p.modSets == nil {
		p.modSets = map[*ssa.Function]*modSet{}
	}
	if m := p.modSets[fn]; m != nil {
		return m
	}
	m := &modSet{keys: map[string]bool{}}
	fns, known := p.closureOf(fn)
	m.top = !known
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					m.store(s.Addr)
				}
			}
		}
	}
	p.modSets[fn] = m
	return m
}

func (m *modSet) store(a ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := deref(x.X.Type())
		m.keys[fieldKey(t, structOf(t).Field(x.Field).Name())] = true
	case *ssa.IndexAddr:
		m.keys["e:"+typeKey(deref(x.Type()))] = true
		// an array inside a struct
		if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			m.store(x.X)
		}
	case *ssa.Alloc, *ssa.Global:
		// its own variable, or a global
		if _, ok := a.(*ssa.Alloc); ok {
			return
		}
		m.keys["p:"+typeKey(deref(a.Type()))] = true
	default:
		m.keys["p:"+typeKey(deref(a.Type()))] = true
	}
}

func (m *modSet) field(structT types.Type, f *types.Var) bool {
	return m.top || m.keys[fieldKey(structT, f.Name())] || m.keys["p:"+typeKey(structT)] || m.keys["p:"+typeKey(f.Type())]
}

// keepFields remembers the fields of the objects an unanalysed repository function can reach but never assigns
func (e *Engine) keepFields(st *State, fn *ssa.Function, args []*Term) func() {
	if fn == nil || len(fn.Blocks) == 0 || !e.p.isRepoFn(fn) {
		return func() {}
	}
	m := e.p.mods(fn)
	if m.top {
		return func() {}
	}
	kept := map[*Term]*Term{}
	for _, r := range sortTerms(st.reach(args)) {
		if r.Op != OAlloc {
			continue
		}
		t := deref(r.T)
		s := structOf(t)
		if s == nil {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if !m.field(t, s.Field(i)) && structOf(s.Field(i).Type()) == nil {
				a := mkFieldAddr(r, i)
				kept[a] = st.load(a)
			}
		}
	}
	return func() {
		for a, v := range kept {
			st.mem[a] = v
		}
	}
}

// reaches: the function or something it runs calls one of the named functions
func (p *Program) reaches(fn *ssa.Function, names map[string]bool) bool {
	fns, known := p.closureOf(fn)
	if !known {
		return true
	}
	for f := range fns {
		if names[fnName(f)] {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						if names[cc.Method.FullName()] {
							return true
						}
					} else if g := cc.StaticCallee(); g != nil && names[fnName(g)] {
						return true
					}
				}
			}
		}
	}
	return false
}
