package main

import (
	"go/token"
	"go/types"
)

func init() {
	specs["C37"] = spec{run: checkContextClone, min: 5,
		explain: "every path of MatchingContext.Clone is enumerated for an unknown context with any number of segments; every field of the result is compared with the original by value, the storage of every list must be allocated during the call and every element must be copied with all its fields (by a covering loop, copy or append to nothing), and nothing else may be written",
		assume:  []string{"what the request and pattern pointers refer to is shared on purpose"}}
}

// checkContextClone: the clone has the values of the original, and its segments in storage of its own
func checkContextClone(c *Check) {
	fn := c.p.fn("router/path", "MatchingContext.Clone")
	e := c.engine()
	e.allStores = true
	st := newState(e)
	mc := mkSym("mc", fn.Params[0].Type())
	st.facts.assume(mkEq(mc, mkNil()), false)
	mct := deref(fn.Params[0].Type())
	str := structOf(mct)
	field := func(s *State, i int) *Term { return s.load(mkFieldAddr(mc, i)) }
	was := make([]*Term, str.NumFields())
	for i := range was {
		was[i] = field(st, i)
	}
	stage := idCtr
	live, slices := 0, 0
	for _, o := range e.callFn(st, fn, []*Term{mc}, nil, 0) {
		c.paths++
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		if !c.require(o.Panic == nil, "no-panic", fn.Pos(), &r.Scope, "Clone panics") {
			continue
		}
		live++
		v := stripConv(o.Vals[0])
		for i := 0; i < str.NumFields(); i++ {
			f := str.Field(i)
			got := mkField(v, i)
			switch f.Type().Underlying().(type) {
			case *types.Slice:
				slices++
				c.copied(r, f.Name(), got, was[i], stage, fn.Pos())
			case *types.Map, *types.Array:
				c.require(false, "known-field", fn.Pos(), &r.Scope, "%s: copying a field of type %s is not understood", f.Name(), f.Type())
			default:
				c.require(same(r.Scope, got, was[i]), "same-value", fn.Pos(), &r.Scope, "%s of the clone is %s", f.Name(), got)
			}
		}
		// nothing else is written
		touched := func(ev *Event) bool {
			switch ev.Kind {
			case "store", "copy", "append":
				return !newer(ev.Args[0], stage)
			case "mapupdate", "mapdelete", "mapclear", "call", "invoke", "dyn", "send", "go":
				return true
			}
			return false
		}
		r.every(func(in Scope, ev EvAt) {
			if touched(ev.Event) {
				own := ev.Kind == "append" && (owned(ev.Args[0], stage) || ownGrown(r, ev.Args[0], stage))
				c.require(own, "no-effect", ev.Pos, &in, "Clone changes something that is not its result, or hands it to unknown code (%s %s)", ev.Kind, ev.Name)
			} else {
				c.require(true, "no-effect", ev.Pos, &in, "")
			}
		})
	}
	c.require(live > 0 && slices > 0, "returns", token.NoPos, nil, "no way to return a context with segments was found")
}

// newer: the memory was made after the stage
func newer(v *Term, stage int) bool {
	v = rootOf(stripConv(v))
	for v.Op == OSlice {
		v = rootOf(v.Args[0])
	}
	return (v.Op == OAlloc || v.Op == OMakeSlice || v.Op == OAppend) && (v.N > stage || owned(v, stage))
}

// wholeOf: the full extent of a slice value, as storage and length
func wholeOf(v *Term) (store *Term, n *Term, ok bool) {
	v = stripConv(v)
	n = mkLen(v)
	store = v
	for store.Op == OSlice {
		if !store.Args[1].isInt(0) {
			return nil, nil, false
		}
		store = stripConv(store.Args[0])
	}
	return store, n, true
}

// copied: got has the elements of src, in storage made after the stage
func (c *Check) copied(r run, name string, got, src *Term, stage int, pos token.Pos) {
	if got.isNil() || r.facts.always(mkEq(mkLen(got), mkInt(0))) {
		c.require(r.facts.always(mkEq(mkLen(src), mkInt(0))), "same-length", pos, &r.Scope, "%s of the clone is empty although the original may have elements", name)
		return
	}
	if grown(r, stripConv(got), src, stage) {
		for _, rule := range []string{"own-storage", "same-length", "same-elements"} {
			c.require(true, rule, pos, &r.Scope, "")
		}
		return
	}
	if !c.require(owned(got, stage), "own-storage", pos, &r.Scope, "%s of the clone is kept in storage of the original (%s)", name, got) {
		return
	}
	if !c.require(same(r.Scope, mkLen(got), mkLen(src)), "same-length", pos, &r.Scope, "%s of the clone has another length", name) {
		return
	}
	c.require(sameContents(r, stripConv(got), src), "same-elements", pos, &r.Scope, "not every element of %s is copied with all its attributes (%s)", name, got)
}

// sameContents: the fresh slice holds the elements of src when the scope ends
func sameContents(r run, got, src *Term) bool {
	store, _, ok := wholeOf(got)
	if !ok {
		return false
	}
	if store.Op == OAppend {
		// append(empty, src...)
		if n, isLen := r.st.lenOf(store.Args[0]); isLen && n == 0 && same(r.Scope, stripConv(store.Args[1]), src) && !writtenAfter(r.Scope, store) {
			return true
		}
		return false
	}
	if store.Op != OMakeSlice {
		return false
	}
	touches := func(a *Term) bool {
		a = rootOf(stripConv(a))
		for a.Op == OSlice {
			a = rootOf(a.Args[0])
		}
		return a == store
	}
	done := false
	for i, it := range r.items {
		switch x := it.(type) {
		case *Event:
			if x.Kind == "copy" && touches(x.Args[0]) {
				d, n, ok := wholeOf(x.Args[0])
				s, _, ok2 := wholeOf(x.Args[1])
				in := r.upto(i)
				if !ok || !ok2 || d != store || s != src || !same(in, mkLen(x.Args[1]), mkLen(src)) || !same(in, n, mkLen(src)) {
					return false
				}
				done = true
				continue
			}
			if x.Kind == "store" && touches(x.Args[0]) {
				return false
			}
			if x.Kind == "append" && touches(x.Args[0]) {
				return false
			}
		case *LoopExit:
			writes := false
			for _, t := range x.transitions() {
				for _, ev := range transScope(t).events(func(e *Event) bool {
					return (e.Kind == "store" || e.Kind == "copy" || e.Kind == "append") && touches(e.Args[0])
				}) {
					_ = ev
					writes = true
				}
				if len(transScope(t).loopEvents(func(e *Event) bool {
					return (e.Kind == "store" || e.Kind == "copy" || e.Kind == "append") && touches(e.Args[0])
				})) > 0 {
					return false
				}
			}
			if !writes {
				continue
			}
			elem, ok := r.covers(i, src)
			if !ok {
				return false
			}
			for _, t := range x.transitions() {
				e := elem(t)
				s := transScope(t)
				whole := false
				n := structOf(elemType(src.T))
				fields := map[int]bool{}
				for _, ev := range s.events(func(e *Event) bool { return e.Kind == "store" && touches(e.Args[0]) }) {
					a := ev.Args[0]
					v := stripConv(ev.Args[1])
					dst := Elem{list: store, idx: e.idx, f: e.f}
					switch {
					case e.idx == nil:
						return false
					case dst.isAddr(a):
						if !e.is(v) {
							return false
						}
						whole = true
					case a.Op == OFieldAddr && dst.isAddr(a.Args[0]):
						fi := a.N
						if v.Op == OField && v.N == fi && e.is(v.Args[0]) || v.Op == OLoad && v.Args[0].Op == OFieldAddr && v.Args[0].N == fi && e.isAddr(v.Args[0].Args[0]) {
							fields[fi] = true
						} else {
							return false
						}
					default:
						return false
					}
				}
				if !whole && (n == nil || len(fields) != n.NumFields()) {
					return false
				}
			}
			done = true
		}
	}
	return done
}

// writtenAfter: something is stored into the slice
func writtenAfter(s Scope, store *Term) bool {
	w := func(e *Event) bool {
		return (e.Kind == "store" || e.Kind == "copy") && rootOf(stripConv(e.Args[0])) == store
	}
	return s.count(w) > 0 || len(s.loopEvents(w)) > 0
}

// lenOf is the constant length of a slice
func (s *State) lenOf(v *Term) (int64, bool) {
	if v.isNil() {
		return 0, true
	}
	if n, ok := mkLen(v).intVal(); ok {
		return n, ok
	}
	return s.facts.exact(mkLen(v))
}

// growth finds the loop by which a list was built by appending
func growth(r run, got *Term) (*LoopExit, int, int) {
	for i, it := range r.items {
		if x, ok := it.(*LoopExit); ok {
			for vi, v := range x.Node.Vars {
				if v.Top == got || x.Node.Parts[x.Part].Vals[vi] == got {
					return x, vi, i
				}
			}
		}
	}
	return nil, 0, 0
}

// ownGrown: the list started empty and only grows by appending
func ownGrown(r run, got *Term, stage int) bool {
	x, vi, _ := growth(r, stripConv(got))
	if x == nil || !owned(x.Node.Vars[vi].Init, stage) {
		return false
	}
	for _, t := range x.transitions() {
		n := stripConv(t.Next[vi])
		if n != x.cur(t, vi) && (n.Op != OAppend || !sameList(t.St, n.Args[0], x.cur(t, vi), stage)) {
			return false
		}
	}
	return true
}

// sameList: the same slice, or both are empty and share no storage
func sameList(st *State, a, b *Term, stage int) bool {
	if a == b {
		return true
	}
	n, ok := st.lenOf(a)
	m, ok2 := st.lenOf(b)
	return ok && ok2 && n == 0 && m == 0 && owned(a, stage)
}

// grown: every iteration of a loop over src appends its element to a list that started empty
func grown(r run, got, src *Term, stage int) bool {
	x, vi, at := growth(r, got)
	if x == nil || !ownGrown(r, got, stage) {
		return false
	}
	if n, ok := r.st.lenOf(x.Node.Vars[vi].Init); !ok || n != 0 {
		return false
	}
	elem, ok := r.covers(at, src)
	if !ok {
		return false
	}
	for _, t := range x.transitions() {
		n := stripConv(t.Next[vi])
		if n.Op != OAppend {
			return false
		}
		els, ok := t.St.elems(stripConv(n.Args[1]))
		if !ok || len(els) != 1 || elem(t).desc || !elem(t).is(stripConv(els[0])) || writtenAfter(transScope(t), n) {
			return false
		}
	}
	return !writtenAfter(r.Scope, got)
}
