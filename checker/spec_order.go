package main

// Which of several matching routes is chosen. The search tries the children of a node in their order and passes over
// one only when nothing below it can match; so the choice is the first match in the order of the children, and this order
// is decided by the kinds of the segments and by what the set of the registered patterns alone determines.

import (
	"go/token"
	"go/types"
)

func init() {
	specs["C40"] = spec{run: checkSearchOrder, min: 40,
		explain: "the children of a node are tried in their order, none is passed over without a reason, and the pattern that is returned is that of the first child that leads to one. The children are sorted whenever one is added or what they are sorted by changes. The comparison puts a segment of a more specific kind (literal, constrained variable, variable, text with wildcards, *, **) first for every pair of kinds; segments of one kind are told apart, unless they compare alike, by values that do not depend on the order of registration: the smallest over all patterns through the node",
		assume:  []string{"a node has fewer than 65536 children", "less-than on texts and numbers is a total order"}}
}

type sorting struct {
	s      *search
	kindF  int
	valF   int
	keys   map[int]bool // the fields of a node that the comparison looks at, besides the segment
	vals   map[int]*Term
	useVal bool
	fns    map[string]bool
	judged map[string]bool
}

func checkSearchOrder(c *Check) {
	s := c.newSearch()
	s.complete = true
	for _, l := range s.mainLoops {
		if l.vi >= 0 {
			s.sound(l)
			s.nothingLost(l)
		}
	}
	s.results()
	s.atTurn()
	s.sorted()
}

// atTurn: the pattern that is returned is that of the child at turn
func (s *search) atTurn() {
	c := s.c
	n := 0
	for _, o := range s.outs {
		if o.Panic != nil {
			continue
		}
		v := stripConv(o.Vals[0])
		all := scopeOf(o.St)
		if v.isNil() || all.facts.always(mkEq(v, mkNil())) {
			continue
		}
		l, x, sc, ok := s.inLoop(o.St)
		if !ok || l.vi < 0 {
			continue
		}
		cur, pos, d := x.at(l.vn), x.at(l.vi), x.at(l.vd)
		node := s.holder(v)
		if node == nil || sc.facts.same(node, cur) {
			// decided when the search stepped there
			c.require(node != nil, "first-in-order", lastPos(sc), &all, "%s is returned, which is not the pattern of a node", v)
			continue
		}
		n++
		k := s.child(o.St, sc.facts, cur, node)
		cx, cv, at := s.childLoop(l, sc, cur, d)
		good := k != nil && cx != nil && sc.facts.same(stripConv(k), cx.at(cv))
		c.require(good, "first-in-order", lastPos(sc), &all, "%s is returned although the node is not the child at turn", v)
		if good && s.outcome(sc, node, pos) == cmpMany {
			none := sc.facts.always(mkEq(mkLen(mkLoad(mkFieldAddr(node, s.t.children), 0)), mkInt(0)))
			c.require(none || s.positions(l, sc.from(at+1), o.St, node, pos, nil, d, true), "below-greedy-first", lastPos(sc), &all, "the pattern that ends with ** is returned before what is below it was tried")
		}
	}
	c.require(n > 0, "finds", token.NoPos, nil, "no pattern of a child is ever returned")
}

// sorted: adding a pattern keeps the children of every node sorted
func (s *search) sorted() {
	c, t := s.c, s.t
	fn := c.p.fn("router/path", "Matcher.AddPattern")
	e := c.engine()
	e.allStores = true
	m, pat := mkSym("m", fn.Params[0].Type()), mkSym("pattern", fn.Params[1].Type())
	st := newState(e)
	st.facts.assume(mkEq(m, mkNil()), false)
	st.facts.assume(mkEq(pat, mkNil()), false)
	segs := mkLoad(mkFieldAddr(pat, t.segsF), 0)
	segT := c.p.typ("router/path", "segment")
	so := &sorting{s: s, keys: map[int]bool{}, vals: map[int]*Term{}, fns: map[string]bool{}, judged: map[string]bool{}}
	so.kindF = c.p.ptrField(segT, func(x types.Type) bool {
		return typeKey(x) == typeKey(c.p.typ("router/path", "MatchType"))
	}, "kind of a segment")
	so.valF = c.fieldByName(segT, "val")
	walked := map[*LoopNode]bool{}
	type step struct {
		x    *LoopExit
		tr   *LoopTrans
		nv   int
		elem Elem
	}
	var steps []step
	outs := e.callFn(st, fn, []*Term{m, pat}, nil, 0)
	for _, o := range outs {
		c.paths++
		if o.Panic != nil {
			continue
		}
		sc := scopeOf(o.St)
		r := run{Scope: sc, o: o, e: e, st: o.St}
		for k, it := range r.items {
			x, isX := it.(*LoopExit)
			if !isX || walked[x.Node] {
				continue
			}
			nv := -1
			for vi, v := range x.Node.Vars {
				if isNamedPtr(typeKey(t.nodeT))(v.Top.T) && v.Init == mkLoad(mkFieldAddr(m, t.rootF), 0) {
					nv = vi
				}
			}
			elem, covers := r.covers(k, segs)
			if nv < 0 || !covers {
				continue
			}
			walked[x.Node] = true
			for i := range x.Node.Trans {
				steps = append(steps, step{x, &x.Node.Trans[i], nv, elem(&x.Node.Trans[i])})
			}
		}
	}
	c.require(len(steps) > 0, "registers", fn.Pos(), nil, "no loop over the segments of a pattern was found")
	// the comparisons
	for _, q := range steps {
		sc := transScope(q.tr)
		for _, ev := range sc.events(isSort) {
			so.comparison(e, q.tr.St, sc, ev)
		}
	}
	c.require(len(so.fns) == 1, "one-order", fn.Pos(), nil, "the children of nodes are sorted in %d ways", len(so.fns))
	// the values of new nodes
	for _, q := range steps {
		next := stripConv(q.tr.Next[q.nv])
		if !isFresh(next) {
			continue
		}
		sc := transScope(q.tr)
		for f := range so.keys {
			v := q.tr.St.load(mkFieldAddr(next, f))
			own := !containsF(v, func(y *Term) bool {
				return y.Op == OPhi || y.Op == OGlobal || y.Op == OCall || y != next && y.T != nil && isNamedPtr(typeKey(t.nodeT))(y.T)
			})
			c.require(own, "key-of-pattern", lastPos(sc), &sc, "what the children are sorted by (%s) depends on more than the pattern", v)
			if so.vals[f] == nil {
				so.vals[f] = v
			}
			c.require(so.vals[f] == v, "key-of-pattern", lastPos(sc), &sc, "new nodes get different values to be sorted by (%s and %s)", v, so.vals[f])
		}
	}
	for _, q := range steps {
		so.step(q.x, q.tr, q.nv, q.elem, segs)
	}
}

func isSort(ev *Event) bool {
	switch ev.Name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return ev.Kind == "call" && len(ev.Args) == 2
	}
	return false
}

func sortedList(ev *Event) *Term {
	l := stripConv(ev.Args[0])
	if l.Op == OIface {
		l = stripConv(l.Args[0])
	}
	return l
}

// step: after a step of adding a pattern the children are sorted
func (so *sorting) step(x *LoopExit, tr *LoopTrans, nv int, e Elem, segs *Term) {
	s := so.s
	c, t := s.c, s.t
	sc := transScope(tr)
	cur, next := x.cur(tr, nv), stripConv(tr.Next[nv])
	f := sc.facts
	idx := e.idx
	if idx == nil {
		c.require(false, "registers", lastPos(sc), &sc, "the position in the pattern is not known")
		return
	}
	if k, ok := f.exact(idx); ok {
		idx = mkInt(k)
	}
	seg := mkLoad(mkIdxAddr(segs, idx), 0)
	// what is sorted, and what it has to be sorted after
	var lists []*Term
	last := -1
	changed := isFresh(next)
	for _, ev := range sc.events(func(ev *Event) bool { return ev.Kind == "store" && ev.Args[0].Op == OFieldAddr }) {
		a := ev.Args[0]
		if a == mkFieldAddr(cur, t.children) {
			lists = append(lists, stripConv(ev.Args[1]))
			changed = true
		}
		if a.Args[0] == next && (so.keys[a.N] || a.N == s.segF) {
			last = ev.i
			changed = true
		}
	}
	if !isFresh(next) && len(lists) == 0 {
		n := stripConv(next)
		if n.Op == OLoad && n.Args[0].Op == OIdxAddr {
			lists = append(lists, n.Args[0].Args[0])
		}
	}
	if changed {
		good := false
		for _, ev := range sc.events(isSort) {
			for _, l := range lists {
				good = good || ev.i > last && (sortedList(ev.Event) == l || f.same(sortedList(ev.Event), l))
			}
		}
		c.require(good, "children-sorted", lastPos(sc), &sc, "the children of a node are not sorted after one was added or what they are sorted by was changed")
	}
	if isFresh(next) {
		return
	}
	for k := range so.keys {
		want := so.vals[k]
		got := tr.St.load(mkFieldAddr(next, k))
		good := false
		if want != nil {
			for _, old := range s.loads(sc, next, k) {
				if f.same(got, want) {
					good = good || f.always(mkLt(want, old)) || f.never(mkLt(old, want)) || f.same(old, want)
				} else {
					good = good || (got == old || f.same(got, old) || !stores(sc, mkFieldAddr(next, k))) && (f.never(mkLt(want, old)) || f.always(mkLt(old, want)))
				}
			}
		}
		c.require(good, "smallest-key", lastPos(sc), &sc, "what a node is sorted by depends on the order in which patterns are registered")
	}
	if !so.useVal {
		return
	}
	good := false
	val := func(sg *Term) []*Term { return s.loads(sc, sg, so.valF) }
	kinds := s.loads(sc, seg, so.kindF)
	for _, own := range s.loads(sc, next, s.segF) {
		kinds = append(kinds, s.loads(sc, own, so.kindF)...)
		got := tr.St.load(mkFieldAddr(next, s.segF))
		replaced := e.is(stripConv(got)) || got == seg
		kept := !stores(sc, mkFieldAddr(next, s.segF))
		for _, a := range val(own) {
			for _, b := range val(seg) {
				good = good || f.same(a, b) || f.always(mkEq(a, b))
				good = good || replaced && (f.always(mkBin("<", b, a, tBoolT)) || f.never(mkBin("<", a, b, tBoolT)))
				good = good || kept && (f.never(mkBin("<", b, a, tBoolT)) || f.always(mkBin("<", a, b, tBoolT)))
			}
		}
	}
	// there is at most one child of these kinds
	for _, k := range kinds {
		for _, n := range []string{"MatchTypeCaptureVar", "MatchTypeSingleSegment", "MatchTypeMultipleSegments"} {
			good = good || f.always(mkEq(k, mkInt(c.constInt("router/path", n))))
		}
	}
	c.require(good, "smallest-text", lastPos(sc), &sc, "the text that a node is sorted by depends on the order in which patterns are registered")
}

var tBoolT = types.Typ[types.Bool]

func stores(sc Scope, addr *Term) bool {
	return len(sc.events(func(ev *Event) bool { return ev.Kind == "store" && ev.Args[0] == addr })) > 0
}

// comparison decides what the children are sorted by
func (so *sorting) comparison(e *Engine, st0 *State, sc Scope, ev EvAt) {
	s := so.s
	c, t := s.c, s.t
	cmp := stripConv(ev.Args[1])
	list := sortedList(ev.Event)
	if (cmp.Op != OClosure && cmp.Op != OFunc) || cmp.Fn == nil || typeKey(deref(elemTypeOf(list.T))) != typeKey(t.nodeT) {
		c.require(false, "comparison", ev.Pos, &sc, "it is not known how the children are compared")
		return
	}
	so.fns[cmp.Fn.String()] = true
	if so.judged[cmp.Fn.String()] {
		return
	}
	so.judged[cmp.Fn.String()] = true
	st := st0.fork()
	byElem := ev.Name == "slices.SortFunc" || ev.Name == "slices.SortStableFunc"
	var arg [2]*Term
	var elem [2]*Term
	for k, n := range []string{"i", "j"} {
		i := mkSym("sort."+n, tInt)
		st.facts.assume(mkLt(i, mkInt(0)), false)
		st.facts.assume(mkLt(i, mkLen(list)), true)
		elem[k] = st.load(mkIdxAddr(list, i))
		arg[k] = i
		if byElem {
			arg[k] = elem[k]
		}
	}
	st.facts.assume(mkEq(mkSym("sort.i", tInt), mkSym("sort.j", tInt)), false)
	kindOf := func(st *State, k int) *Term {
		return st.load(mkFieldAddr(st.load(mkFieldAddr(elem[k], s.segF)), so.kindF))
	}
	valOf := func(st *State, k int) *Term {
		return st.load(mkFieldAddr(st.load(mkFieldAddr(elem[k], s.segF)), so.valF))
	}
	for k := range elem {
		st.facts.assume(mkEq(elem[k], mkNil()), false)
		st.facts.assume(mkEq(st.load(mkFieldAddr(elem[k], s.segF)), mkNil()), false)
	}
	// the outcomes, told apart by whether the first goes before the second
	type verdict struct {
		st     *State
		before bool
	}
	ask := func(st *State, a, b *Term) (out []verdict, ok bool) {
		for _, o := range e.callValue(st.fork(), cmp, a, b) {
			if o.Panic != nil {
				c.require(false, "comparison", ev.Pos, &sc, "the comparison of two children may panic")
				return nil, false
			}
			r := o.Vals[0]
			if byElem {
				r = mkLt(r, mkInt(0))
			}
			for _, v := range []bool{true, false} {
				q := o.St.fork()
				if q.assume(r, v, ev.Pos) && q.facts.consistent() {
					out = append(out, verdict{q, v})
				}
			}
		}
		return out, true
	}
	order := []string{"MatchTypeLiteral", "MatchTypeConstraintCaptureVar", "MatchTypeCaptureVar", "MatchTypeRegex", "MatchTypeSingleSegment", "MatchTypeMultipleSegments"}
	for x, a := range order {
		for y, b := range order {
			if x == y {
				continue
			}
			q := st.fork()
			q.facts.assume(mkEq(kindOf(q, 0), mkInt(c.constInt("router/path", a))), true)
			q.facts.assume(mkEq(kindOf(q, 1), mkInt(c.constInt("router/path", b))), true)
			vs, ok := ask(q, arg[0], arg[1])
			if !ok {
				return
			}
			for _, v := range vs {
				vsc := scopeOf(v.st)
				c.require(v.before == (x < y), "more-specific-first", ev.Pos, &vsc, "a segment of kind %s is sorted as before one of kind %s: %v", a, b, v.before)
			}
		}
	}
	// of the same kind
	q := st.fork()
	q.facts.assume(mkEq(kindOf(q, 0), kindOf(q, 1)), true)
	vs, ok := ask(q, arg[0], arg[1])
	if !ok {
		return
	}
	for _, v := range vs {
		ws, ok := ask(v.st, arg[1], arg[0])
		if !ok {
			return
		}
		for _, w := range ws {
			so.leaves(scopeOf(w.st), elem, ev)
			if w.before != v.before {
				continue
			}
			a, b := valOf(w.st, 0), valOf(w.st, 1)
			f := w.st.facts
			ab, ba := mkBin("<", a, b, tBoolT), mkBin("<", b, a, tBoolT)
			if f.always(ab) && f.always(ba) {
				continue // cannot be
			}
			same := f.same(a, b) || f.always(mkEq(a, b)) || f.never(ab) && f.never(ba)
			wsc := scopeOf(w.st)
			c.require(same, "told-apart", ev.Pos, &wsc, "two children of one kind with different texts are in the order of registration")
		}
	}
}

// leaves collects what the comparison looks at
func (so *sorting) leaves(sc Scope, elem [2]*Term, ev EvAt) {
	s := so.s
	c := s.c
	for _, it := range sc.items {
		fi, ok := it.(*FactItem)
		if !ok {
			continue
		}
		containsF(fi.T, func(y *Term) bool {
			if y.Op != OLoad || y.Args[0].Op != OFieldAddr {
				return false
			}
			b := y.Args[0].Args[0]
			if b == elem[0] || b == elem[1] {
				if y.Args[0].N != s.segF {
					so.keys[y.Args[0].N] = true
				}
				return false
			}
			if b.Op == OLoad && b.Args[0].Op == OFieldAddr && (b.Args[0].Args[0] == elem[0] || b.Args[0].Args[0] == elem[1]) {
				if b.Args[0].N != s.segF {
					c.require(false, "comparison", ev.Pos, &sc, "children are sorted by something that depends on the order of registration (%s)", y)
				} else if y.Args[0].N == so.valF {
					so.useVal = true
				} else if y.Args[0].N != so.kindF {
					c.require(false, "comparison", ev.Pos, &sc, "children are sorted by something that depends on the order of registration (%s)", y)
				}
			}
			return false
		})
	}
}
