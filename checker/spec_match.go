package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C48"] = spec{run: checkMatcherTables, min: 40,
		explain: "three lockstep arguments over every path. Parsing: on every way to accept a pattern the number of its segments is at most the supported maximum (inferred loop bounds). Registration: a node is only linked below the node that is its parent, the walk over the segments descends at most one node per segment, and links are written nowhere else, so the tree is never deeper than the longest pattern. Matching: in every iteration the depth counter and the current node move together (same, one child down, or one up to a parent that exists), so the counter is the depth of the node; every index of Match is then in range given the size of its tables",
		assume:  []string{"a node has fewer than 65536 children"}}
}

type trie struct {
	nodeT, matcherT         types.Type
	children, parent, rootF int
	segsF                   int
	max                     int64
}

func (c *Check) trie() *trie {
	t := &trie{nodeT: c.p.typ("router/path", "node"), matcherT: c.p.typ("router/path", "Matcher"), max: c.constInt("router/path", "MaxPathSegments")}
	isNode := isNamedPtr(typeKey(t.nodeT))
	t.parent = c.p.ptrField(t.nodeT, isNode, "parent")
	t.children = c.p.ptrField(t.nodeT, func(x types.Type) bool {
		s, ok := x.Underlying().(*types.Slice)
		return ok && isNode(s.Elem())
	}, "children")
	t.rootF = c.p.ptrField(t.matcherT, isNode, "root of the tree")
	segT := c.p.typ("router/path", "segment")
	t.segsF = c.p.ptrField(c.p.typ("router/path", "Pattern"), func(x types.Type) bool {
		s, ok := x.Underlying().(*types.Slice)
		return ok && typeKey(deref(s.Elem())) == typeKey(segT)
	}, "segments")
	return t
}

func checkMatcherTables(c *Check) {
	t := c.trie()
	c.patternLimit(t)
	c.treeShape(t)
	c.matchTables(t)
}

// patternLimit: an accepted pattern has no more segments than a request path can have
func (c *Check) patternLimit(t *trie) {
	fn := c.p.fn("router/path", "ParsePattern")
	e := c.engine()
	e.narrow = true
	// helpers that look at one segment, or at the finished list, do not change the number of segments
	e.noInline = func(f *ssa.Function) bool { return f != fn && len(e.forest(f).headers) > 0 }
	st := newState(e)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	n := 0
	for _, o := range e.callFn(st, fn, args, nil, 0) {
		c.paths++
		s := scopeOf(o.St)
		if o.Panic != nil {
			continue
		}
		if o.Vals[0].isNil() || s.facts.always(mkEq(o.Vals[0], mkNil())) {
			continue
		}
		n++
		list := o.St.load(mkFieldAddr(o.Vals[0], t.segsF))
		ok := list.isNil() || list.Op == OZero || s.facts.never(mkLt(mkInt(t.max), s.facts.norm(mkLen(list))))
		if k, known := o.St.lenOf(list); known {
			ok = k <= t.max
		}
		c.require(ok, "pattern-limit", lastPos(s), &s, "a pattern with more than %d segments may be accepted", t.max)
	}
	c.require(n > 0, "accepts", fn.Pos(), nil, "no pattern is accepted")
	for _, k := range sortedKeys(e.obligs) {
		if o := e.obligs[k]; o.Kind == "conversion" {
			c.require(o.Proved, "pattern-limit", o.Pos, nil, "%s", o.Desc)
		}
	}
}

// treeShape: every node is below its parent, and no deeper than the number of segments walked to it
func (c *Check) treeShape(t *trie) {
	// the links are written only where they are checked below
	fn := c.p.fn("router/path", "Matcher.AddPattern")
	ctor := c.p.fn("router/path", "NewMatcher")
	e := c.engine()
	e.allStores = true
	m, pat := mkSym("m", fn.Params[0].Type()), mkSym("pattern", fn.Params[1].Type())
	st := newState(e)
	st.facts.assume(mkEq(m, mkNil()), false)
	st.facts.assume(mkEq(pat, mkNil()), false)
	outs := e.callFn(st, fn, []*Term{m, pat}, nil, 0)
	e2 := c.engine()
	for _, o := range e2.callFn(newState(e2), ctor, []*Term{mkSym("ci", ctor.Params[0].Type())}, nil, 0) {
		s := scopeOf(o.St)
		c.paths++
		if o.Panic != nil || o.Vals[0].isNil() {
			continue
		}
		root := o.St.load(mkFieldAddr(o.Vals[0], t.rootF))
		c.require(isFresh(root), "own-root", ctor.Pos(), &s, "the tree of a new matcher does not start with a node of its own")
		p := o.St.load(mkFieldAddr(root, t.parent))
		c.require(p.isNil() || p.Op == OZero, "root-has-no-parent", ctor.Pos(), &s, "the first node of a tree has a parent")
	}
	for f := range allFns(c.p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				own := typeKey(deref(a.X.Type()))
				if own == typeKey(t.nodeT) && (a.Field == t.parent || a.Field == t.children) || own == typeKey(t.matcherT) && a.Field == t.rootF {
					c.require(e.fnsSeen[f] || e2.fnsSeen[f], "links-written-by-registration", s.Pos(), nil, "%s changes the links of the tree", fnName(f))
				}
			}
		}
	}
	isStore := func(field int) func(*Event) bool {
		return func(ev *Event) bool {
			return ev.Kind == "store" && ev.Args[0].Op == OFieldAddr && ev.Args[0].N == field && typeKey(deref(ev.Args[0].Args[0].T)) == typeKey(t.nodeT)
		}
	}
	seen := map[*Event]bool{}
	nodes := map[*LoopNode]bool{}
	links := 0
	var walk func(s Scope)
	walk = func(s Scope) {
		// the parent of the nodes made in this scope
		parents := map[*Term]*Term{}
		for _, ev := range s.events(isStore(t.parent)) {
			x := rootOf(ev.Args[0])
			parents[x] = stripConv(ev.Args[1])
			if !seen[ev.Event] {
				seen[ev.Event] = true
				c.require(isFresh(x), "parent-set-once", ev.Pos, &s, "the parent of a node that is already part of a tree is changed")
			}
		}
		for _, ev := range s.events(isStore(t.children)) {
			if seen[ev.Event] {
				continue
			}
			seen[ev.Event] = true
			holder := ev.Args[0].Args[0]
			found := map[*Term]bool{}
			containsF(ev.Args[1], func(x *Term) bool {
				if x.Op == OAlloc && typeKey(deref(x.T)) == typeKey(t.nodeT) {
					found[x] = true
				}
				return false
			})
			for _, x := range sortTerms(found) {
				links++
				p := parents[x]
				c.require(p != nil && s.facts.same(p, holder), "child-below-parent", ev.Pos, &s, "a node is put below another node than its parent")
			}
		}
		for _, it := range s.items {
			x, ok := it.(*LoopExit)
			if !ok {
				continue
			}
			if nodes[x.Node] {
				continue
			}
			nodes[x.Node] = true
			for i := range x.Node.Trans {
				walk(transScope(&x.Node.Trans[i]))
			}
		}
	}
	segs := mkLoad(mkFieldAddr(pat, t.segsF), 0)
	walked := map[*LoopNode]bool{}
	for _, o := range outs {
		c.paths++
		s := scopeOf(o.St)
		if o.Panic != nil {
			continue
		}
		walk(s)
		r := run{Scope: s, o: o, e: e, st: o.St}
		for k, it := range r.items {
			x, ok := it.(*LoopExit)
			if !ok || walked[x.Node] {
				continue
			}
			if _, ok := r.covers(k, segs); !ok {
				continue
			}
			walked[x.Node] = true
			for vi, v := range x.Node.Vars {
				if !isNamedPtr(typeKey(t.nodeT))(v.Top.T) {
					continue
				}
				for i := range x.Node.Trans {
					tr := &x.Node.Trans[i]
					cur, next := x.cur(tr, vi), stripConv(tr.Next[vi])
					ts := transScope(tr)
					ok := t.move(tr.St, tr.St.facts, cur, next) <= 1
					if isFresh(next) {
						for _, ev := range ts.events(isStore(t.parent)) {
							ok = ok || ev.Args[0].Args[0] == next && ts.facts.same(stripConv(ev.Args[1]), cur)
						}
					}
					c.require(ok, "one-level-per-segment", lastPos(ts), &ts, "registering one segment of a pattern goes from node %s to %s, which is not one of its children", cur, next)
				}
			}
		}
	}
	c.require(links > 0 && len(walked) > 0, "tree-built", fn.Pos(), nil, "no way was found on which a node is added to the tree")
}

// move is the change of depth from one node to another: 0, 1 (a child) or -1 (the parent); 2 if that is not known
func (t *trie) move(st *State, f *Facts, cur, next *Term) int {
	if next == cur || f.same(next, cur) {
		return 0
	}
	isField := func(x *Term, of *Term, field int) bool {
		return x.Op == OLoad && x.Args[0].Op == OFieldAddr && x.Args[0].N == field && (x.Args[0].Args[0] == of || f.same(x.Args[0].Args[0], of))
	}
	if isFresh(next) {
		if p := stripConv(st.load(mkFieldAddr(next, t.parent))); p == cur || f.same(p, cur) {
			return 1
		}
		return 2
	}
	if isField(next, cur, t.parent) {
		return -1
	}
	if next.Op == OLoad && next.Args[0].Op == OIdxAddr {
		list := next.Args[0].Args[0]
		for list.Op == OSlice {
			list = list.Args[0]
		}
		if isField(list, cur, t.children) {
			return 1
		}
		if f.same(list, st.load(mkFieldAddr(cur, t.children))) {
			return 1
		}
	}
	return 2
}

// matchTables: no index of Match is out of range
func (c *Check) matchTables(t *trie) {
	fn := c.p.fn("router/path", "Matcher.Match")
	e := c.engine()
	e.bounds, e.typePanics, e.nilChecks, e.narrow = true, true, true, true
	// comparing one segment has its own checks (C06, C45)
	e.opaque["(*"+pathPkg+".segment).matchUrlPathSegment"] = true
	st := newState(e)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	st.facts.assume(mkEq(args[0], mkNil()), false)
	st.facts.assume(mkEq(args[2], mkNil()), false)
	root := mkLoad(mkFieldAddr(args[0], t.rootF), 0)
	outs := e.callFn(st, fn, args, nil, 0)
	depths := map[*Term]*Term{} // depth counter of a loop -> node
	seen := map[*LoopNode]bool{}
	var walk func(items []any)
	walk = func(items []any) {
		for _, it := range items {
			x, ok := it.(*LoopExit)
			if !ok || seen[x.Node] {
				continue
			}
			seen[x.Node] = true
			for _, l := range t.lockstep(x, root) {
				depths[x.Node.Vars[l[1]].Top] = x.Node.Vars[l[0]].Top
			}
			for i := range x.Node.Trans {
				walk(x.Node.Trans[i].Items)
			}
		}
	}
	loops := 0
	for _, o := range outs {
		c.paths++
		s := scopeOf(o.St)
		c.require(o.Panic == nil, "no-panic", lastPos(s), &s, "Match panics")
		walk(s.items)
		for _, it := range s.items {
			if _, ok := it.(*LoopExit); ok {
				loops++
			}
		}
	}
	c.require(loops > 0, "compares", fn.Pos(), nil, "Match compares nothing")
	for _, k := range sortedKeys(e.obligs) {
		o := e.obligs[k]
		ok := o.Proved
		if !ok && o.Kind == "index" && len(o.Fails) > 0 {
			ok = true
			for _, f := range o.Fails {
				ok = ok && t.depthIndex(f, depths)
			}
		}
		if !ok && o.Kind == "conversion" {
			// the number of children of a node is assumed to fit
			ok = true
			for _, f := range o.Fails {
				ok = ok && f.idx.Op == OLen && containsF(f.idx, func(x *Term) bool {
					return x.Op == OFieldAddr && x.N == t.children && typeKey(deref(x.Args[0].T)) == typeKey(t.nodeT)
				})
			}
		}
		c.require(ok, o.Kind, o.Pos, nil, "%s may be out of range", o.Desc)
	}
}

// depthIndex: the index is the depth of the current node, or of its parent, and the table has an entry for every depth
func (t *trie) depthIndex(f obligFail, depths map[*Term]*Term) bool {
	a, k := linear(f.idx)
	node := depths[a]
	n, ok := f.n.intVal()
	if node == nil || !ok {
		return false
	}
	switch {
	case k == 0:
		return n > t.max
	case k == -1:
		return n >= t.max && f.facts.never(mkEq(mkLoad(mkFieldAddr(node, t.parent), 0), mkNil()))
	}
	return false
}

// lockstep finds the variables of a loop that hold the current node of the tree and its depth
func (t *trie) lockstep(x *LoopExit, root *Term) (out [][2]int) {
	for vn, v := range x.Node.Vars {
		if !isNamedPtr(typeKey(t.nodeT))(v.Top.T) || v.Init != root {
			continue
		}
		for vd, d := range x.Node.Vars {
			if !isIntType(d.Top.T) || !d.Init.isInt(0) {
				continue
			}
			lock := true
			for i := range x.Node.Trans {
				tr := &x.Node.Trans[i]
				mv := t.move(tr.St, tr.St.facts, x.cur(tr, vn), stripConv(tr.Next[vn]))
				k, ok := x.step(tr, vd)
				lock = lock && mv != 2 && ok && int(k) == mv
				if mv == -1 {
					lock = lock && tr.St.facts.never(mkEq(stripConv(tr.Next[vn]), mkNil()))
				}
			}
			if lock {
				out = append(out, [2]int{vn, vd})
			}
		}
	}
	return out
}
