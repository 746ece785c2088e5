package main

// The search for a route. A state of the search is a node of the tree, the position in the path up to which the nodes
// from the root to it match, and for every ancestor an entry with what is left to try there. Both directions are
// decided step by step, for any tree and any path: a step down needs a successful comparison and advances by what it
// consumed, a step up restores the position of the ancestor; a child is passed over only when nothing below it can match.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C51"] = spec{run: checkSearchSound, min: 20,
		explain: "invariant of the search loop of Match, decided on every transition: the segments before the current position are matched by the nodes from the root to the current node. A step to a child needs a successful comparison of that child with the segment at the current position and advances by one segment (a ** segment: by any number); a step to the parent restores the position remembered when it was left, and no step changes what is remembered for the ancestors. A pattern is returned only if it ends at a node whose comparison consumed the last segment. Registration puts every segment of a pattern, or one that compares alike, on the way to the node that holds the pattern"}
	specs["C41"] = spec{run: checkSearchComplete, min: 30,
		explain: "every way the search passes over something is justified: a child is skipped only if its bound excludes the number of segments left, the comparison fails, the path ends at it and it holds no pattern, or it is a ** segment and for each position none of its children matches there or the position was tried before. A step down remembers the next child (for a ** segment: the same child with the next position), a step up clears what it leaves, entries deeper than the current node are empty, and without a result the search ends only at the root with all children passed over. Registration: the bound of a node is at least the number of segments below it for each pattern through it, every pattern ends at a node that holds it, and the children of a node are only added to",
		assume:  []string{"a node has fewer than 65536 children"}}
}

type search struct {
	c                     *Check
	t                     *trie
	segF, patF, maxF      int // of a node
	kindF                 int // of a segment
	matchT                types.Type
	greedy                int64
	unknown               int64
	segs, path, max, root *Term
	mainLoops             []*searchLoop
	outs                  []Outcome
	cmp                   string
	complete              bool
	patMax                int             // the field of a pattern with its bound
	unbounded             int64           // its value for patterns with a ** segment
	compares              map[int]bool    // the fields of a segment that the comparison looks at
	replaced              map[*Event]bool // stores of a segment that compares like the one before
	foldF                 int             // the field of a matcher that tells that letter case does not count
	cleared               bool            // when a ** child is passed over, its next position does not stay for a sibling
}

type searchLoop struct {
	x          *LoopExit
	vn, vd, vi int
	table      *Term // what is remembered for every depth
	posF       int   // the field of its entries with the position, or -1 when the entry is the position
	childF     int   // the field with the next child
	nextF      int   // the field with the next position for a ** segment
}

func (c *Check) newSearch() *search {
	t := c.trie()
	s := &search{c: c, t: t, patMax: -1, foldF: -1, cleared: true, cmp: "(*" + pathPkg + ".segment).matchUrlPathSegment"}
	segT := c.p.typ("router/path", "segment")
	s.segF = c.p.ptrField(t.nodeT, isNamedPtr(typeKey(segT)), "segment")
	s.patF = c.p.ptrField(t.nodeT, isNamedPtr(typeKey(c.p.typ("router/path", "Pattern"))), "pattern")
	s.maxF = c.p.ptrField(t.nodeT, func(x types.Type) bool {
		b, ok := x.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}, "number of segments")
	s.kindF = c.p.ptrField(segT, func(x types.Type) bool {
		return typeKey(x) == typeKey(c.p.typ("router/path", "MatchType"))
	}, "kind of a segment")
	s.greedy = c.constInt("router/path", "MatchTypeMultipleSegments")
	s.unknown = c.constInt("router/path", "MatchTypeUnknown")

	s.replaced = map[*Event]bool{}
	s.compares = map[int]bool{}
	fieldsRead(c.p.fn("router/path", "segment.matchUrlPathSegment"), typeKey(segT), s.compares, 0)
	fn := c.p.fn("router/path", "Matcher.Match")
	e := c.engine()
	e.opaque[s.cmp] = true
	st := newState(e)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	st.facts.assume(mkEq(args[0], mkNil()), false)
	st.facts.assume(mkEq(args[2], mkNil()), false)
	root := mkLoad(mkFieldAddr(args[0], t.rootF), 0)
	s.root = root
	s.path = args[1]
	s.segs = mkLoad(mkFieldAddr(args[2], c.fieldByName(c.p.typ("router/path", "MatchingContext"), "PathSegments")), 0)
	s.max = mkLen(s.segs)
	s.outs = e.callFn(st, fn, args, nil, 0)
	seen := map[*LoopNode]bool{}
	for _, o := range s.outs {
		c.paths++
		for _, it := range o.St.trace.items() {
			x, ok := it.(*LoopExit)
			if !ok || seen[x.Node] {
				continue
			}
			for _, l := range t.lockstep(x, root) {
				seen[x.Node] = true
				sl := &searchLoop{x: x, vn: l[0], vd: l[1], vi: -1, posF: -1, childF: -1, nextF: -1}
				s.mainLoops = append(s.mainLoops, sl)
				s.remembered(sl)
				break
			}
		}
	}
	// every comparison heeds the letter case as the matcher says
	inLoops := map[loopAt]bool{}
	for _, o := range s.outs {
		sc := scopeOf(o.St)
		sc.everyOnce(inLoops, func(in Scope, ev EvAt) {
			if ev.Kind != "call" || ev.Name != s.cmp || len(ev.Args) < 4 {
				return
			}
			a, ok := ev.Args[3], false
			if a.Op == OLoad && a.Args[0].Op == OFieldAddr && a.Args[0].Args[0] == args[0] && isBoolType(a.T) && (s.foldF < 0 || s.foldF == a.Args[0].N) {
				s.foldF, ok = a.Args[0].N, true
			}
			c.require(ok, "letter-case", ev.Pos, &in, "a segment is compared with another setting for letter case (%s)", a)
		})
	}
	c.require(len(s.mainLoops) > 0, "searches", fn.Pos(), nil, "no loop was found that walks the tree of routes keeping count of the depth")
	return s
}

// entry: the address is the entry of a table (or a field of it); returns the table, the index and the field
func entryOf(a *Term) (table, idx *Term, field int) {
	field = -1
	if a.Op == OFieldAddr {
		field = a.N
		a = a.Args[0]
	}
	if a.Op != OIdxAddr {
		return nil, nil, -1
	}
	return a.Args[0], a.Args[1], field
}

// remembered finds the table with what is remembered for each depth, and its fields
func (s *search) remembered(l *searchLoop) {
	x := l.x
	for i := range x.Node.Trans {
		tr := &x.Node.Trans[i]
		if k, ok := x.step(tr, l.vd); !ok || k != -1 {
			continue
		}
		for vi, v := range x.Node.Vars {
			if vi == l.vd || !isIntType(v.Top.T) {
				continue
			}
			nx := tr.Next[vi]
			if nx.Op != OLoad {
				continue
			}
			tb, idx, f := entryOf(nx.Args[0])
			if tb == nil || !isFresh(rootOf(tb)) || !tr.St.facts.same(idx, mkBin("+", x.cur(tr, l.vd), mkInt(-1), tInt)) {
				continue
			}
			l.vi, l.table, l.posF = vi, tb, f
			return
		}
	}
	if l.vi < 0 {
		s.c.require(false, "position-restored", x.Node.Pos, nil, "a step up in the tree does not restore the position of the path")
	}
}

func (l *searchLoop) depth(tr *LoopTrans) *Term { return l.x.cur(tr, l.vd) }

// field is the address of what is remembered at the depth
func (l *searchLoop) field(depth *Term, f int) *Term {
	a := mkIdxAddr(l.table, depth)
	if f < 0 {
		return a
	}
	return mkFieldAddr(a, f)
}

// lens are the ways in which the number of segments of the path is written
func (s *search) lens() []*Term {
	return []*Term{s.max, mkConv(types.Typ[types.Uint8], s.max)}
}

func (s *search) before(f *Facts, i *Term) bool {
	for _, n := range s.lens() {
		if f.always(mkLt(i, n)) || f.never(mkLt(n, mkBin("+", i, mkInt(1), i.T))) {
			return true
		}
	}
	return false
}

func (s *search) last(f *Facts, i *Term) bool {
	for _, n := range s.lens() {
		if f.same(i, mkBin("-", n, mkInt(1), n.T)) || f.same(mkBin("+", i, mkInt(1), i.T), n) {
			return true
		}
		if s.before(f, i) && f.never(mkLt(mkBin("+", i, mkInt(1), i.T), n)) {
			return true
		}
	}
	return false
}

// over: there is no segment at the position
func (s *search) over(f *Facts, i *Term) bool {
	for _, n := range s.lens() {
		if f.never(mkLt(i, n)) || f.always(mkLt(n, mkBin("+", i, mkInt(1), i.T))) {
			return true
		}
	}
	return false
}

// child: the term is an element of the children of the node
func (s *search) child(st *State, f *Facts, of, n *Term) (idx *Term) {
	n = stripConv(n)
	if n.Op != OLoad || n.Args[0].Op != OIdxAddr || s.t.move(st, f, of, n) != 1 {
		return nil
	}
	return n.Args[0].Args[1]
}

// compared are the comparisons of the node with the segment at the position
func (s *search) compared(sc Scope, node, pos *Term) (out []EvAt) {
	return sc.events(func(ev *Event) bool {
		if ev.Kind != "call" || ev.Name != s.cmp || len(ev.Args) < 3 || ev.Args[1] != s.path {
			return false
		}
		n := s.comparedNode(ev)
		if n == nil || !sc.facts.same(n, node) {
			return false
		}
		a := ev.Args[2]
		return a.Op == OIdxAddr && a.Args[0] == s.segs && sc.facts.same(a.Args[1], pos)
	})
}

func (s *search) comparedNode(ev *Event) *Term {
	a := stripConv(ev.Args[0])
	if a.Op == OLoad && a.Args[0].Op == OFieldAddr && a.Args[0].N == s.segF && typeKey(deref(a.Args[0].Args[0].T)) == typeKey(s.t.nodeT) {
		return a.Args[0].Args[0]
	}
	return nil
}

const (
	cmpNone = iota
	cmpOne  // matches exactly this segment
	cmpMany // a ** segment
	cmpFails
)

func (s *search) outcome(sc Scope, node, pos *Term) int {
	for _, ev := range s.compared(sc, node, pos) {
		r := ev.Res
		isKind := func(k int64) (bool, bool) { return sc.facts.decide(mkEq(r, mkInt(k))) }
		if is, ok := isKind(s.unknown); ok && is {
			return cmpFails
		} else if !ok {
			continue
		}
		if is, ok := isKind(s.greedy); ok && is {
			return cmpMany
		} else if ok {
			return cmpOne
		}
	}
	return cmpNone
}

func checkSearchSound(c *Check) {
	s := c.newSearch()
	for _, l := range s.mainLoops {
		if l.vi >= 0 {
			s.sound(l)
		}
	}
	s.results()
	s.faithful()
}

// tableStores visits the stores to the table in the transition, also those in its inner loops
func (s *search) tableStores(l *searchLoop, sc Scope, f func(in Scope, ev EvAt, idx *Term, field int)) {
	sc.every(func(in Scope, ev EvAt) {
		if ev.Kind != "store" || rootOf(ev.Args[0]) != rootOf(l.table) {
			return
		}
		_, idx, field := entryOf(ev.Args[0])
		f(in, ev, idx, field)
	})
}

func (s *search) sound(l *searchLoop) {
	c, x := s.c, l.x
	// what is remembered is only handed to Match itself
	for i := range x.Node.Trans {
		tr := &x.Node.Trans[i]
		sc := transScope(tr)
		cur, next := x.cur(tr, l.vn), stripConv(tr.Next[l.vn])
		pos, npos := x.cur(tr, l.vi), tr.Next[l.vi]
		d := l.depth(tr)
		mv, _ := x.step(tr, l.vd)
		c.require(tr.St.flags[rootOf(l.table)]&flEscaped == 0, "private-table", x.Node.Pos, &sc, "what the search remembers is handed out")
		s.tableStores(l, sc, func(in Scope, ev EvAt, idx *Term, field int) {
			ok := false
			if idx != nil {
				if k, isC := mkBin("-", idx, d, tInt).intVal(); isC {
					ok = k >= mv || k == 0
				} else if k, isC := in.facts.exact(mkBin("-", idx, d, tInt)); isC {
					ok = k >= mv || k == 0
				}
			}
			c.require(ok, "ancestors-kept", ev.Pos, &in, "what is remembered for an ancestor of the current node is changed")
		})
		switch mv {
		case 0:
			c.require(sc.facts.same(pos, npos), "position-kept", lastPos(sc), &sc, "the position in the path changes without a step in the tree (%s -> %s)", pos, npos)
		case 1:
			k := s.child(tr.St, sc.facts, cur, next)
			if !c.require(k != nil, "step-to-child", lastPos(sc), &sc, "the search steps to %s", next) {
				continue
			}
			switch s.outcome(sc, next, pos) {
			case cmpOne:
				c.require(sc.facts.same(npos, mkBin("+", pos, mkInt(1), pos.T)), "one-segment", lastPos(sc), &sc, "a segment of a route that stands for one segment of the path takes %s to %s", pos, npos)
			case cmpMany:
				c.require(sc.facts.same(npos, pos) || sc.facts.never(mkLt(npos, pos)) || sc.facts.always(mkLt(pos, npos)), "not-backwards", lastPos(sc), &sc, "a ** segment goes back in the path")
			default:
				c.require(false, "step-needs-match", lastPos(sc), &sc, "the search steps down to a child that was not found to match the segment at the current position")
			}
			v := tr.St.load(l.field(d, l.posF))
			c.require(sc.facts.same(v, pos), "position-remembered", lastPos(sc), &sc, "the position at which a node is left is not remembered (%s instead of %s)", v, pos)
		case -1:
			ok := npos.Op == OLoad
			if ok {
				tb, idx, f := entryOf(npos.Args[0])
				ok = tb == l.table && f == l.posF && sc.facts.same(idx, mkBin("+", d, mkInt(-1), tInt))
			}
			c.require(ok, "position-restored", lastPos(sc), &sc, "a step up does not restore the position of the ancestor (%s)", npos)
		}
	}
}

// inLoop gives the main loop an outcome went through, and the rest of the path after its last complete iteration
func (s *search) inLoop(st *State) (*searchLoop, *LoopExit, Scope, bool) {
	sc := scopeOf(st)
	for i, it := range sc.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		for _, l := range s.mainLoops {
			if l.x.Node == x.Node {
				return l, x, sc.from(i + 1), true
			}
		}
	}
	return nil, nil, sc, false
}

func (x *LoopExit) at(vi int) *Term {
	if pv := x.Node.Parts[x.Part].Vals[vi]; pv != nil {
		return pv
	}
	return x.Node.Vars[vi].Top
}

// results: a pattern is returned only when all segments were matched on the way to it
func (s *search) results() {
	c := s.c
	found := 0
	mc := s.c.p.typ("router/path", "MatchingContext")
	chosen := s.c.p.ptrField(mc, isNamedPtr(typeKey(s.c.p.typ("router/path", "Pattern"))), "matched pattern")
	for _, o := range s.outs {
		if o.Panic != nil {
			continue
		}
		v := stripConv(o.Vals[0])
		all := scopeOf(o.St)
		if v.isNil() || all.facts.always(mkEq(v, mkNil())) {
			continue
		}
		found++
		l, x, sc, ok := s.inLoop(o.St)
		if !ok {
			c.require(all.facts.always(mkEq(s.max, mkInt(0))) && v.Op == OLoad && v.Args[0].Op == OFieldAddr && v.Args[0].Args[0].Op == OSym, "root-pattern", lastPos(all), &all, "a pattern is returned for a path of unknown length without a search")
			continue
		}
		if l.vi < 0 {
			continue
		}
		cur, pos := x.at(l.vn), x.at(l.vi)
		node := s.holder(v)
		good := false
		switch {
		case node == nil:
		case sc.facts.same(node, cur):
			good = s.over(sc.facts, pos)
		case s.child(o.St, sc.facts, cur, node) != nil:
			switch s.outcome(sc, node, pos) {
			case cmpOne:
				good = s.last(sc.facts, pos)
			case cmpMany:
				good = true
			}
		}
		c.require(good, "all-segments-matched", lastPos(sc), &all, "%s is returned although the segments of the path may not be matched by its nodes", v)
		m := o.St.load(mkFieldAddr(s.segs.Args[0].Args[0], chosen))
		c.require(sc.facts.same(m, v), "chosen-recorded", lastPos(sc), &all, "the context does not get the pattern that is returned")
	}
	c.require(found > 1, "finds", token.NoPos, nil, "no pattern is ever returned")
}

// holder is the node whose pattern the value is
func (s *search) holder(v *Term) *Term {
	if v.Op == OLoad && v.Args[0].Op == OFieldAddr && v.Args[0].N == s.patF && typeKey(deref(v.Args[0].Args[0].T)) == typeKey(s.t.nodeT) {
		return v.Args[0].Args[0]
	}
	return nil
}

func checkSearchComplete(c *Check) {
	s := c.newSearch()
	s.complete = true
	for _, l := range s.mainLoops {
		if l.vi >= 0 {
			s.sound(l)
			s.nothingLost(l)
		}
	}
	s.nothingFound()
	s.faithful()
	s.bounds()
}

// childLoop finds the loop over the children of the node that starts with the remembered child
func (s *search) childLoop(l *searchLoop, sc Scope, cur, d *Term) (*LoopExit, int, int) {
	for i, it := range sc.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		for vi, v := range x.Node.Vars {
			if !isIntType(v.Top.T) {
				continue
			}
			in := stripConv(v.Init)
			if in.Op != OLoad {
				continue
			}
			tb, idx, f := entryOf(in.Args[0])
			if tb != l.table || f == l.posF || !sc.facts.same(idx, d) {
				continue
			}
			up := true
			for j := range x.Node.Trans {
				tr := &x.Node.Trans[j]
				up = up && sc.sameStep(tr.St.facts, tr.Next[vi], x.cur(tr, vi))
			}
			if up {
				if l.childF < 0 {
					l.childF = f
				}
				if l.childF == f {
					return x, vi, i
				}
			}
		}
	}
	return nil, 0, 0
}

// sameStep: next is cur+1
func (s Scope) sameStep(f *Facts, next, cur *Term) bool {
	return f.same(next, mkBin("+", cur, mkInt(1), cur.T))
}

func (s *search) nothingLost(l *searchLoop) {
	c, x := s.c, l.x
	done := map[*LoopNode]bool{}
	var skips []func()
	// the field with the next position of a ** segment: the one besides
	st := structOf(elemType(l.table.T))
	for i := range x.Node.Trans {
		tr := &x.Node.Trans[i]
		sc := transScope(tr)
		cur, next := x.cur(tr, l.vn), stripConv(tr.Next[l.vn])
		pos, npos := x.cur(tr, l.vi), tr.Next[l.vi]
		d := l.depth(tr)
		mv, _ := x.step(tr, l.vd)
		cx, cv, at := s.childLoop(l, sc, cur, d)
		if !c.require(cx != nil && st != nil, "children-tried-in-order", lastPos(sc), &sc, "the children of the current node are not tried one after the other from the remembered one") {
			continue
		}
		if !done[cx.Node] {
			done[cx.Node] = true
			skips = append(skips, func() { s.skips(l, cx, cv, cur, pos, d) })
		}
		c.require(mv == 1 || mv == -1, "progress", lastPos(sc), &sc, "an iteration of the search neither descends nor ascends")
		switch mv {
		case 1:
			k := s.child(tr.St, sc.facts, cur, next)
			ci := cx.at(cv)
			if !c.require(k != nil && sc.facts.same(stripConv(k), ci), "descends-to-tried-child", lastPos(sc), &sc, "the search descends to another child than the one at turn") {
				continue
			}
			left := s.before(sc.facts, npos)
			if s.before(sc.facts, pos) && sc.facts.same(npos, mkBin("+", pos, mkInt(1), pos.T)) {
				for _, n := range s.lens() {
					left = left || sc.facts.never(mkEq(pos, mkBin("-", n, mkInt(1), n.T))) || sc.facts.never(mkEq(npos, n))
				}
			}
			c.require(left, "segments-left", lastPos(sc), &sc, "the search descends although no segment of the path is left (%s)", npos)
			v := tr.St.load(l.field(d, l.childF))
			switch s.outcome(sc, next, pos) {
			case cmpOne:
				c.require(sc.facts.same(v, mkBin("+", ci, mkInt(1), ci.T)), "next-child-remembered", lastPos(sc), &sc, "after %s the search goes on with child %s", ci, v)
				for f := 0; f < st.NumFields(); f++ {
					if f != l.posF && f != l.childF {
						z := tr.St.load(l.field(d, f))
						c.require(isZeroTerm(z), "nothing-else-remembered", lastPos(sc), &sc, "something is remembered for a child (%s) that is not meant for it", z)
					}
				}
			case cmpMany:
				c.require(sc.facts.same(v, ci), "same-child-remembered", lastPos(sc), &sc, "the other positions of a ** segment are not tried again (next child %s)", v)
				ok := false
				for f := 0; f < st.NumFields(); f++ {
					if f == l.posF || f == l.childF {
						continue
					}
					z := tr.St.load(l.field(d, f))
					if sc.facts.same(z, mkBin("+", npos, mkInt(1), npos.T)) {
						ok = l.nextF < 0 || l.nextF == f
						l.nextF = f
					}
				}
				c.require(ok, "next-position-remembered", lastPos(sc), &sc, "the next position for a ** segment is not remembered")
				ahead := false
				for _, r := range s.remembers(l, sc, d) {
					k, isC := sc.facts.exact(r)
					ahead = ahead || isC && k == 0 || sc.facts.never(mkLt(npos, r)) || sc.facts.always(mkLt(r, npos))
				}
				c.require(ahead, "position-not-repeated", lastPos(sc), &sc, "a position may be tried again and again for a ** segment")
				s.positions(l, sc.from(at+1), tr.St, next, pos, npos, d, false)
			}
		case -1:
			c.require(s.allChildren(sc, cx, cv, cur), "children-exhausted", lastPos(sc), &sc, "the search goes up before all children were tried")
			for f := 0; f < st.NumFields(); f++ {
				z := tr.St.load(l.field(d, f))
				c.require(isZeroTerm(z), "entry-cleared", lastPos(sc), &sc, "what was remembered for a node (%s) stays for the next one at that depth", z)
			}
		}
	}
	for _, f := range skips {
		f()
	}
	// at the start everything is empty
	c.require(rootOf(l.table).Op == OMakeSlice || rootOf(l.table).Op == OAlloc, "starts-empty", x.Node.Pos, nil, "the search does not start with an empty table")
	for _, o := range s.outs {
		if _, y, _, ok := s.inLoop(o.St); ok && y.Node == x.Node {
			pre := Scope{items: y.Node.EntryTr.items(), base: newFacts(), facts: o.St.facts}
			n := pre.count(func(ev *Event) bool { return ev.Kind == "store" && rootOf(ev.Args[0]) == rootOf(l.table) })
			c.require(n == 0 && len(pre.loopEvents(func(ev *Event) bool { return ev.Kind == "store" && rootOf(ev.Args[0]) == rootOf(l.table) })) == 0, "starts-empty", x.Node.Pos, &pre, "the search does not start with an empty table")
			break
		}
	}
}

func isZeroTerm(t *Term) bool {
	if t.Op == OZero || t.isNil() || t.isInt(0) || t.isStr("") {
		return true
	}
	if b, ok := t.boolVal(); ok {
		return !b
	}
	return false
}

// allChildren: the loop over the children ended behind the last one
func (s *search) allChildren(sc Scope, cx *LoopExit, cv int, cur *Term) bool {
	n := mkLen(mkLoad(mkFieldAddr(cur, s.t.children), 0))
	i := cx.at(cv)
	for _, t := range []types.Type{nil, i.T} {
		m := n
		if t != nil {
			m = mkConv(t, n)
		}
		if sc.facts.never(mkLt(i, m)) || sc.facts.always(mkLt(m, mkBin("+", i, mkInt(1), i.T))) {
			return true
		}
	}
	return false
}

// skips: a child is passed over only for a reason
func (s *search) skips(l *searchLoop, cx *LoopExit, cv int, cur, pos, d *Term) {
	c := s.c
	for i := range cx.Node.Trans {
		tr := &cx.Node.Trans[i]
		sc := transScope(tr)
		node := mkLoad(mkIdxAddr(mkLoad(mkFieldAddr(cur, s.t.children), 0), cx.cur(tr, cv)), 0)
		why := s.excused(l, sc, tr.St, node, pos, d)
		if why == triedEverywhere {
			z := mkInt(1)
			if l.nextF >= 0 {
				z = sc.facts.norm(tr.St.load(l.field(d, l.nextF)))
			}
			if k, ok := sc.facts.exact(z); !isZeroTerm(z) && !(ok && k == 0) {
				s.cleared = false
			}
		}
		c.require(why != "", "child-skipped-for-a-reason", lastPos(sc), &sc, "a child is passed over although its routes may match")
	}
}

func (s *search) noPattern(f *Facts, node *Term) bool {
	return f.always(mkEq(mkLoad(mkFieldAddr(node, s.patF), 0), mkNil()))
}

const triedEverywhere = "tried for every position"

// excused gives the reason for which nothing below the child can match
func (s *search) excused(l *searchLoop, sc Scope, st *State, node, pos, d *Term) string {
	f := sc.facts
	max := mkLoad(mkFieldAddr(node, s.maxF), 0)
	for _, n := range s.lens() {
		left := mkBin("-", n, pos, pos.T)
		if f.always(mkLt(max, left)) || f.never(mkLt(left, mkBin("+", max, mkInt(1), max.T))) || f.always(mkLt(mkBin("+", max, pos, max.T), n)) {
			return "too many segments are left"
		}
		if (s.last(f, pos) || f.never(mkLt(mkInt(1), left))) && s.noPattern(f, node) && f.never(mkEq(mkLoad(mkFieldAddr(mkLoad(mkFieldAddr(node, s.segF), 0), s.kindF), 0), mkInt(s.greedy))) {
			return "no pattern ends here"
		}
	}
	switch s.outcome(sc, node, pos) {
	case cmpFails:
		return "no match"
	case cmpOne:
		if s.last(f, pos) && s.noPattern(f, node) {
			return "no pattern ends here"
		}
	case cmpMany:
		if s.noPattern(f, node) && f.always(mkEq(mkLen(mkLoad(mkFieldAddr(node, s.t.children), 0)), mkInt(0))) {
			return "nothing is below"
		}
		if s.noPattern(f, node) && s.positions(l, sc, st, node, pos, nil, d, true) {
			return triedEverywhere
		}
	}
	return ""
}

// positions: the positions from which the children of a ** segment are tried are passed over only for a reason. With
// quiet the answer is returned instead of reported.
func (s *search) positions(l *searchLoop, sc Scope, st *State, node, pos, npos, d *Term, quiet bool) bool {
	c := s.c
	say := func(ok bool, rule, what string) bool {
		if !quiet {
			c.require(ok, rule, lastPos(sc), &sc, "%s", what)
		}
		return ok
	}
	kids := mkLoad(mkFieldAddr(node, s.t.children), 0)
	for _, it := range sc.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		for vi, v := range x.Node.Vars {
			if !isIntType(v.Top.T) || !sc.facts.same(v.Init, pos) {
				continue
			}
			steps, all := true, true
			for j := range x.Node.Trans {
				tr := &x.Node.Trans[j]
				steps = steps && sc.sameStep(tr.St.facts, tr.Next[vi], x.cur(tr, vi))
			}
			if !steps || len(x.Node.Trans) == 0 {
				continue
			}
			for j := range x.Node.Trans {
				tr := &x.Node.Trans[j]
				ts := transScope(tr)
				g := x.cur(tr, vi)
				all = all && (s.triedBefore(l, ts, g, d) || s.noneBelow(ts, kids, g))
			}
			if !all {
				continue
			}
			if npos != nil {
				return say(sc.facts.same(x.at(vi), npos), "position-at-turn", "the search descends below a ** segment at another position than the one at turn")
			}
			if s.over(sc.facts, x.at(vi)) {
				return true
			}
		}
	}
	return say(false, "positions-tried-in-order", "a position at which a child of a ** segment may match is passed over")
}

// remembers are the terms for what was remembered for the depth, besides the position and the child
func (s *search) remembers(l *searchLoop, sc Scope, d *Term) (out []*Term) {
	for _, it := range sc.items {
		fi, isF := it.(*FactItem)
		if !isF {
			continue
		}
		containsF(fi.T, func(x *Term) bool {
			if x.Op == OLoad {
				if tb, idx, f := entryOf(x.Args[0]); tb == l.table && f >= 0 && f != l.posF && f != l.childF && (l.nextF < 0 || l.nextF == f) && sc.facts.same(idx, d) {
					out = append(out, x)
				}
			}
			return false
		})
	}
	return
}

// triedBefore: the position is below the remembered next one
func (s *search) triedBefore(l *searchLoop, ts Scope, g, d *Term) bool {
	for _, x := range s.remembers(l, ts, d) {
		if ts.facts.always(mkLt(g, x)) || ts.facts.never(mkLt(x, mkBin("+", g, mkInt(1), g.T))) {
			_, _, l.nextF = entryOf(x.Args[0])
			return true
		}
	}
	return false
}

// noneBelow: every child was compared with the segment at the position and none matched
func (s *search) noneBelow(ts Scope, kids, g *Term) bool {
	if ts.facts.always(mkEq(mkLen(kids), mkInt(0))) {
		return true
	}
	return ts.forAll(kids, func(it Scope, e Elem) bool {
		hit := false
		for _, ev := range it.events(func(ev *Event) bool {
			if ev.Kind != "call" || ev.Name != s.cmp || len(ev.Args) < 3 || ev.Args[1] != s.path {
				return false
			}
			n := s.comparedNode(ev)
			a := ev.Args[2]
			return n != nil && e.is(n) && a.Op == OIdxAddr && a.Args[0] == s.segs && it.facts.same(a.Args[1], g)
		}) {
			hit = hit || it.facts.always(mkEq(ev.Res, mkInt(s.unknown)))
		}
		return hit
	})
}

// nothingFound: without a result, everything was tried
func (s *search) nothingFound() {
	c := s.c
	none := 0
	limit := s.t.max
	for _, o := range s.outs {
		all := scopeOf(o.St)
		if !c.require(o.Panic == nil, "no-panic", lastPos(all), &all, "Match panics") {
			continue
		}
		v := stripConv(o.Vals[0])
		l, x, sc, ok := s.inLoop(o.St)
		if all.facts.never(mkEq(v, mkNil())) {
			continue
		}
		none++
		if !ok {
			c.require(all.facts.always(mkLt(mkInt(limit), s.max)) || all.facts.always(mkEq(s.max, mkInt(0))) && (v.isNil() || v.Op == OLoad), "gives-up-early", lastPos(all), &all, "no route is found without a search")
			if all.facts.always(mkEq(s.max, mkInt(0))) && v.isNil() {
				known := false
				for _, it := range all.items {
					if f, isF := it.(*FactItem); isF && f.Val && f.T.Op == OBin && f.T.S == "==" && f.T.Args[1].isNil() && f.T.Args[0].Op == OLoad && isNamedPtr(typeKey(c.p.typ("router/path", "Pattern")))(f.T.Args[0].T) {
						known = true
					}
				}
				c.require(known, "root-route", lastPos(all), &all, "the route of / is not returned")
			}
			continue
		}
		if l.vi < 0 {
			continue
		}
		cur, pos := x.at(l.vn), x.at(l.vi)
		// the position is always before the end: it is 0, or was checked on the step down, or is restored
		if len(sc.events(func(*Event) bool { return true })) == 0 && s.over(sc.facts, pos) && !all.facts.always(mkEq(s.max, mkInt(0))) {
			continue
		}
		if v.Op == OLoad && s.holder(v) != nil {
			// the pattern of a node that is known to have one
			n := s.holder(v)
			c.require(sc.facts.never(mkEq(v, mkNil())), "returns-a-pattern", lastPos(sc), &all, "the search ends with the pattern of %s, which may hold none", n)
			continue
		}
		d := x.at(l.vd)
		cx, cv, _ := s.childLoop(l, sc, cur, d)
		if !c.require(cx != nil, "children-tried-in-order", lastPos(sc), &all, "the search ends without trying the children of the current node") {
			continue
		}
		s.skips(l, cx, cv, cur, pos, d)
		c.require(s.allChildren(sc, cx, cv, cur), "children-exhausted", lastPos(sc), &all, "the search ends before all children were tried")
		c.require(sc.facts.always(mkEq(mkLoad(mkFieldAddr(cur, s.t.parent), 0), mkNil())), "ends-at-root", lastPos(sc), &all, "the search ends below the root")
	}
	c.require(none > 0, "may-find-nothing", token.NoPos, nil, "the search always finds something")
}

// faithful: the nodes on the way to the node that holds a pattern compare like the segments of the pattern
func (s *search) faithful() {
	c, t := s.c, s.t
	fn := c.p.fn("router/path", "Matcher.AddPattern")
	e := c.engine()
	e.allStores = true
	m, pat := mkSym("m", fn.Params[0].Type()), mkSym("pattern", fn.Params[1].Type())
	st := newState(e)
	st.facts.assume(mkEq(m, mkNil()), false)
	st.facts.assume(mkEq(pat, mkNil()), false)
	segs := mkLoad(mkFieldAddr(pat, t.segsF), 0)
	rootPat := c.p.ptrField(t.matcherT, isNamedPtr(typeKey(c.p.typ("router/path", "Pattern"))), "pattern of /")
	outs := e.callFn(st, fn, []*Term{m, pat}, nil, 0)
	segT := c.p.typ("router/path", "segment")
	kindF := c.p.ptrField(segT, func(x types.Type) bool {
		return typeKey(x) == typeKey(c.p.typ("router/path", "MatchType"))
	}, "kind of a segment")
	isNodeStore := func(field int) func(*Event) bool {
		return func(ev *Event) bool {
			return ev.Kind == "store" && ev.Args[0].Op == OFieldAddr && ev.Args[0].N == field && typeKey(deref(ev.Args[0].Args[0].T)) == typeKey(t.nodeT)
		}
	}
	walked := map[*LoopNode]bool{}
	seenEv := map[*Event]bool{}
	var segStores []EvAt
	inLoops := map[loopAt]bool{}
	for _, o := range outs {
		c.paths++
		sc := scopeOf(o.St)
		if o.Panic != nil {
			continue
		}
		err := o.Vals[len(o.Vals)-1]
		ok := err.isNil() || sc.facts.always(mkEq(err, mkNil()))
		if ok && sc.facts.always(mkEq(mkLen(segs), mkInt(0))) {
			v := o.St.load(mkFieldAddr(m, rootPat))
			c.require(sc.facts.same(v, pat), "root-pattern-kept", lastPos(sc), &sc, "the pattern of / is not kept")
			continue
		}
		// stores into nodes, wherever they are
		sc.everyOnce(inLoops, func(in Scope, ev EvAt) {
			if seenEv[ev.Event] {
				return
			}
			if isNodeStore(s.patF)(ev.Event) {
				seenEv[ev.Event] = true
				old := ev.Prev
				c.require(sameTerm(in, ev.Args[1], pat) && (isFresh(rootOf(ev.Args[0])) || old != nil && in.upto(ev.i).facts.always(mkEq(old, mkNil()))), "pattern-kept", ev.Pos, &in, "the pattern of a node is replaced")
			}
			if isNodeStore(s.segF)(ev.Event) && !isFresh(rootOf(ev.Args[0])) {
				seenEv[ev.Event] = true
				segStores = append(segStores, ev)
			}
			if isNodeStore(t.children)(ev.Event) {
				seenEv[ev.Event] = true
				v := stripConv(ev.Args[1])
				old := ev.Prev
				c.require(v.Op == OAppend && old != nil && extends(in, v, stripConv(old)), "children-only-added", ev.Pos, &in, "the children of a node are replaced by others")
			}
			if s.complete && isNodeStore(s.maxF)(ev.Event) && !isFresh(rootOf(ev.Args[0])) {
				seenEv[ev.Event] = true
				old := ev.Prev
				f := in.upto(ev.i).facts
				c.require(old != nil && (f.never(mkLt(ev.Args[1], old)) || f.always(mkLt(old, ev.Args[1]))), "bound-only-raised", ev.Pos, &in, "the number of segments that a node admits may shrink")
			}
		})
		r := run{Scope: sc, o: o, e: e, st: o.St}
		through := false
		for k, it := range r.items {
			x, isX := it.(*LoopExit)
			if !isX {
				continue
			}
			nv := -1
			for vi, v := range x.Node.Vars {
				if isNamedPtr(typeKey(t.nodeT))(v.Top.T) && v.Init == mkLoad(mkFieldAddr(m, t.rootF), 0) {
					nv = vi
				}
			}
			elem, covers := r.covers(k, segs)
			if nv < 0 {
				continue
			}
			through = through || covers
			if !covers || walked[x.Node] {
				continue
			}
			walked[x.Node] = true
			for i := range x.Node.Trans {
				s.registers(x, &x.Node.Trans[i], nv, elem(&x.Node.Trans[i]), segs, m, pat, kindF)
			}
		}
		if ok {
			c.require(through, "all-segments-registered", lastPos(sc), &sc, "a pattern is accepted although not all of its segments were added to the tree")
		}
	}
	for _, ev := range segStores {
		c.require(s.replaced[ev.Event], "segment-kept", ev.Pos, nil, "the segment of a node is replaced by one that is not known to compare alike")
	}
	c.require(len(walked) > 0, "registers", fn.Pos(), nil, "no loop over the segments of a pattern was found")
	if s.complete {
		c.require(s.patMax >= 0, "bound-from-pattern", fn.Pos(), nil, "the bound of a node does not come from the pattern")
	}
}

// fieldsRead collects the fields of the type that the function looks at
func fieldsRead(fn *ssa.Function, typ string, out map[int]bool, depth int) {
	if fn == nil || depth > 4 {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if typeKey(deref(x.X.Type())) == typ {
					out[x.Field] = true
				}
			case *ssa.Field:
				if typeKey(x.X.Type()) == typ {
					out[x.Field] = true
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.Pkg == fn.Pkg {
					fieldsRead(f, typ, out, depth+1)
				}
			}
		}
	}
}

// pieces are the lists that the list was put together from
func pieces(v *Term) (out []*Term) {
	if v.Op != OAppend {
		return []*Term{v}
	}
	for _, a := range v.Args {
		out = append(out, pieces(stripConv(a))...)
	}
	return
}

// extends: the list holds all elements of the old one
func extends(s Scope, v, old *Term) bool {
	at, done := mkInt(0), false
	for _, p := range pieces(v) {
		switch {
		case done:
		case sameTerm(s, p, old):
			done = true
		case p.Op == OSlice && sameTerm(s, p.Args[0], old) && s.facts.same(p.Args[1], at):
			if hi := p.Args[2]; hi == nil || s.facts.same(hi, mkLen(old)) {
				done = true
			} else {
				at = hi
			}
		}
	}
	return done
}

func sameTerm(s Scope, a, b *Term) bool { return a == b || s.facts.same(a, b) }

// registers: one step of adding a pattern
func (s *search) registers(x *LoopExit, tr *LoopTrans, nv int, e Elem, segs, m, pat *Term, kindF int) {
	c, t := s.c, s.t
	sc := transScope(tr)
	cur, next := x.cur(tr, nv), stripConv(tr.Next[nv])
	if e.idx == nil {
		c.require(false, "registers", lastPos(sc), &sc, "the position in the pattern is not known")
		return
	}
	f := sc.facts
	at := []*Term{e.idx}
	if k, ok := f.exact(e.idx); ok {
		// in the first iteration
		e.idx = mkInt(k)
		at = append(at, e.idx)
	}
	seg := mkLoad(mkIdxAddr(segs, e.idx), 0)
	kind := func(sg *Term) *Term { return mkLoad(mkFieldAddr(sg, kindF), 0) }
	if isFresh(next) {
		own := tr.St.load(mkFieldAddr(next, s.segF))
		c.require(e.is(stripConv(own)), "node-has-segment", lastPos(sc), &sc, "the new node does not get the segment of the pattern (%s)", own)
		linked := false
		list := mkLoad(mkFieldAddr(cur, t.children), 0)
		for _, ev := range sc.events(func(ev *Event) bool { return ev.Kind == "store" && ev.Args[0] == mkFieldAddr(cur, t.children) }) {
			linked = linked || containsF(ev.Args[1], func(y *Term) bool { return y == next }) || contains(tr.St.snap(ev.Args[1], 0), next)
			if old := ev.Prev; old != nil {
				list = stripConv(old)
			}
			for _, p := range pieces(stripConv(ev.Args[1])) {
				if els, ok := tr.St.elems(p); ok {
					for _, y := range els {
						linked = linked || y == next
					}
				}
			}
		}
		c.require(linked, "node-linked", lastPos(sc), &sc, "the new node is not added to the children of its parent")
		if s.complete && !s.cleared {
			once := f.never(mkEq(kind(seg), mkInt(s.greedy))) || sc.forAll(list, func(in Scope, ch Elem) bool {
				if in.facts.never(mkEq(kind(seg), mkInt(s.greedy))) {
					return true
				}
				for _, k := range s.kindsOf(in, kindF, ch) {
					if in.facts.never(mkEq(k, kind(seg))) || in.facts.never(mkEq(k, mkInt(s.greedy))) {
						return true
					}
				}
				return false
			})
			c.require(once, "one-greedy-child", lastPos(sc), &sc, "a node may get a second ** child")
		}
	} else {
		if !c.require(s.child(tr.St, f, cur, next) != nil, "step-to-child", lastPos(sc), &sc, "the pattern goes on at %s", next) {
			return
		}
		// the node may get the equal segment of this pattern for its own
		owns := s.loads(sc, next, s.segF)
		for _, ev := range sc.events(func(ev *Event) bool { return ev.Kind == "store" && ev.Args[0] == mkFieldAddr(next, s.segF) }) {
			if e.is(stripConv(ev.Args[1])) {
				s.replaced[ev.Event] = true
			}
		}
		sameKind := false
		for _, own := range owns {
			for _, k := range s.loads(sc, own, kindF) {
				sameKind = sameKind || f.same(k, kind(seg))
			}
		}
		c.require(sameKind, "same-kind", lastPos(sc), &sc, "a node of another kind stands for the segment of the pattern")
		alike := false
		for _, k := range []string{"MatchTypeCaptureVar", "MatchTypeSingleSegment", "MatchTypeMultipleSegments"} {
			v := mkInt(c.constInt("router/path", k))
			alike = alike || f.always(mkEq(kind(seg), v))
			for _, own := range owns {
				alike = alike || f.always(mkEq(kind(own), v))
			}
		}
		for _, own := range owns {
			alike = alike || s.alike(sc, own, seg, s.foldF >= 0 && f.always(mkLoad(mkFieldAddr(m, s.foldF), 0)))
		}
		c.require(alike, "same-segment", lastPos(sc), &sc, "a node with another segment stands for the segment of the pattern")
	}
	// the pattern is held by the last node
	last := false
	n := mkLen(segs)
	lastKnown, lastIs := false, false
	for _, q := range []*Term{mkEq(e.idx, mkBin("+", n, mkInt(-1), tInt)), mkUn("!", mkLt(mkBin("+", e.idx, mkInt(1), tInt), n), types.Typ[types.Bool])} {
		if is, ok := f.decide(q); ok {
			lastKnown, lastIs = true, is
		}
	}
	last = lastKnown && lastIs
	held := tr.St.load(mkFieldAddr(next, s.patF))
	set := f.same(held, pat)
	if last {
		c.require(set, "last-node-holds-pattern", lastPos(sc), &sc, "the pattern is not held by the node of its last segment (%s)", held)
	} else if lastKnown {
		c.require(!set, "only-last-node-holds-pattern", lastPos(sc), &sc, "the pattern is held by the node of an inner segment")
	} else {
		c.require(false, "last-node-holds-pattern", lastPos(sc), &sc, "the pattern is given to nodes whatever their position")
	}
	if !s.complete {
		return
	}
	// the bound
	max := tr.St.load(mkFieldAddr(next, s.maxF))
	containsF(max, func(y *Term) bool {
		if y.Op == OLoad && y.Args[0].Op == OFieldAddr && y.Args[0].Args[0] == pat && isIntType(y.T) {
			s.patMax = y.Args[0].N
		}
		return false
	})
	for _, it := range sc.items {
		if fi, ok := it.(*FactItem); ok {
			containsF(fi.T, func(y *Term) bool {
				if y.Op == OLoad && y.Args[0].Op == OFieldAddr && y.Args[0].Args[0] == pat && typeKey(y.T) == "uint8" {
					s.patMax = y.Args[0].N
				}
				return false
			})
		}
	}
	if s.patMax < 0 {
		return
	}
	pm := mkLoad(mkFieldAddr(pat, s.patMax), 0)
	ok := false
	if k, isC := f.exact(pm); isC && k > t.max {
		ok = f.never(mkLt(max, mkInt(t.max))) || f.never(mkLt(max, mkInt(k)))
		s.unbounded = k
	} else {
		for _, idx := range at {
			need := mkBin("-", pm, mkConv(pm.T, idx), pm.T)
			ok = ok || f.same(max, need) || f.never(mkLt(max, need)) || f.always(mkLt(need, max)) || f.never(mkLt(max, pm))
		}
	}
	c.require(ok, "bound-covers-pattern", lastPos(sc), &sc, "a node admits fewer segments (%s) than the rest of the pattern has", max)
}

// loads are the terms for the value of the field in the decided facts, whenever it was read
func (s *search) loads(sc Scope, base *Term, field int) []*Term { return loadsIn(sc, base, field) }

func loadsIn(sc Scope, base *Term, field int) []*Term {
	out := []*Term{mkLoad(mkFieldAddr(base, field), 0)}
	for _, it := range sc.items {
		fi, ok := it.(*FactItem)
		if !ok {
			continue
		}
		containsF(fi.T, func(y *Term) bool {
			if y.Op == OLoad && y.Args[0].Op == OFieldAddr && y.Args[0].N == field && y.Args[0].Args[0] == base {
				for _, o := range out {
					if o == y {
						return false
					}
				}
				out = append(out, y)
			}
			return false
		})
	}
	return out
}

// kindsOf are the terms for the kind of the child in the decided facts
func (s *search) kindsOf(in Scope, kindF int, ch Elem) (out []*Term) {
	for _, it := range in.items {
		fi, ok := it.(*FactItem)
		if !ok {
			continue
		}
		containsF(fi.T, func(y *Term) bool {
			if y.Op == OLoad && y.Args[0].Op == OFieldAddr && y.Args[0].N == kindF {
				if sg := y.Args[0].Args[0]; sg.Op == OLoad && sg.Args[0].Op == OFieldAddr && sg.Args[0].N == s.segF && ch.is(sg.Args[0].Args[0]) {
					out = append(out, y)
				}
			}
			return false
		})
	}
	return
}

// alike: the two segments have equal texts
func (s *search) alike(sc Scope, a, b *Term, fold bool) bool {
	ok := false
	for _, it := range sc.items {
		fi, isF := it.(*FactItem)
		if !isF || !fi.Val {
			continue
		}
		q := fi.T
		if len(q.Args) != 2 || !(q.Op == OBin && q.S == "==" || fold && q.Op == OPure && q.S == "strings.EqualFold") {
			continue
		}
		l, r := q.Args[0], q.Args[1]
		if !isStringType(l.T) {
			continue
		}
		from := func(x, sg *Term) (string, bool) {
			path := ""
			for x != sg {
				switch {
				case x.Op == OLoad && x.Args[0].Op == OFieldAddr:
					if typeKey(deref(x.Args[0].Args[0].T)) == typeKey(s.c.p.typ("router/path", "segment")) && !s.compares[x.Args[0].N] {
						// the comparison does not look at it
						return "", false
					}
					path += "." + itoa(x.Args[0].N)
					x = x.Args[0].Args[0]
				case (x.Op == OPure || x.Op == OCall) && len(x.Args) > 0:
					path += "()" + x.S
					x = x.Args[0]
				default:
					if sc.facts.same(x, sg) {
						return path, true
					}
					return "", false
				}
			}
			return path, true
		}
		for k := 0; k < 2; k++ {
			p1, ok1 := from(l, a)
			p2, ok2 := from(r, b)
			if ok1 && ok2 && p1 == p2 && p1 != "" {
				ok = true
			}
			l, r = r, l
		}
	}
	return ok
}

// bounds: the number of segments that a pattern admits is at least that of its own, and unlimited with a ** segment
func (s *search) bounds() {
	c, t := s.c, s.t
	if s.patMax < 0 {
		return
	}
	fn := c.p.fn("router/path", "ParsePattern")
	e := c.engine()
	e.narrow = true
	e.noInline = func(f *ssa.Function) bool { return f != fn && len(e.forest(f).headers) > 0 }
	st := newState(e)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	segT := c.p.typ("router/path", "segment")
	kindF := c.p.ptrField(segT, func(x types.Type) bool {
		return typeKey(x) == typeKey(c.p.typ("router/path", "MatchType"))
	}, "kind of a segment")
	n := 0
	for _, o := range e.callFn(st, fn, args, nil, 0) {
		c.paths++
		sc := scopeOf(o.St)
		if o.Panic != nil || o.Vals[0].isNil() || sc.facts.always(mkEq(o.Vals[0], mkNil())) {
			continue
		}
		n++
		list := o.St.load(mkFieldAddr(o.Vals[0], t.segsF))
		max := o.St.load(mkFieldAddr(o.Vals[0], s.patMax))
		if isZeroTerm(list) || sc.facts.always(mkEq(mkLen(list), mkInt(0))) {
			c.require(true, "bound-of-pattern", lastPos(sc), &sc, "")
			continue
		}
		if k, ok := max.intVal(); ok && k > t.max && (s.unbounded == 0 || k == s.unbounded) {
			c.require(true, "bound-of-pattern", lastPos(sc), &sc, "")
			continue
		}
		ln := mkLen(list)
		ok := sc.facts.same(stripConv(max), stripConv(ln)) || sc.facts.same(max, mkConv(max.T, ln)) || sc.facts.never(mkLt(stripConv(max), stripConv(ln)))
		c.require(ok, "bound-of-pattern", lastPos(sc), &sc, "a pattern with %s segments admits %s", ln, max)
		c.require(s.noGreedy(sc, list, segT, kindF), "unbounded-with-greedy", lastPos(sc), &sc, "a pattern with a ** segment may admit only as many segments as it has")
	}
	c.require(n > 1, "accepts", fn.Pos(), nil, "no pattern is accepted")
}

// noGreedy: none of the segments that were added is a ** segment
func (s *search) noGreedy(sc Scope, list *Term, segT types.Type, kindF int) bool {
	if sc.forAll(list, func(in Scope, e Elem) bool {
		if e.idx == nil {
			return false
		}
		return in.facts.never(mkEq(mkLoad(mkFieldAddr(mkLoad(mkIdxAddr(list, e.idx), 0), kindF), 0), mkInt(s.greedy)))
	}) {
		return true
	}
	for _, it := range sc.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
	vars:
		for vi, v := range x.Node.Vars {
			isKind := isIntType(v.Top.T)
			if !isKind && !isBoolType(v.Top.T) {
				continue
			}
			if isKind && !sc.facts.never(mkEq(x.at(vi), mkInt(s.greedy))) || !isKind && !sc.facts.always(mkUn("!", x.at(vi), v.Top.T)) {
				continue
			}
			if isKind && typeKey(v.Top.T) != typeKey(s.c.p.typ("router/path", "MatchType")) {
				continue
			}
			made := 0
			for i := range x.Node.Trans {
				tr := &x.Node.Trans[i]
				ts := transScope(tr)
				cur, next := x.cur(tr, vi), tr.Next[vi]
				if isKind && !ts.facts.never(mkLt(next, cur)) {
					continue vars
				}
				if !isKind && !(ts.facts.always(next) || ts.facts.never(cur) || next == cur) {
					continue vars
				}
				for _, ev := range ts.events(func(ev *Event) bool { return ev.Kind == "store" || ev.Kind == "append" }) {
					sg := (*Term)(nil)
					for _, a := range ev.Args[1:] {
						containsF(a, func(y *Term) bool {
							if y.Op == OAlloc && typeKey(deref(y.T)) == typeKey(segT) {
								sg = y
							}
							return false
						})
					}
					if sg == nil || ev.Kind == "store" && ev.Args[0].Op != OIdxAddr {
						continue
					}
					made++
					k := tr.St.load(mkFieldAddr(sg, kindF))
					if isKind && !ts.facts.never(mkLt(next, k)) {
						continue vars
					}
					if !isKind && !ts.facts.always(next) && !ts.facts.never(mkEq(k, mkInt(s.greedy))) {
						continue vars
					}
				}
			}
			if made > 0 {
				return true
			}
		}
	}
	return false
}
