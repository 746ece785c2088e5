package main

// Rules for request paths that exceed the supported limits.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C03"] = spec{run: checkLongPaths, min: 30,
		explain: "every path of ParseURLPath for a path of any length and scratch memory of the supported size: index, slice and integer conversion obligations; each way an iteration of the scan can go stores the segment that ends there at the next free place or has a reason not to (no separator, nothing pending, empty, \"..\"); a parse that gives up leaves a list longer than the supported number, and Match answers nil for such a list before doing anything else; the pool's constructor makes scratch memory of the supported size",
		assume:  []string{"the segment \"..\" removes a segment instead of adding one and empty segments do not count (documented behaviour of the parser)"}}
}

func checkLongPaths(c *Check) {
	c.checkParseURLPath(nil)
	c.checkMatchGuard()
	c.checkScratch()
}

// longParse is one analysis of ParseURLPath
type longParse struct {
	path, list, addr *Term
	max              int64
	startF           int
	cnt, start, scan int // loop variables: next free place, start of the pending segment, scan position
	startK           int64
	x                *LoopExit
	split            *Check // also checks how the path is cut (C47)
	st               *State // at the end of the step
}

func (c *Check) checkParseURLPath(split *Check) {
	fn := c.p.fn("router/path", "ParseURLPath")
	e := c.engine()
	e.bounds, e.narrow, e.typePanics, e.allStores = true, true, true, true
	st := newState(e)
	u, mc := mkSym("requestUrl", fn.Params[0].Type()), mkSym("mc", fn.Params[1].Type())
	st.facts.assume(mkEq(u, mkNil()), false)
	st.facts.assume(mkEq(mc, mkNil()), false)
	lp := &longParse{max: c.constInt("router/path", "MaxPathSegments"), cnt: -1, start: -1, scan: -1, split: split}
	lp.addr = c.fieldAddr(mc, "PathSegments")
	lp.list = mkLoad(lp.addr, 0)
	lp.path = mkLoad(mkFieldAddr(u, c.urlField("Path")), 0)
	lp.startF = c.fieldByName(elemType(lp.list.T), "startIndex")
	st.facts.assume(mkEq(mkLen(lp.list), mkInt(lp.max)), true)
	var runs []run
	for _, o := range e.callFn(st, fn, []*Term{u, mc}, nil, 0) {
		c.paths++
		runs = append(runs, run{Scope: scopeOf(o.St), o: o, e: e, st: o.St})
	}
	dumpRuns(c, runs)
	c.bounded(e)
	c.needLive(runs, "ParseURLPath")
	lp.findVars(runs)
	nodes := map[*LoopNode]bool{}
	given, kept := 0, 0
	for i := range runs {
		r := runs[i]
		pos := r.pos()
		if !c.require(r.o.Panic == nil, "no-panic", pos, &r.Scope, "ParseURLPath panics") {
			continue
		}
		final := stripConv(r.st.load(lp.addr))
		if n, ok := c.listLen(r.st, final); ok && n > lp.max {
			// rejected: Match refuses such a list
			given++
			c.require(true, "rejected-by-length", pos, &r.Scope, "")
			continue
		}
		kept++
		at := -1
		for k, it := range r.items {
			if x, ok := it.(*LoopExit); ok {
				if _, ok := r.covers(k, lp.path); ok {
					lp.x, at = x, k
				}
			}
		}
		if at < 0 {
			root := r.facts.always(mkEq(lp.path, mkStr(""))) || r.facts.always(mkEq(lp.path, mkStr("/")))
			c.require(root && (final.isNil() || r.facts.always(mkEq(mkLen(final), mkInt(0)))), "scanned-completely", pos, &r.Scope, "the path is accepted without having been scanned to its end")
			continue
		}
		if !c.require(lp.cnt >= 0 && lp.start >= 0 && lp.scan >= 0, "scan-found", pos, &r.Scope, "the scan of the path could not be understood (variables %d %d %d)", lp.cnt, lp.start, lp.scan) {
			continue
		}
		if !nodes[lp.x.Node] {
			nodes[lp.x.Node] = true
			for k := range lp.x.Node.Trans {
				t := &lp.x.Node.Trans[k]
				cur := lp.x.cur(t, lp.cnt)
				ts := transScope(t)
				lp.st = t.St
				if lp.split != nil {
					lp.split.cutStep(lp, ts, lp.x, t)
				}
				c.segmentStep(lp, ts, cur, t.Next[lp.cnt], mkBin("+", lp.x.cur(t, lp.start), mkInt(lp.startK), tInt), lp.x.cur(t, lp.scan), true)
			}
		}
		val := func(vi int) *Term {
			if v := lp.x.Node.Parts[lp.x.Part].Vals[vi]; v != nil {
				return v
			}
			return lp.x.Node.Vars[vi].Top
		}
		var end *Term
		if final.Op == OSlice && final.Args[0] == lp.list && final.Args[1].isInt(0) && final.Args[2] != nil {
			end = final.Args[2]
		} else if final.isNil() || r.facts.always(mkEq(mkLen(final), mkInt(0))) {
			end = mkInt(0)
		}
		if !c.require(end != nil, "list-of-segments", pos, &r.Scope, "the list %s left by the parser is not made of the segments found", final) {
			continue
		}
		tail := r.from(at + 1)
		if !r.facts.always(mkLt(mkLen(lp.path), val(lp.scan))) {
			// the last segment ends with the path
			lp.st = r.st
			c.segmentStep(lp, tail, val(lp.cnt), end, mkBin("+", val(lp.start), mkInt(lp.startK), tInt), mkLen(lp.path), false)
		} else {
			c.require(r.facts.same(end, val(lp.cnt)), "keeps-segments", pos, &r.Scope, "the list is cut to another number of segments than were found")
		}
	}
	c.require(given > 0 && kept > 0, "both-answers", fn.Pos(), nil, "no path on which a request path is rejected (%d) or accepted (%d) was found", given, kept)
}

// findVars recognises the variables of the scan: the one the segments are stored at, the start they are stored with, the position
func (lp *longParse) findVars(runs []run) {
	for _, r := range runs {
		for k, it := range r.items {
			x, ok := it.(*LoopExit)
			if !ok {
				continue
			}
			elem, ok := r.covers(k, lp.path)
			if !ok {
				continue
			}
			for i := range x.Node.Trans {
				t := &x.Node.Trans[i]
				idx := elem(t).idx
				at := lp.storedAt(transScope(t))
				if at == nil || idx == nil {
					continue
				}
				ca, _ := linear(at)
				sa, sk := linear(stripConv(t.St.load(mkFieldAddr(mkIdxAddr(lp.list, at), lp.startF))))
				ia, _ := linear(idx)
				for vi := range x.Node.Vars {
					switch x.cur(t, vi) {
					case ia:
						lp.scan = vi
					case ca:
						lp.cnt = vi
					case sa:
						lp.start, lp.startK = vi, sk
					}
				}
				if lp.cnt >= 0 && lp.start >= 0 && lp.scan >= 0 {
					return
				}
			}
		}
	}
}

// storedAt is the place in the scratch memory written in the scope
func (lp *longParse) storedAt(s Scope) *Term {
	var at *Term
	for _, ev := range s.events(func(e *Event) bool { return e.Kind == "store" }) {
		a := ev.Args[0]
		for a.Op == OFieldAddr {
			a = a.Args[0]
		}
		if a.Op == OIdxAddr && a.Args[0] == lp.list {
			if at != nil && at != a.Args[1] {
				return mkInt(-1)
			}
			at = a.Args[1]
		}
	}
	return at
}

// segmentStep: a way through an iteration (or through what follows the scan) keeps the segment that ends here
func (c *Check) segmentStep(lp *longParse, s Scope, cur, next, start, end *Term, inLoop bool) {
	r := run{Scope: s}
	pos := r.pos()
	c.require(len(s.loopEvents(func(e *Event) bool {
		a := e.Args
		for len(a) > 0 && a[0] != nil && a[0].Op == OFieldAddr {
			a = a[0].Args
		}
		return e.Kind == "store" && len(a) > 0 && a[0].Op == OIdxAddr && a[0].Args[0] == lp.list
	})) == 0, "one-store", pos, &s, "the scratch memory is written an unknown number of times in a step")
	if at := lp.storedAt(s); at != nil {
		c.require(s.facts.same(at, cur), "stored-at-next-place", pos, &s, "a segment is stored at %s instead of the next free place %s", at, cur)
		c.require(s.facts.same(next, mkBin("+", cur, mkInt(1), tInt)), "counted", pos, &s, "a segment is stored but not counted")
		if lp.split != nil {
			lp.split.cutPiece(lp, s, at, start, end)
		}
		return
	}
	sep, up := true, false
	for _, it := range s.items {
		f, ok := it.(*FactItem)
		if !ok {
			continue
		}
		t, val := f.T, f.Val
		for t.Op == OUn && t.S == "!" {
			t, val = t.Args[0], !val
		}
		if t.Op != OBin || t.S != "==" {
			continue
		}
		for i, a := range t.Args {
			b := t.Args[1-i]
			if a.Op == OIndex && a.Args[0] == lp.path && b.isInt('/') && !val {
				sep = false
			}
			if t, isStr := b.strVal(); isStr && t == ".." && val && rootText(a) == lp.path {
				up = true
			}
		}
	}
	if !up && textIs(s.facts, s.facts.slice(lp.path, start, end, nil, tString), "..") == 1 {
		up = true
	}
	if up {
		if lp.split != nil {
			lp.split.cutUp(lp, s, cur, next, start, end)
		}
		c.require(true, "segment-kept", pos, &s, "")
		return
	}
	if lp.split != nil {
		lp.split.require(s.facts.same(next, cur), "removed-only-by-dotdot", pos, &s, "the number of segments changes from %s to %s without a segment that ends there", cur, next)
	}
	c.require(s.facts.same(next, cur), "keeps-segments", pos, &s, "the number of segments changes from %s to %s although none is stored", cur, next)
	none := false
	sa, _ := linear(start)
	if sa == nil {
		k, _ := start.intVal()
		none = k-lp.startK < 0
	} else if s.facts.always(mkLt(sa, mkInt(0))) {
		none = true
	}
	if inLoop && !sep {
		none = true
	}
	if s.facts.never(mkLt(start, end)) {
		none = true
	}
	c.require(none, "segment-kept", pos, &s, "a segment that ends here is neither stored nor is the path rejected")
}

// rootText is the text a slice is taken from
func rootText(t *Term) *Term {
	t = stripConv(t)
	for t.Op == OSlice {
		t = stripConv(t.Args[0])
	}
	return t
}

// listLen is the length of a list, also of one kept in a package variable
func (c *Check) listLen(st *State, v *Term) (int64, bool) {
	if n, ok := st.lenOf(v); ok {
		return n, true
	}
	if v.Op == OLoad && v.Args[0].Op == OGlobal {
		return c.globalLen(v.Args[0].G)
	}
	return 0, false
}

// globalLen: the package variable is set once, by its declaration, to a list of constant length
func (c *Check) globalLen(g *ssa.Global) (int64, bool) {
	var vals []ssa.Value
	for f := range allFns(c.p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr != ssa.Value(g) || f.Name() != "init" {
							return 0, false
						}
						vals = append(vals, x.Val)
					case *ssa.UnOp:
					default:
						return 0, false
					}
				}
			}
		}
	}
	if len(vals) != 1 {
		return 0, false
	}
	e := c.engine()
	switch x := vals[0].(type) {
	case *ssa.MakeSlice:
		if k, ok := x.Len.(*ssa.Const); ok {
			return k.Int64(), true
		}
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Low == nil {
			if x.High != nil {
				if k, ok := x.High.(*ssa.Const); ok {
					return k.Int64(), true
				}
				return 0, false
			}
			return arrayLen(deref(a.Type())), true
		}
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || len(x.Call.Args) > 0 || fn.Pkg == nil || !c.p.repo[fn.Pkg.Pkg] {
			return 0, false
		}
		n := int64(-1)
		for _, o := range e.callFn(newState(e), fn, nil, nil, 0) {
			if o.Panic != nil {
				continue
			}
			k, ok := o.St.lenOf(stripConv(o.Vals[0]))
			if !ok || n >= 0 && n != k {
				return 0, false
			}
			n = k
		}
		return n, n >= 0
	}
	return 0, false
}

// checkMatchGuard: a list longer than supported is answered with nil, a supported one keeps its length
func (c *Check) checkMatchGuard() {
	fn := c.p.fn("router/path", "Matcher.Match")
	max := c.constInt("router/path", "MaxPathSegments")
	for _, long := range []bool{true, false} {
		e := c.engine()
		e.cutLoops, e.narrow = true, true
		st := newState(e)
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, mkSym(p.Name(), p.Type()))
		}
		st.facts.assume(mkEq(args[0], mkNil()), false)
		st.facts.assume(mkEq(args[2], mkNil()), false)
		n := mkLen(mkLoad(c.fieldAddr(args[2], "PathSegments"), 0))
		st.facts.assume(mkLt(mkInt(max), n), long)
		outs := e.callFn(st, fn, args, nil, 0)
		for _, o := range outs {
			c.paths++
			s := scopeOf(o.St)
			if long {
				c.require(o.Panic == nil && o.Vals[0].isNil(), "long-never-matches", lastPos(s), &s, "a path with more than %d segments may be matched", max)
			} else {
				c.require(o.Panic == nil, "no-panic", lastPos(s), &s, "Match panics before looking at the segments")
			}
		}
		if long {
			c.bounded(e)
			c.require(len(outs) > 0, "long-answered", fn.Pos(), nil, "Match does not answer for a path with too many segments")
			for _, cut := range e.cuts {
				s := scopeOf(cut)
				c.require(false, "long-never-matches", lastPos(s), &s, "a path with more than %d segments is compared with patterns", max)
			}
		} else {
			c.require(len(e.cuts) > 0, "short-compared", fn.Pos(), nil, "no way on which the segments are compared with patterns was found")
			c.bounded(e)
		}
	}
}

// checkScratch: requests are parsed into scratch memory of the supported size
func (c *Check) checkScratch() {
	rc := c.router(nil)
	_, _, runs := c.request(rc)
	pools := map[*Term]bool{}
	parses := 0
	for i := range runs {
		r := runs[i]
		c.require(len(r.loopEvents(isCall(fnParse))) == 0, "parsed-once", r.pos(), &r.Scope, "a request is parsed an unknown number of times")
		for _, p := range r.events(isCall(fnParse)) {
			parses++
			v := c.scratchOf(p)
			n, ok := mkLen(v).intVal()
			if !ok {
				n, ok = r.upto(p.i).facts.exact(mkLen(v))
			}
			if ok {
				c.require(n >= c.constInt("router/path", "MaxPathSegments"), "scratch-size", p.Pos, &r.Scope, "the memory the path is parsed into is too small (%d)", n)
				continue
			}
			from := false
			for _, g := range r.upto(p.i).events(isCall("(*sync.Pool).Get")) {
				if stripped(v) == stripIface(g.Res) {
					from = true
					pools[stripConv(g.Args[0])] = true
				}
			}
			c.require(from, "scratch-size", p.Pos, &r.Scope, "the path is parsed into memory of unknown size (%s)", v)
		}
	}
	c.require(parses > 0, "parses", token.NoPos, nil, "no request is parsed")
	for _, p := range sortTerms(pools) {
		c.poolConstructor(p)
	}
}

// stripped is what the value was loaded from or converted from
func stripped(v *Term) *Term {
	v = stripIface(stripConv(v))
	if v.Op == OLoad {
		return stripIface(v.Args[0])
	}
	return v
}

// scratchOf is the list of segments of the context when it is handed to the parser
func (c *Check) scratchOf(p EvAt) *Term {
	v := p.Snap[1]
	if v != nil && v.Op == OPtrTo {
		v = v.Args[0]
	}
	if v == nil || structOf(v.T) == nil {
		panic(undecided("the context handed to the parser is not known"))
	}
	return stripConv(mkField(v, c.fieldByName(v.T, "PathSegments")))
}
