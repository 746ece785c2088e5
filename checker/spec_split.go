package main

// How a request path is cut into segments.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C47"] = spec{run: checkSplit, min: 25,
		explain: "every path of ParseURLPath for a path of any length: for every way an iteration of the scan can go, the start of the pending segment becomes the place after a slash exactly when the scan meets one and stays otherwise; a segment is recorded with exactly the pending start and the position of the slash (or of the end) as its offsets, only when it is pending, not empty and not \"..\"; \"..\" removes exactly the last recorded segment and nothing when there is none; and no other function writes offsets other than zero or copies",
		assume:  []string{"request paths start with a slash (net/http)"}}
}

func checkSplit(c *Check) {
	sub := &Check{id: c.id, p: c.p, rules: map[string]int{}, analysed: map[string]bool{}, sites: map[string]bool{}}
	sub.checkParseURLPath(c)
	c.engines = append(c.engines, sub.engines...)
	c.paths += sub.paths
	// nobody else makes up offsets
	segT := c.p.typ("router/path", "UrlSegment")
	offs := map[int]bool{c.fieldByName(segT, "startIndex"): true, c.fieldByName(segT, "endIndex"): true}
	parse := map[*ssa.Function]bool{}
	for _, e := range sub.engines {
		for f := range e.fnsSeen {
			parse[f] = true
		}
	}
	for f := range allFns(c.p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !offs[a.Field] || typeKey(deref(a.X.Type())) != typeKey(segT) || parse[f] {
					continue
				}
				good := false
				switch v := s.Val.(type) {
				case *ssa.Const:
					good = v.IsNil() || v.Int64() == 0
				case *ssa.UnOp:
					if fa, ok := v.X.(*ssa.FieldAddr); ok {
						good = fa.Field == a.Field && typeKey(deref(fa.X.Type())) == typeKey(segT)
					}
				case *ssa.Field:
					good = v.Field == a.Field && typeKey(v.X.Type()) == typeKey(segT)
				}
				c.require(good, "offsets-only-from-parser", s.Pos(), nil, "%s makes up the offsets of a segment", fnName(f))
			}
		}
	}
}

// atSlash: 1 when the scan is known to be at a slash, -1 when it is known not to be
func (lp *longParse) atSlash(s Scope, pos *Term) int {
	if v, ok := s.facts.decide(mkEq(s.facts.index(lp.path, pos, types.Typ[types.Uint8]), mkConst(constByte('/'), types.Typ[types.Uint8]))); ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// cutStep: the pending start after an iteration
func (c *Check) cutStep(lp *longParse, s Scope, x *LoopExit, t *LoopTrans) {
	r := run{Scope: s}
	pos := r.pos()
	scan := x.cur(t, lp.scan)
	start, next := x.cur(t, lp.start), t.Next[lp.start]
	k, ok := x.step(t, lp.scan)
	c.require(ok && k == 1, "one-byte-at-a-time", pos, &s, "the scan does not go to the next byte of the path")
	switch lp.atSlash(s, scan) {
	case 1:
		c.require(s.facts.same(mkBin("+", next, mkInt(lp.startK), tInt), mkBin("+", scan, mkInt(1), tInt)), "starts-after-slash", pos, &s, "after a slash the pending segment starts at %s", next)
	case -1:
		c.require(s.facts.same(next, start), "starts-after-slash", pos, &s, "the pending segment starts at %s although there is no slash", next)
	default:
		c.require(false, "starts-after-slash", pos, &s, "an iteration of the scan does not look whether there is a slash")
	}
	iv, is := x.Node.Vars[lp.scan].Init, x.Node.Vars[lp.start].Init
	i0, ok1 := iv.intVal()
	s0, ok2 := is.intVal()
	c.require(ok1 && ok2 && (i0 == 0 && s0+lp.startK <= 0 || i0 == 1 && s0+lp.startK == 1), "scan-begins", pos, &s, "the scan begins at %s with a segment pending from %s", iv, is)
}

// cutPiece: a recorded segment is the text between two slashes
func (c *Check) cutPiece(lp *longParse, s Scope, at, start, end *Term) {
	r := run{Scope: s}
	pos := r.pos()
	f := s.facts
	el := mkIdxAddr(lp.list, at)
	endF := c.fieldByName(elemType(lp.list.T), "endIndex")
	gs, ge := stripConv(lp.st.load(mkFieldAddr(el, lp.startF))), stripConv(lp.st.load(mkFieldAddr(el, endF)))
	c.require(f.same(gs, start), "offsets", pos, &s, "a segment that starts at %s is recorded as starting at %s", start, gs)
	c.require(f.same(ge, end), "offsets", pos, &s, "a segment that ends at %s is recorded as ending at %s", end, ge)
	c.require(f.never(mkLt(start, mkInt(0))), "pending", pos, &s, "a segment is recorded although none is pending")
	c.require(f.always(mkLt(start, end)), "not-empty", pos, &s, "an empty segment may be recorded")
	c.require(textIs(f, f.slice(lp.path, start, end, nil, tString), "..") == -1, "not-dotdot", pos, &s, "\"..\" may be recorded as a segment")
	if !f.same(end, mkLen(lp.path)) {
		c.require(lp.atSlash(s, end) == 1, "ends-at-slash", pos, &s, "a segment ends where there is no slash")
	}
}

// cutUp: ".." removes the last segment
func (c *Check) cutUp(lp *longParse, s Scope, cur, next, start, end *Term) {
	r := run{Scope: s}
	f := s.facts
	less := mkBin("-", cur, mkInt(1), tInt)
	ok := f.same(next, less) && f.never(mkLt(less, mkInt(0))) || f.same(next, mkInt(0)) && f.never(mkLt(mkInt(1), cur))
	c.require(ok, "dotdot-removes-last", r.pos(), &s, "\"..\" changes the number of segments from %s to %s", cur, next)
	c.require(textIs(f, f.slice(lp.path, start, end, nil, tString), "..") == 1, "dotdot-text", r.pos(), &s, "a segment other than \"..\" is removed")
}

// textIs: 1 when the text is known to be the given one, -1 when it is known not to be, from comparisons of the whole or of
// its length and bytes
func textIs(f *Facts, t *Term, want string) int {
	if v, ok := f.decide(mkEq(t, mkStr(want))); ok {
		if v {
			return 1
		}
		return -1
	}
	n := mkInt(int64(len(want)))
	if f.never(mkEq(f.norm(mkLen(t)), n)) {
		return -1
	}
	all := f.always(mkEq(f.norm(mkLen(t)), n))
	for i := range want {
		b := mkEq(f.index(t, mkInt(int64(i)), types.Typ[types.Uint8]), mkConst(constByte(want[i]), types.Typ[types.Uint8]))
		if f.never(b) {
			return -1
		}
		all = all && f.always(b)
	}
	if all {
		return 1
	}
	return 0
}
