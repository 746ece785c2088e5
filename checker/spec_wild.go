package main

import "go/token"

func init() {
	specs["C45"] = spec{run: checkWildcardBounds, min: 2,
		explain: "every path of the wildcard comparison (and of everything it calls in the repository) is enumerated for texts of any length, with inferred loop invariants; every index and slice expression is an obligation that must be implied by the facts of each path reaching it, and no path may panic",
		assume:  []string{}}
}

// checkWildcardBounds: no text and no pattern makes the comparison index outside of either
func checkWildcardBounds(c *Check) {
	fn := c.p.fn("router/path", "regexSegmentMatch")
	e := c.engine()
	e.bounds = true
	e.typePanics = true
	st := newState(e)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	live := 0
	for _, o := range e.callFn(st, fn, args, nil, 0) {
		c.paths++
		s := scopeOf(o.St)
		if c.require(o.Panic == nil, "no-panic", fn.Pos(), &s, "the comparison panics") {
			live++
		}
	}
	c.require(live > 0, "returns", token.NoPos, nil, "no way to answer was found")
	c.bounded(e)
}

// bounded: every index, slice and type assertion met was in range on every path
func (c *Check) bounded(e *Engine) {
	for _, k := range sortedKeys(e.obligs) {
		o := e.obligs[k]
		c.require(o.Proved, "in-range", o.Pos, nil, "%s: %s may be out of range", o.Kind, o.Desc)
	}
}
