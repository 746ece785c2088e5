package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	specs["C50"] = spec{run: checkContextValues, min: 20,
		explain: "each accessor of a value kept in the request context is analysed on an unknown context extended with an unknown value under its own key, with a value of another type under its own key, with values under the keys of the other accessors and under a key of a type made outside the framework: every path must give back the value, nothing, and what the unextended context gives, respectively; the keys themselves are of unexported types declared in the framework and differ pairwise",
		assume:  []string{"the standard library's context semantics"}}
}

type ctxAccessor struct{ rel, key, fn string }

var ctxAccessors = []ctxAccessor{
	{"auth", "SecurityPrincipalCtxKey", "GetSecurityPrincipalFromContext"},
	{"auth/oauth", "AccessTokenCtxKey", "GetAccessTokenFromContext"},
	{"middleware", "CSRFNonceCtxKey", "GetCSRFNonceFromContext"},
}

func withValue(ctx, key, val *Term) *Term {
	return mkPure("context.WithValue", ctx.T, ctx, key, val)
}

func checkContextValues(c *Check) {
	for i, a := range ctxAccessors {
		fn := c.p.fn(a.rel, a.fn)
		pos := fn.Pos()
		key := c.constKey(a.rel, a.key)
		n, named := key.T.(*types.Named)
		c.require(named && !n.Obj().Exported() && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath), "own-key", pos, nil, "%s: other packages can make the key, too (%s)", a.key, key.T)
		resT := fn.Signature.Results().At(0).Type()
		ctx := mkSym("ctx", c.ctxType())
		get := func(ctx *Term, prep func(*State)) []Outcome {
			e := c.engine()
			st := newState(e)
			st.facts.assume(mkEq(mkSym("ctx", c.ctxType()), mkNil()), false)
			if prep != nil {
				prep(st)
			}
			return e.callFn(st, fn, []*Term{ctx}, nil, 0)
		}
		each := func(what string, outs []Outcome, ok func(*State, *Term) bool) {
			n := 0
			for _, o := range outs {
				s := scopeOf(o.St)
				if o.Panic != nil {
					c.require(false, "no-panic", pos, &s, "%s panics for %s", a.fn, what)
					continue
				}
				n++
				c.require(ok(o.St, o.Vals[0]), "value-found", pos, &s, "%s gives %s for %s", a.fn, o.Vals[0], what)
			}
			c.require(n > 0, "accessor-live", pos, nil, "%s never returns for %s", a.fn, what)
		}
		zero := func(st *State, v *Term) bool { return same(scopeOf(st), v, zeroOf(resT)) }
		given := func(st *State) {
			if types.IsInterface(resT) {
				st.facts.assume(mkEq(mkSym("value", resT), mkNil()), false)
				st.facts.assume(mkTAok(resT, mkSym("value", resT)), true)
			}
		}
		val := mkSym("value", resT)
		stored := val
		if !types.IsInterface(resT) {
			stored = mkIface(resT, val)
		}
		each("a stored value", get(withValue(ctx, key, stored), given), func(st *State, v *Term) bool { return same(scopeOf(st), v, val) })
		other := mkIface(tInt, mkSym("number", tInt))
		each("a value of another type", get(withValue(ctx, key, other), nil), zero)
		each("an empty context", get(mkPure("context.Background", c.ctxType()), nil), zero)
		// what is stored elsewhere makes no difference
		direct := get(ctx, nil)
		c.require(len(direct) > 0, "accessor-live", pos, nil, "%s never returns", a.fn)
		for j, b := range ctxAccessors {
			if i == j {
				continue
			}
			k := c.constKey(b.rel, b.key)
			eq, known := newState(c.engine()).facts.equal(key, k)
			c.require(known && !eq, "keys-differ", pos, nil, "%s and %s are the same key", a.key, b.key)
			for _, v := range []*Term{mkSym("other", types.NewInterfaceType(nil, nil)), stored} {
				c.sameAnswers(a.fn, direct, get(withValue(ctx, k, v), nil), fn.Pos())
			}
			outer := withValue(withValue(ctx, key, stored), k, other)
			each("a stored value below "+b.key, get(outer, given), func(st *State, v *Term) bool { return same(scopeOf(st), v, val) })
		}
		for _, t := range []types.Type{tInt, tString} {
			foreign := mkIface(t, mkSym("key", t))
			c.sameAnswers(a.fn, direct, get(withValue(ctx, foreign, stored), nil), fn.Pos())
		}
	}
}

// sameAnswers: wherever ways of both calls can be taken together, they give the same value
func (c *Check) sameAnswers(what string, a, b []Outcome, pos token.Pos) {
	for _, y := range b {
		s := scopeOf(y.St)
		if y.Panic != nil {
			c.require(false, "no-panic", pos, &s, "%s panics", what)
			continue
		}
		for _, x := range a {
			if x.Panic != nil {
				continue
			}
			st := y.St.fork()
			together := true
			for _, it := range x.St.trace.items() {
				if f, ok := it.(*FactItem); ok && !st.facts.assume(f.T, f.Val) {
					together = false
					break
				}
			}
			if together {
				c.require(same(scopeOf(st), x.Vals[0], y.Vals[0]), "others-make-no-difference", pos, &s, "%s gives %s where it gave %s before another value was stored", what, y.Vals[0], x.Vals[0])
			}
		}
	}
}
