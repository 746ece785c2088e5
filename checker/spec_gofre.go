package main

import (
	"go/types"
)

func init() {
	specs["C10"] = spec{run: checkResolvePath, min: 5,
		explain: "every path of MuxHandler.resolvePath for an unknown prefix and path is enumerated, split by the emptiness and the slashes on either side; each result must be the required concatenation"}
}

func checkResolvePath(c *Check) {
	fn := c.p.fn("", "MuxHandler.resolvePath")
	e := c.engine()
	recv := mkSym("m", fn.Params[0].Type())
	path := mkSym("path", tString)
	st := newState(e)
	var prefix *Term
	if _, isP := recv.T.Underlying().(*types.Pointer); isP {
		st.facts.assume(mkEq(recv, mkNil()), false)
		prefix = st.load(c.fieldAddr(recv, "pathPrefix"))
	} else {
		prefix = c.fieldOfVal(recv, "pathPrefix")
	}
	n := mkLen(prefix)
	one := mkInt(1)
	slash := func(at *Term, s *Term) *Term {
		return mkEq(mkIndex(s, at, types.Typ[types.Uint8]), mkConst(constByte('/'), types.Typ[types.Uint8]))
	}
	preNoSlash := mkSlice(prefix, mkInt(0), mkBin("-", n, one, tInt), nil, tString)
	pathNoSlash := mkSlice(path, one, nil, nil, tString)
	for _, o := range e.callFn(st, fn, []*Term{recv, path}, nil, 0) {
		if o.Panic != nil {
			s := scopeOf(o.St)
			c.require(false, "no-panic", fn.Pos(), &s, "resolvePath panics")
			continue
		}
		rs := []run{{Scope: scopeOf(o.St), o: o, e: e, st: o.St}}
		for _, cond := range []*Term{mkEq(prefix, mkStr("")), mkEq(path, mkStr("")), slash(mkBin("-", n, one, tInt), prefix), slash(mkInt(0), path)} {
			var nx []run
			for _, r := range rs {
				if r.facts.always(mkEq(prefix, mkStr(""))) || r.facts.always(mkEq(path, mkStr(""))) {
					nx = append(nx, r)
					continue
				}
				nx = append(nx, r.by(cond)...)
			}
			rs = nx
		}
		for _, r := range rs {
			c.paths++
			var want []*Term
			switch {
			case r.facts.always(mkEq(prefix, mkStr(""))):
				want = []*Term{path}
			case r.facts.always(mkEq(path, mkStr(""))):
				want = []*Term{prefix}
			default:
				a := r.facts.always(slash(mkBin("-", n, one, tInt), prefix))
				b := r.facts.always(slash(mkInt(0), path))
				sl := mkStr("/")
				switch {
				case a && b:
					want = []*Term{mkConcat(prefix, pathNoSlash), mkConcat(preNoSlash, path), mkConcat(preNoSlash, sl, pathNoSlash)}
				case !a && !b:
					want = []*Term{mkConcat(prefix, sl, path)}
				case a:
					want = []*Term{mkConcat(prefix, path), mkConcat(preNoSlash, sl, path)}
				default:
					want = []*Term{mkConcat(prefix, path), mkConcat(prefix, sl, pathNoSlash)}
				}
			}
			ok := false
			for _, w := range want {
				ok = ok || same(r.Scope, o.Vals[0], w)
			}
			c.require(ok, "joined-with-one-slash", fn.Pos(), &r.Scope, "the result is %s where %s is due", o.Vals[0], want[0])
		}
	}
}
