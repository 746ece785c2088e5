package main

// Rules for the mux handler: registration, middlewares, prefixes, clones.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	specs["C08"] = spec{run: checkRegistrations, min: 60,
		explain: "every path of each registration method, for an unknown prefix and path and for lists of 0 to 3 (and once 9) own and common middlewares, any of which may be nil; the handler given to the router is taken apart along the calls that made it and compared with the required nesting",
		assume:  []string{"a middleware is an unknown function of the handler it wraps"}}
	specs["C09"] = spec{run: checkClones, min: 20,
		explain: "every path of Clone, RouteUsingPathPrefix and CommonMiddlewares for lists of 0 to 3 middlewares kept in storage with spare capacity; ownership rule: the list of a new handler is in storage made by the call (or cut off at its length), and adding never stores into another handler's list"}
}

const fnHandle = "(*" + modPath + "/router.Router).Handle"

// muxCase is a mux handler with a list of known length
type muxCase struct {
	e                                *Engine
	st                               *State
	m                                *Term // *MuxHandler
	common                           []*Term
	list                             *Term // the value of the list field
	store                            *Term // its storage
	stage                            int
	fList, fRouter, fPrefix, fConfig int
}

func (c *Check) muxType() types.Type { return c.p.typ("", "MuxHandler") }

// the field of the handler with the given type
func fieldByType(t types.Type, is func(types.Type) bool, what string) int {
	s := structOf(t)
	found := -1
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if found >= 0 {
				panic(undecided("more than one field of MuxHandler holds " + what))
			}
			found = i
		}
	}
	if found < 0 {
		panic(undecided("no field of MuxHandler holds " + what))
	}
	return found
}

func (c *Check) middlewareType() types.Type { return c.p.typ("middleware", "Middleware") }

// listOf is a slice of the given values in storage of its own, with room for more
func listOf(e *Engine, st *State, elemT types.Type, vals []*Term, spare int) (list, store *Term) {
	arr := mkAlloc(e.nextID(), types.NewArray(elemT, int64(len(vals)+spare)), "storage")
	for i, v := range vals {
		st.store(mkIdxAddr(arr, mkInt(int64(i))), v, nil)
	}
	return mkSlice(arr, mkInt(0), mkInt(int64(len(vals))), nil, types.NewSlice(elemT)), arr
}

func (c *Check) mux(n int) *muxCase {
	e := c.engine()
	e.deepRec(24)
	e.opaque[fnHandle] = true
	mt := c.muxType()
	k := &muxCase{e: e, st: newState(e), m: mkSym("m", types.NewPointer(mt))}
	mw := c.middlewareType()
	k.fList = fieldByType(mt, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), mw)
	}, "the middlewares")
	k.fRouter = fieldByType(mt, func(t types.Type) bool {
		return types.Identical(t, types.NewPointer(c.p.typ("router", "Router")))
	}, "the router")
	k.fConfig = fieldByType(mt, func(t types.Type) bool { return types.Identical(t, types.NewPointer(c.p.typ("", "Config"))) }, "the configuration")
	k.fPrefix = c.fieldByName(mt, "pathPrefix")
	k.st.facts.assume(mkEq(k.m, mkNil()), false)
	for i := 0; i < n; i++ {
		k.common = append(k.common, mkSym(fmt.Sprintf("common%d", i), mw))
	}
	if n > 0 {
		k.list, k.store = listOf(e, k.st, mw, k.common, 4)
	} else {
		k.list = mkNil()
	}
	k.st.store(mkFieldAddr(k.m, k.fList), k.list, nil)
	e.stageID = idCtr
	k.stage = idCtr
	return k
}

func (k *muxCase) field(st *State, m *Term, i int) *Term { return st.load(mkFieldAddr(m, i)) }

// peel takes one application of a middleware off a handler
func peel(s Scope, h, mid *Term) (*Term, bool) {
	h = stripConv(s.facts.normNB(stripConv(h)))
	for _, ev := range s.events(func(e *Event) bool { return e.Kind == "dyn" }) {
		if ev.Res == h && stripConv(ev.Callee) == mid && len(ev.Args) == 1 {
			return ev.Args[0], true
		}
	}
	return nil, false
}

func checkRegistrations(c *Check) {
	mw := c.middlewareType()
	type shape struct{ common, own int }
	var shapes []shape
	for a := 0; a <= 3; a++ {
		for b := 0; b <= 3; b++ {
			if a+b <= 4 {
				shapes = append(shapes, shape{a, b})
			}
		}
	}
	shapes = append(shapes, shape{9, 9})
	for _, name := range []string{"HandleGet", "HandlePost", "HandlePut", "HandlePatch", "HandleDelete", "HandleRequest"} {
		fn := c.p.fn("", "MuxHandler."+name)
		for _, sh := range shapes {
			k := c.mux(sh.common)
			st := k.st
			var own []*Term
			for i := 0; i < sh.own; i++ {
				own = append(own, mkSym(fmt.Sprintf("own%d", i), mw))
			}
			ownList := mkNil()
			if len(own) > 0 {
				ownList, _ = listOf(k.e, st, mw, own, 0)
			}
			if sh.common+sh.own > 4 {
				for _, x := range append(append([]*Term{}, own...), k.common...) {
					st.facts.assume(mkEq(x, mkNil()), false)
				}
			}
			path, h := mkSym("path", tString), mkSym("handler", c.handlerType())
			method := mkStr(strings.ToUpper(strings.TrimPrefix(name, "Handle")))
			args := []*Term{k.m}
			if name == "HandleRequest" {
				method = mkSym("httpMethod", tString)
				args = append(args, method)
			}
			args = append(args, path, h, ownList)
			if len(fn.Params) != len(args) {
				panic(undecided(name + " has other parameters"))
			}
			k.e.stageID = idCtr
			n := 0
			for _, o := range k.e.callFn(st, fn, args, nil, 0) {
				c.paths++
				if o.Panic != nil {
					sc := scopeOf(o.St)
					c.require(false, "no-panic", fn.Pos(), &sc, "%s panics by itself", name)
					continue
				}
				n++
				r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
				evs := r.events(isCall(fnHandle))
				if !c.require(len(evs) == 1 && r.count(isCall(fnHandle)) == 1, "one-route", fn.Pos(), &r.Scope, "%s registers %d routes", name, len(evs)) {
					continue
				}
				c.registered(k, r, evs[0], name, method, path, h, own)
				c.require(same(r.Scope, k.field(o.St, k.m, k.fList), k.list), "list-unchanged", fn.Pos(), &r.Scope, "%s changes the common middlewares", name)
			}
			c.require(n > 0, "returns", fn.Pos(), nil, "%s: no way to return was found", name)
		}
	}
	// the debug endpoints
	for _, nc := range []int{0, 2} {
		k := c.mux(nc)
		pt := types.NewPointer(c.muxType())
		for _, o := range k.e.callMethod(k.st, pt, "EnableDebugEndpoints", k.m) {
			c.paths++
			pos := c.p.fn("", "MuxHandler.EnableDebugEndpoints").Pos()
			if o.Panic != nil {
				sc := scopeOf(o.St)
				c.require(false, "no-panic", pos, &sc, "EnableDebugEndpoints panics")
				continue
			}
			r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
			evs := r.events(isCall(fnHandle))
			c.require(len(evs) > 0 && len(r.loopEvents(isCall(fnHandle))) == 0, "debug-endpoints", pos, &r.Scope, "no debug endpoint is registered")
			for _, ev := range evs {
				c.registered(k, r, ev, "EnableDebugEndpoints", mkStr("GET"), nil, nil, nil)
			}
		}
	}
	// the two OAuth endpoints
	for _, nc := range []int{0, 2} {
		name := "HandleOAUTH2WithCustomPaths"
		fn := c.p.fn("", "MuxHandler."+name)
		k := c.mux(nc)
		lists := [2][]*Term{}
		args := []*Term{k.m, mkSym("initiatePath", tString), mkSym("authorizeBasePath", tString), mkSym("oauthConfig", c.p.typ("auth/oauth", "Config")), mkSym("handler", c.handlerType())}
		for i, n := range []string{"initiate", "authorize"} {
			for j := 0; j < 2-i%2; j++ {
				x := mkSym(fmt.Sprintf("%s%d", n, j), mw)
				lists[i] = append(lists[i], x)
				if nc > 0 {
					k.st.facts.assume(mkEq(x, mkNil()), false)
				}
			}
			l, _ := listOf(k.e, k.st, mw, lists[i], 0)
			args = append(args, l)
		}
		for _, x := range k.common {
			k.st.facts.assume(mkEq(x, mkNil()), false)
		}
		k.st.facts.assume(mkEq(args[1], mkStr("")), false)
		k.st.facts.assume(mkEq(args[2], mkStr("")), false)
		if len(fn.Params) != len(args) {
			panic(undecided(name + " has other parameters"))
		}
		k.e.stageID = idCtr
		n := 0
		for _, o := range k.e.callFn(k.st, fn, args, nil, 0) {
			c.paths++
			r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
			if !c.require(o.Panic == nil, "no-panic", fn.Pos(), &r.Scope, "%s panics by itself", name) {
				continue
			}
			n++
			evs := r.events(isCall(fnHandle))
			if !c.require(len(evs) == 2 && r.count(isCall(fnHandle)) == 2, "two-routes", fn.Pos(), &r.Scope, "%s registers %d routes", name, len(evs)) {
				continue
			}
			found := 0
			for _, ev := range evs {
				if c.isResolved(k, r, ev.Args[2], args[1]) {
					found |= 1
					c.registered(k, r, ev, name+" (initiate)", mkStr("GET"), args[1], nil, lists[0])
				} else {
					found |= 2
					c.registered(k, r, ev, name+" (authorize)", mkStr("GET"), nil, nil, lists[1])
				}
			}
			c.require(found == 3, "both-endpoints", fn.Pos(), &r.Scope, "%s does not register the initiate path and the callback path", name)
		}
		c.require(n > 0, "returns", fn.Pos(), nil, "%s: no way to return was found", name)
	}
}

// registered checks one route: method, path, nesting of the middlewares. A nil path or handler stands for any.
func (c *Check) registered(k *muxCase, r run, ev EvAt, name string, method, path, h *Term, own []*Term) {
	pos := ev.Pos
	c.require(same(r.Scope, ev.Args[0], k.field(r.st, k.m, k.fRouter)), "own-router", pos, &r.Scope, "%s: the route goes to another router", name)
	c.require(same(r.Scope, ev.Args[1], method), "own-method", pos, &r.Scope, "%s registers method %s instead of %s", name, ev.Args[1], method)
	if path != nil {
		c.require(c.isResolved(k, r, ev.Args[2], path), "resolved-path", pos, &r.Scope, "%s registers path %s, not the path resolved against the prefix", name, ev.Args[2])
	} else {
		// a constant below the prefix
		prefix := k.field(r.st, k.m, k.fPrefix)
		c.require(same(r.Scope, prefix, mkStr("")) || contains(ev.Args[2], prefix), "resolved-path", pos, &r.Scope, "%s registers path %s, not one below the prefix", name, ev.Args[2])
	}
	// the nesting, from the outside in
	rs := []run{r}
	for _, mid := range append(append([]*Term{}, k.common...), own...) {
		var nx []run
		for _, q := range rs {
			nx = append(nx, q.by(mkEq(mid, mkNil()))...)
		}
		rs = nx
	}
	for _, q := range rs {
		cur := ev.Args[3]
		ok := true
		what := ""
		calls := 0
		for _, mid := range append(append([]*Term{}, k.common...), own...) {
			if q.isNil(mid) {
				continue
			}
			nxt, hit := peel(q.Scope, cur, mid)
			if !hit {
				ok = false
				what = mid.String()
				break
			}
			cur = nxt
			calls++
		}
		if !c.require(ok, "wrapped-in-order", pos, &q.Scope, "%s: the handler is not wrapped by middleware %s at its place (outermost first: common, then own, in order)", name, what) {
			continue
		}
		if h != nil {
			c.require(same(q.Scope, stripConv(cur), h), "innermost-handler", pos, &q.Scope, "%s: the innermost handler is not the registered one", name)
			isMid := func(e *Event) bool {
				if e.Kind != "dyn" {
					return false
				}
				for _, mid := range append(append([]*Term{}, k.common...), own...) {
					if stripConv(e.Callee) == mid {
						return true
					}
				}
				return false
			}
			c.require(q.count(isMid) == calls, "applied-once", pos, &q.Scope, "%s: a middleware is applied more than once", name)
		} else {
			_, again := cur, false
			for _, mid := range append(append([]*Term{}, k.common...), own...) {
				if _, hit := peel(q.Scope, cur, mid); hit {
					again = true
				}
			}
			c.require(!again, "applied-once", pos, &q.Scope, "%s: a middleware is applied more than once", name)
		}
	}
}

// isResolved: the value is what resolvePath gives for the path on this handler
func (c *Check) isResolved(k *muxCase, r run, got, path *Term) bool {
	fn := c.p.fn("", "MuxHandler.resolvePath")
	outs := k.e.callFn(r.st.fork(), fn, []*Term{k.m, path}, nil, 0)
	for _, o := range outs {
		if o.Panic != nil {
			return false
		}
		s := scopeOf(o.St)
		if !same(s, o.Vals[0], got) {
			return false
		}
	}
	return len(outs) > 0
}

// owned: the slice is in storage made after the stage, or adding to it always makes new storage
func owned(v *Term, stage int) bool {
	v = stripConv(v)
	switch v.Op {
	case OConst, OZero, OList:
		return true
	case OAppend:
		if x, ok := v.ext.(appendInfo); ok {
			return owned(x.base, stage)
		}
		return false
	case OSlice:
		if v.Args[3] != nil {
			hi := v.Args[2]
			if hi == nil {
				hi = mkLen(v.Args[0])
			}
			if hi == v.Args[3] {
				return true
			}
		}
		return owned(v.Args[0], stage)
	case OAlloc, OMakeSlice:
		return v.N > stage
	}
	return false
}

func (c *Check) sameElems(st *State, v *Term, want []*Term) bool {
	els, ok := st.elems(stripConv(v))
	if !ok || len(els) != len(want) {
		return false
	}
	for i := range els {
		if !same(scopeOf(st), stripConv(els[i]), want[i]) {
			return false
		}
	}
	return true
}

func checkClones(c *Check) {
	mw := c.middlewareType()
	for n := 0; n <= 3; n++ {
		for _, name := range []string{"Clone", "RouteUsingPathPrefix"} {
			fn := c.p.fn("", "MuxHandler."+name)
			k := c.mux(n)
			args := []*Term{k.m}
			var prefix *Term
			if name == "RouteUsingPathPrefix" {
				prefix = mkSym("pathPrefix", tString)
				args = append(args, prefix)
				k.st.facts.assume(mkEq(prefix, mkStr("")), false)
			}
			live := 0
			k.e.allStores = true
			for _, o := range k.e.callFn(k.st, fn, args, nil, 0) {
				c.paths++
				r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
				if !c.require(o.Panic == nil, "no-panic", fn.Pos(), &r.Scope, "%s panics", name) {
					continue
				}
				live++
				nm := stripConv(o.Vals[0])
				if !c.require(nm.Op == OAlloc && nm.N > k.stage, "new-object", fn.Pos(), &r.Scope, "%s does not return a new handler", name) {
					continue
				}
				l := k.field(o.St, nm, k.fList)
				c.require(c.sameElems(o.St, l, k.common), "same-middlewares", fn.Pos(), &r.Scope, "%s: the new handler does not start with the middlewares of its parent (%s)", name, l)
				c.require(owned(l, k.stage), "own-storage", fn.Pos(), &r.Scope, "%s: the list of the new handler shares storage with its parent (%s)", name, l)
				c.require(same(r.Scope, k.field(o.St, nm, k.fRouter), k.field(o.St, k.m, k.fRouter)), "same-routes", fn.Pos(), &r.Scope, "%s: the new handler has another router", name)
				c.require(same(r.Scope, k.field(o.St, nm, k.fConfig), k.field(o.St, k.m, k.fConfig)), "same-configuration", fn.Pos(), &r.Scope, "%s: the new handler has another configuration", name)
				p := k.field(o.St, nm, k.fPrefix)
				if prefix == nil {
					c.require(same(r.Scope, p, k.field(o.St, k.m, k.fPrefix)), "same-prefix", fn.Pos(), &r.Scope, "%s: the new handler has another prefix", name)
				} else {
					c.require(c.isResolved(k, r, p, prefix), "resolved-prefix", fn.Pos(), &r.Scope, "%s: the prefix is %s, not the given one resolved against that of the parent", name, p)
				}
				c.parentUnchanged(k, r, name, fn.Pos())
				c.require(same(r.Scope, k.field(o.St, k.m, k.fList), k.list), "parent-unchanged", fn.Pos(), &r.Scope, "%s changes the list of the parent", name)
			}
			c.require(live > 0, "returns", fn.Pos(), nil, "%s: no way to return was found", name)
		}
		for extra := 0; extra <= 3; extra++ {
			fn := c.p.fn("", "MuxHandler.CommonMiddlewares")
			k := c.mux(n)
			var add []*Term
			for i := 0; i < extra; i++ {
				add = append(add, mkSym(fmt.Sprintf("new%d", i), mw))
			}
			arg := mkNil()
			var store *Term
			if extra > 0 {
				arg, store = listOf(k.e, k.st, mw, add, 2)
			}
			_ = store
			k.stage = idCtr
			k.e.stageID = idCtr
			k.e.allStores = true
			live := 0
			for _, o := range k.e.callFn(k.st, fn, []*Term{k.m, arg}, nil, 0) {
				c.paths++
				r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
				if !c.require(o.Panic == nil, "no-panic", fn.Pos(), &r.Scope, "CommonMiddlewares panics") {
					continue
				}
				live++
				l := k.field(o.St, k.m, k.fList)
				// a nil middleware may be left out: it is skipped anyway
				want := append(append([]*Term{}, k.common...), add...)
				var nonNil []*Term
				for _, x := range want {
					if !r.isNil(x) {
						nonNil = append(nonNil, x)
					}
				}
				c.require(c.sameElems(o.St, l, want) || c.sameElems(o.St, l, nonNil), "added-at-the-end", fn.Pos(), &r.Scope, "CommonMiddlewares: the list is not the old one followed by the new middlewares (%s)", l)
				ok := owned(l, k.stage) || k.store != nil && rootedIn(l, k.store) || same(r.Scope, l, k.list)
				c.require(ok, "own-storage", fn.Pos(), &r.Scope, "CommonMiddlewares: the list is kept in storage of the caller (%s)", l)
				c.parentUnchanged(k, r, "CommonMiddlewares", fn.Pos())
			}
			c.require(live > 0, "returns", fn.Pos(), nil, "CommonMiddlewares: no way to return was found")
		}
	}
}

// rootedIn: the slice is the storage or made from it by appending
func rootedIn(v, store *Term) bool {
	v = stripConv(v)
	switch v.Op {
	case OAppend:
		x, ok := v.ext.(appendInfo)
		return ok && rootedIn(x.base, store)
	case OSlice:
		return rootedIn(v.Args[0], store)
	}
	return v == store
}

// parentUnchanged: nothing is stored into the existing elements of the list
func (c *Check) parentUnchanged(k *muxCase, r run, name string, pos token.Pos) {
	bad := false
	r.every(func(in Scope, ev EvAt) {
		switch ev.Kind {
		case "store", "copy":
			root := rootOf(ev.Args[0])
			if k.store != nil && (root == k.store || rootedIn(root, k.store)) {
				bad = true
			}
		}
	})
	c.require(!bad, "not-in-place", pos, &r.Scope, "%s stores into the existing storage of the list", name)
}
