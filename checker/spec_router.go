package main

// Rules for the router: dispatch, pooled memory, method keys, registration.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	pathPkg   = modPath + "/router/path"
	fnParse   = pathPkg + ".ParseURLPath"
	fnMatch   = "(*" + pathPkg + ".Matcher).Match"
	fnAdd     = "(*" + pathPkg + ".Matcher).AddPattern"
	fnPattern = pathPkg + ".ParsePattern"
	fnNewM    = pathPkg + ".NewMatcher"
	invWrite  = "(" + modPath + "/response.HttpResponse).Write"
	invWH     = "(net/http.ResponseWriter).WriteHeader"
)

func init() {
	specs["C01"] = spec{run: checkDispatch, min: 15,
		explain: "every path of Router.ServeHTTP on a router with any registered routes, for an unknown request; rules on the order and number of the calls of the handler, the response's Write, the error logger and WriteHeader"}
	specs["C02"] = spec{run: checkPool, min: 10,
		explain: "every normal and panicking path of Router.ServeHTTP (every unknown call may panic); typestate rule: what is taken from a pool is put back exactly once, as the last use, unchanged; the pool's constructor makes fresh memory"}
	specs["C04"] = spec{run: checkMethodKey, min: 4,
		explain: "the keys with which Router.Handle and Router.ServeHTTP access the table of matchers are compared as terms over the method name"}
}

type routerCase struct {
	e          *Engine
	st         *State
	r          *Term // the router
	ci, logger *Term
	reg        []Outcome // a registration in any state
	method     *Term
	pattern    *Term
	handler    *Term
}

// router is a router after any registrations
func (c *Check) router(prep func(*Engine)) *routerCase {
	e := c.engine()
	e.opaque[fnParse] = true
	e.opaque[fnMatch] = true
	e.opaque[fnAdd] = true
	e.opaque[fnPattern] = true
	if prep != nil {
		prep(e)
	}
	rc := &routerCase{e: e, ci: mkSym("caseInsensitive", types.Typ[types.Bool])}
	ctor := c.p.fn("router", "NewRouter")
	rc.logger = mkSym("errLogFunc", ctor.Params[1].Type())
	st := newState(e)
	st.facts.assume(mkEq(rc.logger, mkNil()), false)
	o := c.single(e.callFn(st, ctor, []*Term{rc.ci, rc.logger}, nil, 0), "NewRouter")
	rc.r = o.Vals[0]
	handle := c.p.fn("router", "Router.Handle")
	rc.method, rc.pattern, rc.handler = mkSym("httpMethod", tString), mkSym("pathPattern", tString), mkSym("handler", c.handlerType())
	pc := e.panicCalls
	e.panicCalls = false
	rc.st, rc.reg = e.anyState(o.St, func(s *State) []Outcome {
		return e.callFn(s, handle, []*Term{rc.r, rc.method, rc.pattern, rc.handler}, nil, 0)
	})
	e.panicCalls = pc
	return rc
}

// request analyses ServeHTTP for an unknown request
func (c *Check) request(rc *routerCase) (w, req *Term, runs []run) {
	fn := c.p.fn("router", "Router.ServeHTTP")
	w = mkSym("w", fn.Params[1].Type())
	req = mkSym("req", fn.Params[2].Type())
	rc.st.facts.assume(mkEq(w, mkNil()), false)
	rc.st.facts.assume(mkEq(req, mkNil()), false)
	for _, o := range rc.e.anyCall(rc.st, func(s *State) []Outcome { return rc.e.callFn(s, fn, []*Term{rc.r, w, req}, nil, 0) }) {
		runs = append(runs, run{Scope: scopeOf(o.St), o: o, e: rc.e, st: o.St})
	}
	c.paths += len(runs)
	dumpRuns(c, runs)
	return
}

func isMatch(e *Event) bool { return e.Kind == "call" && e.Name == fnMatch }

// matchedHandler: the value called is the attachment of the matched pattern
func matchedHandler(callee *Term, m *Event) bool {
	found := false
	containsF(callee, func(x *Term) bool {
		if x.Op == OLoad && x.Args[0].Op == OFieldAddr && x.Args[0].Args[0] == m.Res && x.Args[0].S == "Attachment" {
			found = true
		}
		return false
	})
	return found
}

// attachmentDenied: the attachment of the matched route was found to be no handler
func attachmentDenied(s Scope, m *Event) bool {
	for _, it := range s.items {
		f, ok := it.(*FactItem)
		if !ok || !matchedHandler(f.T, m) {
			continue
		}
		if f.T.Op == OBin && f.T.S == "==" && f.Val && (f.T.Args[0].isNil() || f.T.Args[1].isNil()) || f.T.Op == OTAok && !f.Val {
			return true
		}
	}
	return false
}

func checkDispatch(c *Check) {
	c.checkEntry()
	rc := c.router(nil)
	w, req, runs := c.request(rc)
	c.needLive(runs, "ServeHTTP")
	served, refused, failed := 0, 0, 0
	for i := range runs {
		if runs[i].panics() {
			// the attachment is always a handler: see C05
			ev := runs[i].events(func(e *Event) bool { return e.Kind == "panic" })
			typeassert := len(ev) == 1 && ev[0].Name == "typeassert"
			c.require(typeassert, "no-panic", runs[i].pos(), &runs[i].Scope, "ServeHTTP panics by itself")
			continue
		}
		c.dispatchRun(rc, w, req, runs[i], &served, &refused, &failed)
	}
	c.require(served > 0, "serves", token.NoPos, nil, "no path on which a response is written was found")
	c.require(refused > 0, "refuses", token.NoPos, nil, "no path on which a request without route is refused was found")
	c.require(failed > 0, "fails", token.NoPos, nil, "no path on which a handler error is answered was found")
}

func (c *Check) dispatchRun(rc *routerCase, w, req *Term, r run, served, refused, failed *int) {
	pos := r.pos()
	logs := r.events(isDyn(rc.logger))
	nlogs := r.count(isDyn(rc.logger))
	status := c.statusWrites(r.Scope, w)
	matches := r.events(isMatch)
	if len(r.loopEvents(isMatch)) > 0 || len(matches) > 1 {
		c.require(false, "one-match", pos, &r.Scope, "the request is matched more than once")
		return
	}
	var hs []EvAt
	for _, ev := range r.events(func(e *Event) bool { return e.Kind == "dyn" }) {
		if stripConv(ev.Callee) == rc.logger {
			continue
		}
		if len(matches) == 1 && matchedHandler(ev.Callee, matches[0].Event) {
			hs = append(hs, ev)
			continue
		}
		c.require(false, "only-matched-handler", ev.Pos, &r.Scope, "something else than the handler of the matched route is called")
	}
	writes := r.events(isCall(invWrite))
	loop := len(r.loopEvents(func(e *Event) bool { return e.Kind == "dyn" && stripConv(e.Callee) != rc.logger || isCall(invWrite)(e) }))
	if loop > 0 || len(hs) > 1 {
		c.require(false, "handler-once", pos, &r.Scope, "the handler may run more than once")
		return
	}
	if len(hs) == 0 {
		*refused++
		// nothing matched
		absent := len(matches) == 1 && r.isNil(matches[0].Res)
		if len(matches) == 0 {
			absent = c.noMatcher(rc, r, req)
		} else if attachmentDenied(r.Scope, matches[0].Event) {
			// routes are registered with a handler: see C05
			absent = true
		}
		c.require(absent, "refused-only-without-route", pos, &r.Scope, "the request is answered without running a handler although a route may match")
		c.require(len(writes) == 0, "no-response-without-handler", pos, &r.Scope, "a response is written although no handler ran")
		c.require(len(status) == 1 && status[0] == 404, "status-404", pos, &r.Scope, "a request without route is not answered with status 404 exactly once (statuses %v)", status)
		c.require(nlogs == 0, "no-error-logged", pos, &r.Scope, "an error is logged for a request without route")
		return
	}
	h := hs[0]
	m := matches[0]
	before := r.upto(h.i)
	c.require(before.isNotNil(m.Res), "matched-before-handler", h.Pos, &r.Scope, "the handler is called although nothing matched")
	c.require(same(r.Scope, stripConv(m.Args[1]), mkLoad(mkFieldAddr(mkLoad(mkFieldAddr(req, fieldIdx(req, "URL")), 0), c.urlField("Path")), 0)), "matched-path", m.Pos, &r.Scope, "another path than the one of the request is matched")
	parses := r.upto(m.i).events(isCall(fnParse))
	okParse := len(parses) == 1 && same(r.Scope, parses[0].Args[0], mkLoad(mkFieldAddr(req, fieldIdx(req, "URL")), 0)) && parses[0].Args[1] == m.Args[2]
	c.require(okParse, "parsed-before-match", m.Pos, &r.Scope, "the path segments of this request were not parsed into the context that is matched")
	okCtx := same(r.Scope, h.Args[0], mkPure("(*net/http.Request).Context", c.ctxType(), req))
	c.require(okCtx, "request-context", h.Pos, &r.Scope, "the handler does not get the context of the request")
	c.require(c.sameMC(r, h.Args[1], m.Args[2], req, h.i), "same-request", h.Pos, &r.Scope, "the handler does not get the matched request")
	resp, err := mkExtract(h.Res, 0), mkExtract(h.Res, 1)
	for _, q := range r.by(mkEq(err, mkNil())) {
		if q.isNil(err) {
			*served++
			if !c.require(len(writes) == 1, "response-written-once", h.Pos, &q.Scope, "the response of the handler is written %d times", len(writes)) {
				continue
			}
			wr := writes[0]
			c.require(same(q.Scope, stripConv(wr.Args[0]), resp), "own-response", wr.Pos, &q.Scope, "something else than the handler's response is written")
			c.require(same(q.Scope, stripConv(wr.Args[1]), w), "own-writer", wr.Pos, &q.Scope, "the response is not written to the client of this request")
			c.require(c.sameMC(q, wr.Args[2], m.Args[2], req, wr.i), "own-context", wr.Pos, &q.Scope, "the response does not get the matched request")
			c.require(len(status) == 0, "no-other-status", wr.Pos, &q.Scope, "the router sends a status of its own beside the response")
			for _, s := range q.by(mkEq(wr.Res, mkNil())) {
				if s.isNil(wr.Res) {
					c.require(nlogs == 0, "no-error-logged", wr.Pos, &s.Scope, "an error is logged although the response was written")
				} else {
					ok := nlogs == 1 && logs[0].i > wr.i && containsErr(s.Scope, logs[0].Args[0], wr.Res)
					c.require(ok, "write-error-logged", wr.Pos, &s.Scope, "an error of writing the response is not handed to the error logger exactly once")
				}
			}
			continue
		}
		*failed++
		c.require(len(writes) == 0, "no-response-on-error", h.Pos, &q.Scope, "a response is written although the handler failed")
		ok := nlogs == 1 && logs[0].i > h.i && containsErr(q.Scope, logs[0].Args[0], err)
		c.require(ok, "error-logged", h.Pos, &q.Scope, "the error of the handler is not handed to the error logger exactly once")
		c.require(len(status) == 1 && status[0] == 500, "status-500", h.Pos, &q.Scope, "a handler error is not answered with status 500 exactly once (statuses %v)", status)
	}
}

// containsErr: the error is the given one, or made from it
func containsErr(s Scope, t, err *Term) bool {
	if contains(t, err) || contains(stripConv(t), err) {
		return true
	}
	for _, ev := range s.events(func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" }) {
		if ev.Res == nil || !contains(t, ev.Res) {
			continue
		}
		for _, a := range append(append([]*Term{}, ev.Args...), ev.Snap...) {
			if a != nil && a != t && containsErr(s.upto(ev.i), a, err) {
				return true
			}
		}
	}
	return false
}

// statusWrites lists the statuses sent by the router itself (-1 when unknown)
func (c *Check) statusWrites(s Scope, w *Term) (out []int64) {
	add := func(e *Event, code *Term) {
		if v, ok := s.exactInt(code); ok {
			out = append(out, v)
		} else {
			out = append(out, -1)
		}
	}
	s.every(func(in Scope, ev EvAt) {
		switch {
		case isCall(invWH)(ev.Event):
			add(ev.Event, ev.Args[1])
		case isCall("net/http.Error")(ev.Event):
			add(ev.Event, ev.Args[2])
		case isCall("net/http.NotFound")(ev.Event):
			out = append(out, 404)
		case isCall("(net/http.ResponseWriter).Write")(ev.Event):
			if len(out) == 0 {
				out = append(out, 200)
			}
		}
	})
	return
}

func fieldIdx(ptr *Term, name string) int {
	st := structOf(deref(ptr.T))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(undecided("no field " + name))
}

func (c *Check) urlField(name string) int {
	st := structOf(c.p.stdType("net/url", "URL"))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(undecided("no field " + name))
}

// noMatcher: the table of matchers was found to have none for the method
func (c *Check) noMatcher(rc *routerCase, r run, req *Term) bool {
	for _, it := range r.items {
		f, ok := it.(*FactItem)
		if !ok {
			continue
		}
		if f.Val && f.T.Op == OBin && f.T.S == "==" || !f.Val && f.T.Op == OLookupOk {
			hit := false
			containsF(f.T, func(x *Term) bool {
				if x.Op == OLookup || x.Op == OLookupOk {
					hit = hit || contains(x, req)
				}
				return false
			})
			if hit && (f.T.Op == OLookupOk || f.T.Args[0].isNil() || f.T.Args[1].isNil()) {
				return true
			}
		}
	}
	return false
}

// sameMC: the context passed by value is the one that was matched, with the request of this call
func (c *Check) sameMC(r run, v, addr, req *Term, at int) bool {
	st := structOf(v.T)
	if st == nil {
		return false
	}
	v = stripConv(v)
	if v.Op != OStruct {
		return false
	}
	for i, a := range v.Args {
		f := st.Field(i)
		if f.Name() == "R" {
			if !same(r.Scope, a, req) {
				return false
			}
			continue
		}
		if a.Op != OLoad || a.Args[0] != mkFieldAddr(addr, i) {
			return false
		}
	}
	return true
}

// ---- C02

func checkPool(c *Check) {
	rc := c.router(func(e *Engine) { e.panicCalls = true })
	_, _, runs := c.request(rc)
	get := isCall("(*sync.Pool).Get")
	put := isCall("(*sync.Pool).Put")
	pools := map[*Term]bool{}
	panics := 0
	for i := range runs {
		r := runs[i]
		pos := r.pos()
		gets := r.events(get)
		puts := r.events(put)
		if r.panics() {
			panics++
			// a panic of the pool itself or of the conversion of what it gave: nothing was taken
			if len(r.events(func(e *Event) bool { return e.Kind == "panic" && e.Name == "typeassert" })) > 0 && r.count(func(e *Event) bool { return e.Kind == "dyn" }) == 0 && len(r.events(isMatch)) == 0 {
				continue
			}
		}
		if !c.require(len(r.loopEvents(get)) == 0 && len(r.loopEvents(put)) == 0, "no-pool-in-loop", pos, &r.Scope, "pooled memory is taken or returned an unknown number of times") {
			continue
		}
		c.require(r.count(func(e *Event) bool { return e.Kind == "go" }) == 0, "no-goroutine", pos, &r.Scope, "the request is handed to another goroutine, which may outlive its scratch memory")
		for _, g := range gets {
			pools[stripConv(g.Args[0])] = true
			var mine []EvAt
			for _, p := range puts {
				if same(r.Scope, stripConv(p.Args[1]), g.Res) || stripIface(p.Args[1]) == stripIface(g.Res) {
					mine = append(mine, p)
				}
			}
			if !c.require(len(mine) == 1, "returned-exactly-once", g.Pos, &r.Scope, "the memory taken from the pool is given back %d times", len(mine)) {
				continue
			}
			p := mine[0]
			c.require(p.i > g.i && stripConv(p.Args[0]) == stripConv(g.Args[0]), "same-pool", p.Pos, &r.Scope, "the memory is not given back to the pool it came from")
			late := r.from(p.i + 1).count(func(e *Event) bool {
				return e.Kind == "dyn" || isCall(invWrite, fnMatch, fnParse)(e) || e.Kind == "invoke"
			})
			c.require(late == 0, "returned-last", p.Pos, &r.Scope, "something runs after the scratch memory was given back")
			stores := r.count(func(e *Event) bool {
				return (e.Kind == "store" || e.Kind == "copy") && stripIface(stripConv(e.Args[0])) == stripIface(g.Res)
			})
			c.require(stores == 0, "pooled-slice-unchanged", p.Pos, &r.Scope, "the pooled slice is replaced by another one")
		}
		c.require(len(puts) == len(gets), "puts-what-it-took", pos, &r.Scope, "%d takes but %d returns to pools", len(gets), len(puts))
	}
	c.require(panics > 0 || len(pools) == 0, "panics-explored", token.NoPos, nil, "no panicking path was explored")
	for _, pl := range sortTerms(pools) {
		c.poolConstructor(pl)
	}
}

func stripIface(t *Term) *Term {
	for t != nil && (t.Op == OConv || t.Op == OTA && len(t.Args) == 1 || t.Op == OIface) {
		t = t.Args[0]
	}
	return t
}

// poolConstructor: what a pool hands out is fresh memory, big enough for the supported number of segments
func (c *Check) poolConstructor(pool *Term) {
	if pool.Op != OGlobal {
		c.require(false, "pool-constructor", token.NoPos, nil, "the pool %s is not a package variable", pool)
		return
	}
	fns := c.poolNew(pool.G)
	if !c.require(len(fns) == 1, "pool-constructor", pool.G.Pos(), nil, "the constructor of the pool %s is not set exactly once", pool.G.Name()) {
		return
	}
	e := c.engine()
	st := newState(e)
	for _, o := range e.callFn(st, fns[0], nil, nil, 0) {
		if o.Panic != nil {
			continue
		}
		v := stripIface(o.Vals[0])
		c.require(isFresh(v), "pool-fresh", fns[0].Pos(), nil, "the constructor of the pool %s hands out shared memory", pool.G.Name())
		if !isFresh(v) {
			continue
		}
		if _, ok := deref(v.T).Underlying().(*types.Slice); ok {
			s := o.St.load(v)
			root := rootOf(s)
			n, ok := o.St.facts.exact(o.St.facts.norm(mkLen(s)))
			if k, isC := o.St.facts.norm(mkLen(s)).intVal(); isC {
				n, ok = k, true
			}
			c.require(isFresh(root), "pool-fresh", fns[0].Pos(), nil, "the constructor of the pool %s hands out shared memory", pool.G.Name())
			max := c.constInt("router/path", "MaxPathSegments")
			c.require(ok && n >= max, "pool-size", fns[0].Pos(), nil, "the scratch memory has not room for the supported %d path segments", max)
		}
	}
}

func (c *Check) constInt(rel, name string) int64 {
	k, ok := c.p.pkg(rel).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided("constant " + name + " not found"))
	}
	v, ok := mkConst(k.Val(), k.Type()).intVal()
	if !ok {
		panic(undecided("constant " + name + " is not an integer"))
	}
	return v
}

// poolNew finds the functions stored in the New field of a pool
func (c *Check) poolNew(g *ssa.Global) (out []*ssa.Function) {
	fnVal := func(v ssa.Value) *ssa.Function {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeClosure:
				f, _ := x.Fn.(*ssa.Function)
				return f
			case *ssa.Function:
				return x
			}
			return nil
		}
	}
	for f := range allFns(c.p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && fa.X == g {
					out = append(out, fnVal(s.Val))
				} else if s.Addr == g {
					// a composite literal built in a local variable
					if u, ok := s.Val.(*ssa.UnOp); ok {
						if a, ok := u.X.(*ssa.Alloc); ok {
							for _, r := range *a.Referrers() {
								if fa, ok := r.(*ssa.FieldAddr); ok {
									for _, rr := range *fa.Referrers() {
										if s2, ok := rr.(*ssa.Store); ok && s2.Addr == fa {
											out = append(out, fnVal(s2.Val))
										}
									}
								}
							}
						}
					} else {
						out = append(out, nil)
					}
				}
			}
		}
	}
	for _, f := range out {
		if f == nil {
			return nil
		}
	}
	return out
}

func allFns(p *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.repoFunctions() {
		out[f] = true
	}
	for _, sp := range p.pkgs {
		if p.repo[sp.Pkg] {
			if f := sp.Func("init"); f != nil {
				out[f] = true
			}
		}
	}
	return out
}

// ---- C04

// tableKeys lists the keys with which a path accesses maps of matchers
func tableKeys(s Scope, st *State, what func(kind string, m, k *Term, pos token.Pos)) {
	seen := map[*Term]bool{}
	look := func(t *Term, pos token.Pos) {
		containsF(t, func(x *Term) bool {
			if (x.Op == OLookup || x.Op == OLookupOk) && !seen[x] {
				seen[x] = true
				if isMatcherMap(x.Args[0].T) {
					what("lookup", x.Args[0], x.Args[1], pos)
				}
			}
			return false
		})
	}
	s.every(func(_ Scope, ev EvAt) {
		if ev.Kind == "mapupdate" && isMatcherMap(ev.Args[0].T) {
			what("update", ev.Args[0], ev.Args[1], ev.Pos)
		}
		for _, a := range ev.Args {
			look(a, ev.Pos)
		}
	})
	for _, it := range s.items {
		if f, ok := it.(*FactItem); ok {
			look(f.T, f.Pos)
		}
	}
}

func isMatcherMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeKey(deref(m.Elem())) == pathPkg+".Matcher"
}

func checkMethodKey(c *Check) {
	rc := c.router(nil)
	_, req, runs := c.request(rc)
	method := mkLoad(mkFieldAddr(req, fieldIdx(req, "Method")), 0)
	folds := func(k, m *Term) (string, bool) {
		if k.Op == OPure && (k.S == "strings.ToUpper" || k.S == "strings.ToLower") && len(k.Args) == 1 && k.Args[0] == m {
			return k.S, true
		}
		return k.String(), false
	}
	forms := map[string]bool{}
	var tables []*Term
	use := func(where string, m *Term) func(kind string, tab, k *Term, pos token.Pos) {
		return func(kind string, tab, k *Term, pos token.Pos) {
			f, ok := folds(stripConv(k), m)
			c.require(ok, "key-is-folded-method", pos, nil, "%s: the %s of the matcher table uses the key %s, which is not the method in one letter case", where, kind, k)
			forms[f] = true
			tables = append(tables, rootOf(tab))
			c.require(tab == tables[0] || rootOf(tab) == tables[0], "one-table", pos, nil, "%s: another table is used", where)
		}
	}
	regs := 0
	for _, o := range rc.reg {
		if o.Panic != nil {
			continue
		}
		s := scopeOf(o.St)
		tableKeys(s, o.St, use("Handle", rc.method))
		for _, ev := range s.events(isCall(fnAdd)) {
			regs++
			// the matcher that gets the pattern is the one in the table for the method
			m := stripConv(ev.Args[0])
			in := m.Op == OLookup && isMatcherMap(m.Args[0].T)
			for _, u := range s.events(func(e *Event) bool { return e.Kind == "mapupdate" && isMatcherMap(e.Args[0].T) }) {
				in = in || stripConv(u.Args[2]) == m
			}
			c.require(in, "pattern-added-to-its-method", ev.Pos, &s, "the pattern is added to a matcher that is not in the table under the method")
		}
	}
	c.require(regs > 0, "registers", token.NoPos, nil, "no registration was found")
	looked := 0
	for i := range runs {
		tableKeys(runs[i].Scope, runs[i].st, use("ServeHTTP", method))
		for _, ev := range runs[i].events(isMatch) {
			m := stripConv(ev.Args[0])
			looked++
			c.require(m.Op == OLookup && isMatcherMap(m.Args[0].T), "matched-by-its-method", ev.Pos, &runs[i].Scope, "the request is matched by something else than the matcher of its method")
		}
	}
	c.require(looked > 0, "looks-up", token.NoPos, nil, "no request is matched")
	c.require(len(forms) == 1, "same-key-function", token.NoPos, nil, "registration and dispatch use different key functions")
}

// checkEntry: the mux handler hands every request over to its router, once and unchanged
func (c *Check) checkEntry() {
	k := c.mux(0)
	name := "(*" + modPath + "/router.Router).ServeHTTP"
	k.e.opaque[name] = true
	fn := c.p.fn("", "MuxHandler.ServeHTTP")
	if len(fn.Params) != 3 {
		panic(undecided("MuxHandler.ServeHTTP has other parameters"))
	}
	w, req := mkSym("w", fn.Params[1].Type()), mkSym("req", fn.Params[2].Type())
	k.st.facts.assume(mkEq(w, mkNil()), false)
	k.st.facts.assume(mkEq(req, mkNil()), false)
	for _, o := range k.e.callFn(k.st, fn, []*Term{k.m, w, req}, nil, 0) {
		c.paths++
		r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
		evs := r.events(isCall(name))
		if !c.require(o.Panic == nil && len(evs) == 1 && r.count(isCall(name)) == 1, "entry-once", fn.Pos(), &r.Scope, "MuxHandler.ServeHTTP does not hand the request to the router exactly once") {
			continue
		}
		ok := same(r.Scope, evs[0].Args[0], k.field(r.st, k.m, k.fRouter)) && same(r.Scope, evs[0].Args[1], w) && same(r.Scope, evs[0].Args[2], req)
		others := r.count(func(e *Event) bool {
			if e.Name == name {
				return false
			}
			for _, a := range e.Args {
				if contains(a, w) {
					return true
				}
			}
			return false
		})
		c.require(ok && others == 0, "entry-unchanged", fn.Pos(), &r.Scope, "MuxHandler.ServeHTTP does not hand over exactly the request and the writer to its own router")
	}
}
