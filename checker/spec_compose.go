package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C49"] = spec{run: checkMiddlewares, min: 60,
		explain: "every exported function of the middleware package that makes a middleware (read from the source on each run) is applied to an unknown handler and called with an unknown request; on every way back the calls of the handler, their arguments and what becomes of their results are compared with the rule: the handler runs at most once, on the caller's goroutine, for the request itself and with the request's context or one derived from it; where it did not run there is an error; where it failed, its error or an answer made from it comes back; where it succeeded, its response, a response built around it or an error comes back",
		assume:  []string{"configuration and functions handed in by the application are not nil", "the handler itself is free to do anything and to return any pair of response and error"}}
}

// middlewareCtors are the exported functions that make a middleware
func (c *Check) middlewareCtors() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.repoFunctions() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/middleware" || f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		if res := f.Signature.Results(); res.Len() == 1 && types.Identical(res.At(0).Type(), c.middlewareType()) {
			out = append(out, f)
		}
	}
	return out
}

func checkMiddlewares(c *Check) {
	ctors := c.middlewareCtors()
	c.require(len(ctors) > 0, "middlewares-found", token.NoPos, nil, "no exported function of package middleware makes a middleware")
	for _, f := range ctors {
		e := c.engine()
		// what the headers are compared with and set to is left open
		e.pureOpaque["("+respPkg+".HttpResponse).Headers"] = true
		for _, n := range []string{"isValidOrigin", "isSameOrigin", "getMediaType"} {
			e.pureOpaque[mwPkg+"."+n] = true
		}
		e.opaque[mwPkg+".addVaryHeader"] = true
		args := symParams(f, "")
		m := c.middleware(e, f, args, func(s *State) {
			for _, a := range args {
				s.facts.assume(mkEq(a, mkNil()), false)
			}
		})
		c.needLive(m.runs, f.Name())
		called := 0
		for _, r0 := range m.runs {
			if r0.panics() {
				continue
			}
			for _, r1 := range r0.byErr() {
				hs := m.handlerCalls(r1.Scope)
				if len(hs) == 0 {
					c.composeRun(m, r1, f.Name())
					continue
				}
				called++
				for _, r := range r1.by(mkEq(mkExtract(hs[0].Res, 1), mkNil())) {
					c.composeRun(m, r, f.Name())
				}
			}
		}
		c.require(called > 0, "handler-reached", f.Pos(), nil, "%s never calls the handler it wraps", f.Name())
	}
}

func (c *Check) composeRun(m *mwCase, r run, what string) {
	pos := r.pos()
	c.require(r.count(func(e *Event) bool {
		if e.Kind != "go" {
			return false
		}
		for _, a := range append(append([]*Term{e.Callee}, e.Args...), e.Snap...) {
			if a != nil && contains(a, m.handler) {
				return true
			}
		}
		return false
	}) == 0, "own-goroutine", pos, &r.Scope, "%s: the handler runs on another goroutine", what)
	errNil, known := r.errNil()
	if !c.require(known, "error-known", pos, &r.Scope, "%s: it is not decided whether an error is returned", what) {
		return
	}
	if m.none(r.Scope) {
		c.require(!errNil, "not-run-is-error", pos, &r.Scope, "%s: the handler does not run and yet no error is returned", what)
		return
	}
	h, once := m.once(r.Scope)
	if !c.require(once, "at-most-once", pos, &r.Scope, "%s: the handler may run more than once for a request", what) {
		return
	}
	c.require(same(r.Scope, h.Args[1], m.mc), "same-request", pos, &r.Scope, "%s: the handler gets another request (%s)", what, h.Args[1])
	c.require(derivedCtx(r.upto(h.i), h.Args[0], m.ctx, 0), "same-context", pos, &r.Scope, "%s: the handler gets a context that is not made from that of the request (%s)", what, h.Args[0])
	hresp, herr := mkExtract(h.Res, 0), mkExtract(h.Res, 1)
	if r.returns(h.Event) {
		return
	}
	carries := func(v, x *Term) bool {
		return containsF(r.st.snap(v, 0), func(t *Term) bool {
			return t == x || t.Op == OPure && t.S == "(error).Error" && same(r.Scope, t.Args[0], x)
		})
	}
	// a value made from another: it holds it, or is what a call returned that was given it
	var madeFrom func(v, x *Term, d int) bool
	madeFrom = func(v, x *Term, d int) bool {
		if same(r.Scope, v, x) || carries(v, x) {
			return true
		}
		if d > 4 {
			return false
		}
		for _, ev := range r.events(func(e *Event) bool { return e.Res != nil }) {
			if ev.i < h.i || !containsF(r.st.snap(v, 0), func(t *Term) bool { return t == ev.Res }) {
				continue
			}
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Snap...) {
				if a != nil && madeFrom(a, x, d+1) {
					return true
				}
			}
		}
		return false
	}
	if r.isNil(herr) {
		if !errNil {
			return
		}
		c.require(!r.isNil(r.resp) && madeFrom(r.resp, hresp, 0), "success-kept", pos, &r.Scope, "%s: the response of a handler that succeeded does not come back (%s)", what, r.resp)
		return
	}
	if !c.require(r.isNotNil(herr), "error-told-apart", pos, &r.Scope, "%s: success and failure of the handler are not told apart", what) {
		return
	}
	if !errNil {
		c.require(madeFrom(r.err, herr, 0), "error-kept", pos, &r.Scope, "%s: another error than the handler's comes back (%s)", what, r.err)
		return
	}
	c.require(!r.isNil(r.resp) && madeFrom(r.resp, herr, 0), "failure-kept", pos, &r.Scope, "%s: the failure of the handler is lost", what)
}
