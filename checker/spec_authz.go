package main

func init() {
	specs["C12"] = spec{run: checkAuthz, min: 20,
		explain: "every path of Authorize (both modes), AuthorizeAll and AuthorizeAny applied to an unknown handler and request is enumerated by abstract interpretation; the loops over the permissions are summarised by fixpoints and the quantified rules 'every / some permission was asked for and granted' are decided on the summaries",
		assume:  []string{"a SecurityPrincipal's HasPermission answers without side effects on the middleware"}}
	specs["C16"] = spec{run: checkPrincipalSupplier, min: 5,
		explain: "every path of SecurityPrincipalSupplier applied to an unknown supplier, handler and request is enumerated; rules: the handler runs exactly once iff the supplier did not fail, with the unchanged request and a context that differs by exactly the supplied principal"}
}

func checkAuthz(c *Check) {
	mw := func(name string) {
		fn := c.p.fn("middleware", name)
		for _, all := range []bool{true, false} {
			e := c.engine()
			args := symParams(fn, "")
			var perms *Term
			var supplier *Term
			what := name
			switch name {
			case "Authorize":
				supplier = args[0]
				args[1] = mkBool(all)
				what += map[bool]string{true: " (all)", false: " (any)"}[all]
			case "AuthorizeAll":
				if !all {
					continue
				}
				perms = args[0]
			case "AuthorizeAny":
				if all {
					continue
				}
				perms = args[0]
			}
			m := c.middleware(e, fn, args, nil)
			c.needLive(m.runs, what)
			for i := range m.runs {
				for _, r := range m.runs[i].byErr() {
					c.authzRun(m, r, supplier, perms, all, what)
				}
			}
		}
	}
	mw("Authorize")
	mw("AuthorizeAll")
	mw("AuthorizeAny")
}

func (c *Check) authzRun(m *mwCase, r run, supplier, perms *Term, all bool, what string) {
	pos := r.pos()
	if r.panics() {
		c.require(false, "no-panic", pos, &r.Scope, "%s panics", what)
		return
	}
	unauth := globalErr(c.p, "errors", "ErrUnauthorizedRequest")
	var failed *Term
	ran := !m.none(r.Scope)
	if supplier != nil {
		ss := r.events(isDyn(supplier))
		if len(ss) != 1 || !same(r.Scope, ss[0].Args[0], m.ctx) || !same(r.Scope, ss[0].Args[1], m.mc) {
			c.require(false, "permissions-obtained", pos, &r.Scope, "%s: the permissions are not obtained exactly once for the request", what)
			return
		}
		perms = mkExtract(ss[0].Res, 0)
		failed = mkExtract(ss[0].Res, 1)
	}
	key := c.constKey("auth", "SecurityPrincipalCtxKey")
	pv := contextValue(r.st, m.ctx, key)
	has := func(e *Event, want bool, it Scope, el Elem) bool {
		if !isCall("("+authPkg+".SecurityPrincipal).HasPermission")(e) || !el.is(stripConv(e.Args[1])) || e.Args[0] != pv && stripConv(e.Args[0]) != pv {
			return false
		}
		v, ok := it.facts.decide(e.Res)
		return ok && v == want
	}
	elemIs := func(want bool) func(it Scope, el Elem) bool {
		return func(it Scope, el Elem) bool {
			for _, ev := range it.events(func(*Event) bool { return true }) {
				if has(ev.Event, want, it, el) {
					return true
				}
			}
			return false
		}
	}
	haveErr := failed != nil && !r.isNil(failed)
	if ran {
		h, once := m.once(r.Scope)
		c.require(once, "handler-once", pos, &r.Scope, "%s: the handler may run more than once", what)
		if !once {
			return
		}
		before := r.upto(h.i)
		if failed != nil {
			c.require(before.isNil(failed), "supplier-ok-before-handler", h.Pos, &r.Scope, "%s: the handler runs although the permissions could not be obtained", what)
		}
		tok := mkTAok(c.p.typ("auth", "SecurityPrincipal"), pv)
		present := before.facts.always(tok) || before.isNotNil(pv)
		c.require(present, "principal-before-handler", h.Pos, &r.Scope, "%s: the handler runs without a security principal in the context", what)
		if all {
			c.require(before.forAll(perms, elemIs(true)), "all-permissions-before-handler", h.Pos, &r.Scope, "%s: the handler runs although not every permission was found granted to the principal", what)
		} else {
			c.require(before.exists(perms, elemIs(true)), "one-permission-before-handler", h.Pos, &r.Scope, "%s: the handler runs although no permission was found granted to the principal", what)
		}
		c.require(same(before, h.Args[0], m.ctx) && same(before, h.Args[1], m.mc), "same-request", h.Pos, &r.Scope, "%s: the handler gets another request or context", what)
		c.require(r.returns(h.Event), "result-handed-on", h.Pos, &r.Scope, "%s: the result of the handler is not what is returned", what)
		return
	}
	c.require(r.isNotNil(r.err), "refused-with-error", pos, &r.Scope, "%s: returns no error although the handler did not run", what)
	if haveErr {
		c.require(same(r.Scope, r.err, failed), "supplier-error-returned", pos, &r.Scope, "%s: the error of the permission supplier is not what is returned", what)
		return
	}
	c.require(same(r.Scope, r.err, unauth), "unauthorized-error", pos, &r.Scope, "%s: returns something else than the unauthorized error", what)
	// refused: only if the condition really fails
	tok := mkTAok(c.p.typ("auth", "SecurityPrincipal"), pv)
	if r.facts.never(tok) || r.isNil(pv) || r.isNil(mkTA(c.p.typ("auth", "SecurityPrincipal"), pv)) {
		c.require(true, "refused-no-principal", pos, &r.Scope, "%s: refused without principal", what)
		return
	}
	if all {
		c.require(r.exists(perms, elemIs(false)), "refused-only-if-missing", pos, &r.Scope, "%s: refuses although no requested permission was found missing", what)
	} else {
		c.require(r.forAll(perms, elemIs(false)), "refused-only-if-none", pos, &r.Scope, "%s: refuses although not every requested permission was found missing", what)
	}
}

func checkPrincipalSupplier(c *Check) {
	fn := c.p.fn("middleware", "SecurityPrincipalSupplier")
	e := c.engine()
	args := symParams(fn, "")
	supplier := args[0]
	m := c.middleware(e, fn, args, nil)
	c.needLive(m.runs, "SecurityPrincipalSupplier")
	key := c.constKey("auth", "SecurityPrincipalCtxKey")
	for i := range m.runs {
		r := m.runs[i]
		pos := r.pos()
		if r.panics() {
			c.require(false, "no-panic", pos, &r.Scope, "the middleware panics")
			continue
		}
		ss := r.events(isDyn(supplier))
		if !c.require(len(ss) == 1 && r.count(isDyn(supplier)) == 1 && same(r.Scope, ss[0].Args[0], m.ctx) && same(r.Scope, ss[0].Args[1], m.mc), "supplier-asked-once", pos, &r.Scope, "the supplier is not asked exactly once for the request") {
			continue
		}
		sp, serr := mkExtract(ss[0].Res, 0), mkExtract(ss[0].Res, 1)
		if m.none(r.Scope) {
			c.require(r.isNotNil(serr), "runs-when-supplied", pos, &r.Scope, "the handler does not run although the supplier did not fail")
			c.require(same(r.Scope, r.err, serr), "supplier-error-returned", pos, &r.Scope, "the error of the supplier is not what is returned")
			continue
		}
		h, once := m.once(r.Scope)
		if !c.require(once, "handler-once", pos, &r.Scope, "the handler may run more than once") {
			continue
		}
		before := r.upto(h.i)
		c.require(before.isNil(serr), "supplier-ok-before-handler", h.Pos, &r.Scope, "the handler runs although the supplier failed")
		c.require(same(before, h.Args[1], m.mc), "same-request", h.Pos, &r.Scope, "the handler gets another request")
		c.require(r.returns(h.Event), "result-handed-on", h.Pos, &r.Scope, "the result of the handler is not what is returned")
		ctx := h.Args[0]
		if same(before, ctx, m.ctx) {
			c.require(before.isNil(sp), "principal-in-context", h.Pos, &r.Scope, "a principal was supplied but the handler's context does not hold it")
			continue
		}
		c.require(before.isNotNil(sp), "unchanged-without-principal", h.Pos, &r.Scope, "the context is changed although no principal was supplied")
		ok := c.ctxExtends(r.st, ctx, m.ctx, map[*Term]*Term{key: sp})
		c.require(ok, "exactly-the-supplied-principal", h.Pos, &r.Scope, "the handler's context is not the request's context with exactly the supplied principal: %s", ctx)
	}
}
