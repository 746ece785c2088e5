package main

import (
	"go/types"
	"net/http"
)

func init() {
	specs["C21"] = spec{run: checkCSRFConsume, min: 15,
		explain: "every path of both CSRF middlewares is enumerated; for unsafe methods the token taken from the request must have been found in the cache and removed from it before the handler event, and every refusal must be justified by a decided fact",
		assume:  []string{"the request is not changed by other code while it is handled"}}
	specs["C22"] = spec{run: checkCSRFIssue, min: 10,
		explain: "every path of both CSRF middlewares is enumerated; before the handler event a token whose text is derived, byte by byte, from at least 16 bytes of crypto/rand obtained on the same path must have been stored without error and be the context's token"}
}

const cachePkg = modPath + "/cache"

type csrfCase struct {
	name string
	m    *mwCase
	tc   *Term // the token cache
	hdr  *Term
	prm  *Term
}

func (c *Check) csrfCases() []csrfCase {
	var out []csrfCase
	for _, name := range []string{"CSRFPrevention", "CSRFPreventionWithCustomParamAndHeaderName"} {
		fn := c.p.fn("middleware", name)
		e := c.engine()
		args := symParams(fn, "")
		k := csrfCase{name: name, tc: args[0]}
		if len(args) == 3 {
			k.prm, k.hdr = args[1], args[2]
		} else {
			k.prm, k.hdr = c.constVal("middleware", "CSRFNonceRequestParamName"), c.constVal("middleware", "CSRFRestNonceHeaderName")
		}
		k.m = c.middleware(e, fn, args, nil)
		c.needLive(k.m.runs, name)
		out = append(out, k)
	}
	return out
}

func (c *Check) constVal(rel, name string) *Term {
	k, ok := c.p.pkg(rel).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided("constant " + rel + "." + name + " not found"))
	}
	t := k.Type()
	if b, isB := t.(*types.Basic); isB && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	return mkConst(k.Val(), t)
}

// header value of the request as the code reads it
func (c *Check) reqHeader(st *State, mc, name *Term) *Term {
	h := st.load(c.fieldAddr(c.requestOf(mc), "Header"))
	return headerValue(st, h, name)
}

func (c *Check) formValue(mc, name *Term) *Term {
	return mkPure("(*net/http.Request).FormValue", tString, c.requestOf(mc), name)
}

func checkCSRFConsume(c *Check) {
	for _, k := range c.csrfCases() {
		deny := globalErr(c.p, "errors", "ErrAccessDenied")
		for i := range k.m.runs {
			r := k.m.runs[i]
			pos := r.pos()
			if r.panics() {
				c.require(false, "no-panic", pos, &r.Scope, "%s panics", k.name)
				continue
			}
			method := r.st.load(c.fieldAddr(c.requestOf(k.m.mc), "Method"))
			safe, unsafe := false, true
			for _, mth := range []string{http.MethodGet, http.MethodHead, http.MethodTrace, http.MethodOptions} {
				v, ok := r.facts.decide(mkEq(method, mkStr(mth)))
				safe = safe || ok && v
				unsafe = unsafe && ok && !v
			}
			if !c.require(safe || unsafe, "method-decided", pos, &r.Scope, "%s: the path does not tell safe and unsafe methods apart", k.name) {
				continue
			}
			ht := c.reqHeader(r.st, k.m.mc, k.hdr)
			ft := c.formValue(k.m.mc, k.prm)
			contains := isCall("(" + cachePkg + ".Cache).Contains")
			remove := isCall("(" + cachePkg + ".Cache).Remove")
			add := isCall("(" + cachePkg + ".Cache).Add")
			// the token of the request
			var tok *Term
			if r.facts.always(mkEq(ht, mkStr(""))) {
				tok = ft
			} else if r.facts.never(mkEq(ht, mkStr(""))) {
				tok = ht
			}
			live := func(s Scope) (ok bool, at int) {
				for _, ev := range s.events(contains) {
					if same(s, ev.Args[0], k.tc) && tok != nil && same(s, ev.Args[1], tok) && s.facts.always(ev.Res) {
						return true, ev.i
					}
				}
				return false, 0
			}
			if !k.m.none(r.Scope) {
				h, once := k.m.once(r.Scope)
				if !c.require(once && same(r.Scope, h.Args[1], k.m.mc), "handler-once", pos, &r.Scope, "%s: the handler does not run exactly once with the request", k.name) {
					continue
				}
				c.require(r.returns(h.Event), "result-handed-on", h.Pos, &r.Scope, "%s: the result of the handler is not what is returned", k.name)
				if safe {
					c.require(len(r.events(remove)) == 0, "safe-consumes-nothing", h.Pos, &r.Scope, "%s: a token is consumed by a safe request", k.name)
					continue
				}
				before := r.upto(h.i)
				ok, at := live(before)
				if !c.require(tok != nil && ok, "live-token-before-handler", h.Pos, &r.Scope, "%s: the handler runs although the request's token (header, else form parameter) was not found in the cache", k.name) {
					continue
				}
				c.require(before.facts.never(mkEq(tok, mkStr(""))), "token-not-empty", h.Pos, &r.Scope, "%s: the handler runs with an empty token", k.name)
				removed := false
				for _, ev := range before.events(remove) {
					removed = removed || ev.i > at && same(before, ev.Args[0], k.tc) && same(before, ev.Args[1], tok)
				}
				c.require(removed, "token-consumed-before-handler", h.Pos, &r.Scope, "%s: the token is not removed from the cache before the handler runs", k.name)
				// nothing is stored between check and removal that could revive it
				continue
			}
			if !c.require(r.isNotNil(r.err), "refused-with-error", pos, &r.Scope, "%s: returns no error although the handler did not run", k.name) {
				continue
			}
			ok, _ := live(r.Scope)
			if safe || ok {
				// only generating and storing the next token can stop the request
				c.require(!same(r.Scope, r.err, deny), "refused-only-without-token", pos, &r.Scope, "%s: access is denied to a safe request or one with a live token", k.name)
				continue
			}
			c.require(same(r.Scope, r.err, deny), "access-denied", pos, &r.Scope, "%s: a request without live token gets something else than the access-denied error", k.name)
			c.require(r.count(add) == 0, "no-new-token-when-refused", pos, &r.Scope, "%s: a refused request gets a new token", k.name)
			c.require(r.isNil(r.resp), "no-response-when-refused", pos, &r.Scope, "%s: a response is returned with the error", k.name)
			empty := tok != nil && r.facts.always(mkEq(tok, mkStr("")))
			dead := false
			for _, ev := range r.events(contains) {
				dead = dead || tok != nil && same(r.Scope, ev.Args[1], tok) && r.facts.never(ev.Res)
			}
			c.require(empty || dead, "refused-only-without-token", pos, &r.Scope, "%s: refused although the token was not found missing", k.name)
		}
	}
}

func checkCSRFIssue(c *Check) {
	for _, k := range c.csrfCases() {
		key := c.constKey("middleware", "CSRFNonceCtxKey")
		exp := c.p.global("middleware", "CSRFExpirationTime")
		add := isCall("(" + cachePkg + ".Cache).Add")
		for i := range k.m.runs {
			r := k.m.runs[i]
			pos := r.pos()
			if r.panics() {
				c.require(false, "no-panic", pos, &r.Scope, "%s panics", k.name)
				continue
			}
			if k.m.none(r.Scope) {
				c.require(r.isNotNil(r.err), "refused-with-error", pos, &r.Scope, "%s: returns no error although the handler did not run", k.name)
				continue
			}
			h, once := k.m.once(r.Scope)
			if !c.require(once && same(r.Scope, h.Args[1], k.m.mc), "handler-once", pos, &r.Scope, "%s: the handler does not run exactly once with the request", k.name) {
				continue
			}
			before := r.upto(h.i)
			adds := before.events(add)
			if !c.require(len(adds) == 1 && before.count(add) == 1 && same(before, adds[0].Args[0], k.tc), "one-token-stored", h.Pos, &r.Scope, "%s: not exactly one new token is stored before the handler runs", k.name) {
				continue
			}
			a := adds[0]
			c.require(before.isNil(a.Res), "stored-without-error", h.Pos, &r.Scope, "%s: the handler runs although the token could not be stored", k.name)
			expv := r.st.load(mkGlobal(exp))
			c.require(same(before, a.Args[2], expv), "configured-expiration", a.Pos, &r.Scope, "%s: the token is stored with expiration %s", k.name, a.Args[2])
			tok := a.Args[1]
			n, why := randomBytes(r.Scope, a.i, tok)
			c.require(n >= 16, "token-from-random", a.Pos, &r.Scope, "%s: the token is not derived from at least 16 bytes of the cryptographic random source on this path (%d found%s)", k.name, n, why)
			c.require(c.ctxExtends(r.st, h.Args[0], k.m.ctx, map[*Term]*Term{key: mkIface(tString, tok)}), "token-in-context", h.Pos, &r.Scope, "%s: the handler's context is not the request's context with exactly the new token", k.name)
		}
	}
}
