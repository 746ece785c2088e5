package main

// Rules for the OAuth handlers of the mux handler.

import (
	"math"
	"strings"
)

func init() {
	specs["C17"] = spec{run: checkCallback, min: 20,
		explain: "every path of the handler registered for the OAuth callback, for any configuration, provider, request and cache answer; on each path that runs the application handler the order and outcome of the required checks is examined, as is the context it gets",
		assume:  []string{"the request's parameters do not change while it is handled"}}
	specs["C18"] = spec{run: checkInitiate, min: 15,
		explain: "every path of the handler registered to initiate the OAuth flow; on each path that redirects, the state is traced to the cryptographic random source and to the cache, the URL to a configured provider, the redirect URI to the registered callback path"}
}

const oauthPkg = modPath + "/auth/oauth"

func prov(m string) string { return "(" + oauthPkg + ".Provider)." + m }

type oauthCase struct {
	k                  *muxCase
	cfg, handler       *Term
	initiate, callback *Term // handlers
	cbPath             *Term // registered path of the callback
	cbVar              string
	st                 *State
	r                  run
}

func (c *Check) oauthCases() (out []oauthCase) {
	for _, name := range []string{"HandleOAUTH2", "HandleOAUTH2WithCustomPaths"} {
		fn := c.p.fn("", "MuxHandler."+name)
		k := c.mux(0)
		k.e.pureOpaque[prov("Name")] = true
		k.e.pureOpaque["(*"+pathPkg+".MatchingContext).PathVar"] = true
		k.e.pureOpaque["("+pathPkg+".MatchingContext).PathVar"] = true
		cfg := mkSym("oauthConfig", c.p.typ("auth/oauth", "Config"))
		h := mkSym("handler", c.handlerType())
		args := []*Term{k.m}
		ini, base := mkStr("/oauth/initiate"), mkStr("/oauth/authorize")
		if name == "HandleOAUTH2WithCustomPaths" {
			ini, base = mkSym("initiatePath", tString), mkSym("authorizeBasePath", tString)
			k.st.facts.assume(mkEq(ini, mkStr("")), false)
			k.st.facts.assume(mkEq(base, mkStr("")), false)
			args = append(args, ini, base)
		}
		args = append(args, cfg, h, mkNil(), mkNil())
		if len(fn.Params) != len(args) {
			panic(undecided(name + " has other parameters"))
		}
		for _, o := range k.e.callFn(k.st, fn, args, nil, 0) {
			c.paths++
			r := run{Scope: scopeOf(o.St), o: o, e: k.e, st: o.St}
			if !c.require(o.Panic == nil, "no-panic", fn.Pos(), &r.Scope, "%s panics", name) {
				continue
			}
			oc := oauthCase{k: k, cfg: cfg, handler: h, st: o.St, r: r}
			n := 0
			for _, ev := range r.events(isCall(fnHandle)) {
				n++
				if c.isResolved(k, r, ev.Args[2], ini) {
					oc.initiate = stripConv(ev.Args[3])
				} else {
					oc.callback = stripConv(ev.Args[3])
					oc.cbPath = ev.Args[2]
				}
				c.require(same(r.Scope, ev.Args[1], mkStr("GET")), "get-route", ev.Pos, &r.Scope, "%s: the endpoint is registered for method %s", name, ev.Args[1])
			}
			if !c.require(n == 2 && r.count(isCall(fnHandle)) == 2 && oc.initiate != nil && oc.callback != nil, "two-routes", fn.Pos(), &r.Scope, "%s does not register the initiate path and one callback", name) {
				continue
			}
			// the callback path is the base followed by one variable
			last := oc.cbPath
			if last.Op == OConcat {
				last = last.Args[len(last.Args)-1]
			}
			s, _ := last.strVal()
			i := strings.LastIndex(s, "/{")
			if c.require(i >= 0 && strings.HasSuffix(s, "}"), "callback-variable", fn.Pos(), &r.Scope, "%s: the callback path does not end in the variable of the provider", name) {
				oc.cbVar = s[i+2 : len(s)-1]
				full := c.isResolved(k, r, oc.cbPath, mkConcat(base, mkStr("/{"+oc.cbVar+"}")))
				c.require(full, "callback-path", fn.Pos(), &r.Scope, "%s: the callback is registered at %s, not below the configured base path", name, oc.cbPath)
				out = append(out, oc)
			}
		}
	}
	return
}

func (c *Check) callbackBase(oc oauthCase) *Term {
	p := oc.cbPath
	suffix := "/{" + oc.cbVar + "}"
	if s, ok := p.strVal(); ok {
		return mkStr(strings.TrimSuffix(s, suffix))
	}
	parts := append([]*Term{}, p.Args...)
	s, _ := parts[len(parts)-1].strVal()
	parts[len(parts)-1] = mkStr(strings.TrimSuffix(s, suffix))
	return mkConcat(parts...)
}

// cfgField is a (possibly embedded) field of the configuration
func cfgField(st *State, cfg *Term, name string) *Term {
	v, ok := fieldOf(st, cfg, name, 0)
	if !ok {
		panic(undecided("oauth.Config has no field " + name))
	}
	return v
}

func checkCallback(c *Check) {
	ran := 0
	for _, oc := range c.oauthCases() {
		e := oc.k.e
		ctx, mc := mkSym("ctx", c.ctxType()), mkSym("mc", c.mcType())
		st := oc.st.fork()
		st.facts.assume(mkEq(ctx, mkNil()), false)
		runs := c.serve(e, st, oc.callback, ctx, mc)
		c.paths += len(runs)
		dumpRuns(c, runs)
		for i := range runs {
			r := runs[i]
			pos := r.pos()
			if !c.require(!r.panics(), "no-panic", pos, &r.Scope, "the callback panics by itself") {
				continue
			}
			hs := r.events(isDyn(oc.handler))
			if r.count(isDyn(oc.handler)) == 0 {
				c.require(r.isNotNil(r.err), "refused-with-error", pos, &r.Scope, "the callback returns no error although the application handler did not run")
				continue
			}
			if !c.require(len(hs) == 1 && r.count(isDyn(oc.handler)) == 1, "handler-once", pos, &r.Scope, "the application handler may run more than once") {
				continue
			}
			ran++
			h := hs[0]
			c.require(same(r.Scope, h.Args[1], mc), "same-request", h.Pos, &r.Scope, "the application handler does not get the request")
			c.require(r.returns(h.Event), "result-handed-on", h.Pos, &r.Scope, "the result of the application handler is not what is returned")
			before := r.upto(h.i)
			toks := before.events(isCall(prov("FetchAccessToken")))
			if !c.require(len(toks) == 1 && before.count(isCall(prov("FetchAccessToken"))) == 1, "code-exchanged", h.Pos, &r.Scope, "the application handler runs although the code was exchanged %d times", len(toks)) {
				continue
			}
			t := toks[0]
			pv := t.Args[0]
			tok, terr := mkExtract(t.Res, 0), mkExtract(t.Res, 1)
			c.require(before.isNil(terr), "exchange-succeeded", h.Pos, &r.Scope, "the application handler runs although the exchange of the code may have failed")
			// before the exchange
			pre := r.upto(t.i)
			c.require(c.configured(oc, pre, r.st, pv, func(name *Term) bool { return c.isPathVar(name, mc, oc.cbVar) }), "configured-provider", t.Pos, &r.Scope, "the provider is not the configured one that the path names")
			ef := c.formValue(mc, mkStr("error"))
			c.require(pre.facts.always(mkEq(ef, mkStr(""))), "no-provider-error", t.Pos, &r.Scope, "the code is exchanged although the provider may have reported an error")
			c.require(same(pre, t.Args[3], c.formValue(mc, mkStr("code"))), "own-code", t.Pos, &r.Scope, "what is exchanged is not the code of the request")
			state := c.formValue(mc, mkStr("state"))
			ch := cfgField(r.st, oc.cfg, "Cache")
			if !pre.isNil(ch) {
				known, removed := -1, false
				for _, ev := range pre.events(isCall("(" + cachePkg + ".Cache).Contains")) {
					if same(pre, ev.Args[0], ch) && same(pre, ev.Args[1], state) && pre.facts.always(ev.Res) {
						known = ev.i
					}
				}
				c.require(known >= 0, "state-known", t.Pos, &r.Scope, "the code is exchanged although the state of the request was not found in the cache")
				for _, ev := range pre.events(isCall("(" + cachePkg + ".Cache).Remove")) {
					removed = removed || known >= 0 && ev.i > known && same(pre, ev.Args[0], ch) && same(pre, ev.Args[1], state)
				}
				c.require(removed, "state-consumed", t.Pos, &r.Scope, "the state is not removed from the cache before the code is exchanged")
				for _, ev := range r.events(isCall("(" + cachePkg + ".Cache).Add")) {
					c.require(false, "state-not-restored", ev.Pos, &r.Scope, "the callback stores a state")
				}
			}
			// the user
			want := map[*Term]*Term{c.constKey("auth/oauth", "AccessTokenCtxKey"): mkIface(c.p.typ("auth/oauth", "AccessToken"), tok)}
			det := cfgField(r.st, oc.cfg, "FetchUserDetails")
			users := before.events(isCall(prov("FetchAuthenticatedUser")))
			v, known := before.facts.decide(det)
			if !c.require(known, "details-decided", h.Pos, &r.Scope, "whether user details are requested was not decided") {
				continue
			}
			hctx := h.Args[0]
			if v {
				if !c.require(len(users) == 1 && before.count(isCall(prov("FetchAuthenticatedUser"))) == 1, "user-fetched", h.Pos, &r.Scope, "the application handler runs although the user was fetched %d times", len(users)) {
					continue
				}
				u := users[0]
				c.require(before.isNil(mkExtract(u.Res, 1)), "user-fetch-succeeded", h.Pos, &r.Scope, "the application handler runs although fetching the user may have failed")
				c.require(same(before, u.Args[0], pv) && same(before, u.Args[2], tok), "user-of-token", u.Pos, &r.Scope, "the user is not fetched from the same provider with the token")
				// the principal is a pointer to the fetched user
				key := c.constKey("auth", "SecurityPrincipalCtxKey")
				ptr := ctxEntry(r.st, hctx, ctx, key)
				ok := false
				if held := ctxEntry(r.st, h.Snap[0], ctx, key); held != nil {
					p := stripIface(held)
					ok = p.Op == OPtrTo && same(r.Scope, p.Args[0], mkExtract(u.Res, 0))
				}
				c.require(ok, "principal-in-context", h.Pos, &r.Scope, "the principal in the context is not the fetched user")
				if ptr != nil {
					want[key] = ptr
				}
			} else {
				c.require(len(users) == 0, "user-only-when-requested", h.Pos, &r.Scope, "the user is fetched although details are not requested")
			}
			c.require(c.ctxExtends(r.st, hctx, ctx, want), "token-in-context", h.Pos, &r.Scope, "the context of the application handler is not that of the request with exactly the token and the user (%s)", hctx)
		}
	}
	c.require(ran > 0, "handler-reachable", c.p.fn("", "MuxHandler.HandleOAUTH2").Pos(), nil, "the application handler is never called")
}

// ctxEntry is the value added to the context for the key
func ctxEntry(st *State, ctx, base, key *Term) *Term {
	for ctx != base {
		ctx = stripConv(st.facts.normNB(ctx))
		if ctx.Op != OPure || ctx.S != "context.WithValue" {
			return nil
		}
		if eq, ok := st.facts.equal(ctx.Args[1], key); ok && eq {
			return ctx.Args[2]
		}
		ctx = ctx.Args[0]
	}
	return nil
}

func (c *Check) isPathVar(t, mc *Term, name string) bool {
	return t.Op == OPure && strings.HasSuffix(t.S, ".MatchingContext).PathVar") && t.Args[1].isStr(name) && contains(t.Args[0], mc)
}

// configured: the value is an element of the configured providers whose name was found to be the selected one
func (c *Check) configured(oc oauthCase, s Scope, st *State, pv *Term, selected func(*Term) bool) bool {
	list := cfgField(st, oc.cfg, "Providers")
	pv = s.facts.norm(pv)
	if !s.isNotNil(pv) {
		return false
	}
	name := mkPure(prov("Name"), tString, pv)
	// an equality of the name with the selection must have been decided
	named := false
	check := func(f *Facts) {
		for t, v := range f.truth {
			if v && t.Op == OBin && t.S == "==" && (t.Args[0] == name && selected(t.Args[1]) || t.Args[1] == name && selected(t.Args[0])) {
				named = true
			}
		}
	}
	check(s.facts)
	if !named {
		return false
	}
	return isElem(pv, list)
}

// isElem: the value was read from the list
func isElem(v, list *Term) bool {
	v = stripConv(v)
	switch v.Op {
	case OLoad:
		return v.Args[0].Op == OIdxAddr && v.Args[0].Args[0] == list
	case OIndex:
		return v.Args[0] == list
	case ONext:
		return v.S == "elem" && v.Args[1] == list
	}
	return false
}

func checkInitiate(c *Check) {
	redirected := 0
	for _, oc := range c.oauthCases() {
		e := oc.k.e
		ctx, mc := mkSym("ctx", c.ctxType()), mkSym("mc", c.mcType())
		st := oc.st.fork()
		st.facts.assume(mkEq(ctx, mkNil()), false)
		runs := c.serve(e, st, oc.initiate, ctx, mc)
		c.paths += len(runs)
		dumpRuns(c, runs)
		for _, r0 := range runs {
			if r0.panics() {
				// only a failing random source may end the request this way
				ok := false
				for _, ev := range r0.events(isCall("crypto/rand.Int", "crypto/rand.Read", "io.ReadFull")) {
					ok = ok || r0.isNotNil(mkExtract(ev.Res, 1))
				}
				c.require(ok, "no-panic", r0.pos(), &r0.Scope, "the initiate handler panics by itself")
				continue
			}
			for _, r := range r0.byErr() {
				pos := r.pos()
				c.require(r.count(isDyn(oc.handler)) == 0, "no-handler", pos, &r.Scope, "the application handler runs when the flow is initiated")
				if r.isNotNil(r.err) {
					c.require(r.isNil(r.resp), "no-redirect-on-error", pos, &r.Scope, "a response is returned with an error")
					continue
				}
				urls := r.events(isCall(prov("InitiateUrl")))
				if !c.require(len(urls) == 1 && r.count(isCall(prov("InitiateUrl"))) == 1, "one-url", pos, &r.Scope, "the URL of the provider is asked for %d times", len(urls)) {
					continue
				}
				redirected++
				u := urls[0]
				// the response
				ro := stripIface(r.resp)
				loc, ok := fieldNamed(r.st, ro, "Url")
				isRedirect := deref(ro.T) != nil && strings.HasSuffix(deref(ro.T).String(), "/response.HttpRedirectResponse")
				c.require(isRedirect && ok && same(r.Scope, loc, u.Res), "redirect-to-provider", pos, &r.Scope, "the response is not a redirect to the URL of the provider")
				// the provider
				pv := u.Args[0]
				sel := c.formValue(mc, mkStr("provider"))
				list := cfgField(r.st, oc.cfg, "Providers")
				only := r.facts.always(mkEq(mkLen(list), mkInt(1))) && isElem(r.facts.norm(pv), list) && r.isNotNil(pv)
				c.require(only || c.configured(oc, r.upto(u.i), r.st, pv, func(t *Term) bool { return t == sel }), "configured-provider", u.Pos, &r.Scope, "the provider is not the only configured one or the configured one that the request names")
				// the redirect URI
				want := mkConcat(cfgField(r.st, oc.cfg, "WebsiteUrl"), c.callbackBase(oc), mkStr("/"), mkPure(prov("Name"), tString, pv))
				c.require(sameText(r, u.Args[1], want), "callback-uri", u.Pos, &r.Scope, "the redirect URI is %s, the callback is registered at %s", u.Args[1], want)
				// the state
				state := u.Args[2]
				n, why := randomBits(r, u.i, state)
				c.require(n >= 60, "state-from-random", u.Pos, &r.Scope, "the state does not carry at least 60 bits of the cryptographic random source drawn on this path (%.0f found%s)", n, why)
				ch := cfgField(r.st, oc.cfg, "Cache")
				if r.isNil(ch) {
					continue
				}
				stored := false
				for _, a := range r.events(isCall("(" + cachePkg + ".Cache).Add")) {
					if same(r.Scope, a.Args[0], ch) && same(r.Scope, a.Args[1], state) && r.isNil(a.Res) && same(r.Scope, a.Args[2], cfgField(r.st, oc.cfg, "KeyExpirationTime")) {
						stored = true
					}
				}
				c.require(stored, "state-stored", u.Pos, &r.Scope, "the request is redirected although its state was not stored without error with the configured expiration")
				c.require(r.count(isCall("("+cachePkg+".Cache).Remove")) == 0, "state-kept", u.Pos, &r.Scope, "a state is removed when the flow is initiated")
			}
		}
	}
	c.require(redirected > 0, "redirect-reachable", c.p.fn("", "MuxHandler.HandleOAUTH2").Pos(), nil, "the request is never redirected")
}

// randomBits is a lower bound of the bits of the cryptographic random source, drawn on this path before item at, that
// the characters of the text are made of
func randomBits(r run, at int, tok *Term) (float64, string) {
	n, why := randomBytes(r.Scope, at, tok)
	if n > 0 {
		return float64(n) * 8, ""
	}
	tok = r.facts.norm(stripConv(tok))
	pre := r.upto(at)
	srcs := map[*Term]float64{} // result of a draw -> bits
	var bufs []*Term
	for _, ev := range pre.events(isCall("crypto/rand.Int", "crypto/rand.Read", "io.ReadFull")) {
		if !r.isNil(mkExtract(ev.Res, 1)) {
			why = "; the error of the random source is not checked"
			continue
		}
		switch ev.Name {
		case "crypto/rand.Int":
			if !isRandReader(ev.Args[0]) {
				continue
			}
			if m := ev.Args[1]; m.Op == OPure && m.S == "math/big.NewInt" {
				if k, ok := pre.exactInt(stripConv(m.Args[0])); ok && k > 1 {
					srcs[mkExtract(ev.Res, 0)] = math.Log2(float64(k))
				}
			}
		case "crypto/rand.Read":
			bufs = append(bufs, ev.Args[0])
		case "io.ReadFull":
			if isRandReader(ev.Args[0]) {
				bufs = append(bufs, ev.Args[1])
			}
		}
	}
	parts := []*Term{tok}
	if tok.Op == OConcat {
		parts = tok.Args
	}
	// the draw a character depends on and the bits of it the character shows
	var draw func(t *Term) (*Term, float64)
	draw = func(t *Term) (*Term, float64) {
		if b, ok := srcs[t]; ok {
			return t, b
		}
		switch t.Op {
		case OConv:
			return draw(t.Args[0])
		case OLoad:
			a := t.Args[0]
			if a.Op == OIdxAddr && a.Args[1].isConst() {
				for _, b := range bufs {
					if rootOf(a) == rootOf(b) {
						return t, 8
					}
				}
			}
		case OPure:
			if t.S == "bytestr" || t.S == "(*math/big.Int).Int64" || t.S == "(*math/big.Int).Uint64" || strings.HasPrefix(t.S, "fmt%") || t.S == "runestr" {
				return draw(t.Args[0])
			}
		case OIndex:
			if tab, ok := t.Args[0].strVal(); ok && distinctChars(tab) {
				return draw(t.Args[1])
			}
		case OSlice:
			if tab, ok := t.Args[0].strVal(); ok && distinctChars(tab) && t.Args[2] != nil && mkBin("-", t.Args[2], t.Args[1], tInt).isInt(1) {
				return draw(t.Args[1])
			}
		case OBin:
			k, ok := t.Args[1].intVal()
			if !ok {
				return nil, 0
			}
			d, b := draw(t.Args[0])
			switch t.S {
			case "+", "-":
				return d, b
			case "%":
				if k > 1 && k <= 128 {
					return d, math.Min(b, math.Log2(float64(k))-0.5)
				}
			case "&":
				n := 0.0
				for j := k; j > 0; j >>= 1 {
					n += float64(j & 1)
				}
				return d, math.Min(b, n)
			}
		}
		return nil, 0
	}
	best := map[*Term]float64{}
	for _, p := range parts {
		if d, b := draw(p); d != nil && b > best[d] {
			best[d] = b
		}
	}
	total := 0.0
	for _, b := range best {
		total += b
	}
	if total > 0 {
		why = ""
	}
	return total, why
}
