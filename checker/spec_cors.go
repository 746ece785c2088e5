package main

// Rules for the CORS middleware.

import (
	"go/types"
	"strings"
)

var sliceOfString = types.NewSlice(tString)

// normText replaces the known parts of a text
func normText(f *Facts, t *Term) *Term {
	if t.Op != OConcat {
		return f.norm(t)
	}
	var out []*Term
	for _, p := range t.Args {
		out = append(out, f.norm(p))
	}
	return mkConcat(out...)
}

func init() {
	specs["C23"] = spec{run: checkCorsOrigin, min: 40,
		explain: "every path of the CORS middleware around an unknown handler, for any configuration and request; on each path that runs the handler the facts decided before it must make the request acceptable, every refusal is the access-denied error before any effect, and the headers set afterwards must be the ones the configuration demands; isValidOrigin and isSameOrigin are analysed on their own",
		assume:  []string{"the handler does not change the request or the configuration"}}
	specs["C24"] = spec{run: checkCorsPreflight, min: 40,
		explain: "every path of the CORS middleware on which the request is a cross-origin OPTIONS request naming a method: the facts decided before the handler must show that the method and, by a loop over all of them, the named headers are allowed; on every path the announced headers are compared with the configuration",
		assume:  []string{"the handler does not change the request or the configuration", "the requested headers are those of the first header line of that name"}}
}

type corsCase struct {
	m                                   *mwCase
	cfg                                 *Term
	req, header, origin, method, reqURL *Term
	acrm, acrh                          *Term // requested method and headers
	hdrFn                               string
}

const mwPkg = modPath + "/middleware"

func (c *Check) cors() *corsCase {
	fn := c.p.fn("middleware", "Cors")
	e := c.engine()
	e.pureOpaque["("+respPkg+".HttpResponse).Headers"] = true
	for _, n := range []string{"isValidOrigin", "isSameOrigin", "getMediaType"} {
		c.p.fn("middleware", n) // has to exist
		e.pureOpaque[mwPkg+"."+n] = true
	}
	e.opaque[mwPkg+".addVaryHeader"] = true
	args := symParams(fn, "")
	k := &corsCase{cfg: args[0]}
	k.m = c.middleware(e, fn, args, nil)
	c.needLive(k.m.runs, "Cors")
	k.req = c.requestOf(k.m.mc)
	st := k.m.runs[0].st
	k.header = st.load(c.fieldAddr(k.req, "Header"))
	k.method = st.load(c.fieldAddr(k.req, "Method"))
	k.reqURL = st.load(c.fieldAddr(k.req, "URL"))
	k.origin = headerValue(st, k.header, mkStr("Origin"))
	k.acrm = headerValue(st, k.header, mkStr("Access-Control-Request-Method"))
	k.acrh = headerValue(st, k.header, mkStr("Access-Control-Request-Headers"))
	return k
}

func (k *corsCase) f(c *Check, name string) *Term { return c.fieldOfVal(k.cfg, name) }

// present: whether the request has the header; known says whether that was decided
func (k *corsCase) present(s Scope, name string, val *Term) (is, known bool) {
	for t, v := range s.facts.truth {
		if t.Op == OLookupOk && stripConv(t.Args[0]) == stripConv(k.header) && t.Args[1].isStr(name) {
			return v, true
		}
	}
	if s.facts.never(mkEq(val, mkStr(""))) {
		return true, true
	}
	return false, false
}

// related: the relation holds between the element and the value
func related(s Scope, e Elem, val *Term, fold bool) bool {
	for t, v := range s.facts.truth {
		if !v {
			continue
		}
		isRel := t.Op == OBin && t.S == "==" || fold && t.Op == OPure && t.S == "strings.EqualFold"
		if isRel && (e.is(t.Args[0]) && sameCore(s, t.Args[1], val) || e.is(t.Args[1]) && sameCore(s, t.Args[0], val)) {
			return true
		}
		// both in the same letter case
		if fold && t.Op == OBin && t.S == "==" {
			a, b := t.Args[0], t.Args[1]
			if a.Op == OPure && b.Op == OPure && a.S == b.S && (a.S == "strings.ToLower" || a.S == "strings.ToUpper") {
				a, b = a.Args[0], b.Args[0]
				if e.is(a) && sameCore(s, b, val) || e.is(b) && sameCore(s, a, val) {
					return true
				}
			}
		}
	}
	return false
}

// sameCore: the same text up to surrounding white space removed
func sameCore(s Scope, a, b *Term) bool {
	return same(s, trimCore(a), trimCore(b))
}

func trimCore(t *Term) *Term {
	for t.Op == OPure && t.S == "strings.TrimSpace" {
		t = t.Args[0]
	}
	return t
}

// listed: the value is in the configured list
func (k *corsCase) listed(c *Check, s Scope, list string, val *Term, fold bool) bool {
	l := k.f(c, list)
	return s.exists(l, func(it Scope, e Elem) bool { return related(it, e, val, fold) })
}

func (k *corsCase) sameOrigin() *Term {
	return mkPure(mwPkg+".isSameOrigin", tBool, k.reqURL, k.origin)
}
func (k *corsCase) valid() *Term { return mkPure(mwPkg+".isValidOrigin", tBool, k.origin) }

// notCross: the request has no origin, or that of the server itself
func (k *corsCase) notCross(s Scope) bool {
	if is, known := k.present(s, "Origin", k.origin); known && !is {
		return true
	}
	return s.facts.always(k.valid()) && s.facts.always(k.sameOrigin())
}

func checkCorsOrigin(c *Check) {
	c.checkValidOrigin()
	c.checkSameOrigin()
	c.checkVary()
	k := c.cors()
	anyO := k.f(c, "AnyOriginAllowed")
	cred := k.f(c, "SupportsCredentials")
	accepted := 0
	for i := range k.m.runs {
		for _, r := range k.m.runs[i].byErr() {
			pos := r.pos()
			if !c.require(!r.panics(), "no-panic", pos, &r.Scope, "the middleware panics by itself") {
				continue
			}
			denied := globalErr(c.p, "errors", "ErrAccessDenied")
			if k.m.none(r.Scope) {
				c.require(sameErr(r.Scope, r.err, denied), "refused-with-access-denied", pos, &r.Scope, "the handler does not run but the access-denied error is not returned")
				c.require(r.isNil(r.resp), "no-response-on-refusal", pos, &r.Scope, "a response is returned with the refusal")
				c.require(len(r.events(func(e *Event) bool { return e.Kind == "mapupdate" }))+len(r.loopEvents(func(e *Event) bool { return e.Kind == "mapupdate" })) == 0, "no-header-on-refusal", pos, &r.Scope, "a header is changed although the request is refused")
				continue
			}
			h, once := k.m.once(r.Scope)
			if !c.require(once && same(r.Scope, h.Args[0], k.m.ctx) && same(r.Scope, h.Args[1], k.m.mc), "handler-once", pos, &r.Scope, "the handler is not called exactly once with the request") {
				continue
			}
			pre := r.upto(h.i)
			if !k.notCross(pre) {
				c.require(pre.facts.always(k.valid()), "well-formed-origin", h.Pos, &r.Scope, "the handler runs although the Origin of the request may be malformed")
				c.require(pre.facts.always(anyO) || k.listed(c, pre, "AllowedOrigins", k.origin, false), "origin-allowed", h.Pos, &r.Scope, "the handler runs for a cross-origin request although its origin was not found to be allowed (any origin, or an equal entry of the list)")
				okM := k.listed(c, pre, "AllowedHttpMethods", k.method, true)
				if !okM && pre.facts.always(mkEq(k.method, mkStr("OPTIONS"))) {
					okM = k.listed(c, pre, "AllowedHttpMethods", k.acrm, true)
				}
				c.require(okM, "method-allowed", h.Pos, &r.Scope, "the handler runs for a cross-origin request although its method was not found among the allowed ones")
			}
			resp, herr := mkExtract(h.Res, 0), mkExtract(h.Res, 1)
			hdr := mkPure("("+respPkg+".HttpResponse).Headers", c.p.typ("response", "HttpHeaders"), resp)
			ws, other := headerWrites(r.Scope, hdr)
			varied := c.variedOn(r.Scope, hdr)
			c.require(!other, "only-the-response-headers", pos, &r.Scope, "headers of something else than the response are changed, or removed")
			if r.isNotNil(r.err) {
				bad := len(ws) > 0 && !r.isNil(hdr)
				c.require(!bad, "no-header-on-error", pos, &r.Scope, "headers are set although an error is returned")
				if r.isNotNil(herr) {
					c.require(sameErr(r.Scope, r.err, herr), "error-handed-on", pos, &r.Scope, "the handler's error is not what is returned")
				}
				continue
			}
			accepted++
			c.require(r.isNil(herr) && same(r.Scope, r.resp, resp), "response-handed-on", pos, &r.Scope, "the handler's response is not what is returned")
			if r.isNil(hdr) {
				continue
			}
			// what is granted
			for _, q := range r.by(anyO) {
				any := q.facts.always(anyO)
				var grants, creds []headerWrite
				for _, w := range ws {
					switch name, _ := w.key.strVal(); name {
					case "Access-Control-Allow-Origin":
						grants = append(grants, w)
					case "Access-Control-Allow-Credentials":
						creds = append(creds, w)
					case "":
						c.require(false, "known-header", w.ev.Pos, &q.Scope, "a header with a name that is not a constant is set")
					}
				}
				if c.require(len(grants) >= 1, "origin-granted", pos, &q.Scope, "no origin is granted") {
					g := grants[len(grants)-1]
					if any {
						c.require(same(q.Scope, g.val, mkStr("*")), "wildcard-granted", g.ev.Pos, &q.Scope, "any origin is allowed but %s is granted", g.val)
					} else {
						c.require(same(q.Scope, g.val, k.origin), "own-origin-granted", g.ev.Pos, &q.Scope, "%s is granted instead of the origin of the request", g.val)
						c.require(varied["Origin"] || varied["*"], "varies-on-origin", pos, &q.Scope, "the granted origin depends on the request but the response does not vary on Origin")
					}
				}
				for _, w := range creds {
					c.require(q.facts.always(cred), "credentials-only-when-configured", w.ev.Pos, &q.Scope, "credentials are granted although that is not configured")
					c.require(same(q.Scope, w.val, mkStr("true")), "credentials-true", w.ev.Pos, &q.Scope, "credentials are granted with value %s", w.val)
				}
				if q.facts.always(cred) {
					c.require(len(creds) > 0, "credentials-granted", pos, &q.Scope, "credentials are configured but not granted")
				} else if !q.facts.never(cred) {
					c.require(false, "credentials-decided", pos, &q.Scope, "the credentials setting is not consulted")
				}
			}
		}
	}
	c.require(accepted > 0, "acceptance-reachable", c.p.fn("middleware", "Cors").Pos(), nil, "no request is ever accepted")
}

// variedOn: the names the response varies on because of the middleware
func (c *Check) variedOn(s Scope, hdr *Term) map[string]bool {
	out := map[string]bool{}
	for _, ev := range s.events(isCall(mwPkg + ".addVaryHeader")) {
		if same(s, ev.Args[0], hdr) {
			if n, ok := ev.Args[1].strVal(); ok {
				out[n] = true
			}
		}
	}
	for _, ev := range s.events(func(e *Event) bool {
		return e.Kind == "mapupdate" && same(s, e.Args[0], hdr) && e.Args[1].isStr("Vary")
	}) {
		if n, ok := ev.Args[2].strVal(); ok {
			for _, x := range strings.Split(n, ",") {
				out[strings.TrimSpace(x)] = true
			}
		}
	}
	return out
}

func checkCorsPreflight(c *Check) {
	k := c.cors()
	preflights := 0
	for i := range k.m.runs {
		for _, r := range k.m.runs[i].byErr() {
			pos := r.pos()
			if !c.require(!r.panics(), "no-panic", pos, &r.Scope, "the middleware panics by itself") {
				continue
			}
			denied := globalErr(c.p, "errors", "ErrAccessDenied")
			if k.m.none(r.Scope) {
				c.require(sameErr(r.Scope, r.err, denied), "refused-with-access-denied", pos, &r.Scope, "the request is refused with something else than the access-denied error")
				continue
			}
			h, once := k.m.once(r.Scope)
			if !c.require(once, "handler-once", pos, &r.Scope, "the handler may run more than once") {
				continue
			}
			resp, herr := mkExtract(h.Res, 0), mkExtract(h.Res, 1)
			if r.isNotNil(herr) || r.isNotNil(r.err) {
				continue
			}
			// is it a preflight request?
			pre := r.upto(h.i)
			opt, known := pre.facts.decide(mkEq(k.method, mkStr("OPTIONS")))
			if !k.notCross(pre) && !(known && !opt) {
				is, known := k.present(pre, "Access-Control-Request-Method", k.acrm)
				if !(known && !is) {
					preflights++
					c.require(k.listed(c, pre, "AllowedHttpMethods", k.acrm, true), "requested-method-allowed", h.Pos, &r.Scope, "a preflight request passes although the requested method was not found among the allowed ones")
					c.require(k.headersAllowed(c, pre), "requested-headers-allowed", h.Pos, &r.Scope, "a preflight request passes although not every non-empty requested header was found among the allowed ones")
				}
			}
			// what is announced
			hdr := mkPure("("+respPkg+".HttpResponse).Headers", c.p.typ("response", "HttpHeaders"), resp)
			if r.isNil(hdr) {
				continue
			}
			ws, _ := headerWrites(r.Scope, hdr)
			options := mkEq(k.method, mkStr("OPTIONS"))
			lists := []struct {
				header, field string
				options       bool
			}{
				{"Access-Control-Allow-Methods", "AllowedHttpMethods", true},
				{"Access-Control-Allow-Headers", "AllowedHttpHeaders", true},
				{"Access-Control-Expose-Headers", "ExposedHeaders", false},
				{"Access-Control-Max-Age", "PreflightMaxAgeSeconds", true},
			}
			for _, l := range lists {
				v := k.f(c, l.field)
				var want *Term
				set := mkLt(mkInt(0), v)
				if l.field == "PreflightMaxAgeSeconds" {
					want = mkPure("strconv.Itoa", tString, v)
				} else {
					set = mkLt(mkInt(0), mkLen(v))
					want = mkPure("strings.Join", tString, v, mkStr(","))
				}
				var found []headerWrite
				for _, w := range ws {
					if w.key.isStr(l.header) {
						found = append(found, w)
					}
				}
				for _, q0 := range r.by(options) {
					for _, q := range q0.by(set) {
						due := q.facts.always(set) && (!l.options || q.facts.always(options))
						if due {
							c.require(len(found) > 0, "announced", pos, &q.Scope, "%s is configured but not announced", l.header)
						} else if !c.require(len(found) == 0, "announced-only-when-due", pos, &q.Scope, "%s is announced although it is not configured or the request is no OPTIONS request", l.header) {
							continue
						}
						for _, w := range found {
							alt := same(q.Scope, w.val, want) || isFormatOf(w.val, v)
							if l.field != "PreflightMaxAgeSeconds" {
								alt = alt || joinOf(q, w.val, v)
							}
							c.require(alt, "announced-as-configured", w.ev.Pos, &q.Scope, "%s is announced as %s", l.header, w.val)
						}
					}
				}
			}
		}
	}
	c.require(preflights > 0, "preflight-reachable", c.p.fn("middleware", "Cors").Pos(), nil, "no preflight request is ever accepted")
}

// isFormatOf: a decimal rendering of the number
func isFormatOf(t, v *Term) bool {
	if t.Op == OPure && (t.S == "fmt%d" || t.S == "fmt%v" || t.S == "strconv.FormatInt" || t.S == "fmt.Sprint") && len(t.Args) > 0 {
		a := t.Args[0]
		for a.Op == OConv || a.Op == OIface {
			a = a.Args[0]
		}
		return a == v && isIntType(v.T)
	}
	return false
}

// joinOf: the elements of the list separated by a comma (and white space)
func joinOf(r run, t, list *Term) bool {
	if t.Op == OPure && t.S == "strings.Join" && same(r.Scope, t.Args[0], list) {
		s, ok := t.Args[1].strVal()
		return ok && strings.TrimSpace(s) == ","
	}
	return false
}

// headersAllowed: a loop over the requested headers found each non-empty one in the allowed headers
func (k *corsCase) headersAllowed(c *Check, s Scope) bool {
	for _, v := range []*Term{k.acrh, mkPure("strings.TrimSpace", tString, k.acrh)} {
		if s.facts.always(mkEq(v, mkStr(""))) {
			return true
		}
		if is, known := k.present(s, "Access-Control-Request-Headers", k.acrh); known && !is {
			return true
		}
		l := mkPure("strings.Split", sliceOfString, v, mkStr(","))
		ok := s.forAll(l, func(it Scope, e Elem) bool {
			// the element, or its trimmed form, is empty or was found in the list
			hdrs := map[*Term]bool{}
			for t := range it.facts.truth {
				containsF(t, func(x *Term) bool {
					if e.is(trimCore(x)) {
						hdrs[x] = true
					}
					return false
				})
			}
			for t, v := range it.facts.cst {
				if e.is(trimCore(t)) && v.isStr("") {
					return true
				}
			}
			for h := range hdrs {
				if it.facts.always(mkEq(h, mkStr(""))) || k.listed(c, it, "AllowedHttpHeaders", h, true) {
					return true
				}
			}
			return false
		})
		if ok {
			return true
		}
	}
	return false
}

// checkValidOrigin: what is accepted as an origin
func (c *Check) checkValidOrigin() {
	fn := c.p.fn("middleware", "isValidOrigin")
	e := c.engine()
	o := mkSym("origin", tString)
	yes := 0
	for _, bc := range boolCases(e.callFn(newState(e), fn, []*Term{o}, nil, 0)) {
		c.paths++
		s := bc.Scope
		if !bc.val {
			continue
		}
		yes++
		f := s.facts
		c.require(f.never(mkEq(o, mkStr(""))) || f.always(mkEq(o, mkStr("null"))) || hasPrefixFact(f, o, "file://"), "origin-not-empty", fn.Pos(), &s, "an empty origin is accepted")
		noPct := f.always(mkLt(mkPure("strings.Index", tInt, o, mkStr("%")), mkInt(0))) || f.always(mkEq(o, mkStr("null")))
		c.require(noPct, "origin-without-percent", fn.Pos(), &s, "an origin with an encoded character is accepted")
		known := f.always(mkEq(o, mkStr("null"))) || hasPrefixFact(f, o, "file://")
		parsed := false
		for _, name := range []string{"net/url.ParseRequestURI", "net/url.Parse"} {
			var res []*Term
			for _, ev := range s.events(isCall(name)) {
				if same(s, ev.Args[0], o) {
					res = append(res, ev.Res)
				}
			}
			for t := range f.truth {
				containsF(t, func(x *Term) bool {
					if x.Op == OPure && x.S == name && same(s, x.Args[0], o) {
						res = append(res, x)
					}
					return false
				})
			}
			for _, x := range res {
				if x == nil || !s.isNil(mkExtract(x, 1)) {
					continue
				}
				if u := mkExtract(x, 0); u.T != nil {
					if sch, ok := fieldOf(bc.o.St, u, "Scheme", 0); ok && f.never(mkEq(sch, mkStr(""))) {
						parsed = true
					}
				}
			}
		}
		c.require(known || parsed, "origin-well-formed", fn.Pos(), &s, "an origin is accepted that is neither null nor a file, nor was parsed as a URI with a scheme")
	}
	c.require(yes > 0, "origin-acceptable", fn.Pos(), nil, "no origin is ever well-formed")
}

func hasPrefixFact(f *Facts, s *Term, p string) bool {
	return f.always(mkPure("strings.HasPrefix", tBool, s, mkStr(p))) || f.always(mkEq(mkPure("strings.Index", tInt, s, mkStr(p)), mkInt(0)))
}

// checkSameOrigin: an origin taken for the server's own is scheme://host or that with the port
func (c *Check) checkSameOrigin() {
	fn := c.p.fn("middleware", "isSameOrigin")
	e := c.engine()
	args := symParams(fn, "")
	u, o := args[0], args[1]
	st := newState(e)
	st.facts.assume(mkEq(u, mkNil()), false)
	scheme := st.load(c.fieldAddr(u, "Scheme"))
	host := st.load(c.fieldAddr(u, "Host"))
	port := mkPure("(*net/url.URL).Port", tString, u)
	e.pureOpaque["(*net/url.URL).Port"] = true
	low := mkPure("strings.ToLower", tString, scheme)
	yes := 0
	for _, bc := range boolCases(e.callFn(st, fn, args, nil, 0)) {
		c.paths++
		s := bc.Scope
		if !bc.val {
			continue
		}
		yes++
		f := s.facts
		c.require(f.never(mkEq(scheme, mkStr(""))) && f.never(mkEq(host, mkStr(""))), "server-origin-known", fn.Pos(), &s, "an origin is taken for the server's own although the request URL names no scheme or host")
		ok := false
		for t, v := range f.truth {
			if !v || t.Op != OBin || t.S != "==" {
				continue
			}
			x := t.Args[0]
			if x == o {
				x = t.Args[1]
			} else if t.Args[1] != o {
				continue
			}
			parts := normText(f, x)
			for _, sc := range []*Term{low, scheme} {
				base := []*Term{sc, mkStr("://"), host}
				cands := [][]*Term{base, append(append([]*Term{}, base...), mkStr(":"), port)}
				def := "80"
				secure := false
				for _, n := range []string{"https", "wss"} {
					secure = secure || f.always(mkEq(low, mkStr(n)))
				}
				insecure := f.never(mkEq(low, mkStr("https"))) && f.never(mkEq(low, mkStr("wss")))
				if secure {
					def = "443"
				}
				if (secure || insecure) && f.always(mkEq(port, mkStr(""))) {
					cands = append(cands, append(append([]*Term{}, base...), mkStr(":"+def)))
				}
				for _, cd := range cands {
					if normText(f, mkConcat(cd...)) == parts {
						ok = true
					}
				}
			}
		}
		c.require(ok, "same-scheme-host-port", fn.Pos(), &s, "an origin is taken for the server's own although it was not found equal to its scheme, host and port")
	}
	c.require(yes > 0, "same-origin-possible", fn.Pos(), nil, "no origin is ever the server's own")
}

// checkVary: adding a name to the Vary header makes the response vary on it
func (c *Check) checkVary() {
	fn := c.p.fn("middleware", "addVaryHeader")
	e := c.engine()
	args := symParams(fn, "")
	hdr, name := args[0], args[1]
	st := newState(e)
	st.facts.assume(mkEq(hdr, mkNil()), false)
	e.allStores = true
	set := 0
	for _, o := range e.callFn(st, fn, args, nil, 0) {
		c.paths++
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		if !c.require(o.Panic == nil, "no-panic", fn.Pos(), &r.Scope, "addVaryHeader panics") {
			continue
		}
		ws, other := headerWrites(r.Scope, hdr)
		c.require(!other, "vary-only", fn.Pos(), &r.Scope, "addVaryHeader removes a header")
		for _, w := range ws {
			c.require(w.key.isStr("Vary"), "vary-only", w.ev.Pos, &r.Scope, "addVaryHeader sets header %s", w.key)
		}
		if len(ws) == 0 {
			// nothing to add: the header is the wildcard already
			star := false
			for t, v := range r.facts.truth {
				star = star || v && t.Op == OBin && t.S == "==" && (t.Args[0].isStr("*") || t.Args[1].isStr("*")) && t.Args[0] != name && t.Args[1] != name && containsF(t, func(x *Term) bool {
					return x.Op == OLookup || x.Op == OPure && x.S == "strings.Split" || x.Op == OPhi || x.Op == OIndex || x.Op == OLoad
				})
			}
			c.require(star, "vary-added", fn.Pos(), &r.Scope, "addVaryHeader leaves the header as it is although it was not found to be the wildcard")
			continue
		}
		set++
		v := ws[len(ws)-1].val
		ok := same(r.Scope, v, name) || v.isStr("*")
		if v.Op == OConcat && v.Args[len(v.Args)-1] == name {
			s, isC := v.Args[len(v.Args)-2].strVal()
			ok = ok || isC && strings.HasSuffix(strings.TrimSpace(s), ",")
		}
		if v.Op == OPure && v.S == "strings.Join" {
			ok = ok || hasElem(r.st, v.Args[0], name)
		}
		c.require(ok, "vary-added", ws[len(ws)-1].ev.Pos, &r.Scope, "the new Vary header %s does not name what was to be added", v)
	}
	c.require(set > 0, "vary-settable", fn.Pos(), nil, "addVaryHeader never sets the header")
}

// hasElem: the value is one of the elements of the list, as it was put together
func hasElem(st *State, l, v *Term) bool {
	switch l = stripConv(l); l.Op {
	case OList:
		for _, a := range l.Args {
			if a == v {
				return true
			}
		}
	case OAppend:
		return hasElem(st, l.Args[0], v) || hasElem(st, l.Args[1], v)
	case OSlice:
		if els, ok := st.elems(l); ok {
			for _, a := range els {
				if a == v {
					return true
				}
			}
		}
	}
	return false
}
