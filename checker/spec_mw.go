package main

import (
	"go/types"
	"net/http"
)

func init() {
	specs["C25"] = spec{run: checkErrors, min: 15,
		explain: "every path of the default error-to-status function and of ErrResponse/ErrJsonResponse applied to an unknown handler is enumerated; each returned status must be implied by the type and identity tests decided on its path",
		assume:  []string{"the status function is analysed with its default value"}}
	specs["C26"] = spec{run: checkRecover, min: 4,
		explain: "every path of PanicRecover is enumerated with every call into unknown code additionally panicking with an unknown non-nil value; deferred functions and recover are interpreted; no path may end in a panic"}
	specs["C27"] = spec{run: checkSecurityHeaders, min: 20,
		explain: "every path of SecurityHeaders is enumerated; on each path the set of header writes is compared with the set demanded by the configuration and request facts decided on it"}
}

const errPkg = modPath + "/errors"

// statusFor says which status the decided facts demand for the error; 0: not decided
func (c *Check) statusFor(s Scope, err *Term) int {
	ty := func(n string) bool {
		t := c.p.typ("errors", n)
		return s.facts.always(mkTAok(t, err))
	}
	nty := func(n string) bool {
		t := c.p.typ("errors", n)
		return s.facts.never(mkTAok(t, err))
	}
	is := func(n string) bool { return s.facts.always(mkEq(err, globalErr(c.p, "errors", n))) }
	isnt := func(n string) bool { return s.facts.never(mkEq(err, globalErr(c.p, "errors", n))) }
	switch {
	case ty("ErrBadRequest"):
		return http.StatusBadRequest
	case ty("ErrObjectNotFound"):
		return http.StatusNotFound
	case is("ErrUnauthorizedRequest"):
		return http.StatusUnauthorized
	case is("ErrAccessDenied"), is("ErrWrongCredentials"):
		return http.StatusForbidden
	case nty("ErrBadRequest") && nty("ErrObjectNotFound") && isnt("ErrUnauthorizedRequest") && isnt("ErrAccessDenied") && isnt("ErrWrongCredentials"):
		return http.StatusInternalServerError
	}
	return 0
}

func checkErrors(c *Check) {
	// the default function
	e := c.engine()
	def := c.p.globVal[c.p.global("middleware", "Error2HttpStatusCode")]
	if def == nil {
		panic(undecided("the default of middleware.Error2HttpStatusCode is not a known function"))
	}
	err := mkSym("err", types.Universe.Lookup("error").Type())
	st := newState(e)
	st.facts.assume(mkEq(err, mkNil()), false)
	for _, o := range e.callValue(st, def, err) {
		s := scopeOf(o.St)
		c.paths++
		if o.Panic != nil {
			c.require(false, "status-no-panic", def.Fn.Pos(), &s, "the status function panics")
			continue
		}
		want := c.statusFor(s, err)
		got, ok := s.exactInt(o.Vals[0])
		c.require(ok && want != 0 && int64(want) == got, "status-of-error", def.Fn.Pos(), &s, "status %s returned where the decided facts demand %d (0: not every case told apart)", o.Vals[0], want)
	}
	for _, name := range []string{"ErrResponse", "ErrJsonResponse"} {
		fn := c.p.fn("middleware", name)
		e := c.engine()
		args := symParams(fn, "")
		m := c.middleware(e, fn, args, nil)
		c.needLive(m.runs, name)
		for i := range m.runs {
			r := m.runs[i]
			pos := r.pos()
			if r.panics() {
				c.require(false, "no-panic", pos, &r.Scope, "%s panics", name)
				continue
			}
			h, once := m.once(r.Scope)
			if !c.require(once && same(r.Scope, h.Args[0], m.ctx) && same(r.Scope, h.Args[1], m.mc), "handler-once", pos, &r.Scope, "%s: the handler is not called exactly once with the request", name) {
				continue
			}
			herr := mkExtract(h.Res, 1)
			if r.isNil(herr) {
				c.require(r.returns(h.Event) && r.isNil(r.err), "success-unchanged", pos, &r.Scope, "%s: the response of a successful handler is not handed on", name)
				continue
			}
			if !c.require(r.isNotNil(herr), "error-told-apart", pos, &r.Scope, "%s: success and failure of the handler are not told apart", name) {
				continue
			}
			c.require(r.isNil(r.err), "error-becomes-response", pos, &r.Scope, "%s: an error is still returned", name)
			want := c.statusFor(r.Scope, herr)
			if name == "ErrResponse" {
				ss := r.events(isDyn(args[0]))
				if !c.require(len(ss) == 1 && r.count(isDyn(args[0])) == 1, "supplier-once", pos, &r.Scope, "the response supplier is not asked exactly once") {
					continue
				}
				got, ok := r.exactInt(ss[0].Args[0])
				c.require(ok && want != 0 && int64(want) == got, "supplier-gets-status", pos, &r.Scope, "the supplier gets status %s where %d is due", ss[0].Args[0], want)
				c.require(same(r.Scope, ss[0].Args[1], herr), "supplier-gets-error", pos, &r.Scope, "the supplier does not get the handler's error")
				c.require(same(r.Scope, r.resp, ss[0].Res), "supplier-response-returned", pos, &r.Scope, "the supplier's response is not what is returned")
				continue
			}
			got, ok := fieldNamed(r.st, r.resp, "HttpStatusCode")
			var gv int64
			if ok {
				gv, ok = r.exactInt(got)
			}
			c.require(ok && want != 0 && int64(want) == gv, "json-status", pos, &r.Scope, "the JSON response has another status than %d", want)
			pl, ok := fieldNamed(r.st, r.resp, "Payload")
			text := false
			if ok {
				sn := r.st.snap(pl, 0)
				text = containsF(sn, func(t *Term) bool { return t.Op == OPure && t.S == "(error).Error" && same(r.Scope, t.Args[0], herr) })
			}
			c.require(text, "json-text", pos, &r.Scope, "the JSON response does not carry the text of the error")
		}
	}
}

// fieldNamed loads a (possibly embedded) field of the object an interface value or pointer holds
func fieldNamed(st *State, v *Term, name string) (*Term, bool) {
	for v.Op == OIface || v.Op == OConv || v.Op == OTA {
		v = v.Args[0]
	}
	return fieldOf(st, v, name, 0)
}

func fieldOf(st *State, v *Term, name string, depth int) (*Term, bool) {
	if depth > 4 || v.T == nil {
		return nil, false
	}
	ptr := false
	t := v.T
	if p := deref(t); p != nil {
		if _, isP := t.Underlying().(*types.Pointer); isP {
			ptr, t = true, p
		}
	}
	s := structOf(t)
	if s == nil {
		return nil, false
	}
	get := func(i int) *Term {
		if ptr {
			return st.load(mkFieldAddr(v, i))
		}
		return mkField(v, i)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return get(i), true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			var sub *Term
			if _, isP := s.Field(i).Type().Underlying().(*types.Pointer); !isP && ptr {
				sub = mkFieldAddr(v, i)
			} else {
				sub = get(i)
			}
			if f, ok := fieldOf(st, sub, name, depth+1); ok {
				return f, true
			}
		}
	}
	return nil, false
}

func checkRecover(c *Check) {
	fn := c.p.fn("middleware", "PanicRecover")
	e := c.engine()
	e.panicCalls = true
	m := c.middleware(e, fn, symParams(fn, ""), nil)
	c.needLive(m.runs, "PanicRecover")
	panicked := 0
	for i := range m.runs {
		r := m.runs[i]
		pos := r.pos()
		pan := false
		for _, ev := range r.events(func(e *Event) bool { return e.Kind == "panic" && stripConv(e.Callee) == m.handler }) {
			pan = true
			_ = ev
		}
		if pan {
			panicked++
			c.require(!r.panics(), "panic-stopped", pos, &r.Scope, "a panic of the handler leaves the middleware")
			if !r.panics() {
				c.require(r.isNotNil(r.err), "panic-becomes-error", pos, &r.Scope, "the handler panicked but the returned error may be nil")
			}
			continue
		}
		if !c.require(!r.panics(), "no-own-panic", pos, &r.Scope, "the middleware itself panics") {
			continue
		}
		h, once := m.once(r.Scope)
		if !c.require(once && same(r.Scope, h.Args[0], m.ctx) && same(r.Scope, h.Args[1], m.mc), "handler-once", pos, &r.Scope, "the handler is not called exactly once with the request") {
			continue
		}
		c.require(r.returns(h.Event), "result-handed-on", pos, &r.Scope, "the result of a handler that does not panic is changed")
	}
	c.require(panicked > 0, "panic-considered", fn.Pos(), nil, "no path with a panicking handler was found")
}

// headerWrite is a header set on a response
type headerWrite struct {
	key *Term
	val *Term
	ev  EvAt
}

const respPkg = modPath + "/response"

// writes to the header map of the response; other says whether there are changes to any other map
func headerWrites(s Scope, hdr *Term) (out []headerWrite, other bool) {
	s.every(func(in Scope, e EvAt) {
		switch e.Kind {
		case "mapupdate":
			if same(in, e.Args[0], hdr) {
				out = append(out, headerWrite{e.Args[1], e.Args[2], e})
			} else if t := e.Args[0].T; t != nil && types.Identical(t, hdr.T) {
				other = true
			}
		case "mapdelete", "mapclear":
			if same(in, e.Args[0], hdr) {
				other = true
			}
		}
	})
	return
}

func checkSecurityHeaders(c *Check) {
	fn := c.p.fn("middleware", "SecurityHeaders")
	e := c.engine()
	e.pureOpaque["("+respPkg+".HttpResponse).Headers"] = true
	args := symParams(fn, "")
	cfg := args[0]
	m := c.middleware(e, fn, args, nil)
	c.needLive(m.runs, "SecurityHeaders")
	f := func(path ...string) *Term {
		t := cfg
		for _, n := range path {
			s := structOf(t.T)
			ok := false
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					t = mkField(t, i)
					ok = true
					break
				}
			}
			if !ok {
				panic(undecided("SecurityHeadersConfig has no field " + n))
			}
		}
		return t
	}
	for i := range m.runs {
		r := m.runs[i]
		pos := r.pos()
		if r.panics() {
			c.require(false, "no-panic", pos, &r.Scope, "the middleware panics")
			continue
		}
		h, once := m.once(r.Scope)
		if !c.require(once && same(r.Scope, h.Args[0], m.ctx) && same(r.Scope, h.Args[1], m.mc), "handler-once", pos, &r.Scope, "the handler is not called exactly once with the request") {
			continue
		}
		resp, herr := mkExtract(h.Res, 0), mkExtract(h.Res, 1)
		hdr := mkPure("("+respPkg+".HttpResponse).Headers", c.p.typ("response", "HttpHeaders"), resp)
		ws, other := headerWrites(r.Scope, hdr)
		c.require(!other, "only-the-response-headers", pos, &r.Scope, "headers of something else than the response are changed, or removed")
		if r.isNotNil(herr) {
			c.require(sameErr(r.Scope, r.err, herr), "error-handed-on", pos, &r.Scope, "the handler's error is not what is returned")
			c.require(len(ws) == 0, "no-header-on-error", pos, &r.Scope, "headers are set although the handler failed")
			continue
		}
		if !c.require(r.isNil(herr), "error-told-apart", pos, &r.Scope, "success and failure of the handler are not told apart") {
			continue
		}
		c.require(same(r.Scope, r.resp, resp) && r.isNil(r.err), "response-handed-on", pos, &r.Scope, "the handler's response is not what is returned")
		if r.isNil(hdr) {
			continue // a response without header map
		}
		mcR := mkField(m.mc, 0)
		_ = mcR
		secure := func() *bool {
			req := c.requestOf(m.mc)
			tls := r.st.load(c.fieldAddr(req, "TLS"))
			sch := r.st.load(c.fieldAddr(r.st.load(c.fieldAddr(req, "URL")), "Scheme"))
			https := false
			known := true
			if v, ok := r.facts.decide(mkEqualFold(sch, mkStr("https"))); ok {
				https = v
			} else if v, ok := r.facts.decide(mkEq(mkPure("strings.ToLower", tString, sch), mkStr("https"))); ok {
				https = v
			} else {
				known = false
			}
			b := false
			if r.isNotNil(tls) || known && https {
				b = true
				return &b
			}
			if r.isNil(tls) && known && !https {
				return &b
			}
			return nil
		}()
		dec := func(t *Term) *bool {
			if v, ok := r.facts.decide(t); ok {
				return &v
			}
			return nil
		}
		and := func(a, b *bool) *bool {
			no := false
			if a != nil && !*a || b != nil && !*b {
				return &no
			}
			if a != nil && b != nil {
				yes := true
				return &yes
			}
			return nil
		}
		sts := func(v *Term) bool {
			if hv := f("STS", "headerValue"); !r.facts.always(mkEq(hv, mkStr(""))) {
				return same(r.Scope, v, hv)
			}
			want := []*Term{mkStr("max-age="), mkItoa(f("STS", "MaxAgeSeconds"))}
			for _, x := range []struct{ f, s string }{{"IncludeSubDomains", ";includeSubDomains"}, {"Preload", ";preload"}} {
				d := dec(f("STS", x.f))
				if d == nil {
					return false
				}
				if *d {
					want = append(want, mkStr(x.s))
				}
			}
			return same(r.Scope, v, mkConcat(want...))
		}
		xfo := func(v *Term) bool {
			if hv := f("ClickJacking", "headerValue"); !r.facts.always(mkEq(hv, mkStr(""))) {
				return same(r.Scope, v, hv)
			}
			want := []*Term{f("ClickJacking", "XFrameOptionHeaderValue")}
			from := c.p.pkg("middleware").Pkg.Scope().Lookup("XFrameOptionAllowFrom").(*types.Const)
			d := dec(mkEq(f("ClickJacking", "XFrameOption"), mkConst(from.Val(), from.Type())))
			if d == nil {
				return false
			}
			if *d {
				want = append(want, mkStr(" "), f("ClickJacking", "XFrameAllowFromUri"))
			}
			return same(r.Scope, v, mkConcat(want...))
		}
		lit := func(s string) func(*Term) bool {
			return func(v *Term) bool { return same(r.Scope, v, mkStr(s)) }
		}
		rules := []struct {
			key  string
			when *bool
			val  func(*Term) bool
		}{
			{"Strict-Transport-Security", and(dec(f("STS", "Enabled")), secure), sts},
			{"X-Frame-Options", dec(f("ClickJacking", "Enabled")), xfo},
			{"X-Content-Type-Options", dec(f("BlockContentSniffingEnabled")), lit("nosniff")},
			{"X-Xss-Protection", dec(f("XSSProtectionEnabled")), lit("1; mode=block")},
		}
		used := 0
		for _, rule := range rules {
			n := 0
			for _, w := range ws {
				if k, ok := w.key.strVal(); ok && http.CanonicalHeaderKey(k) == rule.key {
					n++
					used++
					c.require(rule.val(w.val), "header-value", w.ev.Pos, &r.Scope, "%s is set to %s, not to the configured value", rule.key, w.val)
				}
			}
			if !c.require(rule.when != nil, "header-condition-decided", pos, &r.Scope, "%s: whether it is due was not decided on this path", rule.key) {
				continue
			}
			if *rule.when {
				c.require(n == 1, "header-set-when-due", pos, &r.Scope, "%s is due but set %d times", rule.key, n)
			} else {
				c.require(n == 0, "header-only-when-due", pos, &r.Scope, "%s is set although it is not due", rule.key)
			}
		}
		c.require(used == len(ws), "no-other-header", pos, &r.Scope, "another header is set")
	}
}

// requestOf is the *http.Request of a matching context
func (c *Check) requestOf(mc *Term) *Term { return c.fieldOfVal(mc, "R") }

func (c *Check) fieldOfVal(v *Term, name string) *Term {
	s := structOf(v.T)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, i)
		}
	}
	panic(undecided("no field " + name + " in " + v.T.String()))
}

func (c *Check) fieldAddr(ptr *Term, name string) *Term {
	s := structOf(deref(ptr.T))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkFieldAddr(ptr, i)
		}
	}
	panic(undecided("no field " + name + " in " + ptr.T.String()))
}
