package main

// Rules for the responses: what reaches the client and in which order.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	std := []string{"a custom http.ResponseWriter, template, reader, writer function or wrapped response may do anything with the writer it is given but does not keep it"}
	specs["C28"] = spec{run: checkWriteOrder, min: 60, assume: std,
		explain: "every path of the Write method of every type of the response package that is an HttpResponse; typestate of the writer: headers and cookies, then the status once and within 100..999, then the body"}
	specs["C29"] = spec{run: checkHeadersReach, min: 60, assume: std,
		explain: "every path of the Write method of every HttpResponse type that ends without error: loops over the header and the cookie map must hand over each entry, the status must be that of the response, the content type its default unless one was set; every constructor must keep what it is given"}
	specs["C30"] = spec{run: checkWriteErrors, min: 40, assume: std,
		explain: "every path of the Write method of every HttpResponse type: on each path the outcome of every call that can fail must be known, a failure must be returned and must be followed by no body write"}
	specs["C31"] = spec{run: checkRecycled, min: 40, assume: std,
		explain: "every normal and panicking path of the Write method of every HttpResponse type: what is put into a pool was emptied before, is put once, is not used afterwards, and no field of the response refers to it at the end"}
	specs["C11"] = spec{run: checkPayload, min: 15, assume: std,
		explain: "every path of the Write method of every HttpResponse type that ends without error: the calls that write the body are compared with what the kind of response demands"}
}

type respType struct {
	name    string
	named   *types.Named
	recv    types.Type
	write   *ssa.Function
	hijack  bool // has no headers and no cookies
	wrapper bool // forwards to another response
}

type respCase struct {
	t      respType
	e      *Engine
	r      *Term
	w, mc  *Term
	hdr    *Term // header map of the writer
	hm, cm *Term // header and cookie map of the response, nil when it has none
	st     *State
	runs   []run
}

// respTypes are the types of the response package that are HttpResponses
func (c *Check) respTypes() (out []respType) {
	pkg := c.p.pkg("response")
	iface := c.p.typ("response", "HttpResponse").Underlying().(*types.Interface)
	names := pkg.Pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(named) {
			continue
		}
		var recv types.Type
		switch {
		case types.Implements(named, iface):
			recv = named
		case types.Implements(types.NewPointer(named), iface):
			recv = types.NewPointer(named)
		default:
			continue
		}
		fn := c.p.prog.LookupMethod(recv, pkg.Pkg, "Write")
		if fn == nil {
			panic(undecided("no Write method of " + n))
		}
		out = append(out, respType{name: n, named: named, recv: recv, write: fn})
	}
	if len(out) < 5 {
		panic(undecided("the response types were not found"))
	}
	return
}

// response analyses the Write method of a type
func (c *Check) response(t respType, prep func(*Engine)) *respCase {
	e := c.engine()
	k := &respCase{t: t, e: e}
	e.pureOpaque["(net/http.ResponseWriter).Header"] = true
	e.pureOpaque["("+respPkg+".ServerSentEvent).String"] = true // C34 analyses it
	if prep != nil {
		prep(e)
	}
	st := newState(e)
	k.r = mkSym("r", t.recv)
	if _, isP := t.recv.(*types.Pointer); isP {
		st.facts.assume(mkEq(k.r, mkNil()), false)
	}
	wT := c.p.stdType("net/http", "ResponseWriter")
	k.w = mkSym("w", wT)
	k.mc = mkSym("mc", c.mcType())
	st.facts.assume(mkEq(k.w, mkNil()), false)
	st.facts.assume(mkEq(c.requestOf(k.mc), mkNil()), false)
	k.hdr = mkPure("(net/http.ResponseWriter).Header", c.p.stdType("net/http", "Header"), k.w)
	st.facts.assume(mkEq(k.hdr, mkNil()), false)
	k.st = st.fork()
	k.hm, k.t.hijack, k.t.wrapper = c.mapOf(k, "Headers")
	var h2, w2 bool
	k.cm, h2, w2 = c.mapOf(k, "Cookies")
	if h2 != k.t.hijack || w2 != k.t.wrapper {
		panic(undecided(t.name + ": headers and cookies are treated differently"))
	}
	for _, o := range e.callFn(st, t.write, []*Term{k.r, k.w, k.mc}, nil, 0) {
		c.paths++
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		if o.Panic == nil {
			r.err = o.Vals[0]
			k.runs = append(k.runs, r.byErr()...)
		} else {
			k.runs = append(k.runs, r)
		}
	}
	dumpRuns(c, k.runs)
	c.require(len(k.runs) > 0, "returns", t.write.Pos(), nil, "%s: no way to return was found", t.name)
	return k
}

// mapOf is the map the response holds its headers or cookies in
func (c *Check) mapOf(k *respCase, method string) (m *Term, none, wraps bool) {
	fn := c.p.prog.LookupMethod(k.t.recv, c.p.pkg("response").Pkg, method)
	allNil := true
	opq := "(" + respPkg + ".HttpResponse)." + method
	for _, o := range k.e.callFn(k.st.fork(), fn, []*Term{k.r}, nil, 0) {
		if o.Panic != nil {
			if k.e.panicCalls {
				continue
			}
			panic(undecided(k.t.name + "." + method + " panics"))
		}
		v := stripConv(o.Vals[0])
		s := scopeOf(o.St)
		if o.St.facts.always(mkEq(v, mkNil())) {
			continue
		}
		allNil = false
		if evs := s.events(isCall(opq)); len(evs) == 1 && evs[0].Res == v {
			wraps = true
			continue
		}
		if v.Op == OLoad && rootOf(v.Args[0]) == k.r {
			if m != nil && m != v {
				panic(undecided(k.t.name + "." + method + " gives several maps"))
			}
			m = v
			continue
		}
		// a new map has to be kept in the field the map is read from otherwise
	}
	if allNil {
		return nil, true, false
	}
	if m == nil && !wraps {
		panic(undecided(k.t.name + "." + method + ": the map is not a field of the response"))
	}
	return m, false, wraps
}

type wEvent struct {
	kind string // header status body flush delegate
	at   int    // position in the run
	loop int    // depth of loops
	in   Scope
	ev   EvAt
}

var writerOnly = map[string]bool{
	"compress/gzip.NewWriterLevel": true, "compress/flate.NewWriter": true, "compress/gzip.NewWriter": true, "bufio.NewWriter": true,
}

// wEvents are the events on the writer, loops included
func (k *respCase) wEvents(s Scope, w, hdr *Term) (out []wEvent) {
	var walk func(s Scope, at, depth int)
	walk = func(s Scope, at, depth int) {
		for i, it := range s.items {
			pos := at
			if depth == 0 {
				pos = i
			}
			switch x := it.(type) {
			case *Event:
				if kd := k.classify(s, x, w, hdr); kd != "" {
					out = append(out, wEvent{kd, pos, depth, s, EvAt{x, i}})
				}
			case *LoopExit:
				for _, t := range x.transitions() {
					walk(transScope(t), pos, depth+1)
				}
			}
		}
	}
	walk(s, 0, 0)
	return
}

func (k *respCase) classify(s Scope, e *Event, w, hdr *Term) string {
	isW := func(t *Term) bool { return t != nil && (stripConv(stripIface(t)) == w || same(s, stripConv(t), w)) }
	isH := func(t *Term) bool { return t != nil && same(s, stripConv(t), hdr) }
	switch e.Kind {
	case "mapupdate", "mapdelete", "mapclear":
		if isH(e.Args[0]) {
			return "header"
		}
		return ""
	case "store", "append", "copy":
		return ""
	}
	if len(e.Args) == 0 {
		return ""
	}
	if isW(e.Args[0]) && e.Kind == "invoke" {
		switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
		case "WriteHeader":
			return "status"
		case "Write", "WriteString", "ReadFrom":
			return "body"
		case "Flush", "FlushError":
			return "flush"
		case "Hijack":
			return "delegate"
		}
		return "body"
	}
	switch e.Name {
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
		if isH(e.Args[0]) {
			return "header"
		}
		return ""
	case "net/http.SetCookie":
		if isW(e.Args[0]) {
			return "header"
		}
	case "net/http.Redirect", "net/http.Error", "net/http.NotFound":
		if isW(e.Args[0]) {
			return "status"
		}
	case "(net/http.Handler).ServeHTTP", "(net/http.HandlerFunc).ServeHTTP", "(" + respPkg + ".HttpResponse).Write":
		return "delegate"
	}
	if writerOnly[e.Name] {
		return ""
	}
	for _, a := range e.Args {
		if isW(a) {
			return "body"
		}
	}
	return ""
}

// statusArg is the status an event sends
func statusArg(e *Event) *Term {
	switch e.Name {
	case "net/http.Redirect":
		return e.Args[3]
	case "net/http.Error":
		return e.Args[2]
	case "net/http.NotFound":
		return mkInt(404)
	}
	return e.Args[1]
}

func (c *Check) eachResponse(prep func(*Engine), f func(k *respCase)) {
	for _, t := range c.respTypes() {
		f(c.response(t, prep))
	}
}

// ---- C28

func checkWriteOrder(c *Check) {
	c.eachResponse(nil, func(k *respCase) {
		n := k.t.name
		for i := range k.runs {
			r := k.runs[i]
			if r.panics() {
				continue
			}
			pos := k.t.write.Pos()
			evs := k.wEvents(r.Scope, k.w, k.hdr)
			sent, begun, delegated := -1, -1, -1
			for _, e := range evs {
				switch e.kind {
				case "header":
					if sent >= 0 || begun >= 0 {
						// taking a header away has no effect once it was sent
						harmless := e.ev.Name == "(net/http.Header).Del" || e.ev.Kind == "mapdelete"
						c.require(harmless, "headers-before-status", e.ev.Pos, &r.Scope, "%s: a header or cookie is set after the status or the body", n)
					}
				case "status":
					c.require(e.loop == 0 && sent < 0, "status-once", e.ev.Pos, &r.Scope, "%s: the status may be sent more than once", n)
					c.require(begun < 0, "status-before-body", e.ev.Pos, &r.Scope, "%s: the status is sent after the body has begun", n)
					s := statusArg(e.ev.Event)
					f := e.in.facts
					ok := f.never(mkLt(s, mkInt(100))) && f.always(mkLt(s, mkInt(1000)))
					c.require(ok, "status-valid", e.ev.Pos, &r.Scope, "%s: the status %s sent was not found to be between 100 and 999", n, s)
					sent = e.at
				case "body", "flush":
					c.require(sent >= 0 || begun >= 0 && delegated >= 0, "body-after-status", e.ev.Pos, &r.Scope, "%s: the body is written before the status", n)
					begun = e.at
				case "delegate":
					c.require(e.loop == 0 && delegated < 0 && sent < 0 && begun < 0, "delegated-once", e.ev.Pos, &r.Scope, "%s: another handler or response writes after the status was sent", n)
					delegated, begun = e.at, e.at
				}
			}
			// loops: what comes later in an iteration comes earlier than the next one
			perLoop := map[int][2]bool{}
			for _, e := range evs {
				if e.loop > 0 {
					x := perLoop[e.at]
					x[0] = x[0] || e.kind == "header"
					x[1] = x[1] || e.kind == "body" || e.kind == "flush" || e.kind == "status"
					perLoop[e.at] = x
				}
			}
			for _, x := range perLoop {
				c.require(!(x[0] && x[1]), "headers-before-body-in-loop", pos, &r.Scope, "%s: a loop sets headers and writes the body", n)
			}
			if sent < 0 && delegated < 0 && !k.t.hijack {
				c.require(r.isNotNil(r.err) && begun < 0, "nothing-sent-is-an-error", pos, &r.Scope, "%s: no status is sent but no error is returned", n)
			}
		}
	})
	c.checkWrappedWriter()
}

// wrappedWriters are the types of the response package that are http.ResponseWriters
func (c *Check) wrappedWriters() (out []*types.Named) {
	pkg := c.p.pkg("response")
	iface := c.p.stdType("net/http", "ResponseWriter").Underlying().(*types.Interface)
	names := pkg.Pkg.Scope().Names()
	for _, n := range names {
		tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if ok && !types.IsInterface(named) && (types.Implements(named, iface) || types.Implements(types.NewPointer(named), iface)) {
			out = append(out, named)
		}
	}
	return
}

// fieldOfType is the field of the given type, looked up by its type
func fieldOfType(st *State, r *Term, t types.Type) *Term {
	s := structOf(deref(r.T))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			return st.load(mkFieldAddr(r, i))
		}
	}
	return nil
}

// checkWrappedWriter: a writer that stands in for the client's forwards the status once and unchanged, before the body
func (c *Check) checkWrappedWriter() {
	rwT := c.p.stdType("net/http", "ResponseWriter")
	for _, named := range c.wrappedWriters() {
		n := named.Obj().Name()
		recv := types.NewPointer(named)
		fn := c.p.prog.LookupMethod(recv, c.p.pkg("response").Pkg, "WriteHeader")
		e := c.engine()
		e.pureOpaque["(net/http.ResponseWriter).Header"] = true
		st := newState(e)
		r := mkSym("cw", recv)
		code := mkSym("code", tInt)
		st.facts.assume(mkEq(r, mkNil()), false)
		inner := fieldOfType(st, r, rwT)
		if inner == nil {
			panic(undecided(n + " wraps no http.ResponseWriter"))
		}
		st.facts.assume(mkEq(inner, mkNil()), false)
		for _, o := range e.callFn(st, fn, []*Term{r, code}, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			sent := s.events(func(x *Event) bool {
				return x.Kind == "invoke" && strings.HasSuffix(x.Name, ").WriteHeader") && same(s, x.Args[0], inner)
			})
			c.require(o.Panic == nil && len(sent) == 1 && same(s, sent[0].Args[1], code) && len(s.loopEvents(func(x *Event) bool { return strings.HasSuffix(x.Name, ").WriteHeader") })) == 0,
				"status-forwarded", fn.Pos(), &s, "%s.WriteHeader does not forward the status exactly once", n)
			c.require(s.count(func(x *Event) bool {
				return x.Kind == "invoke" && (strings.HasSuffix(x.Name, ").Write") || strings.HasSuffix(x.Name, ").Flush"))
			}) == 0, "status-without-body", fn.Pos(), &s, "%s.WriteHeader writes or flushes data", n)
		}
		hfn := c.p.prog.LookupMethod(recv, c.p.pkg("response").Pkg, "Header")
		for _, o := range e.callFn(st, hfn, []*Term{r}, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			c.require(o.Panic == nil && o.Vals[0] == mkPure("(net/http.ResponseWriter).Header", c.p.stdType("net/http", "Header"), inner), "headers-shared", hfn.Pos(), &s, "%s.Header does not give the headers sent to the client", n)
		}
	}
}

// ---- C29

func checkHeadersReach(c *Check) {
	c.eachResponse(nil, func(k *respCase) {
		n := k.t.name
		if k.t.hijack {
			return
		}
		pos := k.t.write.Pos()
		ok := 0
		for i := range k.runs {
			r := k.runs[i]
			if r.panics() || !r.isNil(r.err) {
				continue
			}
			ok++
			evs := k.wEvents(r.Scope, k.w, k.hdr)
			if k.t.wrapper {
				d := 0
				for _, e := range evs {
					if e.kind == "delegate" && e.ev.Name == "("+respPkg+".HttpResponse).Write" && e.loop == 0 {
						d++
						own, _ := firstOfType(c, r.st, k.r, "HttpResponse")
						c.require(own != nil && same(r.Scope, e.ev.Args[0], own), "wrapped-response-written", e.ev.Pos, &r.Scope, "%s: another response than the wrapped one is written", n)
						c.require(same(r.Scope, e.ev.Args[2], k.mc), "wrapped-response-gets-request", e.ev.Pos, &r.Scope, "%s: the wrapped response gets another request", n)
					}
				}
				c.require(d == 1, "wrapped-response-once", pos, &r.Scope, "%s: the wrapped response is written %d times", n, d)
				continue
			}
			// maps of the response are not changed before they are written
			committed := len(r.items)
			for _, e := range evs {
				if e.kind == "status" || e.kind == "delegate" {
					if e.at < committed {
						committed = e.at
					}
				}
			}
			pre := r.upto(committed)
			pre.every(func(in Scope, e EvAt) {
				if e.Kind == "mapupdate" || e.Kind == "mapdelete" || e.Kind == "mapclear" {
					c.require(!same(in, stripConv(e.Args[0]), k.hm) && !same(in, stripConv(e.Args[0]), k.cm), "maps-kept", e.Pos, &r.Scope, "%s: the headers or cookies of the response are changed before they are written", n)
				}
			})
			if !pre.isNil(k.hm) {
				at := -1
				all := pre.forAll(k.hm, func(it Scope, e Elem) bool {
					return len(it.events(func(x *Event) bool {
						return (isCall("(net/http.Header).Set")(x) || isCall("(net/http.Header).Add")(x)) && same(it, x.Args[0], k.hdr) && isKeyOf(x.Args[1], k.hm) && e.is(x.Args[2])
					})) > 0
				})
				c.require(all, "headers-written", pos, &r.Scope, "%s: not every header of the response is set on the writer before the status", n)
				for j, it := range pre.items {
					if x, isL := it.(*LoopExit); isL {
						if _, full := pre.covers(j, k.hm); full {
							_ = x
							at = j
						}
					}
				}
				// a later write must not replace what was set
				for _, e := range evs {
					if e.kind != "header" || e.at <= at || e.at >= committed || e.ev.Name == "net/http.SetCookie" {
						continue
					}
					free := false
					if len(e.ev.Args) > 2 && e.loop == 0 {
						free = c.headerFree(k, r, at, e)
					}
					c.require(free, "headers-not-replaced", e.ev.Pos, &r.Scope, "%s: a header is set after those of the response although one may have been given", n)
				}
			}
			if !pre.isNil(k.cm) {
				all := pre.forAll(k.cm, func(it Scope, e Elem) bool {
					return len(it.events(func(x *Event) bool {
						return isCall("net/http.SetCookie")(x) && same(it, x.Args[0], k.w) && e.is(x.Args[1])
					})) > 0
				})
				c.require(all, "cookies-written", pos, &r.Scope, "%s: not every cookie of the response is set on the writer before the status", n)
			}
			for _, e := range evs {
				if e.kind == "header" && e.at < committed && (e.ev.Name == "(net/http.Header).Del" || e.ev.Kind == "mapdelete" || e.ev.Kind == "mapclear") {
					c.require(false, "headers-not-removed", e.ev.Pos, &r.Scope, "%s: a header is removed before the status is sent", n)
				}
			}
			// status and content type
			code, hasCode := fieldNamed(k.st.fork(), k.r, "HttpStatusCode")
			if hasCode {
				for _, e := range evs {
					if e.kind != "status" {
						continue
					}
					s := statusArg(e.ev.Event)
					good := same(r.Scope, s, code)
					if r.facts.always(mkEq(code, mkInt(0))) {
						good = same(r.Scope, s, mkInt(200))
					}
					c.require(good, "own-status", e.ev.Pos, &r.Scope, "%s: status %s is sent instead of that of the response", n, s)
				}
				if ct, has := fieldNamed(k.st.fork(), k.r, "ContentType"); has {
					c.contentType(k, r, pre, evs, ct, committed)
				}
			}
		}
		c.require(ok > 0, "success-reachable", pos, nil, "%s: Write never succeeds", n)
	})
	c.checkConstructors()
	c.checkSetters()
}

// checkSetters: setting a header and adding cookies keeps them all
func (c *Check) checkSetters() {
	fn := c.p.fn("response", "HttpHeaders.Set")
	e := c.engine()
	args := []*Term{mkSym("h", c.p.typ("response", "HttpHeaders")), mkSym("key", tString), mkSym("val", tString)}
	st := newState(e)
	st.facts.assume(mkEq(args[0], mkNil()), false)
	for _, o := range e.callFn(st, fn, args, nil, 0) {
		c.paths++
		s := scopeOf(o.St)
		ups := s.events(func(x *Event) bool { return x.Kind == "mapupdate" && same(s, x.Args[0], args[0]) })
		good := o.Panic == nil && len(ups) == 1 && same(s, ups[0].Args[1], args[1]) && same(s, ups[0].Args[2], args[2]) && s.count(func(x *Event) bool { return x.Kind == "mapdelete" || x.Kind == "mapclear" }) == 0
		c.require(good, "set-keeps", fn.Pos(), &s, "HttpHeaders.Set does not store exactly the given header")
	}
	for _, n := range []string{"HttpCookies.Add", "NewHttpCookie"} {
		fn := c.p.fn("response", n)
		e := c.engine()
		st := newState(e)
		args := symParams(fn, "")
		list := args[len(args)-1]
		var m *Term
		if len(args) > 1 {
			m = args[0]
			st.facts.assume(mkEq(m, mkNil()), false)
		}
		for _, o := range e.callFn(st, fn, args, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			if o.Panic != nil {
				ev := s.events(func(e *Event) bool { return e.Kind == "panic" })
				c.require(len(ev) == 1 && ev[0].Name == "typeassert", "add-no-panic", fn.Pos(), &s, "%s panics", n)
				continue
			}
			m := m
			if m == nil {
				m = o.Vals[0]
			}
			all := s.forAll(list, func(it Scope, el Elem) bool {
				ups := it.events(func(x *Event) bool { return x.Kind == "mapupdate" && same(it, stripConv(x.Args[0]), stripConv(m)) })
				for _, u := range ups {
					if el.is(u.Args[2]) && cookieKey(it, u.Args[1], u.Args[2]) {
						return true
					}
				}
				// nothing to add
				for t, v := range it.facts.truth {
					if v && t.Op == OBin && t.S == "==" && (t.Args[0].isNil() && el.is(t.Args[1]) || t.Args[1].isNil() && el.is(t.Args[0])) {
						return true
					}
				}
				return false
			})
			c.require(all, "add-keeps", fn.Pos(), &s, "%s does not keep every given cookie under a key made of its name, path and domain", n)
			c.require(s.count(func(x *Event) bool { return x.Kind == "mapdelete" || x.Kind == "mapclear" }) == 0, "add-keeps", fn.Pos(), &s, "%s removes cookies", n)
		}
	}
}

// cookieKey: the key holds name, path and domain of the cookie
func cookieKey(s Scope, key, cookie *Term) bool {
	ct := structOf(deref(cookie.T))
	if ct == nil {
		return false
	}
	for i := 0; i < ct.NumFields(); i++ {
		switch ct.Field(i).Name() {
		case "Name", "Path", "Domain":
			addr := mkFieldAddr(cookie, i)
			if !containsF(key, func(x *Term) bool { return x.Op == OLoad && x.Args[0] == addr }) {
				return false
			}
		}
	}
	return true
}

// contentType: the default is set exactly when no content type was set
func (c *Check) contentType(k *respCase, r run, pre Scope, evs []wEvent, ct *Term, committed int) {
	n := k.t.name
	set := false
	for _, e := range evs {
		if e.kind == "header" && e.at < committed && len(e.ev.Args) > 2 && e.ev.Args[1].isStr("Content-Type") && e.loop == 0 {
			set = true
			c.require(same(r.Scope, e.ev.Args[2], ct), "own-content-type", e.ev.Pos, &r.Scope, "%s: content type %s is set instead of that of the response", n, e.ev.Args[2])
		}
	}
	if set || pre.facts.always(mkEq(ct, mkStr(""))) {
		return
	}
	// it must have been found that one was set
	given := false
	for t, v := range pre.facts.truth {
		if !v && t.Op == OBin && t.S == "==" && (t.Args[0].isStr("") || t.Args[1].isStr("")) && containsF(t, func(x *Term) bool {
			return isHeaderRead(x, k.hdr, "Content-Type") || isKeyLookup(x, k.hm, "Content-Type")
		}) {
			given = true
		}
		if v && t.Op == OLookupOk && (stripConv(t.Args[0]) == k.hdr || stripConv(t.Args[0]) == k.hm) && t.Args[1].isStr("Content-Type") {
			given = true
		}
		if containsF(t, func(x *Term) bool {
			return x.Op == OLen && containsF(x, func(y *Term) bool { return isHeaderRead(y, k.hdr, "Content-Type") })
		}) && (v && t.Op == OBin && t.S == "<" && t.Args[0].isInt(0) || !v && t.Op == OBin && t.S == "==" && (t.Args[0].isInt(0) || t.Args[1].isInt(0))) {
			given = true
		}
	}
	c.require(given, "content-type-set", k.t.write.Pos(), &r.Scope, "%s: the content type of the response is not set although none was found to be set", n)
}

func isHeaderRead(x, hdr *Term, name string) bool {
	if x.Op == OCell && strings.Contains(x.S, "key:"+name) || x.Op == OLoad && x.Args[0].Op == OCell && strings.Contains(x.Args[0].S, "key:"+name) {
		return contains(x, hdr)
	}
	return x.Op == OPure && x.S == "(net/http.Header).Get" && x.Args[1].isStr(name) && x.Args[0] == hdr || x.Op == OLookup && stripConv(x.Args[0]) == hdr && x.Args[1].isStr(name)
}

func isKeyLookup(x, m *Term, name string) bool {
	return x.Op == OLookup && stripConv(x.Args[0]) == m && x.Args[1].isStr(name)
}

// headerFree: the header was found to be empty after the headers of the response were set
func (c *Check) headerFree(k *respCase, r run, after int, e wEvent) bool {
	name, ok := e.ev.Args[1].strVal()
	if !ok {
		return false
	}
	for j := after + 1; j < e.at && j < len(r.items); j++ {
		f, isF := r.items[j].(*FactItem)
		if !isF {
			continue
		}
		if containsF(f.T, func(x *Term) bool { return isHeaderRead(x, k.hdr, name) }) {
			fs := r.upto(j + 1)
			for t, v := range fs.facts.truth {
				if v && t.Op == OBin && t.S == "==" && (t.Args[0].isStr("") || t.Args[1].isStr("") || t.Args[0].isInt(0) || t.Args[1].isInt(0)) && containsF(t, func(x *Term) bool { return isHeaderRead(x, k.hdr, name) }) {
					return true
				}
			}
		}
	}
	return false
}

func isKeyOf(t, m *Term) bool {
	return t.Op == ONext && t.S == "key" && t.Args[1] == m
}

// firstOfType: the field of the given type of the response package
func firstOfType(c *Check, st *State, r *Term, name string) (*Term, bool) {
	t := c.p.typ("response", name)
	s := structOf(deref(r.T))
	if s == nil {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			return st.load(mkFieldAddr(r, i)), true
		}
	}
	return nil, false
}

// checkConstructors: what a constructor is given is kept in the response
func (c *Check) checkConstructors() {
	pkg := c.p.pkg("response")
	iface := c.p.typ("response", "HttpResponse").Underlying().(*types.Interface)
	hT, cT := c.p.typ("response", "HttpHeaders"), c.p.typ("response", "HttpCookies")
	names := pkg.Pkg.Scope().Names()
	checked := 0
	for _, n := range names {
		fo, ok := pkg.Pkg.Scope().Lookup(n).(*types.Func)
		if !ok || !fo.Exported() {
			continue
		}
		fn := pkg.Func(n)
		sig := fo.Type().(*types.Signature)
		if fn == nil || sig.Results().Len() == 0 || !types.Implements(sig.Results().At(0).Type(), iface) {
			continue
		}
		e := c.engine()
		st := newState(e)
		args := symParams(fn, "")
		for i := range args {
			_ = i
		}
		for _, o := range e.callFn(st, fn, args, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			if !c.require(o.Panic == nil, "constructor-no-panic", fn.Pos(), &s, "%s panics", n) {
				continue
			}
			obj := stripIface(o.Vals[0])
			if len(o.Vals) > 1 && s.isNotNil(o.Vals[len(o.Vals)-1]) {
				continue
			}
			want := func(field string, v *Term) {
				got, ok := fieldNamed(o.St, obj, field)
				checked++
				c.require(ok && same(s, stripConv(got), v), "constructor-keeps-"+field, fn.Pos(), &s, "%s does not keep the given %s in the response", n, field)
			}
			for i, a := range args {
				t := fn.Params[i].Type()
				switch {
				case types.Identical(t, hT):
					want("HttpHeaders", a)
				case types.Identical(t, cT):
					want("HttpCookies", a)
				case strings.EqualFold(fn.Params[i].Name(), "statusCode") && isIntType(t):
					want("HttpStatusCode", a)
				case strings.EqualFold(fn.Params[i].Name(), "contentType") && isStringType(t):
					want("ContentType", a)
				}
			}
		}
	}
	c.require(checked > 0, "constructors-found", token.NoPos, nil, "no constructor with headers was found")
}

// ---- C30

func checkWriteErrors(c *Check) {
	c.eachResponse(nil, func(k *respCase) {
		n := k.t.name
		sse := k.t.named.Obj().Name() == "HttpSSEResponse"
		for i := range k.runs {
			r := k.runs[i]
			if r.panics() {
				c.require(false, "no-panic", k.t.write.Pos(), &r.Scope, "%s panics by itself", n)
				continue
			}
			wes := k.wEvents(r.Scope, k.w, k.hdr)
			isBody := map[*Event]bool{}
			sent := k.t.hijack
			for _, w := range wes {
				sent = sent || w.kind == "status" || w.kind == "delegate"
				if w.kind == "body" {
					isBody[w.ev.Event] = true
				}
			}
			c.require(sent || r.isNotNil(r.err), "failure-returned", k.t.write.Pos(), &r.Scope, "%s: nothing is sent and no error is returned", n)
			r.every(func(in Scope, e EvAt) {
				er := errorOf(e.Event)
				if er == nil || !mayFail(e.Event, k.w) {
					return
				}
				inLoop := len(in.items) != len(r.items) || in.base != r.base || !sameItems(in, r.Scope)
				if in.isNil(er) {
					return
				}
				if inLoop {
					c.require(false, "failure-ends-loop", e.Pos, &in, "%s: an iteration goes on although %s may have failed", n, e.Name)
					return
				}
				known := in.isNotNil(er)
				if sse && isBody[e.Event] {
					c.require(known, "failure-seen", e.Pos, &r.Scope, "%s: whether %s failed is not examined", n, e.Name)
				} else {
					direct := same(r.Scope, r.err, er)
					c.require(direct || known && r.isNotNil(r.err) || c.onlyNoBody(r, er), "failure-returned", e.Pos, &r.Scope, "%s: an error of %s is not returned", n, e.Name)
				}
				if known {
					for _, w := range wes {
						c.require(!(w.kind == "body" && w.at > e.i), "nothing-after-failure", w.ev.Pos, &r.Scope, "%s: the body is written on after %s failed", n, e.Name)
					}
				}
			})
		}
	})
}

// onlyNoBody: the only failure that is not reported is that a response without body got none
func (c *Check) onlyNoBody(r run, er *Term) bool {
	if r.isNotNil(r.err) {
		return true
	}
	for t, v := range r.facts.truth {
		if v && containsF(t, func(x *Term) bool { return x == er }) && containsF(t, func(x *Term) bool { return x.Op == OGlobal && x.G.String() == "net/http.ErrBodyNotAllowed" }) {
			return true
		}
	}
	return false
}

func sameItems(a, b Scope) bool { return len(a.items) > 0 && &a.items[0] == &b.items[0] }

// errorOf is the error a call gave
func errorOf(e *Event) *Term {
	if e.Res == nil || e.Kind == "recv" {
		return nil
	}
	t := e.Res.T
	errT := types.Universe.Lookup("error").Type()
	if t != nil && types.Identical(t, errT) {
		return e.Res
	}
	if tup, ok := t.(*types.Tuple); ok && tup.Len() > 0 && types.Identical(tup.At(tup.Len()-1).Type(), errT) {
		return mkExtract(e.Res, tup.Len()-1)
	}
	return nil
}

// mayFail: a call whose failure is a failure to produce the response
func mayFail(e *Event, w *Term) bool {
	switch e.Name {
	case "fmt.Errorf", "errors.New", "errors.Join", "compress/gzip.NewWriterLevel", "compress/flate.NewWriter", "(context.Context).Err", "context.Cause":
		return false
	}
	if strings.HasSuffix(e.Name, ").Hijack") {
		return false
	}
	return true
}

// ---- C31

func checkRecycled(c *Check) {
	c.eachResponse(func(e *Engine) { e.panicCalls = true }, func(k *respCase) {
		n := k.t.name
		for i := range k.runs {
			r := k.runs[i]
			pos := k.t.write.Pos()
			puts := r.events(isCall("(*sync.Pool).Put"))
			c.require(len(r.loopEvents(isCall("(*sync.Pool).Put"))) == 0, "put-once", pos, &r.Scope, "%s: a pool is given something in a loop", n)
			for j, p := range puts {
				m := stripConv(stripIface(p.Args[1]))
				own := c.require(m == k.hm || m == k.cm, "own-map-recycled", p.Pos, &r.Scope, "%s: something else than the headers or cookies of the response is recycled", n)
				if !own {
					continue
				}
				for _, q := range puts[:j] {
					c.require(stripConv(stripIface(q.Args[1])) != m, "put-once", p.Pos, &r.Scope, "%s: the same map is recycled twice", n)
				}
				// the right pool
				want := poolOf(c, m)
				c.require(want == nil || same(r.Scope, p.Args[0], want), "own-pool", p.Pos, &r.Scope, "%s: the map is put into another pool than maps of its kind are taken from", n)
				pre := r.upto(p.i)
				empty := pre.forAll(m, func(it Scope, e Elem) bool {
					return len(it.events(func(x *Event) bool { return x.Kind == "mapdelete" && same(it, x.Args[0], m) && isKeyOf(x.Args[1], m) })) > 0
				})
				cleared := -1
				for _, x := range pre.events(func(x *Event) bool { return x.Kind == "mapclear" && same(pre, x.Args[0], m) }) {
					cleared = x.i
				}
				refilled := 0
				start := cleared
				if start < 0 {
					for j, it := range pre.items {
						if _, isL := it.(*LoopExit); isL {
							if _, full := pre.covers(j, m); full {
								start = j
							}
						}
					}
				}
				if start >= 0 {
					refilled = pre.from(start + 1).count(func(x *Event) bool { return x.Kind == "mapupdate" && same(pre, x.Args[0], m) })
				}
				c.require((empty || cleared >= 0) && refilled == 0, "emptied-first", p.Pos, &r.Scope, "%s: the map is recycled without being emptied", n)
				// no use afterwards
				post := r.from(p.i + 1)
				used := 0
				post.every(func(in Scope, e EvAt) {
					for _, a := range append(append([]*Term{}, e.Args...), e.Snap...) {
						if a != nil && contains(a, m) && !(e.Kind == "store" && len(e.Args) > 1 && !contains(e.Args[1], m)) {
							used++
						}
					}
				})
				c.require(used == 0, "not-used-after", p.Pos, &r.Scope, "%s: the map is used after it was recycled", n)
				// no reference left: the field does not hold it any more
				addr := m.Args[0]
				c.require(!contains(r.st.load(addr), m), "reference-dropped", p.Pos, &r.Scope, "%s: the response still refers to the map it recycled", n)
			}
		}
	})
	c.checkRelease()
}

// poolOf is the pool maps of this kind are taken from
func poolOf(c *Check, m *Term) *Term {
	name := "NewHttpHeaders"
	if strings.HasSuffix(m.T.String(), "HttpCookies") {
		name = "NewEmptyHttpCookie"
	}
	fn := c.p.fn("response", name)
	e := c.engine()
	for _, o := range e.callFn(newState(e), fn, nil, nil, 0) {
		if o.Panic != nil {
			continue
		}
		if evs := scopeOf(o.St).events(isCall("(*sync.Pool).Get")); len(evs) == 1 {
			return evs[0].Args[0]
		}
	}
	return nil
}

// checkRelease: nothing but the Write methods and the release methods puts maps into a pool, and what is taken from a
// pool is a map of its own
func (c *Check) checkRelease() {
	for _, n := range []string{"HttpHeaders", "HttpCookies"} {
		fn := c.p.fn("response", n+".Release")
		e := c.engine()
		m := mkSym("m", c.p.typ("response", n))
		for _, o := range e.callFn(newState(e), fn, []*Term{m}, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			puts := s.events(isCall("(*sync.Pool).Put"))
			if len(puts) == 0 {
				continue
			}
			c.require(o.Panic == nil && len(puts) == 1 && s.count(isCall("(*sync.Pool).Put")) == 1, "release-once", fn.Pos(), &s, "%s.Release puts more than once", n)
			pre := s.upto(puts[0].i)
			empty := s.isNil(m) || pre.forAll(m, func(it Scope, e Elem) bool {
				return len(it.events(func(x *Event) bool { return x.Kind == "mapdelete" && same(it, x.Args[0], m) && isKeyOf(x.Args[1], m) })) > 0
			}) || len(pre.events(func(x *Event) bool { return x.Kind == "mapclear" && same(pre, x.Args[0], m) })) > 0
			c.require(empty && stripConv(stripIface(puts[0].Args[1])) == m, "release-emptied", fn.Pos(), &s, "%s.Release recycles something else or a map that is not empty", n)
		}
	}
	for _, n := range []string{"NewHttpHeaders", "NewEmptyHttpCookie"} {
		fn := c.p.fn("response", n)
		e := c.engine()
		for _, o := range e.callFn(newState(e), fn, nil, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			if o.Panic != nil {
				ev := s.events(func(e *Event) bool { return e.Kind == "panic" })
				c.require(len(ev) == 1 && ev[0].Name == "typeassert", "taken-once", fn.Pos(), &s, "%s panics", n)
				continue
			}
			gets := s.events(isCall("(*sync.Pool).Get"))
			if !c.require(len(gets) <= 1, "taken-once", fn.Pos(), &s, "%s takes more than one map", n) || len(gets) == 0 {
				continue
			}
			v := stripConv(o.Vals[0])
			for v.Op == OTA || v.Op == OIface {
				v = v.Args[0]
			}
			c.require(v == gets[0].Res || s.isNil(gets[0].Res) || isFresh(v), "taken-map-returned", fn.Pos(), &s, "%s does not return the map it took", n)
			c.require(s.count(func(e *Event) bool { return isCall("(*sync.Pool).Put")(e) || e.Kind == "store" }) == 0, "taken-map-owned", fn.Pos(), &s, "%s keeps or puts back the map it took", n)
		}
	}
	// who else recycles
	allowed := map[*ssa.Function]bool{}
	for _, t := range c.respTypes() {
		fns, _ := c.p.closureOf(t.write)
		for f := range fns {
			allowed[f] = true
		}
	}
	for _, n := range []string{"HttpHeaders", "HttpCookies"} {
		fns, _ := c.p.closureOf(c.p.fn("response", n+".Release"))
		for f := range fns {
			allowed[f] = true
		}
	}
	puts := 0
	for _, f := range c.p.repoFunctions() {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil {
					continue
				}
				name := cal.String()
				if name == "(*sync.Pool).Put" || strings.HasSuffix(name, "/response.HttpHeaders).Release") || strings.HasSuffix(name, "/response.HttpCookies).Release") {
					puts++
					c.require(allowed[f], "recycled-elsewhere", in.Pos(), nil, "%s recycles a map outside of writing or releasing", f)
				}
			}
		}
	}
	c.require(puts > 0, "recycled-somewhere", token.NoPos, nil, "nothing is ever recycled")
}

// ---- C11

func checkPayload(c *Check) {
	kinds := map[string]bool{}
	c.eachResponse(nil, func(k *respCase) {
		n := k.t.name
		pos := k.t.write.Pos()
		f := func(field string) *Term {
			v, ok := fieldNamed(k.st.fork(), k.r, field)
			if !ok {
				panic(undecided(n + " has no field " + field))
			}
			return v
		}
		for i := range k.runs {
			r := k.runs[i]
			if r.panics() || !r.isNil(r.err) {
				continue
			}
			var bodies []wEvent
			for _, e := range k.wEvents(r.Scope, k.w, k.hdr) {
				if e.kind == "body" || e.kind == "delegate" {
					bodies = append(bodies, e)
				}
			}
			one := func(want string, ok func(e *Event) bool) {
				kinds[n] = true
				good := len(bodies) == 1 && bodies[0].loop == 0 && ok(bodies[0].ev.Event)
				c.require(good, "body-is-payload", pos, &r.Scope, "%s: the body is not %s, written once", n, want)
			}
			empty := func(v *Term) bool {
				if r.isNil(v) || isStringType(v.T) && r.facts.always(mkEq(v, mkStr(""))) {
					c.require(len(bodies) == 0, "body-is-payload", pos, &r.Scope, "%s: something is written although there is no payload", n)
					return true
				}
				return false
			}
			switch n {
			case "HttpTextResponse":
				p := f("Payload")
				if empty(p) {
					continue
				}
				one("the text", func(e *Event) bool { return len(e.Args) > 1 && textOf(r.Scope, r.st, e.Args[1], p) })
			case "HttpJsonResponse":
				p := f("Payload")
				one("the JSON text of the payload", func(e *Event) bool {
					if len(e.Args) < 2 {
						return false
					}
					a := stripConv(e.Args[1])
					if r.isNil(p) {
						return jsonEmpty(c, a)
					}
					for _, m := range r.events(isCall("encoding/json.Marshal")) {
						if a == mkExtract(m.Res, 0) && same(r.Scope, m.Args[0], p) && r.isNil(mkExtract(m.Res, 1)) {
							return true
						}
					}
					return a.Op == OExtract && a.Args[0].Op == OPure && a.Args[0].S == "encoding/json.Marshal" && same(r.Scope, a.Args[0].Args[0], p)
				})
			case "HttpTemplateResponse":
				one("the rendered template", func(e *Event) bool {
					return strings.HasSuffix(e.Name, ".ExecutableTemplate).ExecuteTemplate") && same(r.Scope, e.Args[0], f("Template")) && stripConv(e.Args[1]) == k.w && same(r.Scope, e.Args[2], f("Name")) && same(r.Scope, e.Args[3], f("Data"))
				})
			case "HttpStreamResponse":
				p := f("Reader")
				if empty(p) {
					continue
				}
				one("the content of the reader", func(e *Event) bool {
					return (e.Name == "io.Copy" || e.Name == "io.CopyBuffer") && stripConv(e.Args[0]) == k.w && same(r.Scope, stripConv(e.Args[1]), p)
				})
			case "HttpRawResponse":
				p := f("WriteFunc")
				if empty(p) {
					continue
				}
				one("what the writer function writes", func(e *Event) bool {
					return e.Kind == "dyn" && stripConv(e.Callee) == p && stripConv(e.Args[0]) == k.w
				})
			case "HttpHandlerAdaptorResponse":
				one("what the adapted handler writes", func(e *Event) bool {
					return strings.HasSuffix(e.Name, ").ServeHTTP") && same(r.Scope, e.Args[0], f("handler")) && stripConv(e.Args[1]) == k.w && same(r.Scope, e.Args[2], c.requestOf(k.mc))
				})
			case "HttpHeadersResponse":
				kinds[n] = true
				c.require(len(bodies) == 0, "no-body", pos, &r.Scope, "%s: a body is written", n)
			case "HttpRedirectResponse":
				kinds[n] = true
				reds := r.events(isCall("net/http.Redirect"))
				good := len(reds) == 1 && same(r.Scope, reds[0].Args[0], k.w) && same(r.Scope, reds[0].Args[1], c.requestOf(k.mc)) && same(r.Scope, reds[0].Args[2], f("Url"))
				c.require(good && len(bodies) == 0, "redirect-to-url", pos, &r.Scope, "%s: the client is not redirected to the URL of the response once", n)
			}
		}
	})
	for _, n := range []string{"HttpTextResponse", "HttpJsonResponse", "HttpTemplateResponse", "HttpStreamResponse", "HttpRawResponse", "HttpHandlerAdaptorResponse", "HttpHeadersResponse", "HttpRedirectResponse"} {
		c.require(kinds[n], "kind-analysed", token.NoPos, nil, "%s: no successful write was found", n)
	}
	c.checkPayloadKept()
}

// checkPayloadKept: constructors keep the payload
func (c *Check) checkPayloadKept() {
	pkg := c.p.pkg("response")
	iface := c.p.typ("response", "HttpResponse").Underlying().(*types.Interface)
	fields := map[string]string{"payload": "Payload", "reader": "Reader", "writeFunc": "WriteFunc", "template": "Template", "templateName": "Name", "templateData": "Data", "url": "Url", "handler": "handler", "handlerFunc": "handler", "ew": "EventGenerator"}
	n := 0
	for _, name := range pkg.Pkg.Scope().Names() {
		fo, ok := pkg.Pkg.Scope().Lookup(name).(*types.Func)
		if !ok || !fo.Exported() {
			continue
		}
		fn := pkg.Func(name)
		sig := fo.Type().(*types.Signature)
		if fn == nil || sig.Results().Len() != 1 || !types.Implements(sig.Results().At(0).Type(), iface) {
			continue
		}
		e := c.engine()
		args := symParams(fn, "")
		for _, o := range e.callFn(newState(e), fn, args, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			if o.Panic != nil {
				continue
			}
			for i, a := range args {
				field, ok := fields[fn.Params[i].Name()]
				if !ok {
					continue
				}
				got, has := fieldNamed(o.St, stripIface(o.Vals[0]), field)
				n++
				good := has && same(s, stripIface(got), a)
				c.require(good, "constructor-keeps-payload", fn.Pos(), &s, "%s does not keep %s in the response", name, fn.Params[i].Name())
			}
		}
	}
	c.require(n > 0, "constructors-found", token.NoPos, nil, "no constructor with a payload was found")
}

// jsonEmpty: the text {}
func jsonEmpty(c *Check, t *Term) bool {
	if t.Op == OConv {
		t = t.Args[0]
	}
	if s, ok := t.strVal(); ok {
		return s == "{}"
	}
	return containsF(t, func(x *Term) bool {
		if x.Op == OGlobal {
			if v := c.p.globVal[x.G]; v != nil {
				s, ok := stripConv(v).strVal()
				return ok && s == "{}"
			}
		}
		return false
	})
}

// textOf: the bytes of the text, copied or shared
func textOf(r Scope, st *State, t, text *Term) bool {
	t0 := stripConv(t)
	if same(r, t0, text) || t0.Op == OConv && same(r, t0.Args[0], text) {
		return true
	}
	// the memory of the text seen as bytes
	if t.Op == OSlice && t.Args[1].isInt(0) && t.Args[2] != nil && same(r, t.Args[2], mkLen(text)) {
		return containsF(t.Args[0], func(x *Term) bool {
			return x == text || x.Op == OAlloc && same(r, st.load(x), text)
		})
	}
	if t.Op == OPure && strings.HasPrefix(t.S, "unsafe.") {
		return containsF(t, func(x *Term) bool { return x == text })
	}
	return false
}

func (k *respCase) String() string { return fmt.Sprint(k.t.name) }
