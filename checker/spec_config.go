package main

// Rules for the configuration defaults and the static assets.

import (
	"go/types"
)

func init() {
	specs["C38"] = spec{run: checkDefaults, min: 30,
		explain: "every path of NewMuxHandler for an unknown configuration (and of the constructors with default configurations); the value of each configuration field on return is compared, case by case, with its value on entry and its documented default",
		assume:  []string{"loading templates is ParseGlob of html/template, which either fails or gives a template"}}
	specs["C39"] = spec{run: checkAssets, min: 12,
		explain: "every path of NewMuxHandler for an unknown configuration; the registered route, its handler and what that handler does for a request are compared with the specification as terms over the configuration"}
}

const fnGlob = "(*html/template.Template).ParseGlob"

type configCase struct {
	e    *Engine
	cfg  *Term
	runs []run
	zero bool
}

func (c *Check) newMux() *configCase {
	e := c.engine()
	e.opaque[fnHandle] = true
	e.opaque[fnGlob] = true
	fn := c.p.fn("", "NewMuxHandler")
	k := &configCase{e: e, cfg: mkSym("config", fn.Params[0].Type())}
	st := newState(e)
	st.facts.assume(mkEq(k.cfg, mkNil()), false)
	for _, o := range e.callFn(st, fn, []*Term{k.cfg}, nil, 0) {
		k.runs = append(k.runs, configRun(e, o))
	}
	c.paths += len(k.runs)
	dumpRuns(c, k.runs)
	return k
}

func configRun(e *Engine, o Outcome) run {
	r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
	if o.Panic == nil && len(o.Vals) == 2 {
		r.resp, r.err = o.Vals[0], o.Vals[1]
	}
	return r
}

var resDefaults = []struct{ field, def string }{
	{"TemplatesPathPattern", "resources/templates/*.html"},
	{"AssetsDirPath", "./resources/assets"},
	{"AssetsMappingPath", "assets"},
}

func checkDefaults(c *Check) {
	fn := c.p.fn("", "NewMuxHandler")
	k := c.newMux()
	c.needLive(k.runs, "NewMuxHandler")
	old := func(ptr *Term, f string) *Term { return mkLoad(c.fieldAddr(ptr, f), 0) }
	okRuns, failRuns := 0, 0
	for _, r0 := range k.runs {
		if r0.panics() {
			c.require(false, "no-panic", fn.Pos(), &r0.Scope, "NewMuxHandler panics by itself")
			continue
		}
		for _, r := range r0.byErr() {
			failed := r.isNotNil(r.err)
			res := old(k.cfg, "ResourcesConfig")
			for _, r := range r.by(mkEq(res, mkNil())) {
				hasRes := !r.isNil(res)
				now := func(ptr *Term, f string) *Term { return r.st.load(c.fieldAddr(ptr, f)) }
				globs := r.events(isCall(fnGlob))
				nglobs := r.count(isCall(fnGlob))
				if hasRes {
					tmpl := old(res, "Template")
					for _, q := range r.by(mkEq(tmpl, mkNil())) {
						if !q.isNil(tmpl) {
							c.require(nglobs == 0, "templates-only-when-unset", fn.Pos(), &q.Scope, "templates are loaded although one was given")
							c.require(same(q.Scope, now(res, "Template"), tmpl), "template-kept", fn.Pos(), &q.Scope, "the given template is replaced")
							c.require(!failed, "no-failure", fn.Pos(), &q.Scope, "an error is returned although no templates had to be loaded")
							continue
						}
						if !c.require(nglobs == 1 && len(globs) == 1, "templates-loaded", fn.Pos(), &q.Scope, "the templates are loaded %d times", len(globs)) {
							continue
						}
						g := globs[0]
						c.require(same(q.Scope, g.Args[1], now(res, "TemplatesPathPattern")), "template-pattern", g.Pos, &q.Scope, "templates are loaded from %s, not from the configured pattern", g.Args[1])
						gt, ge := mkExtract(g.Res, 0), mkExtract(g.Res, 1)
						if failed {
							failRuns++
							c.require(q.isNotNil(ge), "failure-from-templates", g.Pos, &q.Scope, "an error is returned although the templates were loaded")
							c.require(containsErr(q.Scope, r.err, ge), "failure-reported", g.Pos, &q.Scope, "the error does not tell why the templates could not be loaded")
						} else {
							if c.require(q.isNil(ge), "failure-not-swallowed", g.Pos, &q.Scope, "the handler is created although the templates could not be loaded") {
								c.require(same(q.Scope, stripIface(now(res, "Template")), gt), "template-loaded", g.Pos, &q.Scope, "the loaded template is not the configured one afterwards")
							}
						}
					}
				} else {
					c.require(nglobs == 0, "templates-only-when-unset", fn.Pos(), &r.Scope, "templates are loaded although no resources are configured")
					c.require(!failed, "no-failure", fn.Pos(), &r.Scope, "an error is returned although no templates had to be loaded")
				}
				if failed {
					c.require(r.isNil(r.resp), "no-handler-on-failure", fn.Pos(), &r.Scope, "a mux handler is returned together with an error")
				} else {
					okRuns++
					c.require(r.isNotNil(r.resp), "handler-created", fn.Pos(), &r.Scope, "no handler is returned without an error")
				}
				// a default never replaces a choice; after success it is in place
				one := func(ptr *Term, f, def string) {
					o := old(ptr, f)
					for _, q := range r.by(mkEq(o, mkStr(""))) {
						v := q.st.load(c.fieldAddr(ptr, f))
						if q.facts.always(mkEq(o, mkStr(""))) {
							c.require(same(q.Scope, v, mkStr(def)) || failed && same(q.Scope, v, o), "default-"+f, fn.Pos(), &q.Scope, "%s was not set and is %s afterwards, not %q", f, v, def)
						} else {
							c.require(same(q.Scope, v, o), "kept-"+f, fn.Pos(), &q.Scope, "the configured %s is replaced by %s", f, v)
						}
					}
				}
				one(k.cfg, "ContextPath", "/")
				if hasRes {
					for _, d := range resDefaults {
						one(res, d.field, d.def)
					}
				}
				ol := old(k.cfg, "ErrLogFunc")
				for _, q := range r.by(mkEq(ol, mkNil())) {
					v := q.st.load(c.fieldAddr(k.cfg, "ErrLogFunc"))
					if q.isNil(ol) {
						c.require(q.isNotNil(v) || failed && q.isNil(v), "default-ErrLogFunc", fn.Pos(), &q.Scope, "no error logger is set")
					} else {
						c.require(same(q.Scope, v, ol), "kept-ErrLogFunc", fn.Pos(), &q.Scope, "the configured error logger is replaced")
					}
				}
				c.require(same(r.Scope, now(k.cfg, "CaseInsensitivePathMatch"), old(k.cfg, "CaseInsensitivePathMatch")), "kept-CaseInsensitivePathMatch", fn.Pos(), &r.Scope, "the case-sensitivity setting is changed")
				c.require(same(r.Scope, now(k.cfg, "ResourcesConfig"), res), "kept-ResourcesConfig", fn.Pos(), &r.Scope, "the resources configuration is replaced")
				if !failed {
					c.muxHolds(k, r)
				}
			}
		}
	}
	c.require(okRuns > 0 && failRuns > 0, "both-ways", fn.Pos(), nil, "success or failure to load the templates was not found")
	c.defaultConstructors()
}

// muxHolds: the new handler uses the configuration, its router the configured settings
func (c *Check) muxHolds(k *configCase, r run) {
	fn := c.p.fn("", "NewMuxHandler")
	m := stripConv(r.resp)
	mt := c.muxType()
	fc := fieldByType(mt, func(t types.Type) bool { return types.Identical(t, types.NewPointer(c.p.typ("", "Config"))) }, "the configuration")
	fr := fieldByType(mt, func(t types.Type) bool { return types.Identical(t, types.NewPointer(c.p.typ("router", "Router"))) }, "the router")
	c.require(same(r.Scope, r.st.load(mkFieldAddr(m, fc)), k.cfg), "handler-configuration", fn.Pos(), &r.Scope, "the handler has another configuration")
	rt := r.st.load(mkFieldAddr(m, fr))
	rtT := c.p.typ("router", "Router")
	ci := fieldByType(rtT, func(t types.Type) bool { return isBoolType(t) }, "the case setting")
	lg := fieldByType(rtT, func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }, "the error logger")
	c.require(same(r.Scope, r.st.load(mkFieldAddr(rt, ci)), r.st.load(c.fieldAddr(k.cfg, "CaseInsensitivePathMatch"))), "router-case", fn.Pos(), &r.Scope, "the router has another case-sensitivity")
	c.require(same(r.Scope, stripConv(r.st.load(mkFieldAddr(rt, lg))), stripConv(r.st.load(c.fieldAddr(k.cfg, "ErrLogFunc")))), "router-logger", fn.Pos(), &r.Scope, "the router has another error logger")
}

// the constructors that make a configuration of their own
func (c *Check) defaultConstructors() {
	for _, name := range []string{"NewMuxHandlerWithDefaultConfig", "NewMuxHandlerWithDefaultConfigAndTemplateSupport", "NewDefaultResourcesConfig"} {
		fn := c.p.fn("", name)
		e := c.engine()
		e.opaque[fnHandle] = true
		e.opaque[fnGlob] = true
		mt := c.muxType()
		fc := fieldByType(mt, func(t types.Type) bool { return types.Identical(t, types.NewPointer(c.p.typ("", "Config"))) }, "the configuration")
		live := 0
		for _, o := range e.callFn(newState(e), fn, nil, nil, 0) {
			c.paths++
			r := configRun(e, o)
			if o.Panic != nil {
				c.require(false, "no-panic", fn.Pos(), &r.Scope, "%s panics", name)
				continue
			}
			var res *Term
			if name == "NewDefaultResourcesConfig" {
				res = o.Vals[0]
			} else {
				if !r.isNil(r.err) {
					c.require(r.isNotNil(r.err) && r.isNil(r.resp), "no-handler-on-failure", fn.Pos(), &r.Scope, "%s returns a handler with an error", name)
					continue
				}
				cfg := o.St.load(mkFieldAddr(stripConv(r.resp), fc))
				c.require(same(r.Scope, o.St.load(c.fieldAddr(cfg, "ContextPath")), mkStr("/")), "default-ContextPath", fn.Pos(), &r.Scope, "%s: the context path is not the default", name)
				c.require(r.isNotNil(o.St.load(c.fieldAddr(cfg, "ErrLogFunc"))), "default-ErrLogFunc", fn.Pos(), &r.Scope, "%s: no error logger is set", name)
				c.require(same(r.Scope, o.St.load(c.fieldAddr(cfg, "CaseInsensitivePathMatch")), mkBool(false)), "default-CaseInsensitivePathMatch", fn.Pos(), &r.Scope, "%s: matching is not case-sensitive", name)
				res = o.St.load(c.fieldAddr(cfg, "ResourcesConfig"))
				if name == "NewMuxHandlerWithDefaultConfig" {
					c.require(r.isNil(res), "default-ResourcesConfig", fn.Pos(), &r.Scope, "%s: resources are configured", name)
					live++
					continue
				}
			}
			if !c.require(r.isNotNil(res), "default-ResourcesConfig", fn.Pos(), &r.Scope, "%s: no resources are configured", name) {
				continue
			}
			live++
			for _, d := range resDefaults {
				c.require(same(r.Scope, o.St.load(c.fieldAddr(res, d.field)), mkStr(d.def)), "default-"+d.field, fn.Pos(), &r.Scope, "%s: %s is not the default", name, d.field)
			}
			c.require(!r.isNil(o.St.load(c.fieldAddr(res, "Template"))), "default-Template", fn.Pos(), &r.Scope, "%s: no template is loaded", name)
			for _, g := range r.events(isCall(fnGlob)) {
				c.require(r.isNil(mkExtract(g.Res, 1)), "failure-not-swallowed", g.Pos, &r.Scope, "%s: goes on although the templates could not be loaded", name)
			}
		}
		c.require(live > 0, "returns", fn.Pos(), nil, "%s: no way to return was found", name)
	}
}

func checkAssets(c *Check) {
	fn := c.p.fn("", "NewMuxHandler")
	k := c.newMux()
	c.needLive(k.runs, "NewMuxHandler")
	served := 0
	for _, r0 := range k.runs {
		if r0.panics() {
			c.require(false, "no-panic", fn.Pos(), &r0.Scope, "NewMuxHandler panics by itself")
			continue
		}
		for _, r := range r0.byErr() {
			now := func(ptr *Term, f string) *Term { return r.st.load(c.fieldAddr(ptr, f)) }
			res := now(k.cfg, "ResourcesConfig")
			routes := r.events(isCall(fnHandle))
			nroutes := r.count(isCall(fnHandle))
			if r.isNotNil(r.err) {
				continue
			}
			if r.isNil(res) {
				c.require(nroutes == 0, "no-route-without-resources", fn.Pos(), &r.Scope, "a route is registered although no resources are configured")
				continue
			}
			if !c.require(r.isNotNil(res), "resources-decided", fn.Pos(), &r.Scope, "whether resources are configured was not decided") {
				continue
			}
			if !c.require(nroutes == 1, "one-route", fn.Pos(), &r.Scope, "%d routes are registered for the static assets", len(routes)) {
				continue
			}
			rt := routes[0]
			m := stripConv(r.resp)
			fr := fieldByType(c.muxType(), func(t types.Type) bool { return types.Identical(t, types.NewPointer(c.p.typ("router", "Router"))) }, "the router")
			c.require(same(r.Scope, rt.Args[0], r.st.load(mkFieldAddr(m, fr))), "own-router", rt.Pos, &r.Scope, "the assets are registered with another router")
			c.require(same(r.Scope, rt.Args[1], mkStr("GET")), "get-only", rt.Pos, &r.Scope, "the assets are registered for method %s", rt.Args[1])
			ctxp := now(k.cfg, "ContextPath")
			mapp, dir := now(res, "AssetsMappingPath"), now(res, "AssetsDirPath")
			for _, q := range r.by(mkEq(ctxp, mkStr("/"))) {
				base := ctxp
				if q.facts.always(mkEq(ctxp, mkStr("/"))) {
					base = mkStr("")
				}
				norm := func(t *Term) *Term { return q.facts.norm(t) }
				full := mkConcat(norm(base), mkStr("/"), norm(mapp), mkStr("/"))
				c.require(sameText(q, rt.Args[2], mkConcat(full, mkStr("**"))), "mapped-path", rt.Pos, &q.Scope, "the assets are registered at %s, not at %s", rt.Args[2], mkConcat(full, mkStr("**")))
				// what the handler does
				n := 0
				ctx, mc := mkSym("ctx", c.ctxType()), mkSym("mc", c.mcType())
				w := mkSym("w", c.p.stdType("net/http", "ResponseWriter"))
				for _, o := range k.e.callValue(q.st.fork(), stripConv(rt.Args[3]), ctx, mc) {
					if o.Panic != nil || !scopeOf(o.St).isNil(o.Vals[1]) {
						sc := scopeOf(o.St)
						c.require(false, "assets-served", rt.Pos, &sc, "the assets handler fails or panics")
						continue
					}
					resp := o.Vals[0]
					if resp.Op != OIface {
						panic(undecided("the response of the assets handler is not a known object"))
					}
					for _, p := range k.e.callMethod(o.St, resp.T, "Write", resp.Args[0], w, mc) {
						sc := scopeOf(p.St)
						if p.Panic != nil {
							c.require(false, "assets-served", rt.Pos, &sc, "writing the assets response panics")
							continue
						}
						ss := sc.events(isCall("(net/http.Handler).ServeHTTP"))
						ok := len(ss) == 1 && same(sc, stripConv(ss[0].Args[1]), w) && same(sc, ss[0].Args[2], c.requestOf(mc))
						if !c.require(ok, "assets-served", rt.Pos, &sc, "the file server is not called once with the request") {
							continue
						}
						// StripPrefix(FileServer(Dir))
						strip := callArgs(sc, ss[0].Args[0], "net/http.StripPrefix")
						if !c.require(strip != nil, "prefix-stripped", rt.Pos, &sc, "the prefix of the route is not removed from the path before files are looked up") {
							continue
						}
						pre := strip[0]
						okp := sameText(q, pre, full) || sameText(q, pre, mkConcat(norm(base), mkStr("/"), norm(mapp)))
						c.require(okp, "own-prefix", rt.Pos, &sc, "the prefix removed is %s, that of the route is %s", pre, full)
						files := callArgs(sc, strip[1], "net/http.FileServer")
						if !c.require(files != nil, "file-server", rt.Pos, &sc, "the assets are not served by the file server") {
							continue
						}
						d := files[0]
						ok = d.Op == OIface && types.Identical(d.T, c.p.stdType("net/http", "Dir")) && same(sc, stripConv(d.Args[0]), stripConv(norm(dir)))
						c.require(ok, "configured-directory", rt.Pos, &sc, "files are served from %s, not from the configured directory", d)
						n++
					}
				}
				if n > 0 {
					served++
				}
			}
		}
	}
	c.require(served > 0, "assets-found", fn.Pos(), nil, "no path that registers the assets was found")
}

// sameText compares two concatenations, knowing what the path decided about their parts
func sameText(r run, a, b *Term) bool { return same(r.Scope, normParts(r, a), normParts(r, b)) }

func normParts(r run, t *Term) *Term {
	t = r.facts.norm(t)
	if t.Op != OConcat {
		return t
	}
	var out []*Term
	for _, p := range t.Args {
		out = append(out, r.facts.norm(p))
	}
	return mkConcat(out...)
}

// callArgs are the arguments of the call of the function that gave the value
func callArgs(s Scope, v *Term, name string) []*Term {
	v = stripConv(s.facts.normNB(stripConv(v)))
	if v.Op == OPure && v.S == name {
		return v.Args
	}
	for _, ev := range s.events(isCall(name)) {
		if ev.Res != nil && stripConv(ev.Res) == v {
			return ev.Args
		}
	}
	return nil
}
