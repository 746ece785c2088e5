package main

// Rules for compressed responses.

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	specs["C32"] = spec{run: checkCompress, min: 60,
		explain: "every normal and panicking path of HttpCompressResponse.Write around an unknown response, with the search of the accepted encodings analysed as a loop; every method of the writer handed to the wrapped response; the compress middleware around an unknown handler",
		assume:  []string{"the accepted encodings are those of the first Accept-Encoding line", "the compressors of the standard library write only to the writer they are given"}}
}

// encodings are the compressors known and the request's names for what they produce
var encodings = map[string]struct {
	announce string
	accepted []string
}{
	"compress/gzip.NewWriterLevel": {"gzip", []string{"gzip", "x-gzip", "compress"}},
	"compress/gzip.NewWriter":      {"gzip", []string{"gzip", "x-gzip", "compress"}},
	"compress/flate.NewWriter":     {"deflate", []string{"deflate"}},
	"compress/zlib.NewWriterLevel": {"deflate", []string{"deflate"}},
	"compress/zlib.NewWriter":      {"deflate", []string{"deflate"}},
}

func checkCompress(c *Check) {
	var t respType
	for _, x := range c.respTypes() {
		if x.name == "HttpCompressResponse" {
			t = x
		}
	}
	if t.named == nil {
		panic(undecided("HttpCompressResponse was not found"))
	}
	k := c.response(t, func(e *Engine) { e.panicCalls = true })
	own, _ := firstOfType(c, k.st.fork(), k.r, "HttpResponse")
	if own == nil {
		panic(undecided("HttpCompressResponse wraps no response"))
	}
	rwT := c.p.stdType("net/http", "ResponseWriter")
	pos := t.write.Pos()
	req := c.requestOf(k.mc)
	compressed := map[string]bool{}
	plain := 0
	for i := range k.runs {
		r := k.runs[i]
		ds := r.events(func(e *Event) bool {
			return e.Kind == "invoke" && e.Name == "("+respPkg+".HttpResponse).Write" && same(r.Scope, e.Args[0], own)
		})
		if len(ds) == 0 {
			c.require(r.panics() || r.isNotNil(r.err), "wrapped-written", pos, &r.Scope, "the wrapped response is not written and no error is returned")
			continue
		}
		d := ds[0]
		c.require(len(ds) == 1, "wrapped-written", d.Pos, &r.Scope, "the wrapped response is written more than once")
		var enc []EvAt
		r.upto(d.i).every(func(in Scope, e EvAt) {
			if (e.Name == "(net/http.Header).Set" || e.Name == "(net/http.Header).Add") && same(in, stripConv(e.Args[0]), k.hdr) && !e.Args[1].isStr("Vary") {
				enc = append(enc, e)
			}
		})
		w := stripConv(stripIface(d.Args[1]))
		if w == k.w {
			plain++
			for _, e := range enc {
				c.require(isConstText(e.Args[1]) && !e.Args[1].isStr("Content-Encoding"), "not-announced", e.Pos, &r.Scope, "an encoding is announced although the response is written as it is")
			}
			continue
		}
		inner, comp := c.wrapperParts(r, d, rwT)
		c.require(inner != nil && same(r.Scope, stripConv(inner), k.w), "client-wrapped", d.Pos, &r.Scope, "the wrapped response gets a writer that does not stand in for the client's")
		if !c.require(comp != nil, "compressor-used", d.Pos, &r.Scope, "the wrapped response gets a writer without a compressor") {
			continue
		}
		x := encodings[comp.Name]
		c.require(stripConv(stripIface(comp.Args[0])) == k.w, "compressor-writes-to-client", d.Pos, &r.Scope, "the compressor does not write to the client")
		cw := comp.Res
		if er := errorOf(comp.Event); er != nil {
			c.require(r.isNil(er), "compressor-usable", d.Pos, &r.Scope, "the compressor is used although it could not be created")
			cw = mkExtract(comp.Res, 0)
		}
		compressed[x.announce] = true
		good := len(enc) == 1 && enc[0].Args[1].isStr("Content-Encoding") && x.announce != "" && r.facts.same(enc[0].Args[2], mkStr(x.announce))
		c.require(good, "encoding-announced", d.Pos, &r.Scope, "the response is compressed by %s but the announced encoding is not %s", comp.Name, x.announce)
		c.require(c.listsEncoding(r.upto(d.i), req, x.accepted), "encoding-accepted", d.Pos, &r.Scope, "the response is compressed by %s although the request was not found to list %s", comp.Name, strings.Join(x.accepted, " or "))
		closes := 0
		r.every(func(in Scope, e EvAt) {
			if isClose(e.Event) && same(in, stripConv(stripIface(e.Args[0])), cw) {
				closes++
			}
		})
		after := len(r.from(d.i + 1).events(func(e *Event) bool { return isClose(e) && same(r.Scope, stripConv(stripIface(e.Args[0])), cw) }))
		c.require(after > 0 && closes == after, "closed", d.Pos, &r.Scope, "the compressor is closed %d times after the wrapped response was written and %d times before", after, closes-after)
		// nothing else reaches the client but through the compressor
		for _, e := range k.wEvents(r.Scope, k.w, k.hdr) {
			c.require(e.kind == "header" || e.kind == "delegate" || e.kind == "body" && e.ev.Event == comp.Event, "only-through-compressor", e.ev.Pos, &r.Scope, "something is written to the client around the compressor")
		}
	}
	for _, n := range []string{"gzip", "deflate"} {
		c.require(compressed[n], "encoding-offered", pos, nil, "no path compresses with %s", n)
	}
	c.require(plain > 0, "plain-offered", pos, nil, "no path writes the response as it is")
	c.checkWrappedWriter()
	c.checkCompressWriter()
	c.checkCompressMiddleware()
}

func isClose(e *Event) bool {
	return (e.Kind == "call" || e.Kind == "invoke") && strings.HasSuffix(e.Name, ").Close")
}

func isConstText(t *Term) bool { _, ok := t.strVal(); return ok }

// wrapperParts are the client's writer held by the writer handed on, and the call that made the compressor it holds
func (c *Check) wrapperParts(r run, d EvAt, rwT types.Type) (inner *Term, comp *EvAt) {
	v := d.Snap[1]
	for v != nil && (v.Op == OIface || v.Op == OPtrTo || v.Op == OConv) {
		v = v.Args[0]
	}
	if v == nil || v.Op != OStruct {
		return nil, nil
	}
	st := structOf(v.T)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := v.Args[i]
		if types.Identical(st.Field(i).Type(), rwT) {
			inner = stripIface(f)
			continue
		}
		for _, e := range r.upto(d.i).events(func(e *Event) bool { _, ok := encodings[e.Name]; return ok }) {
			e := e
			g := stripConv(stripIface(f))
			if g == e.Res || g == mkExtract(e.Res, 0) {
				comp = &e
			}
		}
	}
	return
}

// listsEncoding: an element of the accepted encodings was found to be one of the names
func (c *Check) listsEncoding(s Scope, req *Term, names []string) bool {
	lists := map[*Term]bool{}
	var scan func(s Scope)
	scan = func(s Scope) {
		for _, it := range s.items {
			switch x := it.(type) {
			case *FactItem:
				containsF(x.T, func(t *Term) bool {
					if t.Op == OPure && (t.S == "strings.Split" && t.Args[1].isStr(",") || t.S == "strings.FieldsFunc") && containsF(t, func(y *Term) bool { return isHeaderRead(y, req, "Accept-Encoding") }) {
						lists[t] = true
					}
					return false
				})
			case *LoopExit:
				for _, t := range x.transitions() {
					scan(transScope(t))
				}
			}
		}
	}
	scan(s)
	for _, l := range sortTerms(lists) {
		if l.S == "strings.Split" && !foldOnly(l.Args[0]) {
			continue
		}
		if s.exists(l, func(it Scope, e Elem) bool {
			for t, v := range it.facts.truth {
				if !v {
					continue
				}
				var a, b *Term
				switch {
				case t.Op == OBin && t.S == "==":
					a, b = t.Args[0], t.Args[1]
				case t.Op == OPure && t.S == "strings.EqualFold":
					a, b = t.Args[0], t.Args[1]
				default:
					continue
				}
				if isConstText(a) {
					a, b = b, a
				}
				n, ok := b.strVal()
				if !ok || !e.is(trimOnly(a)) {
					continue
				}
				for _, w := range names {
					if strings.EqualFold(n, w) {
						return true
					}
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}

// trimOnly takes away changes of case and of surrounding space
func trimOnly(t *Term) *Term {
	for t.Op == OPure && (t.S == "strings.TrimSpace" || t.S == "strings.ToLower" || t.S == "strings.ToUpper" || t.S == "strings.Trim" && t.Args[1].isStr(" ")) {
		t = t.Args[0]
	}
	return t
}

// foldOnly: the text of the header with changes of case only
func foldOnly(t *Term) bool {
	t = trimOnly(t)
	return t.Op != OPure || t.S == "(net/http.Header).Get"
}

// checkCompressWriter: the writer that stands in for the client's
func (c *Check) checkCompressWriter() {
	rwT := c.p.stdType("net/http", "ResponseWriter")
	found := 0
	for _, named := range c.wrappedWriters() {
		recv := types.NewPointer(named)
		st0 := newState(c.engine())
		rs := structOf(named)
		compField := -1
		for i := 0; rs != nil && i < rs.NumFields(); i++ {
			ft := rs.Field(i).Type()
			if !types.Identical(ft, rwT) && (types.NewMethodSet(ft).Lookup(nil, "Flush") != nil) && types.NewMethodSet(ft).Lookup(nil, "Write") != nil {
				compField = i
			}
		}
		if compField < 0 {
			continue
		}
		found++
		n := named.Obj().Name()
		ms := types.NewMethodSet(recv)
		for i := 0; i < ms.Len(); i++ {
			name := ms.At(i).Obj().Name()
			fn := c.p.prog.MethodValue(ms.At(i))
			if fn == nil {
				panic(undecided("no method " + name))
			}
			e := c.engine()
			e.pureOpaque["(net/http.ResponseWriter).Header"] = true
			st := newState(e)
			args := symParams(fn, "")
			r := args[0]
			st.facts.assume(mkEq(r, mkNil()), false)
			inner := fieldOfType(st, r, rwT)
			comp := st.load(mkFieldAddr(r, compField))
			for _, f := range []*Term{inner, comp} {
				st.facts.assume(mkEq(f, mkNil()), false)
			}
			hdr := mkPure("(net/http.ResponseWriter).Header", c.p.stdType("net/http", "Header"), inner)
			for _, o := range e.callFn(st, fn, args, nil, 0) {
				c.paths++
				s := scopeOf(o.St)
				pos := fn.Pos()
				c.require(o.Panic == nil, "writer-no-panic", pos, &s, "%s.%s panics", n, name)
				if o.Panic != nil {
					continue
				}
				on := func(t *Term, ms ...string) []EvAt {
					return s.events(func(x *Event) bool {
						if len(x.Args) == 0 || x.Kind != "invoke" && x.Kind != "call" || !same(s, stripConv(stripIface(x.Args[0])), t) {
							return false
						}
						for _, m := range ms {
							if strings.HasSuffix(x.Name, ")."+m) {
								return true
							}
						}
						return false
					})
				}
				inLoop := len(s.loopEvents(func(x *Event) bool { return x.Kind == "invoke" }))
				c.require(inLoop == 0, "writer-no-loop", pos, &s, "%s.%s calls the client or the compressor in a loop", n, name)
				past := on(inner, "Write", "WriteString", "ReadFrom")
				s.every(func(in Scope, x EvAt) {
					if x.Kind == "call" {
						for _, a := range x.Args {
							if a != nil && stripConv(stripIface(a)) == inner && !strings.HasSuffix(x.Name, ".NewResponseController") {
								past = append(past, x)
							}
						}
					}
				})
				c.require(len(past) == 0, "body-compressed", pos, &s, "%s.%s writes to the client around the compressor", n, name)
				writes := on(comp, "Write")
				del := func(before int) bool {
					return len(s.upto(before).events(func(x *Event) bool {
						return (x.Name == "(net/http.Header).Del" && same(s, stripConv(x.Args[0]), hdr) || x.Kind == "mapdelete" && same(s, stripConv(x.Args[0]), hdr)) && x.Args[1].isStr("Content-Length")
					})) > 0
				}
				switch name {
				case "Write":
					good := len(writes) == 1 && same(s, writes[0].Args[1], args[1])
					c.require(good, "bytes-compressed", pos, &s, "%s.Write does not hand over exactly the bytes it is given to the compressor", n)
					if good {
						c.require(del(writes[0].i), "length-removed", pos, &s, "%s.Write keeps the content length of the uncompressed body", n)
						rs := writes[0].Res
						c.require(same(s, o.Vals[0], mkExtract(rs, 0)) && same(s, o.Vals[1], mkExtract(rs, 1)), "write-result", pos, &s, "%s.Write does not give the outcome of compressing", n)
					}
				case "WriteHeader":
					for _, x := range on(inner, "WriteHeader") {
						c.require(del(x.i), "length-removed", pos, &s, "%s.WriteHeader keeps the content length of the uncompressed body", n)
					}
				case "Flush", "FlushError":
					fl := on(comp, "Flush")
					if !c.require(len(fl) == 1, "compressor-flushed", pos, &s, "%s.%s does not flush the compressor once", n, name) {
						continue
					}
					cf := on(inner, "Flush", "FlushError")
					flusher := c.p.stdType("net/http", "Flusher")
					can := mkTAok(flusher, inner)
					failed := fl[0].Res != nil && s.isNotNil(fl[0].Res)
					switch {
					case len(cf) == 1:
						c.require(cf[0].i > fl[0].i, "client-flushed-after", pos, &s, "%s.%s flushes the client before the compressor", n, name)
					case len(cf) == 0:
						c.require(failed || s.facts.never(can), "client-flushed", pos, &s, "%s.%s does not flush the client", n, name)
					default:
						c.require(false, "client-flushed", pos, &s, "%s.%s flushes the client %d times", n, name, len(cf))
					}
				case "Header":
				default:
					c.require(len(writes) == 0 || name == "WriteString" || name == "ReadFrom", "body-compressed", pos, &s, "%s.%s writes data", n, name)
				}
			}
		}
		_ = st0
		has := types.NewMethodSet(recv).Lookup(nil, "Flush") != nil
		c.require(has, "flushable", named.Obj().Pos(), nil, "%s cannot be flushed", n)
	}
	c.require(found > 0, "writer-found", token.NoPos, nil, "no compressing writer was found")
}

// checkCompressMiddleware: the handler is called once and its response wrapped, its error returned
func (c *Check) checkCompressMiddleware() {
	fn := c.p.fn("middleware", "CompressResponse")
	e := c.engine()
	args := symParams(fn, "")
	m := c.middleware(e, fn, args, nil)
	ok := 0
	for i := range m.runs {
		for _, r := range m.runs[i].byErr() {
			if r.panics() {
				continue
			}
			call, once := m.once(r.Scope)
			if !c.require(once, "handler-once", fn.Pos(), &r.Scope, "the handler is not called exactly once with the request") {
				continue
			}
			resp, herr := mkExtract(call.Res, 0), mkExtract(call.Res, 1)
			for _, r := range r.by(mkEq(herr, mkNil())) {
				if !r.isNil(herr) {
					c.require(same(r.Scope, r.err, herr), "handler-error-returned", fn.Pos(), &r.Scope, "an error of the handler is not returned")
					continue
				}
				if !r.isNil(r.err) {
					continue
				}
				ok++
				w := stripIface(r.resp)
				own, _ := firstOfType(c, r.st, w, "HttpResponse")
				lvl, has := fieldNamed(r.st, w, "compressionLevel")
				c.require(own != nil && same(r.Scope, own, resp), "response-wrapped", fn.Pos(), &r.Scope, "the response returned does not wrap that of the handler")
				c.require(!has || same(r.Scope, lvl, args[0]), "level-kept", fn.Pos(), &r.Scope, "the compression level is not the configured one")
			}
		}
	}
	c.require(ok > 0, "middleware-succeeds", fn.Pos(), nil, "the middleware never gives a response")
}
