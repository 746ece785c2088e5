package main

// Rules for server-sent events.

import (
	"strings"
)

func init() {
	specs["C33"] = spec{run: checkEventStream, min: 60,
		explain: "every path of HttpSSEResponse.Write for any generator, channel and client writer: typestate of the stream (idle, received, found not cancelled, written, flushed, ended) over straight-line code and, as an invariant, over each loop iteration",
		assume:  []string{"the text of an event is decided by C34"}}
}

const (
	ssBefore = iota
	ssIdle
	ssReceived // an event or the end of the channel
	ssGot      // an event
	ssChecked  // the request was found not to be cancelled after the event came
	ssWritten
	ssEnded
)

var ssNames = []string{"before the generator", "idle", "received", "event pending", "event pending, not cancelled", "written, not flushed", "ended"}

type sseState struct {
	at  int
	evt *Term
	err []*Term // errors of the writes of this event
}

type sseWalk struct {
	c       *Check
	k       *respCase
	ch      *Term
	gen     *Term
	ctx     *Term
	ctxErrs map[*Term]bool
	st      *State
}

func checkEventStream(c *Check) {
	var t respType
	for _, x := range c.respTypes() {
		if x.name == "HttpSSEResponse" {
			t = x
		}
	}
	if t.named == nil {
		panic(undecided("HttpSSEResponse was not found"))
	}
	k := c.response(t, nil)
	pos := t.write.Pos()
	req := c.requestOf(k.mc)
	gen, ok := fieldNamed(k.st.fork(), k.r, "EventGenerator")
	if !ok {
		panic(undecided("HttpSSEResponse has no EventGenerator"))
	}
	major := k.st.fork().load(c.fieldAddr(req, "ProtoMajor"))
	http2 := mkEq(major, mkInt(2))
	last := c.reqHeader(k.st.fork(), k.mc, mkStr("Last-Event-Id"))
	ctx := mkPure("(*net/http.Request).Context", c.ctxType(), req)
	served, refused := 0, 0
	for i := range k.runs {
		for _, r := range k.runs[i].by(http2) {
			if r.panics() {
				continue
			}
			gens := r.events(isDyn(gen))
			inLoop := len(r.loopEvents(isDyn(gen)))
			evs := k.wEvents(r.Scope, k.w, k.hdr)
			if r.facts.never(http2) {
				refused++
				status := 0
				for _, e := range evs {
					switch e.kind {
					case "status":
						status++
						c.require(r.facts.same(statusArg(e.ev.Event), mkInt(500)), "refused-500", e.ev.Pos, &r.Scope, "a request that is not HTTP/2 is answered with another status than 500")
					case "body", "delegate":
						if !strings.HasSuffix(e.ev.Name, "net/http.Error") {
							c.require(false, "refused-no-body", e.ev.Pos, &r.Scope, "something is written although the request is not HTTP/2")
						}
					}
				}
				c.require(status == 1, "refused-500", pos, &r.Scope, "a request that is not HTTP/2 is not answered with a status")
				c.require(r.isNotNil(r.err), "refused-error", pos, &r.Scope, "a request that is not HTTP/2 is not an error")
				c.require(len(gens) == 0 && inLoop == 0, "refused-no-events", pos, &r.Scope, "events are generated although the request is not HTTP/2")
				continue
			}
			if len(gens) == 0 && inLoop == 0 {
				c.require(r.isNotNil(r.err), "generated", pos, &r.Scope, "the generator is not called and no error is returned")
				continue
			}
			if !c.require(len(gens) == 1 && inLoop == 0, "generated", pos, &r.Scope, "the generator is not called exactly once") {
				continue
			}
			served++
			g := gens[0]
			c.require(len(g.Args) == 2 && same(r.Scope, g.Args[0], ctx), "generator-context", g.Pos, &r.Scope, "the generator does not get the context of the request")
			c.require(len(g.Args) == 2 && same(r.Scope, g.Args[1], last), "generator-last-id", g.Pos, &r.Scope, "the generator does not get the last event id of the request")
			w := &sseWalk{c: c, k: k, gen: gen, ch: g.Res, ctx: ctx, ctxErrs: map[*Term]bool{}, st: r.st}
			end := w.walk(r.Scope, sseState{})
			good := end.at == ssEnded
			why := "the stream ends while it is " + ssNames[end.at]
			if end.at == ssWritten && w.failed(r.Scope, end) {
				good = true
			}
			c.require(good, "ends-only-when-over", pos, &r.Scope, "%s: neither was the channel closed nor the request cancelled nor did a write fail", why)
		}
	}
	c.require(served > 0, "stream-reachable", pos, nil, "no path produces events")
	c.require(refused > 0, "refusal-reachable", pos, nil, "no path refuses a request that is not HTTP/2")
}

// failed: a write of this event was found to fail
func (w *sseWalk) failed(s Scope, st sseState) bool {
	for _, e := range st.err {
		if s.isNotNil(e) {
			return true
		}
	}
	return false
}

func (w *sseWalk) isText(s Scope, t, evt *Term) bool {
	str := mkPure("("+respPkg+".ServerSentEvent).String", tString, evt)
	return textOf(s, w.st, t, str)
}

// settle: an event without text needs no write, and a client that cannot be flushed no flush
func (w *sseWalk) settle(s Scope, st sseState) sseState {
	if st.at == ssChecked {
		str := mkPure("("+respPkg+".ServerSentEvent).String", tString, st.evt)
		if s.facts.always(mkEq(str, mkStr(""))) {
			st.at = ssIdle
		}
	}
	if st.at == ssWritten {
		ok := true
		for _, e := range st.err {
			ok = ok && s.isNil(e)
		}
		if ok && s.facts.never(mkTAok(w.c.p.stdType("net/http", "Flusher"), w.k.w)) {
			st.at = ssIdle
		}
	}
	return st
}

func (w *sseWalk) walk(s Scope, st sseState) sseState {
	c := w.c
	isCh := func(t *Term) bool { return t != nil && same(s, stripConv(t), w.ch) }
	for i, it := range s.items {
		in := func() Scope { return s.upto(i + 1) }
		switch x := it.(type) {
		case *FactItem:
			if st.at == ssReceived && x.T.Op == OPure && x.T.S == "recvok" && x.T.Args[0] == st.evt {
				if x.Val {
					st.at = ssGot
				} else {
					st.at = ssEnded
				}
			}
			if len(w.ctxErrs) > 0 {
				sc := in()
				for e, late := range w.ctxErrs {
					if sc.isNil(e) {
						if late && st.at == ssGot {
							st.at = ssChecked
						}
						delete(w.ctxErrs, e)
					} else if sc.isNotNil(e) {
						st.at = ssEnded
						delete(w.ctxErrs, e)
					}
				}
			}
		case *Event:
			switch {
			case x.Kind == "dyn" && stripConv(x.Callee) == w.gen:
				st = sseState{at: ssIdle}
			case x.Kind == "recv" && isCh(x.Args[0]):
				sc := in()
				st = w.settle(sc, st)
				c.require(st.at == ssIdle, "flushed-before-next", x.Pos, &s, "the next event is taken while the stream is %s", ssNames[st.at])
				st = sseState{at: ssReceived, evt: x.Res}
				for e := range w.ctxErrs { // asked before the event came: says nothing about it
					w.ctxErrs[e] = false
				}
			case x.Kind == "recv" && w.isDone(s, x.Args[0]):
				st.at = ssEnded
			case x.Kind == "select" && x.Name == "default":
				for _, a := range x.Args {
					if w.isDone(s, a) && st.at == ssGot {
						st.at = ssChecked
					}
				}
			case x.Kind == "invoke" && x.Name == "(context.Context).Err" && same(s, x.Args[0], w.ctx):
				if x.Res != nil && (st.at == ssGot || st.at == ssIdle || st.at == ssChecked) {
					w.ctxErrs[x.Res] = st.at == ssGot
				}
			default:
				switch w.k.classify(s, x, w.k.w, w.k.hdr) {
				case "body", "delegate":
					if st.at == ssBefore {
						c.require(false, "only-events", x.Pos, &s, "something that is not an event is written to the stream")
						continue
					}
					good := st.at == ssChecked && len(x.Args) > 1 && w.isText(in(), x.Args[len(x.Args)-1], st.evt)
					what := "something that is not the pending event is written"
					if st.at != ssChecked {
						what = "the body is written while the stream is " + ssNames[st.at]
					}
					c.require(good, "event-written-once", x.Pos, &s, "%s", what)
					st.at = ssWritten
					if er := errorOf(x); er != nil {
						st.err = append(st.err, er)
					}
				case "flush":
					sc := in()
					if st.at == ssWritten {
						ok := true
						for _, e := range st.err {
							ok = ok && sc.isNil(e)
						}
						if ok {
							st.at = ssIdle
						} else if w.failed(sc, st) {
							st.at = ssEnded
						}
					}
				case "status":
					c.require(st.at == ssBefore, "status-before-events", x.Pos, &s, "the status is sent after the generator was called")
				}
			}
			if st.at == ssWritten && w.failed(in(), st) {
				st.at = ssEnded
			}
		case *LoopExit:
			entry := w.settle(in(), st)
			for _, t := range x.transitions() {
				ts := transScope(t)
				outer := w.st
				w.st = t.St
				end := w.walk(ts, entry)
				end = w.settle(ts, end)
				w.st = outer
				c.require(end.at == entry.at, "iteration-complete", w.k.t.write.Pos(), &ts, "an iteration that starts when the stream is %s ends when it is %s", ssNames[entry.at], ssNames[end.at])
			}
			st = entry
		}
	}
	return w.finish(s, st)
}

// finish: what is known at the end of the stretch
func (w *sseWalk) finish(s Scope, st sseState) sseState {
	if st.at == ssWritten && w.failed(s, st) {
		st.at = ssEnded
	}
	return st
}

func (w *sseWalk) isDone(s Scope, t *Term) bool {
	t = stripConv(t)
	return t != nil && t.Op == OPure && t.S == "(context.Context).Done" && same(s, t.Args[0], w.ctx)
}
