package main

// Shared parts of the rules.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// run is one way in which the analysed call ends
type run struct {
	Scope
	o    Outcome
	e    *Engine
	st   *State
	resp *Term
	err  *Term
}

func (r *run) panics() bool { return r.o.Panic != nil }
func (r *run) pos() token.Pos {
	for i := len(r.items) - 1; i >= 0; i-- {
		switch x := r.items[i].(type) {
		case *Event:
			if x.Pos.IsValid() {
				return x.Pos
			}
		case *FactItem:
			if x.Pos.IsValid() {
				return x.Pos
			}
		}
	}
	return token.NoPos
}

// errNil says whether the returned error is nil on this way
func (r *run) errNil() (nil_, known bool) { return r.facts.decide(mkEq(r.err, mkNil())) }

// bySplit splits a run by whether its error is nil when that is not decided
func (r run) byErr() []run {
	if r.o.Panic != nil || r.err == nil {
		return []run{r}
	}
	return r.by(mkEq(r.err, mkNil()))
}

func (r run) by(cond *Term) []run {
	if _, ok := r.facts.decide(cond); ok {
		return []run{r}
	}
	var out []run
	for _, b := range []bool{true, false} {
		st := r.st.fork()
		if st.assume(cond, b, token.NoPos) {
			n := r
			n.st = st
			n.Scope = scopeOf(st)
			out = append(out, n)
		}
	}
	return out
}

// mwCase is a middleware applied to a handler, called with a request
type mwCase struct {
	e            *Engine
	handler      *Term
	ctx, mc      *Term
	runs         []run
	constructors int
}

func (c *Check) handlerType() types.Type { return c.p.typ("handler", "Handler") }
func (c *Check) mcType() types.Type      { return c.p.typ("router/path", "MatchingContext") }
func (c *Check) ctxType() types.Type     { return c.p.stdType("context", "Context") }

// symbolic parameters of a function
func symParams(fn *ssa.Function, prefix string) []*Term {
	var out []*Term
	for _, pr := range fn.Params {
		out = append(out, mkSym(prefix+pr.Name(), pr.Type()))
	}
	return out
}

// middleware analyses constructor(args...)(handler)(ctx, mc)
func (c *Check) middleware(e *Engine, ctor *ssa.Function, args []*Term, prep func(*State)) *mwCase {
	return c.middlewareOf(e, func(st *State) []Outcome {
		if prep != nil {
			prep(st)
		}
		return e.callFn(st, ctor, args, nil, 0)
	})
}

func (c *Check) middlewareOf(e *Engine, ctor func(*State) []Outcome) *mwCase {
	m := &mwCase{e: e, handler: mkSym("handler", c.handlerType()), ctx: mkSym("ctx", c.ctxType()), mc: mkSym("mc", c.mcType())}
	st := newState(e)
	st.facts.assume(mkEq(m.ctx, mkNil()), false)
	outs := ctor(st)
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		m.constructors++
		e.stageID = idCtr
		for _, o2 := range e.callValue(o.St, o.Vals[0], m.handler) {
			if o2.Panic != nil {
				continue
			}
			e.stageID = idCtr
			m.runs = append(m.runs, c.serve(e, o2.St, o2.Vals[0], m.ctx, m.mc)...)
		}
	}
	c.paths += len(m.runs)
	dumpRuns(c, m.runs)
	return m
}

func dumpRuns(c *Check, runs []run) {
	if os.Getenv("GCDUMP") != "" {
		for i, r := range runs {
			fmt.Println("=== run", i, "panic", r.o.Panic, "resp", r.resp, "err", r.err)
			printItems(c.p, r.items, "  ")
		}
	}
}

// serve analyses one request of any history: what requests change in memory made before they came is unknown
func (c *Check) serve(e *Engine, st *State, h *Term, ctx, mc *Term) []run {
	var rs []run
	for _, o := range e.anyCall(st, func(s *State) []Outcome { return e.callValue(s, h, ctx, mc) }) {
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		if o.Panic == nil && len(o.Vals) == 2 {
			r.resp, r.err = o.Vals[0], o.Vals[1]
		}
		rs = append(rs, r)
	}
	return rs
}

// anyCall analyses a call that may come after any number of such calls
func (e *Engine) anyCall(st *State, f func(*State) []Outcome) []Outcome {
	_, outs := e.anyState(st, f)
	return outs
}

// anyState is also the state any number of such calls leave behind
func (e *Engine) anyState(st *State, f func(*State) []Outcome) (*State, []Outcome) {
	changed := map[*Term]bool{}
	for round := 0; ; round++ {
		if round > 8 {
			panic(undecided("state kept between calls does not stabilise"))
		}
		s := st.fork()
		for _, r := range sortTerms(changed) {
			s.havoc(r)
		}
		e.stageID = idCtr
		stage := e.stageID
		before := s.fork()
		more := false
		note := func(r *Term) {
			if isFresh(r) && r.N <= stage && !changed[r] {
				changed[r] = true
				more = true
			}
		}
		old := e.onHavoc
		e.onHavoc = note
		outs := f(s)
		e.onHavoc = old
		for _, o := range outs {
			scopeOf(o.St).every(func(_ Scope, ev EvAt) {
				switch ev.Kind {
				case "store", "mapupdate", "mapdelete", "mapclear", "copy":
					note(rootOf(ev.Args[0]))
				}
			})
		}
		if !more {
			return before, outs
		}
	}
}

// calls of the wrapped handler
func (m *mwCase) handlerCalls(s Scope) []EvAt { return s.events(isDyn(m.handler)) }

// once: the handler ran exactly once
func (m *mwCase) once(s Scope) (EvAt, bool) {
	h := m.handlerCalls(s)
	if len(h) == 1 && len(s.loopEvents(isDyn(m.handler))) == 0 {
		return h[0], true
	}
	return EvAt{}, false
}

func (m *mwCase) none(s Scope) bool { return s.count(isDyn(m.handler)) == 0 }

func same(s Scope, a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || s.facts.same(a, b) || stripConv(a) == stripConv(b)
}

// same error: the same value, possibly both nil
func sameErr(s Scope, a, b *Term) bool {
	if same(s, a, b) {
		return true
	}
	na, oka := s.facts.decide(mkEq(a, mkNil()))
	nb, okb := s.facts.decide(mkEq(b, mkNil()))
	return oka && okb && na && nb
}

func (s Scope) isNil(t *Term) bool    { v, ok := s.facts.decide(mkEq(t, mkNil())); return ok && v }
func (s Scope) isNotNil(t *Term) bool { v, ok := s.facts.decide(mkEq(t, mkNil())); return ok && !v }

// returns says that the call hands on exactly what the event returned
func (r *run) returns(ev *Event) bool {
	return same(r.Scope, r.resp, mkExtract(ev.Res, 0)) && sameErr(r.Scope, r.err, mkExtract(ev.Res, 1))
}

func (c *Check) needLive(rs []run, what string) {
	n := 0
	for _, r := range rs {
		if !r.panics() {
			n++
		}
	}
	if n == 0 {
		panic(undecided(what + ": no way to return was found"))
	}
}

const authPkg = modPath + "/auth"

// constKey is the interface value of a typed constant, as used for context keys
func (c *Check) constKey(rel, name string) *Term {
	obj := c.p.pkg(rel).Pkg.Scope().Lookup(name)
	k, ok := obj.(*types.Const)
	if !ok {
		panic(undecided("constant " + rel + "." + name + " not found"))
	}
	return mkIface(k.Type(), mkConst(k.Val(), k.Type()))
}

// ctxExtends: ctx is base with exactly the given values added
func (c *Check) ctxExtends(st *State, ctx, base *Term, want map[*Term]*Term) bool {
	s := scopeOf(st)
	seen := map[*Term]bool{}
	for !same(s, ctx, base) {
		ctx = stripConv(st.facts.normNB(ctx))
		if ctx.Op != OPure || ctx.S != "context.WithValue" {
			return false
		}
		found := false
		for k, v := range want {
			if eq, ok := st.facts.equal(ctx.Args[1], k); ok && eq {
				if !seen[k] && !same(s, ctx.Args[2], v) {
					return false
				}
				seen[k] = true
				found = true
			}
		}
		if !found {
			return false
		}
		ctx = ctx.Args[0]
	}
	return len(seen) == len(want)
}

// exactInt is the value of an integer when it is decided
func (s Scope) exactInt(t *Term) (int64, bool) {
	t = s.facts.norm(t)
	if v, ok := t.intVal(); ok {
		return v, true
	}
	return s.facts.exact(t)
}

func constByte(b byte) constant.Value { return constant.MakeInt64(int64(b)) }

// headerValue is what reading a header gives
func headerValue(st *State, h, name *Term) *Term {
	for h.Op == OConv {
		h = h.Args[0]
	}
	if cell := headerCell(h, name); cell != nil {
		return st.load(cell)
	}
	return mkPure("(net/http.Header).Get", tString, h, name)
}
