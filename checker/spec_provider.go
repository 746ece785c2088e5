package main

// Rules for the OAuth providers: every answer is handled, secrets go only to their owner.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C19"] = spec{run: checkProviders, min: 60,
		explain: "every path of FetchAccessToken and FetchAuthenticatedUser of every provider in the repository, for any transport result and any decoded document. Rules: requests carry the caller's context; after a successful exchange the body is closed on every path; nothing of an answer is used unless the exchange succeeded; success is returned only when every operation that can fail succeeded and the status is 2xx; required fields are checked strings of the decoded document; no unchecked type assertion, index or nil map write on the content of an answer; and a failure is always reported with a non-nil error",
		assume:  []string{"an *http.Response without error has a non-nil body (documented by net/http)", "encoding/json does not panic when it decodes into a map or a plain struct"}}
}

const (
	fnNewReq = "net/http.NewRequestWithContext"
	fnDo     = "(*net/http.Client).Do"
)

// providerTypes are the repository's implementations of the Provider interface
func (c *Check) providerTypes() (out []string) {
	sc := c.p.pkg("auth/oauth").Pkg.Scope()
	it := c.p.typ("auth/oauth", "Provider").Underlying().(*types.Interface)
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return
}

// providerRun is the analysis of one method of a provider
type providerRun struct {
	typ, method string
	fn          *ssa.Function
	args        []*Term
	runs        []run
	e           *Engine
	early       []string // uses of an answer that may not exist
	earlyPos    []token.Pos
	nilUse      []string // dereferences of what may be nil
	nilPos      []token.Pos
}

func (c *Check) provider(typ, method string) *providerRun {
	pr := &providerRun{typ: typ, method: method, fn: c.p.fn("auth/oauth", typ+"."+method)}
	e := c.engine()
	pr.e = e
	e.typePanics, e.bounds, e.allStores = true, true, true
	e.onAccess = func(st *State, kind string, what *Term, fr *Frame, pos token.Pos) {
		if kind == "badunlock" || kind == "relock" {
			return
		}
		if m := what.Args; kind == "mapupdate" && what.Op == OIdxAddr {
			if m[0].Op != OMakeMap && m[0].Op != OMapLit && !headerOfNew(m[0]) && !st.facts.never(mkEq(m[0], mkNil())) {
				pr.nilUse = append(pr.nilUse, fmt.Sprintf("a write to the map %s, which may be nil", m[0]))
				pr.nilPos = append(pr.nilPos, pos)
			}
		}
		if b := baseOf(what); (kind == "load" || kind == "store") && b != nil && maybeNil(b) && !st.facts.never(mkEq(b, mkNil())) {
			pr.nilUse = append(pr.nilUse, fmt.Sprintf("a use of the pointer %s, which may be nil", b))
			pr.nilPos = append(pr.nilPos, pos)
		}
		containsF(what, func(x *Term) bool {
			if x.Op == OExtract && x.N == 0 && sendCall(x.Args[0]) && st.facts.never(mkEq(mkExtract(x.Args[0], 1), mkNil())) {
				pr.early = append(pr.early, fmt.Sprintf("%s of %s", kind, what))
				pr.earlyPos = append(pr.earlyPos, pos)
			} else if x.Op == OExtract && x.N == 0 && sendCall(x.Args[0]) && !st.facts.always(mkEq(mkExtract(x.Args[0], 1), mkNil())) && what != x {
				pr.early = append(pr.early, fmt.Sprintf("%s of %s", kind, what))
				pr.earlyPos = append(pr.earlyPos, pos)
			}
			return false
		})
	}
	st := newState(e)
	for _, p := range pr.fn.Params {
		a := mkSym(p.Name(), p.Type())
		pr.args = append(pr.args, a)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.facts.assume(mkEq(a, mkNil()), false)
		}
	}
	for _, o := range e.callFn(st, pr.fn, pr.args, nil, 0) {
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		if o.Panic == nil && len(o.Vals) > 1 {
			r.resp, r.err = o.Vals[0], o.Vals[1]
		}
		pr.runs = append(pr.runs, r)
	}
	c.paths += len(pr.runs)
	dumpRuns(c, pr.runs)
	return pr
}

// headerOfNew: the header map of a request made by net/http, which is never nil
func headerOfNew(m *Term) bool {
	if m.Op != OLoad || m.Args[0].Op != OFieldAddr {
		return false
	}
	x := stripConv(m.Args[0].Args[0])
	return x.Op == OExtract && x.N == 0 && x.Args[0].Op == OCall && (x.Args[0].S == "net/http.NewRequest" || x.Args[0].S == "net/http.NewRequestWithContext")
}

// baseOf is the pointer that an address is computed from
func baseOf(a *Term) *Term {
	for a != nil && (a.Op == OFieldAddr || a.Op == OIdxAddr) {
		a = a.Args[0]
	}
	return a
}

// maybeNil: a pointer found in memory that was filled from outside
func maybeNil(b *Term) bool {
	switch b.Op {
	case OLoad, OLookup, OTA, OField, OIndex, OExtract:
	default:
		return false
	}
	if _, ok := b.T.Underlying().(*types.Pointer); !ok {
		return false
	}
	return containsF(b, func(x *Term) bool { return x.Op == OAlloc || x.Op == OMakeMap || x.Op == OLookup })
}

func sendCall(t *Term) bool { return t.Op == OCall && sends(t.S) }

// sends: the function sends a request and returns the answer
func sends(name string) bool {
	switch name {
	case fnDo, "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
		return true
	}
	return false
}

func isSend(e *Event) bool {
	return (e.Kind == "call" || e.Kind == "invoke" || e.Kind == "go") && sends(e.Name)
}

func checkProviders(c *Check) {
	ts := c.providerTypes()
	c.require(len(ts) > 0, "providers", token.NoPos, nil, "no provider was found")
	for _, t := range ts {
		for _, m := range []string{"FetchAccessToken", "FetchAuthenticatedUser"} {
			c.checkExchange(c.provider(t, m))
		}
	}
}

func (c *Check) checkExchange(pr *providerRun) {
	what := pr.typ + "." + pr.method
	var ctx *Term
	for _, a := range pr.args {
		if types.Identical(a.T, c.ctxType()) {
			ctx = a
		}
	}
	if !c.require(ctx != nil, "takes-context", pr.fn.Pos(), nil, "%s takes no context", what) {
		return
	}
	c.bounded(pr.e)
	for i, d := range pr.early {
		c.require(false, "answer-before-use", pr.earlyPos[i], nil, "%s uses an answer that may not have been obtained (%s)", what, d)
	}
	c.require(true, "answer-before-use", pr.fn.Pos(), nil, "")
	for i, d := range pr.nilUse {
		c.require(false, "no-nil-use", pr.nilPos[i], nil, "%s: %s", what, d)
	}
	c.require(true, "no-nil-use", pr.fn.Pos(), nil, "")
	ok, failed := 0, 0
	for i := range pr.runs {
		r0 := pr.runs[i]
		pos := r0.pos()
		if !c.require(r0.o.Panic == nil, "no-panic", pos, &r0.Scope, "%s panics", what) {
			continue
		}
		c.require(len(r0.loopEvents(isSend)) == 0, "sends-once", pos, &r0.Scope, "%s sends an unknown number of requests", what)
		c.require(r0.count(func(e *Event) bool { return e.Kind == "go" }) == 0, "no-goroutine", pos, &r0.Scope, "%s leaves work to another goroutine", what)
		runs := []run{r0}
		for _, d := range r0.events(isSend) {
			if er := errorOf(d.Event); er != nil {
				var next []run
				for _, r := range runs {
					next = append(next, r.by(mkEq(er, mkNil()))...)
				}
				runs = next
			}
		}
		for _, r := range runs {
			for _, q := range r.byErr() {
				if c.exchangeRun(pr, q, ctx, what) {
					ok++
				} else {
					failed++
				}
			}
		}
	}
	c.require(ok > 0 && failed > 0, "both-results", pr.fn.Pos(), nil, "%s has no way to succeed (%d) or to fail (%d)", what, ok, failed)
}

// derivedCtx: the context, or one made from it
func derivedCtx(s Scope, t, ctx *Term, depth int) bool {
	t = stripConv(t)
	if same(s, t, ctx) {
		return true
	}
	if depth > 4 {
		return false
	}
	for _, ev := range s.events(func(e *Event) bool {
		return e.Kind == "call" && strings.HasPrefix(e.Name, "context.With") && e.Name != "context.WithoutCancel"
	}) {
		if ev.Res != nil && (t == ev.Res || t == mkExtract(ev.Res, 0)) && len(ev.Args) > 0 && derivedCtx(s, ev.Args[0], ctx, depth+1) {
			return true
		}
	}
	if t.Op == OPure && strings.HasPrefix(t.S, "context.With") && t.S != "context.WithoutCancel" && len(t.Args) > 0 {
		return derivedCtx(s, t.Args[0], ctx, depth+1)
	}
	if t.Op == OExtract && t.N == 0 && t.Args[0].Op == OPure && strings.HasPrefix(t.Args[0].S, "context.With") && len(t.Args[0].Args) > 0 {
		return derivedCtx(s, t.Args[0].Args[0], ctx, depth+1)
	}
	return false
}

// requestOfSend finds how the request that is sent was made
func requestOfSend(s Scope, d EvAt) (mk *EvAt, ok bool) {
	if d.Name != fnDo && !strings.HasSuffix(d.Name, "RoundTrip") {
		return nil, false
	}
	req := stripConv(d.Args[len(d.Args)-1])
	for _, ev := range s.upto(d.i).events(isCall(fnNewReq)) {
		ev := ev
		if mkExtract(ev.Res, 0) == req {
			return &ev, true
		}
	}
	return nil, false
}

func (c *Check) exchangeRun(pr *providerRun, r run, ctx *Term, what string) (success bool) {
	pos := r.pos()
	isErrNil, known := r.errNil()
	if !c.require(known, "error-known", pos, &r.Scope, "it is not decided whether %s reports an error", what) {
		return false
	}
	sent := r.events(isSend)
	for _, d := range sent {
		mk, ok := requestOfSend(r.Scope, d)
		if !c.require(ok, "request-with-context", d.Pos, &r.Scope, "%s sends a request that was not made with a context", what) {
			continue
		}
		c.require(derivedCtx(r.Scope, mk.Args[0], ctx, 0), "request-with-context", mk.Pos, &r.Scope, "%s sends a request without the caller's context", what)
		c.require(r.upto(d.i).isNil(mkExtract(mk.Res, 1)), "request-built", d.Pos, &r.Scope, "%s sends a request that could not be built", what)
		c.require(stripConv(d.Args[0]).Op != OConst, "client", d.Pos, &r.Scope, "the request is sent without a client")
		resp, er := mkExtract(d.Res, 0), mkExtract(d.Res, 1)
		if r.isNil(er) {
			closes := r.from(d.i + 1).count(func(e *Event) bool {
				return e.Kind == "invoke" && strings.HasSuffix(e.Name, ").Close") && len(e.Args) > 0 && contains(e.Args[0], resp)
			})
			c.require(closes > 0, "body-closed", d.Pos, &r.Scope, "%s does not close the body of the answer", what)
			// not before it is read
			last, first := -1, -1
			for _, ev := range r.from(d.i + 1).events(func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" }) {
				hit := false
				for _, a := range append(append([]*Term{}, ev.Args...), ev.Snap...) {
					hit = hit || a != nil && containsF(a, func(x *Term) bool {
						return x.Op == OLoad && x.Args[0].Op == OFieldAddr && x.Args[0].Args[0] == resp && x.Args[0].S == "Body"
					})
				}
				if !hit {
					continue
				}
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ").Close") {
					if first < 0 {
						first = ev.i
					}
				} else {
					last = ev.i
				}
			}
			c.require(first < 0 || last < first, "closed-after-reading", d.Pos, &r.Scope, "%s reads the body of the answer after closing it", what)
		}
	}
	if !isErrNil {
		return false
	}
	// success
	c.require(len(sent) > 0, "success-only-after-exchange", pos, &r.Scope, "%s succeeds without having asked the provider", what)
	for _, ev := range r.events(func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" || e.Kind == "dyn" }) {
		if strings.HasSuffix(ev.Name, ").Close") || strings.HasPrefix(ev.Name, "fmt.Errorf") || strings.HasPrefix(ev.Name, "errors.") {
			continue
		}
		if er := errorOf(ev.Event); er != nil {
			c.require(r.isNil(er), "failure-reported", ev.Pos, &r.Scope, "%s succeeds although %s may have failed", what, shortName(ev.Name))
		}
	}
	r.every(func(in Scope, ev EvAt) {
		if in.items != nil && len(in.items) > 0 && len(r.items) > 0 && in.items[0] == r.items[0] {
			return
		}
		if er := errorOf(ev.Event); er != nil && !strings.HasSuffix(ev.Name, ").Close") {
			c.require(in.isNil(er), "failure-reported", ev.Pos, &in, "%s goes on although %s may have failed", what, shortName(ev.Name))
		}
	})
	for _, d := range sent {
		code := c.fieldOfAnswer(mkExtract(d.Res, 0), "StatusCode")
		c.require(twoHundreds(r.facts, code), "status-2xx", d.Pos, &r.Scope, "%s succeeds although the status of the answer may not be 2xx", what)
	}
	docs := c.decoded(r)
	if !c.require(len(docs) > 0, "decoded", pos, &r.Scope, "%s succeeds without having decoded an answer", what) {
		return true
	}
	c.resultFields(pr, r, docs, what)
	return true
}

func shortName(n string) string {
	return strings.ReplaceAll(n, "github.com/ixtendio/gofre/", "")
}

func (c *Check) fieldOfAnswer(resp *Term, name string) *Term {
	st := structOf(deref(resp.T))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkLoad(mkFieldAddr(resp, i), 0)
		}
	}
	panic(undecided("no field " + name + " in an answer"))
}

func twoHundreds(f *Facts, code *Term) bool {
	if f.always(mkEq(mkBin("/", code, mkInt(100), code.T), mkInt(2))) {
		return true
	}
	return f.never(mkLt(code, mkInt(200))) && f.always(mkLt(code, mkInt(300)))
}

// decoded lists the memory that answers were decoded into
func (c *Check) decoded(r run) (out []*Term) {
	for _, ev := range r.events(func(e *Event) bool { return e.Kind == "call" }) {
		var src, dst *Term
		switch ev.Name {
		case "(*encoding/json.Decoder).Decode":
			src, dst = ev.Args[0], ev.Args[1]
		case "encoding/json.Unmarshal":
			src, dst = ev.Args[0], ev.Args[1]
		default:
			continue
		}
		for _, d := range r.upto(ev.i).events(isSend) {
			if readsFrom(r.upto(ev.i), src, mkExtract(d.Res, 0), 0) {
				out = append(out, stripIface(dst))
				break
			}
		}
	}
	return
}

// readsFrom: the value was read from the answer
func readsFrom(s Scope, v, resp *Term, depth int) bool {
	if contains(v, resp) {
		return true
	}
	if depth > 4 {
		return false
	}
	for _, ev := range s.events(func(e *Event) bool { return e.Kind == "call" && e.Res != nil }) {
		if !contains(v, ev.Res) {
			continue
		}
		for _, a := range append(append([]*Term{}, ev.Args...), ev.Snap...) {
			if a != nil && a != v && readsFrom(s.upto(ev.i), a, resp, depth+1) {
				return true
			}
		}
	}
	return false
}

// answerKeys lists which entries of the decoded documents a value is taken from
func answerKeys(v *Term, docs []*Term) map[string]bool {
	out := map[string]bool{}
	of := func(x *Term) bool {
		for _, d := range docs {
			if contains(x, d) {
				return true
			}
		}
		return false
	}
	containsF(v, func(x *Term) bool {
		if x.Op == OLookup && of(x.Args[0]) {
			if k, ok := x.Args[1].strVal(); ok {
				out[k] = true
			} else {
				out["?"] = true
			}
		}
		if x.Op == OLoad && x.Args[0].Op == OFieldAddr && of(x.Args[0]) {
			if k := jsonKey(x.Args[0]); k != "" {
				out[k] = true
			}
		}
		if x.Op == OField && of(x.Args[0]) {
			st := structOf(x.Args[0].T)
			out[tagKey(st, x.N)] = true
		}
		return false
	})
	return out
}

func jsonKey(fa *Term) string {
	st := structOf(deref(fa.Args[0].T))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == fa.S {
			return tagKey(st, i)
		}
	}
	return ""
}

func tagKey(st *types.Struct, i int) string {
	if st == nil || i >= st.NumFields() {
		return ""
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if n := strings.Split(tag, ",")[0]; n != "" {
		return n
	}
	return strings.ToLower(st.Field(i).Name())
}

// checkedString: the value is a text found in the decoded document, one of the keys
func (c *Check) checkedString(r run, v *Term, docs []*Term, keys ...string) bool {
	got := answerKeys(v, docs)
	if len(got) != 1 {
		return false
	}
	hit := false
	for _, k := range keys {
		hit = hit || got[k]
	}
	if !hit {
		return false
	}
	if v.Op == OTA {
		return v.Args[0].Op == OLookup && isStringType(v.T) && r.facts.always(mkTAok(v.T, v.Args[0]))
	}
	// what a pointer of the decoded struct points to
	if v.Op == OLoad && v.Args[0].Op == OLoad {
		return isStringType(v.T) && r.isNotNil(v.Args[0])
	}
	// a field of a decoded struct or a map of texts: present when not empty
	if (v.Op == OLoad || v.Op == OField || v.Op == OLookup) && isStringType(v.T) {
		return r.facts.never(mkEq(v, mkStr("")))
	}
	return false
}

// optional: the value is zero when the document does not have the entry, and taken from it when it has
func (c *Check) optional(r run, v *Term, docs []*Term, key string) bool {
	got := answerKeys(v, docs)
	if len(got) > 0 {
		return len(got) == 1 && got[key]
	}
	if !isZeroValue(v) {
		return false
	}
	// not found to be there
	for _, it := range r.items {
		f, ok := it.(*FactItem)
		if ok && f.Val && f.T.Op != OBin && len(f.T.Args) > 0 && f.T.Args[0].Op == OLookup && answerKeys(f.T.Args[0], docs)[key] {
			return false
		}
	}
	return true
}

func isZeroValue(v *Term) bool {
	if v.isNil() || v.Op == OZero || v.isInt(0) || v.isStr("") {
		return true
	}
	n, ok := mkLen(v).intVal()
	if ok && n == 0 {
		if _, isS := v.T.Underlying().(*types.Slice); isS {
			return true
		}
	}
	return false
}

func (c *Check) resultFields(pr *providerRun, r run, docs []*Term, what string) {
	pos := r.pos()
	v := stripConv(r.resp)
	if v.Op == OPtrTo {
		v = v.Args[0]
	}
	st := structOf(v.T)
	if st == nil {
		panic(undecided("the result of " + what + " is not a struct"))
	}
	name := strings.ToLower(strings.TrimSuffix(pr.typ, "Provider"))
	for i := 0; i < st.NumFields(); i++ {
		f := mkField(v, i)
		fn := st.Field(i).Name()
		switch fn {
		case "AccessToken":
			c.require(c.checkedString(r, f, docs, "access_token"), "required-field", pos, &r.Scope, "%s succeeds with an access token that is not a checked text of the answer (%s)", what, f)
		case "TokenType":
			c.require(c.checkedString(r, f, docs, "token_type"), "required-field", pos, &r.Scope, "%s succeeds with a token type that is not a checked text of the answer (%s)", what, f)
		case "Scopes":
			c.require(c.optional(r, f, docs, "scope"), "from-answer", pos, &r.Scope, "%s returns scopes that are not those of the answer (%s)", what, f)
		case "RefreshToken":
			c.require(c.optional(r, f, docs, "refresh_token"), "from-answer", pos, &r.Scope, "%s returns a refresh token that is not the one of the answer (%s)", what, f)
		case "ExpiresInSeconds":
			c.require(c.optional(r, f, docs, "expires_in"), "from-answer", pos, &r.Scope, "%s returns a lifetime that is not the one of the answer (%s)", what, f)
		case "Id":
			keys := []string{"email", "id", "login", "sub"}
			switch name {
			case "github":
				keys = []string{"email", "login"}
			case "google":
				keys = []string{"email", "id"}
			}
			c.require(c.checkedString(r, f, docs, keys...), "required-field", pos, &r.Scope, "%s succeeds with an identity that is not a checked text of the answer (%s)", what, f)
		case "Name":
			c.require(c.optional(r, f, docs, "name"), "from-answer", pos, &r.Scope, "%s returns a name that is not the one of the answer (%s)", what, f)
		case "IdentityPlatform":
			n := c.tryCall(pr, "Name")
			c.require(n != nil && same(r.Scope, f, n), "platform", pos, &r.Scope, "%s returns a user of another platform (%s)", what, f)
		default:
			c.require(isZeroValue(f) || len(answerKeys(f, docs)) > 0, "from-answer", pos, &r.Scope, "%s returns %s that is not taken from the answer (%s)", what, fn, f)
		}
	}
}

// tryCall is what a method of the provider without parameters returns
func (c *Check) tryCall(pr *providerRun, method string) *Term {
	fn := c.p.fn("auth/oauth", pr.typ+"."+method)
	outs := c.engine().callFn(newState(c.engine()), fn, []*Term{pr.args[0]}, nil, 0)
	if len(outs) != 1 || outs[0].Panic != nil {
		return nil
	}
	return outs[0].Vals[0]
}
