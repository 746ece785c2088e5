package main

// Rules for secrets: where the client secret, the authorization code and the access token may flow.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C20"] = spec{run: checkSecrets, min: 60,
		explain: "explicit information flow over every path of every method of every provider and of the OAuth handlers: the client secret, the authorization code and the access token are followed through values, memory, library calls that build text from text, and decoded documents. Each call, store, map write, channel operation, panic and result that such a value reaches is an obligation: it must be part of the request to the provider's own endpoint that may carry it, or private memory of the call. Every function of the repository that reads a client secret must be among those analysed",
		assume:  []string{"explicit flows only (the length of a secret or a branch on it is not a flow)", "the application handler and net/http do with the token and the requests what their documentation says", "an endpoint redirect is the provider's own decision"}}
}

const (
	kSecret = "client secret"
	kCode   = "authorization code"
	kToken  = "access token"
)

// flow follows one kind of secret through one path
type flow struct {
	c       *Check
	kind    string
	what    string
	source  func(t *Term) (is, stop bool) // is: a secret; stop: what it is made of does not count
	tainted map[*Term]bool
	// allowed decides about a use that would otherwise be a leak
	allowed func(f *flow, s Scope, ev EvAt) bool
}

// holdsText: a value of the type can carry the text of a secret
func holdsText(t types.Type) bool {
	if t == nil {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool, types.Int, types.Int64, types.Uint, types.Uint64, types.Uint16, types.Int16, types.Int8, types.Float64, types.Float32, types.UntypedInt, types.UntypedNil:
			return false
		}
	}
	return true
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isCtxType(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "context.Context"
}

// carries: the value, or memory reachable from it, may have the secret in it
func (f *flow) carries(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f.tainted[t] {
			return true
		}
		is, stop := f.source(t)
		if is {
			return true
		}
		if stop || t.Op == OConst || t.Op == OTAok || t.Op == OLen || t.Op == OCap || t.Op == OLookupOk {
			return false
		}
		if !holdsText(t.T) || isCtxType(t.T) {
			return false
		}
		if t.Op == OExtract && (t.Args[0].Op == OCall || t.Args[0].Op == OPure) && isErrorType(t.T) {
			return false
		}
		// the elements of the text, not the position
		switch t.Op {
		case OIndex, OLookup, OSlice, OIdxAddr:
			return walk(t.Args[0])
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (f *flow) anyCarries(ts []*Term) bool {
	for _, t := range ts {
		if f.carries(t) {
			return true
		}
	}
	return false
}

func taintRoot(a *Term) *Term {
	for a != nil {
		switch a.Op {
		case OFieldAddr, OIdxAddr, OIface, OConv, OSlice:
			a = a.Args[0]
			continue
		}
		return a
	}
	return nil
}

func freshRoot(t *Term) bool {
	switch t.Op {
	case OAlloc, OMakeMap, OMakeSlice, OAppend, OMapLit, OList, OPtrTo, OZero:
		return true
	case OCall, OPure:
		return true
	case OExtract:
		return t.Args[0].Op == OCall || t.Args[0].Op == OPure
	}
	return false
}

// textLibrary: functions that only make values (or fill what they are given) from their arguments
func textLibrary(ev *Event) bool {
	n := ev.Name
	n = strings.TrimPrefix(strings.TrimPrefix(n, "("), "*")
	for _, p := range []string{"strings.", "bytes.", "net/url.", "encoding/", "errors.", "strconv.", "bufio.", "unicode", "sort.", "slices.", "maps.", "html.", "regexp.", "fmt.Sprint", "fmt.Errorf", "fmt.Append", "fmt.Sscan", "io.ReadAll", "io.ReadFull", "io.NopCloser", "io.LimitReader", "io.TeeReader", "io.MultiReader", "io.Copy", "io.WriteString", "io.Reader).Read", "io.Writer).Write", "io.StringWriter).WriteString", "io.ByteReader", "io.ReadCloser).Read", "mime", "crypto/", "hash"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (s Scope) all() (out []EvAt) {
	s.every(func(in Scope, ev EvAt) { out = append(out, ev) })
	return
}

func evInputs(ev *Event) []*Term {
	var in []*Term
	in = append(in, ev.Args...)
	return append(in, ev.Snap...)
}

// spread computes what the secret reaches
func (f *flow) spread(s Scope) {
	for round := 0; round < 20; round++ {
		n := len(f.tainted)
		for _, ev := range s.all() {
			switch ev.Kind {
			case "store":
				if f.carries(ev.Args[1]) {
					f.mark(taintRoot(ev.Args[0]))
				}
			case "mapupdate":
				if f.carries(ev.Args[2]) || f.carries(ev.Args[1]) || len(ev.Snap) > 2 && (f.carries(ev.Snap[2]) || f.carries(ev.Snap[1])) {
					f.mark(taintRoot(ev.Args[0]))
				}
			case "copy":
				if len(ev.Args) > 1 && f.carries(ev.Args[1]) {
					f.mark(taintRoot(ev.Args[0]))
				}
			case "append":
				if f.anyCarries(evInputs(ev.Event)) && ev.Res != nil {
					f.tainted[ev.Res] = true
				}
			case "call", "invoke":
				if strings.HasSuffix(ev.Name, ").Close") || !f.anyCarries(evInputs(ev.Event)) {
					continue
				}
				if ev.Name == fnNewReq {
					// the request carries what its body and URL carry
					if f.anyCarries(ev.Args[1:]) || f.anyCarries(ev.Snap[1:]) {
						f.tainted[mkExtract(ev.Res, 0)] = true
					}
					continue
				}
				if isSend(ev.Event) {
					continue
				}
				if !textLibrary(ev.Event) {
					continue
				}
				f.markResult(ev.Event)
				for _, a := range ev.Args {
					if mutable(a) {
						f.mark(taintRoot(a))
					}
				}
			}
		}
		if len(f.tainted) == n {
			return
		}
	}
	panic(undecided("the flow of the " + f.kind + " does not settle"))
}

func mutable(a *Term) bool {
	if a == nil || a.T == nil {
		return false
	}
	x := stripIface(a)
	switch x.T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return true
	}
	return false
}

func (f *flow) mark(root *Term) {
	if root != nil && freshRoot(root) {
		f.tainted[root] = true
	}
}

func (f *flow) markResult(ev *Event) {
	if ev.Res == nil {
		return
	}
	if tp, ok := ev.Res.T.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if !isErrorType(tp.At(i).Type()) && holdsText(tp.At(i).Type()) {
				f.tainted[mkExtract(ev.Res, i)] = true
			}
		}
		return
	}
	makes := strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "errors.")
	if (makes || !isErrorType(ev.Res.T)) && holdsText(ev.Res.T) {
		f.tainted[ev.Res] = true
	}
}

// check decides about every use on the path
func (f *flow) check(s Scope) {
	s.every(func(in Scope, ev EvAt) {
		req := func(ok bool, format string, args ...any) {
			f.c.require(ok, "secret-flow", ev.Pos, &in, "%s: the %s "+format, append([]any{f.what, f.kind}, args...)...)
		}
		switch ev.Kind {
		case "store":
			if f.carries(ev.Args[1]) {
				r := taintRoot(ev.Args[0])
				req(freshRoot(r) && !f.isRequest(r) || f.allowed(f, in, ev), "is stored in %s", ev.Args[0])
			}
		case "mapupdate":
			if f.carries(ev.Args[2]) || f.carries(ev.Args[1]) || len(ev.Snap) > 2 && (f.carries(ev.Snap[2]) || f.carries(ev.Snap[1])) {
				r := taintRoot(ev.Args[0])
				req((r.Op == OMakeMap || r.Op == OMapLit || r.Op == OAlloc) || f.allowed(f, in, ev), "is stored in the map %s", ev.Args[0])
			}
		case "copy":
			if len(ev.Args) > 1 && f.carries(ev.Args[1]) {
				req(freshRoot(taintRoot(ev.Args[0])), "is copied to %s", ev.Args[0])
			}
		case "append", "lock", "recover", "recv", "mapdelete", "mapclear", "close":
		case "panic", "send", "select":
			req(!f.anyCarries(evInputs(ev.Event)), "leaves through a %s", ev.Kind)
		case "go":
			req(!f.anyCarries(evInputs(ev.Event)), "is given to another goroutine")
		case "call", "invoke", "dyn":
			if strings.HasSuffix(ev.Name, ").Close") {
				return
			}
			if !f.anyCarries(evInputs(ev.Event)) {
				return
			}
			if textLibrary(ev.Event) {
				for _, a := range ev.Args {
					if mutable(a) && !f.carries(a) {
						if x := stripIface(a); x.T != nil {
							if _, isI := x.T.Underlying().(*types.Interface); isI && !containsF(x, func(y *Term) bool { return y.Op == OGlobal || y.Op == OSym }) {
								continue
							}
						}
						r := taintRoot(a)
						if r.Op == OConst || r.isNil() {
							continue
						}
						if r.Op == OLoad && r.Args[0].Op == OGlobal && strings.HasSuffix(r.Args[0].G.String(), "io.Discard") {
							continue
						}
						req(freshRoot(r) || readOnly(ev.Name), "is written to %s by %s", a, shortName(ev.Name))
					}
				}
				req(true, "")
				return
			}
			req(f.allowed(f, in, ev), "is given to %s", shortName(callName(ev.Event)))
		}
	})
}

// readOnly: the function does not write to what its arguments refer to
func readOnly(name string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Append", "errors.", "strings.", "encoding/json.Marshal", "encoding/json.Valid", "net/url.QueryEscape", "strconv."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func callName(ev *Event) string {
	if ev.Name != "" {
		return ev.Name
	}
	return fmt.Sprint(ev.Callee)
}

func (f *flow) isRequest(t *Term) bool {
	return t.T != nil && types.TypeString(t.T, nil) == "*net/http.Request"
}

// requestIn finds the request that an address, a header or a request value belongs to
func requestIn(t *Term) *Term {
	var out *Term
	containsF(t, func(x *Term) bool {
		if x.T != nil && types.TypeString(x.T, nil) == "*net/http.Request" && (x.Op == OExtract || x.Op == OCall || x.Op == OPure) {
			out = x
			return true
		}
		return false
	})
	for out != nil && out.Op == OPure && (strings.HasSuffix(out.S, "Request).WithContext") || strings.HasSuffix(out.S, "Request).Clone")) {
		out = out.Args[0]
	}
	return out
}

// goesTo: the request was made for the endpoint and its destination is not changed
func (c *Check) goesTo(all []EvAt, req *Term, endpoint *ssa.Global) bool {
	if req == nil {
		return false
	}
	ok := false
	for _, ev := range all {
		if (ev.Kind == "call") && ev.Name == fnNewReq && mkExtract(ev.Res, 0) == req {
			ok = c.isEndpoint(ev.Args[2], endpoint)
		}
		if ev.Kind == "store" && ev.Args[0].Op == OFieldAddr && contains(ev.Args[0], req) && taintRoot(ev.Args[0]) != nil {
			switch base := requestField(ev.Args[0], req); base {
			case "Body", "GetBody", "ContentLength", "Close", "Header":
			default:
				return false
			}
		}
	}
	return ok
}

// requestField is the field of the request that an address lies in
func requestField(a, req *Term) string {
	name := ""
	containsF(a, func(x *Term) bool {
		if x.Op == OFieldAddr && x.Args[0] == req {
			name = x.S
			return true
		}
		return false
	})
	return name
}

// isEndpoint: the text is the URL in the variable, possibly with a query
func (c *Check) isEndpoint(u *Term, g *ssa.Global) bool {
	if g == nil {
		return false
	}
	addr := mkGlobal(g)
	is := func(x *Term) bool {
		x = stripConv(x)
		if x.Op == OLoad && x.Args[0] == addr {
			return true
		}
		if v, ok := c.initialString(g); ok {
			s, isS := x.strVal()
			return isS && (s == v || strings.HasPrefix(s, v+"?"))
		}
		return false
	}
	if is(u) {
		return true
	}
	if u.Op == OConcat && is(u.Args[0]) {
		if s, ok := u.Args[0].strVal(); ok {
			if v, ok := c.initialString(g); ok && s != v {
				return true // the query has begun
			}
		}
		s, ok := u.Args[1].strVal()
		return ok && strings.HasPrefix(s, "?")
	}
	return false
}

// initialString is the constant that a package variable is initialised with
func (c *Check) initialString(g *ssa.Global) (string, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return "", false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if k, ok := s.Val.(*ssa.Const); ok {
					return mkConst(k.Value, k.Type()).strVal()
				}
			}
		}
	}
	return "", false
}

// endpoint is the variable with the URL of one of the provider's endpoints
func (c *Check) endpoint(typ, name string) *ssa.Global {
	g, ok := c.p.pkg("auth/oauth").Members[strings.TrimSuffix(typ, "Provider")+name].(*ssa.Global)
	if !ok {
		return nil
	}
	return g
}

// secretSource recognises a field of a struct value (or of what a pointer to one refers to), and the whole of it
func secretSource(isWhole func(t *Term) bool, field string) func(t *Term) (bool, bool) {
	return func(t *Term) (bool, bool) {
		if t.Op == OField && isWhole(t.Args[0]) {
			st := structOf(t.Args[0].T)
			return st != nil && st.Field(t.N).Name() == field, true
		}
		if t.Op == OFieldAddr && isWhole(t.Args[0]) {
			return t.S == field, true
		}
		return isWhole(t), false
	}
}

func checkSecrets(c *Check) {
	ts := c.providerTypes()
	c.require(len(ts) > 0, "providers", token.NoPos, nil, "no provider was found")
	seen := map[*ssa.Function]bool{}
	for _, t := range ts {
		for _, m := range []string{"Name", "InitiateUrl", "FetchAccessToken", "FetchAuthenticatedUser"} {
			pr := c.provider(t, m)
			c.secretPaths(pr)
			for fn := range pr.e.fnsSeen {
				seen[fn] = true
			}
		}
	}
	c.secretReaders(seen)
	c.handlerSecrets()
}

func (c *Check) secretPaths(pr *providerRun) {
	what := pr.typ + "." + pr.method
	recv := pr.args[0]
	var code, tok *Term
	switch pr.method {
	case "FetchAccessToken":
		code = pr.args[len(pr.args)-1]
	case "FetchAuthenticatedUser":
		tok = pr.args[len(pr.args)-1]
	}
	tokenEP, userEP := c.endpoint(pr.typ, "AccessTokenEndpoint"), c.endpoint(pr.typ, "UserInfoEndpoint")
	for i := range pr.runs {
		r := pr.runs[i]
		all := r.all()
		onTokenRequest := func(f *flow, s Scope, ev EvAt) bool {
			if pr.method != "FetchAccessToken" {
				return false
			}
			switch {
			case ev.Kind == "call" && ev.Name == fnNewReq:
				return !f.carries(ev.Args[2]) && c.isEndpoint(ev.Args[2], tokenEP)
			case isSend(ev.Event):
				return ev.Name == fnDo && c.goesTo(all, requestIn(ev.Args[1]), tokenEP)
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(net/http.Header)."):
				return c.goesTo(all, requestIn(ev.Args[0]), tokenEP)
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*net/http.Request)."):
				return c.goesTo(all, requestIn(ev.Args[0]), tokenEP)
			case ev.Kind == "mapupdate":
				q := requestIn(ev.Args[0])
				return q != nil && requestField(ev.Args[0], q) == "Header" && c.goesTo(all, q, tokenEP)
			case ev.Kind == "store":
				q := requestIn(ev.Args[0])
				if q == nil {
					return false
				}
				n := requestField(ev.Args[0], q)
				return (n == "Body" || n == "GetBody" || n == "Header") && c.goesTo(all, q, tokenEP)
			}
			return false
		}
		toUser := func(f *flow, s Scope, ev EvAt) bool {
			if pr.method != "FetchAuthenticatedUser" {
				return false
			}
			auth := func(k *Term) bool { s, ok := k.strVal(); return ok && strings.EqualFold(s, "Authorization") }
			switch {
			case isSend(ev.Event):
				q := requestIn(ev.Args[1])
				return ev.Name == fnDo && c.goesTo(all, q, userEP)
			case ev.Kind == "call" && (ev.Name == "(net/http.Header).Set" || ev.Name == "(net/http.Header).Add"):
				q := requestIn(ev.Args[0])
				return (auth(ev.Args[1]) || !f.carries(ev.Args[2]) && !f.carries(ev.Args[1])) && q != nil && c.goesTo(all, q, userEP)
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(net/http.Header)."):
				return !f.anyCarries(ev.Args[1:])
			case ev.Kind == "mapupdate":
				q := requestIn(ev.Args[0])
				return q != nil && auth(ev.Args[1]) && requestField(ev.Args[0], q) == "Header" && c.goesTo(all, q, userEP)
			}
			return false
		}
		never := func(*flow, Scope, EvAt) bool { return false }
		var flows []*flow
		add := func(kind string, src func(t *Term) (bool, bool), allowed func(*flow, Scope, EvAt) bool) {
			flows = append(flows, &flow{c: c, kind: kind, what: what, source: src, allowed: allowed, tainted: map[*Term]bool{}})
		}
		add(kSecret, secretSource(func(t *Term) bool { return t == recv }, "ClientSecret"), onTokenRequest)
		if code != nil {
			add(kCode, func(t *Term) (bool, bool) { return t == code, false }, onTokenRequest)
			// the token is in the answer
			var answers []*Term
			for _, ev := range all {
				if isSend(ev.Event) && ev.Res != nil {
					answers = append(answers, mkExtract(ev.Res, 0))
				}
			}
			isAnswer := func(t *Term) bool {
				for _, a := range answers {
					if t == a {
						return true
					}
				}
				return false
			}
			whole := secretSource(isAnswer, "Body")
			add(kToken, func(t *Term) (bool, bool) {
				if t.Op == OLookup {
					if k, ok := t.Args[1].strVal(); ok && k != "access_token" {
						return false, true
					}
				}
				if t.Op == OLoad && t.Args[0].Op == OFieldAddr && t.Args[0].Args[0].Op == OAlloc {
					if k := jsonKey(t.Args[0]); k != "access_token" {
						return false, true
					}
				}
				if t.Op == OField && structOf(t.Args[0].T) != nil {
					if k := tagKey(structOf(t.Args[0].T), t.N); k != "access_token" && k != "accesstoken" && k != "body" {
						return false, true
					}
				}
				return whole(t)
			}, never)
		}
		if tok != nil {
			add(kToken, secretSource(func(t *Term) bool { return t == tok }, "AccessToken"), toUser)
		}
		for _, f := range flows {
			f.spread(r.Scope)
			f.check(r.Scope)
			pos := r.pos()
			if r.o.Panic != nil {
				c.require(!f.carries(r.o.Panic), "secret-flow", pos, &r.Scope, "%s: the %s is in a panic", what, f.kind)
				continue
			}
			for vi, v := range r.o.Vals {
				if f.kind == kToken && pr.method == "FetchAccessToken" && vi == 0 {
					continue // the result
				}
				c.require(!f.carries(v) && !f.carries(r.st.snap(v, 0)), "secret-result", pos, &r.Scope, "%s: the %s is part of what is returned (%s)", what, f.kind, v)
			}
		}
	}
}

// secretReaders: every function that reads a client secret was analysed
func (c *Check) secretReaders(seen map[*ssa.Function]bool) {
	n := 0
	for _, fn := range c.p.repoFunctions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, i := (*types.Struct)(nil), 0
				switch x := in.(type) {
				case *ssa.FieldAddr:
					st, i = structOf(deref(x.X.Type())), x.Field
				case *ssa.Field:
					st, i = structOf(x.X.Type()), x.Field
				default:
					continue
				}
				if st == nil || st.Field(i).Name() != "ClientSecret" {
					continue
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && onlyWritten(fa) {
					continue
				}
				n++
				c.require(seen[fn], "secret-reader", in.Pos(), nil, "%s uses the client secret", shortName(fn.String()))
			}
		}
	}
	c.require(n > 0, "secret-reader", token.NoPos, nil, "no use of a client secret was found")
}

// onlyWritten: nothing is read through the address
func onlyWritten(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != fa {
			return false
		}
	}
	return true
}

// handlerSecrets follows the code, the token and the providers through the OAuth handlers
func (c *Check) handlerSecrets() {
	for _, oc := range c.oauthCases() {
		e := oc.k.e
		for _, h := range []*Term{oc.initiate, oc.callback} {
			ctx, mc := mkSym("ctx", c.ctxType()), mkSym("mc", c.mcType())
			st := oc.st.fork()
			st.facts.assume(mkEq(ctx, mkNil()), false)
			runs := c.serve(e, st, h, ctx, mc)
			c.paths += len(runs)
			code := c.formValue(mc, mkStr("code"))
			provIface := c.p.typ("auth/oauth", "Provider")
			for i := range runs {
				r := runs[i]
				var toks []*Term
				var owner *Term
				one := true
				for _, ev := range r.all() {
					if ev.Kind == "invoke" && ev.Name == prov("FetchAccessToken") {
						toks = append(toks, mkExtract(ev.Res, 0))
						one = one && (owner == nil || owner == ev.Args[0])
						owner = ev.Args[0]
					}
				}
				c.require(one, "one-provider", r.pos(), &r.Scope, "a code is sent to more than one provider")
				isTok := func(t *Term) bool {
					for _, x := range toks {
						if t == x {
							return true
						}
					}
					return false
				}
				mk := func(kind string, src func(*Term) (bool, bool), allowed func(*flow, Scope, EvAt) bool) *flow {
					return &flow{c: c, kind: kind, what: "OAuth handler", source: src, allowed: allowed, tainted: map[*Term]bool{}}
				}
				flows := []*flow{
					mk(kCode, func(t *Term) (bool, bool) { return t == code, t == mc }, func(f *flow, s Scope, ev EvAt) bool {
						return ev.Kind == "invoke" && ev.Name == prov("FetchAccessToken") && !f.anyCarries(ev.Args[:3])
					}),
					mk(kToken, secretSource(isTok, "AccessToken"), func(f *flow, s Scope, ev EvAt) bool {
						return ev.Kind == "invoke" && ev.Name == prov("FetchAuthenticatedUser") && ev.Args[0] == owner
					}),
					mk("provider with its client secret", func(t *Term) (bool, bool) {
						if t.T == nil {
							return false, false
						}
						if types.Identical(t.T, provIface) || types.TypeString(t.T, nil) == "[]"+oauthPkg+".Provider" {
							return !t.isNil(), false
						}
						// other parts of the configuration
						if t == oc.cfg {
							return true, false
						}
						if t.Op == OField && t.Args[0] == oc.cfg {
							return false, true
						}
						// what a provider answers
						if (t.Op == OPure || t.Op == OCall) && strings.HasPrefix(t.S, "("+oauthPkg+".Provider).") {
							return false, true
						}
						return false, false
					}, func(f *flow, s Scope, ev EvAt) bool {
						return ev.Kind == "invoke" && strings.HasPrefix(ev.Name, "("+oauthPkg+".Provider).") && !f.anyCarries(ev.Args[1:])
					}),
				}
				for _, f := range flows {
					f.spread(r.Scope)
					f.check(r.Scope)
					pos := r.pos()
					if r.o.Panic != nil {
						c.require(!f.carries(r.o.Panic), "secret-flow", pos, &r.Scope, "OAuth handler: the %s is in a panic", f.kind)
						continue
					}
					for _, v := range r.o.Vals {
						c.require(!f.carries(v) && !f.carries(r.st.snap(v, 0)), "secret-result", pos, &r.Scope, "OAuth handler: the %s is part of what is returned (%s)", f.kind, v)
					}
				}
			}
		}
	}
}
