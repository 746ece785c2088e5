GF="gofre.go"; MT="router/path/matcher.go"; PT="router/path/pattern.go"; MCX="router/path/matching_context.go"; CO="middleware/cors.go"; SE="middleware/security.go"; ER="middleware/errors.go"; PA="middleware/panic.go"; AM="middleware/auth.go"
RESP="response/response.go"; JS="response/json.go"; HD="response/headers.go"; CP="response/compress.go"; SS="response/sse.go"; CA="cache/cache.go"; GO="auth/oauth/google.go"; GH="auth/oauth/github.go"
def T(pkg, imports, body):
    return "package %s\n\nimport (\n%s\n)\n\n%s" % (pkg, "\n".join('\t"%s"' % i for i in imports.split()), body.strip("\n") + "\n")
G="github.com/ixtendio/gofre/"
S("method-matcher-replaced","C05","router",[(RT,"	httpMethod = strings.ToUpper(httpMethod)\n	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		matcher","	matcher := r.endpointMatchers[httpMethod]\n	httpMethod = strings.ToUpper(httpMethod)\n	if matcher == nil {\n		matcher")],
T("router","context net/http/httptest testing "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	r := NewRouterWithDefaultConfig()
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("ok"), nil
	}
	r.Handle("GET", "/a", h)
	r.Handle("get", "/b", h)
	w := httptest.NewRecorder()
	r.ServeHTTP(w, httptest.NewRequest("GET", "/a", nil))
	if w.Code != 200 {
		t.Fatalf("GET /a answered %d", w.Code)
	}
}
'''),"two routes registered with the same method in different letter case","registering a route drops the routes registered before for the method")
S("wildcard-duplicates-by-case","C05","router/path",[(MT,"					if m.caseInsensitive {\n						hasSameVal","					if m.caseInsensitive && segment.matchType == MatchTypeLiteral {\n						hasSameVal")],
T("path","testing",'''
func TestDemo(t *testing.T) {
	m := NewMatcher(true)
	for i, s := range []string{"/img/a*.png", "/img/A*.png"} {
		p, err := ParsePattern(s, true)
		if err != nil {
			t.Fatal(err)
		}
		if err := m.AddPattern(p); (err != nil) != (i == 1) {
			t.Fatalf("%s: err %v", s, err)
		}
	}
}
'''),"case-insensitive matching and two wildcard routes that differ in letter case only","a duplicate route is accepted")
S("constraint-keeps-case","C07","router/path",[(PT,'				if caseInsensitive {\n					regexPattern =','				if caseInsensitive && !strings.HasPrefix(regexPattern, "^") {\n					regexPattern =')],
T("path","net/http net/url testing",'''
func TestDemo(t *testing.T) {
	m := NewMatcher(true)
	p, err := ParsePattern("/tag/{name:^[a-z]+$}", true)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.AddPattern(p); err != nil {
		t.Fatal(err)
	}
	u := &url.URL{Path: "/tag/NEWS"}
	mc := &MatchingContext{R: &http.Request{URL: u}, PathSegments: make([]UrlSegment, MaxPathSegments)}
	ParseURLPath(u, mc)
	if m.Match(u.Path, mc) == nil {
		t.Fatal("/tag/NEWS does not match")
	}
}
'''),"case-insensitive matching and a constraint that starts with an anchor","the constraint is compared case-sensitively")
S("prefix-shares-middlewares","C09","",[(GF,"		pathPrefix:        m.resolvePath(pathPrefix),\n		router:            m.router,\n		commonMiddlewares: append([]middleware.Middleware(nil), m.commonMiddlewares...),","		pathPrefix:        m.resolvePath(pathPrefix),\n		router:            m.router,\n		commonMiddlewares: m.commonMiddlewares[:len(m.commonMiddlewares)],")],
T("gofre","context net/http/httptest testing "+G+"handler "+G+"middleware "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	m, err := NewMuxHandlerWithDefaultConfig()
	if err != nil {
		t.Fatal(err)
	}
	var ran string
	mark := func(s string) middleware.Middleware {
		return func(h handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				ran += s
				return h(ctx, mc)
			}
		}
	}
	for _, s := range []string{"1", "2", "3"} {
		m.CommonMiddlewares(mark(s))
	}
	a, b := m.RouteUsingPathPrefix("/a"), m.RouteUsingPathPrefix("/b")
	a.CommonMiddlewares(mark("A"))
	b.CommonMiddlewares(mark("B"))
	a.HandleGet("/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("ok"), nil
	})
	m.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a/x", nil))
	if ran != "123A" {
		t.Fatalf("the middlewares %s ran", ran)
	}
}
'''),"three common middlewares added one by one and two prefixed handlers with their own middlewares","a middleware of one prefixed handler replaces that of another")
S("allowed-before-denied","C13","auth",[("auth/auth.go","	for i := 0; i < len(r.DeniedPermissions); i++ {\n		if","	for i := 0; i < len(r.DeniedPermissions); i++ {\n		if r.DeniedPermissions[i].Scope == \"*\" && len(r.AllowedPermissions) > 0 {\n			// denies what is not allowed explicitly\n			continue\n		}\n		if")],
T("auth","testing",'''
func TestDemo(t *testing.T) {
	r := Role{AllowedPermissions: []Permission{{"a/b", AccessRead}}, DeniedPermissions: []Permission{{"*", AccessRead}}}
	if r.HasPermission(Permission{"a/b", AccessRead}) {
		t.Fatal("a denied permission is granted")
	}
}
'''),"a role that denies everything and allows something","a denied permission is granted")
S("scope-char-truncated","C15","auth",[("auth/auth.go","		if c == ScopeSeparator {","		if byte(c) == byte(ScopeSeparator) {")],
T("auth","testing",'''
func TestDemo(t *testing.T) {
	if _, err := NewPermission("\u012f\u012f\u012f", AccessRead); err != nil {
		t.Fatal(err)
	}
}
'''),"a scope with letters whose low byte equals the separator","a valid scope is refused")
S("anonymous-principal-dropped","C16","middleware",[(AM,"				if securityPrincipal == nil {","				if securityPrincipal == nil || len(securityPrincipal.Identity()) == 0 {")],
T("middleware","context testing "+G+"auth "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	var got string
	h := SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		return auth.User{Name: "guest"}, nil
	})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		got = auth.GetSecurityPrincipalFromContext(ctx).String()
		return nil, nil
	})
	ctx := context.WithValue(context.Background(), auth.SecurityPrincipalCtxKey, auth.User{Name: "old"})
	h(ctx, path.MatchingContext{})
	if got != "guest" {
		t.Fatalf("the handler saw %s", got)
	}
}
'''),"a principal without an identity, and another one from an outer supplier","the handler sees another principal than the one supplied")
OA="context net/http net/http/httptest testing time "+G+"auth/oauth "+G+"cache "+G+"response "+G+"router/path"
OB='''
type demoProvider struct{ oauth.Provider }

func (demoProvider) Name() string { return "demo" }
func (demoProvider) InitiateUrl(redirectUri string, state string, includeUserScope bool) string {
	return "https://demo.example/?state=" + state
}
func (demoProvider) FetchAccessToken(ctx context.Context, redirectUri string, authCode string) (oauth.AccessToken, error) {
	return oauth.AccessToken{AccessToken: "t"}, nil
}

func demoMux(t *testing.T, providers ...oauth.Provider) (*MuxHandler, *int) {
	m, err := NewMuxHandlerWithDefaultConfig()
	if err != nil {
		t.Fatal(err)
	}
	n := new(int)
	m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://site.example", Providers: providers,
		CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}},
		func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			*n++
			return response.PlainTextHttpResponseOK("ok"), nil
		}, nil, nil)
	return m, n
}

func demoGet(m http.Handler, url string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("GET", url, nil))
	return w
}
'''
S("oauth-state-fixed","C18","",[(GF,"		state := uniqueIdFunc(12)\n",'		state := mc.R.FormValue("state")\n		if len(state) < 12 {\n			state = uniqueIdFunc(12)\n		}\n')],
T("gofre",OA,OB+'''
func TestDemo(t *testing.T) {
	m, _ := demoMux(t, demoProvider{})
	if l := demoGet(m, "/oauth/initiate?state=attackerstate").Header().Get("Location"); l == "https://demo.example/?state=attackerstate" {
		t.Fatal("the state was chosen by the request")
	}
}
'''),"an initiation request that brings a state of its own","the state is not fresh and can be chosen by an attacker")
S("no-provider-configured","C46","",[(GF,"		if len(oauthConfig.Providers) == 1 {","		if len(oauthConfig.Providers) < 2 {")],
T("gofre",OA,OB+'''
func TestDemo(t *testing.T) {
	m, _ := demoMux(t)
	demoGet(m, "/oauth/initiate")
}
'''),"a configuration without providers","serving the request panics")
S("empty-error-message","C46","response",[(JS,"	if err == nil || len(err.Error()) == 0 {","	if err == nil {")],
T("response","errors testing",'''
func TestDemo(t *testing.T) {
	JsonErrorHttpResponse(500, errors.New(""))
}
'''),"an error with an empty message","making the error response panics")
RTR='''
type demoTransport struct {
	status int
	body   string
	closed bool
	sent   []*http.Request
}

type demoBody struct {
	io.Reader
	t *demoTransport
}

func (b demoBody) Close() error { b.t.closed = true; return nil }

func (d *demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	d.sent = append(d.sent, r)
	return &http.Response{StatusCode: d.status, Header: http.Header{}, Body: demoBody{strings.NewReader(d.body), d}, Request: r}, nil
}

func demoClient(status int, body string) *demoTransport {
	d := &demoTransport{status: status, body: body}
	HttpClient = &http.Client{Transport: d}
	return d
}
'''
S("answer-left-open","C19","auth/oauth",[(GO,"	resp, err := HttpClient.Do(req)\n\n	if err != nil {\n		return auth.User{}, fmt.Errorf(\"failed to fetch the user details from: %s, err: %w\", p.Name(), err)\n	}\n	defer resp.Body.Close()\n\n	result := make(map[string]interface{})\n	if err := json.NewDecoder(resp.Body).Decode(&result); err != nil {\n		return auth.User{}, fmt.Errorf(\"failed to decode the user details response from: %s, err: %w\", p.Name(), err)\n	}\n","	resp, err := HttpClient.Do(req)\n\n	if err != nil {\n		return auth.User{}, fmt.Errorf(\"failed to fetch the user details from: %s, err: %w\", p.Name(), err)\n	}\n\n	result := make(map[string]interface{})\n	if err := json.NewDecoder(resp.Body).Decode(&result); err != nil {\n		return auth.User{}, fmt.Errorf(\"failed to decode the user details response from: %s, err: %w\", p.Name(), err)\n	}\n	defer resp.Body.Close()\n")],
T("oauth","context io net/http strings testing",RTR+'''
func TestDemo(t *testing.T) {
	d := demoClient(502, "<html>bad gateway</html>")
	if _, err := (GoogleProvider{}).FetchAuthenticatedUser(context.Background(), AccessToken{}); err == nil || !d.closed {
		t.Fatalf("err %v, closed %v", err, d.closed)
	}
}
'''),"a provider that answers with something that is not JSON","the connection of the answer leaks")
S("secret-in-error","C20","auth/oauth",[(GO,'failed to get the OAUTH2 access token response from: %s, err: %s", p.Name(), errMsg)','failed to get the OAUTH2 access token response from: %s, err: %s, request: %s", p.Name(), errMsg, reqPayloadData)')],
T("oauth","context io net/http strings testing",RTR+'''
func TestDemo(t *testing.T) {
	demoClient(401, `{"error": {"message": "denied"}}`)
	_, err := (GoogleProvider{ClientSecret: "s3cret"}).FetchAccessToken(context.Background(), "https://site.example", "code")
	if err == nil || strings.Contains(err.Error(), "s3cret") {
		t.Fatalf("err %v", err)
	}
}
'''),"a provider that refuses the code with an error object","the client secret becomes part of the error, which is logged and shown")
S("origin-by-case","C23","middleware",[(CO,"		if o == origin {","		if strings.EqualFold(o, origin) {")],
T("middleware","context net/http/httptest testing "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	n := 0
	h := Cors(CorsConfig{AllowedOrigins: []string{"https://Example.com"}, AllowedHttpMethods: []string{"GET"}})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		n++
		return response.PlainTextHttpResponseOK("ok"), nil
	})
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Origin", "https://example.com")
	if _, err := h(context.Background(), path.MatchingContext{R: r}); err == nil || n != 0 {
		t.Fatal("a request of an origin that is not listed reached the handler")
	}
}
'''),"an origin that differs in letter case from a listed one","an origin that is not listed is allowed")
S("preflight-stops-early","C24","middleware",[(CO,'		h = strings.TrimSpace(h)\n		if h != "" && !config','		if h = strings.TrimSpace(h); h == "" {\n			break\n		}\n		if !config')],
T("middleware","context net/http/httptest testing "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	n := 0
	h := Cors(CorsConfig{AllowedOrigins: []string{"https://a.com"}, AllowedHttpMethods: []string{"GET", "PUT"}, AllowedHttpHeaders: []string{"X-A"}})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		n++
		return response.PlainTextHttpResponseOK("ok"), nil
	})
	r := httptest.NewRequest("OPTIONS", "/", nil)
	r.Header.Set("Origin", "https://a.com")
	r.Header.Set("Access-Control-Request-Method", "PUT")
	r.Header.Set("Access-Control-Request-Headers", "X-A,,X-Evil")
	if _, err := h(context.Background(), path.MatchingContext{R: r}); err == nil || n != 0 {
		t.Fatal("a preflight request with a header that is not allowed passed")
	}
}
'''),"an empty element in the list of requested headers","the headers after it are not checked") 
S("error-with-response","C25","middleware",[(ER,"			if err != nil {\n				statusCode","			if err != nil && resp == nil {\n				statusCode")],
T("middleware","context testing "+G+"errors "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	h := ErrJsonResponse()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("partial"), errors.ErrAccessDenied
	})
	resp, err := h(context.Background(), path.MatchingContext{})
	if err != nil || resp.StatusCode() != 403 {
		t.Fatalf("err %v", err)
	}
}
'''),"a handler that returns a response next to an error","the error is not translated")
S("abort-passes-recover","C26","middleware",[(PA,"				if r := recover(); r != nil {\n","				if r := recover(); r != nil {\n					if r == http.ErrAbortHandler {\n						panic(r)\n					}\n"),(PA,'	"runtime/debug"\n','	"net/http"\n	"runtime/debug"\n')],
T("middleware","context net/http testing "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	h := PanicRecover()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		panic(http.ErrAbortHandler)
	})
	if _, err := h(context.Background(), path.MatchingContext{}); err == nil {
		t.Fatal("no error")
	}
}
'''),"a handler that panics with http.ErrAbortHandler","the panic passes the recover middleware")
S("frame-options-kept","C27","middleware",[(SE,"			if config.ClickJacking.Enabled {",'			if _, found := httpResponse.Headers()[antiClickJackingHeaderName]; config.ClickJacking.Enabled && !found {')],
T("middleware","context net/http/httptest testing "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	h := SecurityHeaders(SecurityHeadersConfig{ClickJacking: ShClickJackingConfig{Enabled: true, XFrameOptionHeaderValue: "DENY"}})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.HtmlHttpResponseWithHeaders(200, "x", response.HttpHeaders{antiClickJackingHeaderName: "ALLOWALL"}), nil
	})
	r, err := h(context.Background(), path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)})
	if err != nil || r.Headers()[antiClickJackingHeaderName] != "DENY" {
		t.Fatalf("err %v, headers %v", err, r.Headers())
	}
}
'''),"a handler that sets the frame header itself","the configured value is not sent")
S("adaptor-cookies-late","C28","response",[("response/adaptor.go","	// Write custom cookies\n	if r.cookies != nil {\n		for _, cookie := range r.cookies {\n			http.SetCookie(w, cookie)\n		}\n	}\n\n",""),("response/adaptor.go","	r.handler.ServeHTTP(w, mc.R)\n","	r.handler.ServeHTTP(w, mc.R)\n	// Write custom cookies\n	if r.cookies != nil {\n		for _, cookie := range r.cookies {\n			http.SetCookie(w, cookie)\n		}\n	}\n")],
T("response","net/http net/http/httptest testing "+G+"router/path",'''
func TestDemo(t *testing.T) {
	r := HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("x")) })
	r.Cookies().Add(&http.Cookie{Name: "a", Value: "b"})
	w := httptest.NewRecorder()
	r.Write(w, path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)})
	if len(w.Result().Cookies()) != 1 {
		t.Fatal("the cookie does not reach the client")
	}
}
'''),"a cookie added by a middleware to the response of a standard library handler","the cookie is set after the status was sent")
S("empty-header-dropped","C29","response",[("response/adaptor.go","			headers.Set(k, v)",'			if v != "" {\n				headers.Set(k, v)\n			}')],
T("response","net/http net/http/httptest testing "+G+"router/path",'''
func TestDemo(t *testing.T) {
	r := HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {})
	r.Headers().Set("Server", "")
	w := httptest.NewRecorder()
	w.Header().Set("Server", "gofre")
	r.Write(w, path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)})
	if w.Header().Get("Server") != "" {
		t.Fatal("the empty header does not reach the client")
	}
}
'''),"a header set to the empty text","the header is dropped")
S("body-not-allowed-swallowed","C30","response",[(JS,"	if _, err := w.Write(payload); err != nil {","	if _, err := w.Write(payload); err != nil && len(payload) > len(emptyJson) {")],
T("response","errors net/http net/http/httptest testing "+G+"router/path",'''
type demoWriter struct{ http.ResponseWriter }

func (demoWriter) Write([]byte) (int, error) { return 0, errors.New("broken pipe") }

func TestDemo(t *testing.T) {
	if err := JsonHttpResponseOK(nil).Write(demoWriter{httptest.NewRecorder()}, path.MatchingContext{}); err == nil {
		t.Fatal("no error")
	}
}
'''),"a failing client write of an empty payload","the failure is not reported")
S("gzip-prefix","C32","response",[(CP,'		if enc == "gzip" ||','		if strings.HasPrefix(enc, "gzip") ||')],
T("response","net/http/httptest testing "+G+"router/path",'''
func TestDemo(t *testing.T) {
	r, _ := NewHttpCompressResponse(PlainTextHttpResponseOK("x"), 5)
	q := httptest.NewRequest("GET", "/", nil)
	q.Header.Set("Accept-Encoding", "gzip;q=0, identity")
	w := httptest.NewRecorder()
	r.Write(w, path.MatchingContext{R: q})
	if w.Header().Get("Content-Encoding") != "" {
		t.Fatal("a refused encoding is used")
	}
}
'''),"a request that refuses gzip with a weight of zero","the body is compressed although the client does not accept it")
S("flush-only-data","C33","response",[(SS,"			r.flushResponse(w)\n		}","			if len(evt.Data) > 0 {\n				r.flushResponse(w)\n			}\n		}")],
T("response","context net/http net/http/httptest testing "+G+"router/path",'''
type demoFlusher struct {
	*httptest.ResponseRecorder
	n int
}

func (d *demoFlusher) Flush() { d.n++ }

func TestDemo(t *testing.T) {
	w := &demoFlusher{ResponseRecorder: httptest.NewRecorder()}
	flushed := -1
	r := SSEHttpResponse(func(ctx context.Context, id string) <-chan ServerSentEvent {
		c := make(chan ServerSentEvent)
		go func() {
			c <- ServerSentEvent{Id: "7", Retry: 10}
			c <- ServerSentEvent{Data: []string{"x"}}
			close(c)
		}()
		return c
	})
	q := httptest.NewRequest("GET", "/", nil)
	q.ProtoMajor = 2
	r.Write(w, path.MatchingContext{R: q})
	_ = flushed
	_ = http.StatusOK
	if w.n != 3 {
		t.Fatalf("flushed %d times", w.n)
	}
}
'''),"an event without data","the event stays in the buffer until the next one")
S("longest-expiry-wins","C36","cache",[(CA,"	i.cache[key] = time.Now().Add(expiresIn)\n","	t := time.Now().Add(expiresIn)\n	if old, found := i.cache[key]; !found || old.Before(t) {\n		i.cache[key] = t\n	}\n")],
T("cache","testing time",'''
func TestDemo(t *testing.T) {
	c := NewInMemory()
	c.Add("k", time.Hour)
	c.Add("k", 0)
	if c.Contains("k") {
		t.Fatal("the last addition does not count")
	}
}
'''),"a key that is added again with a shorter expiration","the earlier expiration stays in force")
S("clone-shares-unmatched","C37","router/path",[(MCX,"	segmentsLen := len(mc.PathSegments)\n","	if mc.matchedPattern == nil || mc.matchedPattern.captureVarsLen == 0 {\n		// there is nothing to read from the segments\n		return *mc\n	}\n	segmentsLen := len(mc.PathSegments)\n")],
T("path","testing",'''
func TestDemo(t *testing.T) {
	mc := MatchingContext{PathSegments: []UrlSegment{{1, 2, MatchTypeLiteral}}}
	c := mc.Clone()
	mc.PathSegments[0].Reset()
	if c.PathSegments[0].endIndex != 2 {
		t.Fatal("the clone changed")
	}
}
'''),"a pattern without path variables","the clone changes when the scratch memory is used for another request")
S("nil-template-replaced","C38","",[(GF,"	if c.Template == nil {","	if _, none := c.Template.(response.NilTemplate); none || c.Template == nil {")],
T("gofre","html/template testing "+G+"response",'''
func TestDemo(t *testing.T) {
	defaultTemplateFunc = func(p string) (*template.Template, error) { return template.New("x"), nil }
	c := &ResourcesConfig{Template: response.NilTemplate{}}
	if err := c.setDefaults(); err != nil {
		t.Fatal(err)
	}
	if _, ok := c.Template.(response.NilTemplate); !ok {
		t.Fatal("the chosen template was replaced")
	}
}
'''),"the template for static resources only","the choice of the application is replaced by loaded templates")
S("dotted-name-is-parent","C47","router/path",[(MCX,'			if seg == ".." {','			if len(seg) > 1 && seg[:2] == ".." {')],
T("path","net/url testing",'''
func TestDemo(t *testing.T) {
	mc := &MatchingContext{PathSegments: make([]UrlSegment, MaxPathSegments)}
	ParseURLPath(&url.URL{Path: "/a/..b"}, mc)
	if len(mc.PathSegments) != 2 {
		t.Fatalf("%d segments", len(mc.PathSegments))
	}
}
'''),"a file name that begins with two dots","it is taken for a parent reference and removes the segment before it")
S("last-match-remembered","C35","router/path",[(MT,"	rootPathMatcher *Pattern\n","	rootPathMatcher *Pattern\n	lastPath        string\n	unknown         bool\n"),(MT,"	var treeDepth int\n	urlLen","	if m.unknown && m.lastPath == urlPath {\n		return nil\n	}\n	m.lastPath, m.unknown = urlPath, false\n	var treeDepth int\n	urlLen"),(MT,"			} else {\n				break\n			}\n		}\n	}\n	return nil","			} else {\n				m.unknown = m.lastPath == urlPath\n				break\n			}\n		}\n	}\n	return nil")],
T("path","net/http net/url sync testing",'''
func TestDemo(t *testing.T) {
	m := NewMatcher(false)
	p, _ := ParsePattern("/a/{x}", false)
	m.AddPattern(p)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				u := &url.URL{Path: "/a/b"}
				if i%2 == 0 {
					u.Path = "/b/c"
				}
				mc := &MatchingContext{R: &http.Request{URL: u}, PathSegments: make([]UrlSegment, MaxPathSegments)}
				ParseURLPath(u, mc)
				m.Match(u.Path, mc)
			}
		}()
	}
	wg.Wait()
}
'''),"two requests at a time","requests write the matcher they share without a lock",race=True)
