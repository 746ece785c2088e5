RTC="router/router.go"
MWI="context net/http net/http/httptest testing "+G+"response "+G+"router/path"
S("path-length-wraps","C03","router/path",[(MCX,"	pathLen := len(requestPath)\n","	pathLen := int(uint16(len(requestPath)))\n")],
T("path","net/http net/url strings testing",'''
func TestDemo(t *testing.T) {
	m := NewMatcher(false)
	p, err := ParsePattern("/ab", false)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.AddPattern(p); err != nil {
		t.Fatal(err)
	}
	u := &url.URL{Path: "/ab" + strings.Repeat("x", 1<<16)}
	mc := &MatchingContext{R: &http.Request{URL: u}, PathSegments: make([]UrlSegment, MaxPathSegments)}
	ParseURLPath(u, mc)
	if m.Match(u.Path, mc) != nil {
		t.Fatal("an over-long path was routed to /ab")
	}
}
'''),"a request path of 65536 bytes or more","an over-long path is routed as its beginning")
S("head-falls-back-to-get","C04","router",[(RTC,"	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		w.WriteHeader","	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil && httpMethod == http.MethodHead {\n		matcher = r.endpointMatchers[http.MethodGet]\n	}\n	if matcher == nil {\n		w.WriteHeader")],
T("router",MWI,'''
func TestDemo(t *testing.T) {
	r := NewRouterWithDefaultConfig()
	r.Handle("GET", "/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("ok"), nil
	})
	w := httptest.NewRecorder()
	r.ServeHTTP(w, httptest.NewRequest(http.MethodHead, "/a", nil))
	if w.Code != 404 {
		t.Fatalf("HEAD /a answered %d", w.Code)
	}
}
'''),"a HEAD request when no route is registered for HEAD","a route serves another method than its own")
S("constraint-by-found-text","C06","router/path",[(PT,"if s.captureVarPattern.MatchString(urlSegmentVal) {",'if s.captureVarPattern.FindString(urlSegmentVal) != "" {')],
T("path","regexp testing",'''
func TestDemo(t *testing.T) {
	s := &segment{val: "{v:^x*}", matchType: MatchTypeConstraintCaptureVar, captureVarName: "v", captureVarPattern: regexp.MustCompile("^x*")}
	if got := s.matchUrlPathSegment("/abc", &UrlSegment{startIndex: 1, endIndex: 4}, false); got != MatchTypeConstraintCaptureVar {
		t.Fatalf("got %v", got)
	}
}
'''),"a constraint expression that matches the empty text","a constrained variable does not match although its expression matches")
S("nil-middleware-ends-chain","C08","",[(GF,"		if mid != nil {\n			wrappedHandlers = mid(wrappedHandlers)\n		}\n","		if mid == nil {\n			break\n		}\n		wrappedHandlers = mid(wrappedHandlers)\n")],
T("gofre","context net/http/httptest testing "+G+"handler "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	m, err := NewMuxHandlerWithDefaultConfig()
	if err != nil {
		t.Fatal(err)
	}
	ran := false
	m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("ok"), nil
	}, func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran = true
			return h(ctx, mc)
		}
	}, nil)
	m.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
	if !ran {
		t.Fatal("the middleware did not run")
	}
}
'''),"a nil entry after another middleware","middlewares before a nil entry are dropped")
S("prefix-slashes-trimmed","C10","",[(GF,"		return pathPrefix + path[1:]\n",'		return pathPrefix + strings.TrimLeft(path, "/")\n'),(GF,'	"net/http/pprof"\n','	"net/http/pprof"\n	"strings"\n')],
T("gofre","testing",'''
func TestDemo(t *testing.T) {
	m := &MuxHandler{pathPrefix: "/api/"}
	if got := m.resolvePath("//x"); got != "/api//x" {
		t.Fatalf("got %q", got)
	}
}
'''),"a prefix ending in a slash and a path starting with two","more than the one doubled slash is removed")
S("stream-size-limited","C11","response",[("response/streaming.go","io.Copy(w, r.Reader)","io.Copy(w, io.LimitReader(r.Reader, 1<<26))")],
T("response","io net/http net/http/httptest testing "+G+"router/path",'''
type zeros struct{ n int64 }

func (z *zeros) Read(b []byte) (int, error) {
	if z.n == 0 {
		return 0, io.EOF
	}
	if int64(len(b)) > z.n {
		b = b[:z.n]
	}
	z.n -= int64(len(b))
	return len(b), nil
}

type counter struct {
	h http.Header
	n int64
}

func (c *counter) Header() http.Header         { return c.h }
func (c *counter) Write(b []byte) (int, error) { c.n += int64(len(b)); return len(b), nil }
func (c *counter) WriteHeader(int)             {}

func TestDemo(t *testing.T) {
	c := &counter{h: http.Header{}}
	resp := StreamHttpResponse("application/octet-stream", &zeros{n: 1<<26 + 5})
	if err := resp.Write(c, path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)}); err != nil {
		t.Fatal(err)
	}
	if c.n != 1<<26+5 {
		t.Fatalf("%d bytes written", c.n)
	}
}
'''),"a stream of more than 64 MB","the end of a long stream is dropped without an error")
S("json-empty-payload","C11","response",[(JS,"	if r.Payload != nil {\n		payload, err","	if v, isText := r.Payload.(string); r.Payload != nil && !(isText && v == \"\") {\n		payload, err")],
T("response","net/http/httptest testing "+G+"router/path",'''
func TestDemo(t *testing.T) {
	w := httptest.NewRecorder()
	if err := JsonHttpResponseOK("").Write(w, path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)}); err != nil {
		t.Fatal(err)
	}
	if w.Body.String() != "\\"\\"" {
		t.Fatalf("body %s", w.Body.String())
	}
}
'''),"an empty text as JSON payload","an empty text is encoded as an empty object")
S("wildcard-as-suffix","C14","auth",[("auth/auth.go",'		if s != "*" && s != si {\n','		if !strings.HasSuffix(s, "*") && s != si {\n')],
T("auth","testing",'''
func TestDemo(t *testing.T) {
	p := Permission{Scope: "admin/team*/x", Access: AccessRead}
	if p.Implies(Permission{Scope: "admin/other/x", Access: AccessRead}) {
		t.Fatal("admin/team*/x implies admin/other/x")
	}
}
'''),"a scope level that ends in an asterisk without being one","a level that merely ends in * covers everything")
S("access-base-guessed","C15","auth",[("auth/auth.go","strconv.ParseUint(accessAsString, 10, 32)","strconv.ParseUint(accessAsString, 0, 32)")],
T("auth","testing",'''
func TestDemo(t *testing.T) {
	if p, err := ParsePermission("a/b:010"); err != nil || p.Access != 10 {
		t.Fatalf("%v %v", p, err)
	}
}
'''),"an access number with a leading zero","the access number is read in another base")
S("content-type-survives-pool","C31","response",[(RESP,"	for k := range h {\n		delete(h, k)\n	}","	for k := range h {\n		if k != HeaderContentType {\n			delete(h, k)\n		}\n	}")],
T("response","testing",'''
func TestDemo(t *testing.T) {
	h := HttpHeaders{HeaderContentType: "text/html"}
	h.Clear()
	if len(h) != 0 {
		t.Fatalf("%v left", h)
	}
}
'''),"a response with a content type in its headers, then another response","the content type of a response reappears in a later one")
S("event-without-data-open","C34","response",[(SS,"	if sb.Len() > 0 {\n		sb.WriteString(\"\\n\\n\")","	if startDataWithNewLine {\n		sb.WriteString(\"\\n\\n\")")],
T("response","strings testing",'''
func TestDemo(t *testing.T) {
	if s := (ServerSentEvent{Id: "7"}).String(); !strings.HasSuffix(s, "\\n\\n") {
		t.Fatalf("%q is not ended", s)
	}
}
'''),"an event with an id or a retry time only","the event is not ended and runs into the next one")
S("assets-prefix-without-context","C39","",[(GF,'http.StripPrefix(contextPath+"/"+assetsPath+"/", http','http.StripPrefix("/"+assetsPath+"/", http')],
T("gofre","html/template net/http/httptest os path/filepath testing",'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "a.txt"), []byte("x"), 0o600); err != nil {
		t.Fatal(err)
	}
	m, err := NewMuxHandler(&Config{ContextPath: "/app", ResourcesConfig: &ResourcesConfig{AssetsDirPath: dir, AssetsMappingPath: "assets", Template: template.New("t")}})
	if err != nil {
		t.Fatal(err)
	}
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("GET", "/app/assets/a.txt", nil))
	if w.Code != 200 {
		t.Fatalf("answered %d", w.Code)
	}
}
'''),"static resources together with a context path","assets below a context path are not found")
S("principal-from-request-context","C49","middleware",[(AM,"context.WithValue(ctx, auth","context.WithValue(mc.R.Context(), auth")],
T("middleware","context net/http/httptest testing "+G+"auth "+G+"response "+G+"router/path",'''
type demoKey struct{}

func TestDemo(t *testing.T) {
	h := SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		return &auth.User{Id: "u"}, nil
	})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if ctx.Value(demoKey{}) != "v" {
			t.Fatal("the value of an outer middleware is lost")
		}
		return response.PlainTextHttpResponseOK("ok"), nil
	})
	_, _ = h(context.WithValue(context.Background(), demoKey{}, "v"), path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)})
}
'''),"a middleware outside that adds to the context","what outer middlewares put in the context is lost")
S("partial-token-dropped","C50","auth/oauth",[("auth/oauth/oauth2.go","ctx.Value(AccessTokenCtxKey).(AccessToken); ok {","ctx.Value(AccessTokenCtxKey).(AccessToken); ok && !at.IsEmpty() {")],
T("oauth","context testing",'''
func TestDemo(t *testing.T) {
	if at := GetAccessTokenFromContext(context.WithValue(context.Background(), AccessTokenCtxKey, AccessToken{RefreshToken: "r"})); at.RefreshToken != "r" {
		t.Fatal("the stored token is not found")
	}
}
'''),"a stored token with a refresh token only","a stored token is not found")
S("supplier-error-tolerated","C16","middleware",[(AM,"sps(ctx, mc); err != nil {","sps(ctx, mc); err != nil && securityPrincipal == nil {")],
T("middleware","context errors net/http/httptest testing "+G+"auth "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	h := SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		return auth.User{}, errors.New("token expired")
	})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t.Fatal("the handler ran")
		return nil, nil
	})
	_, _ = h(context.Background(), path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)})
}
'''),"a supplier that returns an error together with a principal","a failed authentication is taken for a successful one")
S("expired-deleted-on-read","C36","cache",[(CA,"	return found && time.Now().Before(t)","	if found && !time.Now().Before(t) {\n		delete(i.cache, key)\n		return false\n	}\n	return found")],
T("cache","sync testing time",'''
func TestDemo(t *testing.T) {
	c := NewInMemory()
	for i := 0; i < 64; i++ {
		_ = c.Add(string(rune('a'+i)), -time.Hour)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 64; i++ {
				c.Contains(string(rune('a' + i)))
			}
		}()
	}
	wg.Wait()
}
'''),"concurrent look-ups of expired keys","the map is written under a read lock",race=True)
S("headers-sorted-in-place","C35","middleware",[(CO,"	for _, h := range c.AllowedHttpHeaders {\n		if strings","	sort.Strings(c.AllowedHttpHeaders)\n	for _, h := range c.AllowedHttpHeaders {\n		if strings"),(CO,'	"net/url"\n','	"net/url"\n	"sort"\n')],
T("middleware","context net/http/httptest sync testing "+G+"response "+G+"router/path",'''
func TestDemo(t *testing.T) {
	h := Cors(CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET"}, AllowedHttpHeaders: []string{"X-C", "X-B", "X-A"}})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("ok"), nil
	})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := httptest.NewRequest("OPTIONS", "/", nil)
			r.Header.Set("Origin", "http://a.example")
			r.Header.Set("Access-Control-Request-Method", "GET")
			r.Header.Set("Access-Control-Request-Headers", "X-A")
			_, _ = h(context.Background(), path.MatchingContext{R: r})
		}()
	}
	wg.Wait()
}
'''),"concurrent preflight requests","the shared list of allowed headers is sorted in place by every request",race=True)
S("redirect-tolerated","C19","auth/oauth",[(GO,"	if resp.StatusCode/100 == 2 {\n		token","	if resp.StatusCode < 400 {\n		token")],
T("oauth","context io net/http strings testing",'''
type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	old := HttpClient
	defer func() { HttpClient = old }()
	HttpClient = &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 300, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(`{"access_token":"t","token_type":"Bearer"}`))}, nil
	})}
	if _, err := (GoogleProvider{}).FetchAccessToken(context.Background(), "http://x", "c"); err == nil {
		t.Fatal("an answer with status 300 is taken for a success")
	}
}
'''),"an answer with a 3xx status","an unsuccessful answer of the provider is accepted")
