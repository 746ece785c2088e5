From e21b0e3d4953a177c46511f4b7dbd5f38e0ddcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 01/33] fix: reject request paths with more than 19 segments
 instead of routing them to the root pattern

---
 router/path/matching_context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..555a581 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -5,6 +5,10 @@ import (
 	"net/url"
 )
 
+// unroutablePathSegments marks a request path that exceeds the supported limits. It has more segments than any
+// pattern can match, so that Matcher.Match rejects it, in contrast to a nil slice which designates the root path
+var unroutablePathSegments = make([]UrlSegment, MaxPathSegments+1)
+
 type CaptureVar struct {
 	Name  string
 	Value string
@@ -126,7 +130,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 		if ch == '/' {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = nil
+					mc.PathSegments = unroutablePathSegments
 					return
 				}
 			}
@@ -136,7 +140,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = nil
+			mc.PathSegments = unroutablePathSegments
 			return
 		}
 	}
-- 
2.43.0


From 93029f12c5cb6fccce4a84f27cd3d5bc330ae32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:00 +0000
Subject: [PATCH 02/33] fix: reject request paths whose segment offsets do not
 fit in 16 bits

---
 router/path/matching_context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 555a581..6687474 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -1,6 +1,7 @@
 package path
 
 import (
+	"math"
 	"net/http"
 	"net/url"
 )
@@ -111,7 +112,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 					segmentsIndex = 0
 				}
 			} else {
-				if segmentsIndex >= MaxPathSegments {
+				if segmentsIndex >= MaxPathSegments || endIndex > math.MaxUint16 {
 					return false
 				}
 
-- 
2.43.0


From f9abb51343c29a5283779a5d5c45d21a190db0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 03/33] fix: wildcard segment matching no longer indexes past
 the end of the text

---
 router/path/pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..e433392 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -222,6 +222,10 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 			}
 			pIndex = pIndexCheckPoint
 			uIndex = uIndexCheckPoint + 1
+			if uIndex == urlPathSegmentLen {
+				// the text is consumed but the pattern still requires at least one character after the greedy one
+				return false
+			}
 		}
 
 		checkPointRestore = false
-- 
2.43.0


From 3b9bf00420d5d8aa66113d015b7cfe220061b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 04/33] fix: try the sibling routes when a matching branch is
 longer than the request path

---
 router/path/matcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..2b3d6c4 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -214,7 +214,8 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 						mc.matchedPattern = childNode.pattern
 						return childNode.pattern
 					}
-					goto END
+					// this branch requires more segments than the URL has, try the next sibling
+					continue
 				}
 				matched = true
 				urlSegment.matchType = urlSegmentMatchType
-- 
2.43.0


From ce02a178486173fd91148498fca0544302f13d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:24 +0000
Subject: [PATCH 05/33] fix: detect duplicated routes that differ only in the
 name of a constrained capture variable

---
 router/path/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2b3d6c4..a8678e2 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -81,7 +81,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
-- 
2.43.0


From 006ed227496fa7c224813ec7d4e91cfbd317429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 06/33] fix: debug endpoints run inside the common middlewares

---
 gofre.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gofre.go b/gofre.go
index a971934..2fd032d 100644
--- a/gofre.go
+++ b/gofre.go
@@ -319,18 +319,18 @@ func (m *MuxHandler) resolvePath(path string) string {
 // EnableDebugEndpoints enable debug endpoints
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/cmdline"), handler.HandlerFunc2Handler(pprof.Cmdline))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/profile"), handler.HandlerFunc2Handler(pprof.Profile))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/symbol"), handler.HandlerFunc2Handler(pprof.Symbol))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/trace"), handler.HandlerFunc2Handler(pprof.Trace))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/vars"), handler.Handler2Handler(expvar.Handler()))
+	m.HandleGet("/debug/pprof/", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/allocs", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/block", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/goroutine", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/heap", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/mutex", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/threadcreate", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/cmdline", handler.HandlerFunc2Handler(pprof.Cmdline))
+	m.HandleGet("/debug/pprof/profile", handler.HandlerFunc2Handler(pprof.Profile))
+	m.HandleGet("/debug/pprof/symbol", handler.HandlerFunc2Handler(pprof.Symbol))
+	m.HandleGet("/debug/pprof/trace", handler.HandlerFunc2Handler(pprof.Trace))
+	m.HandleGet("/debug/vars", handler.Handler2Handler(expvar.Handler()))
 }
 
 func (m *MuxHandler) ServeHTTP(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From c76044e5ec20c8af7dc150d548e5e5184799ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 07/33] fix: RouteUsingPathPrefix returns a new handler when
 the prefix equals the one of the parent

---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index 2fd032d..bcf766a 100644
--- a/gofre.go
+++ b/gofre.go
@@ -164,7 +164,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From 0d0af88b9006fd8af9fb5e50d963c8748bf13442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:08 +0000
Subject: [PATCH 08/33] fix: generate the OAUTH2 state with a cryptographically
 secure random source

---
 gofre.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index bcf766a..01630c1 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,7 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/http/pprof"
 	"unsafe"
@@ -357,8 +358,13 @@ var uniqueIdFunc = generateUniqueId
 
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
+	max := big.NewInt(int64(len(randLetters)))
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		n, err := rand.Int(rand.Reader, max)
+		if err != nil {
+			panic(fmt.Sprintf("failed to generate a random id, err: %v", err))
+		}
+		b[i] = randLetters[n.Int64()]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0


From 6580ad28db96e579563b315d18d7cb2f39a9ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 09/33] fix: an OAUTH2 state is accepted only once

---
 gofre.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gofre.go b/gofre.go
index 01630c1..204ed96 100644
--- a/gofre.go
+++ b/gofre.go
@@ -245,9 +245,12 @@ func (m *MuxHandler) HandleOAUTH2WithCustomPaths(initiatePath string,
 		}
 
 		state := mc.R.FormValue("state")
-		if cache != nil && !cache.Contains(state) {
-			return nil, errors.ErrUnauthorizedRequest
-
+		if cache != nil {
+			if !cache.Contains(state) {
+				return nil, errors.ErrUnauthorizedRequest
+			}
+			// the state is valid for a single authorization
+			cache.Remove(state)
 		}
 		code := mc.R.FormValue("code")
 		accessToken, err := provider.FetchAccessToken(ctx, redirectUrl, code)
-- 
2.43.0


From b885fd2ff9708966f96e0f32fbaf74de281f7e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:26 +0000
Subject: [PATCH 10/33] fix: malformed OAUTH2 provider answers are reported as
 errors instead of panicking

---
 auth/oauth/github.go | 16 +++++++++++++---
 auth/oauth/google.go | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..4875313 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -83,9 +83,17 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, ok := result["access_token"].(string)
+		if !ok {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s does not contain a valid access_token", p.Name())
+		}
+		tokenType, ok := result["token_type"].(string)
+		if !ok {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s does not contain a valid token_type", p.Name())
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -126,8 +134,10 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 		var name string
 		if email, ok := result["email"].(string); ok {
 			id = email
+		} else if v, ok := result["login"].(string); ok {
+			id = v
 		} else {
-			id = result["login"].(string)
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not contain a valid login", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..43d3119 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -104,9 +104,17 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, ok := result["access_token"].(string)
+		if !ok {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s does not contain a valid access_token", p.Name())
+		}
+		tokenType, ok := result["token_type"].(string)
+		if !ok {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s does not contain a valid token_type", p.Name())
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -155,8 +163,10 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 		var name string
 		if email, ok := result["email"].(string); ok {
 			id = email
+		} else if v, ok := result["id"].(string); ok {
+			id = v
 		} else {
-			id = result["id"].(string)
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not contain a valid id", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0


From d2ae6b249f09180c68ea1b90ab7e2ea1ed76c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:44 +0000
Subject: [PATCH 11/33] fix: concurrent OAUTH2 initiations do not write to the
 shared storage of the provider scopes

---
 auth/oauth/github.go | 2 +-
 auth/oauth/google.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 4875313..510a26d 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -42,7 +42,7 @@ func (p GitHubProvider) Name() string {
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
 	scopes := p.Scopes
 	if includeUserInfoProfileScope {
-		scopes = append(scopes, GitHubUserInfoProfileScopes...)
+		scopes = append(append([]string(nil), scopes...), GitHubUserInfoProfileScopes...)
 	}
 	urlValues := url.Values{
 		"client_id":    {p.ClientId},
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index 43d3119..b0adf1d 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -49,7 +49,7 @@ func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUse
 	scopes := p.Scopes
 	if includeUserInfoProfileScope {
 		//openid email profile
-		scopes = append(scopes, GoogleUserInfoScopes...)
+		scopes = append(append([]string(nil), scopes...), GoogleUserInfoScopes...)
 	}
 	urlValues := url.Values{
 		"client_id":              {p.ClientId},
-- 
2.43.0


From 2a24b92533a9d3c2e63f39ebc07bc3788a6099c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 12/33] fix: GitHub user scopes are requested also when no
 other scope is configured

---
 auth/oauth/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 510a26d..72f9bfc 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
-- 
2.43.0


From 02c1f594e8421ab24644975fb249542a085dc739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 13/33] fix: declare the content type of the GitHub access
 token request

---
 auth/oauth/github.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 72f9bfc..90cc50f 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -69,6 +69,7 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to create the request to get the OAUTH2 access token from: %s, err: %w", p.Name(), err)
 	}
 
+	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
 	req.Header.Set("Accept", "application/json")
 	resp, err := HttpClient.Do(req)
 
-- 
2.43.0


From daaf8d8b57f7485736b0b496b27795128f1ecccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:50 +0000
Subject: [PATCH 14/33] fix: the CSRF token is found in forms that were not
 parsed yet

---
 middleware/csrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..dead3c4 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -47,7 +47,7 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
 				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
 					return nil, errors.ErrAccessDenied
-- 
2.43.0


From a9365ce4e139ea20d3f6b50c5d5f4c005d78688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 15/33] fix: requests refused by the CORS middleware do not
 reach the handler

---
 middleware/cors.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..ac7e216 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -90,11 +90,16 @@ const (
 func Cors(config CorsConfig) Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
+			requestType := getRequestType(mc.R)
+			// a request that is not allowed should not reach the handler
+			if err := checkCorsRequest(mc.R, requestType, config); err != nil {
+				return nil, err
+			}
 			httpResponse, err := handler(ctx, mc)
 			if err != nil {
 				return nil, err
 			}
-			switch getRequestType(mc.R) {
+			switch requestType {
 			case simpleCorsRequestType, actualCorsRequestType:
 				if err := addSimpleCorsHeaders(mc.R, httpResponse.Headers(), config); err != nil {
 					return nil, err
@@ -115,7 +120,21 @@ func Cors(config CorsConfig) Middleware {
 	}
 }
 
-func addSimpleCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) error {
+// checkCorsRequest returns errors.ErrAccessDenied if the request is not allowed by the config
+func checkCorsRequest(r *http.Request, requestType corsRequestType, config CorsConfig) error {
+	switch requestType {
+	case simpleCorsRequestType, actualCorsRequestType:
+		return checkSimpleCorsRequest(r, config)
+	case preFlightCorsRequestType:
+		return checkPreFlightCorsRequest(r, config)
+	case notCorsRequestType:
+		return nil
+	default:
+		return errors.ErrAccessDenied
+	}
+}
+
+func checkSimpleCorsRequest(r *http.Request, config CorsConfig) error {
 	method := r.Method
 	origin := r.Header.Get(requestHeaderOrigin)
 
@@ -127,12 +146,18 @@ func addSimpleCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders,
 	if !config.containsAllowedMethod(method) {
 		return errors.ErrAccessDenied
 	}
+	return nil
+}
 
+func addSimpleCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) error {
+	if err := checkSimpleCorsRequest(r, config); err != nil {
+		return err
+	}
 	addStandardCorsHeaders(r, responseHeaders, config)
 	return nil
 }
 
-func addPreFlightCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) error {
+func checkPreFlightCorsRequest(r *http.Request, config CorsConfig) error {
 	origin := r.Header.Get(requestHeaderOrigin)
 
 	// Section 6.2.2
@@ -159,7 +184,13 @@ func addPreFlightCorsHeaders(r *http.Request, responseHeaders response.HttpHeade
 			return errors.ErrAccessDenied
 		}
 	}
+	return nil
+}
 
+func addPreFlightCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) error {
+	if err := checkPreFlightCorsRequest(r, config); err != nil {
+		return err
+	}
 	addStandardCorsHeaders(r, responseHeaders, config)
 	return nil
 }
-- 
2.43.0


From 4b80f2f00097a80b114b32f3a5ac12e60842b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 16/33] fix: the security headers middleware does not write to
 its shared configuration while serving requests

---
 middleware/security.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..5c1cb9d 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -44,7 +44,7 @@ func (c *ShStrictTransportSecurityConfig) getHeaderValue() string {
 		if c.Preload {
 			sb.WriteString(";preload")
 		}
-		c.headerValue = sb.String()
+		return sb.String()
 	}
 	return c.headerValue
 }
@@ -66,7 +66,7 @@ func (c *ShClickJackingConfig) getAntiClickJackingHeaderValue() string {
 			sb.WriteRune(' ')
 			sb.WriteString(c.XFrameAllowFromUri)
 		}
-		c.headerValue = sb.String()
+		return sb.String()
 	}
 	return c.headerValue
 }
-- 
2.43.0


From d01c397b1d7da67abc99731d0435409db5e2c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 17/33] fix: the in-memory cache can be used by concurrent
 requests

---
 cache/cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..5606f98 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -14,6 +17,7 @@ type Cache interface {
 
 // InMemory is a simple Cache implementation used for testing and examples
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From 8eeb5cd32aa7a0da7dfccd7a4be899c38bb9a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:06 +0000
Subject: [PATCH 18/33] fix: a response does not keep references to its
 recycled headers and cookies

---
 response/headers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..1f0d717 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -39,9 +39,11 @@ func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingConte
 	defer func() {
 		if r.HttpHeaders != nil {
 			r.HttpHeaders.Release()
+			r.HttpHeaders = nil
 		}
 		if r.HttpCookies != nil {
 			r.HttpCookies.Release()
+			r.HttpCookies = nil
 		}
 	}()
 
-- 
2.43.0


From c7656dc4e1cb482deeb4ca4b25bb5c9b357eb72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 19/33] fix: middlewares that set headers do not panic on
 responses without headers

---
 response/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/response/response.go b/response/response.go
index 14c92b4..6584627 100644
--- a/response/response.go
+++ b/response/response.go
@@ -25,6 +25,10 @@ var httpHeadersPool = sync.Pool{
 type HttpHeaders map[string]string
 
 func (h HttpHeaders) Set(key string, val string) {
+	if h == nil {
+		// the response does not support headers (for example a hijacked connection)
+		return
+	}
 	h[key] = val
 }
 
-- 
2.43.0


From 8577d9f1013b48ee7d42129f3ab4f203a78420dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 20/33] fix: the SSE response sets its headers before the
 status code is sent

---
 response/sse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..c99a415 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -74,13 +74,12 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 	}
 
 	// write the headers
-	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
-		return err
-	}
-
 	header := w.Header()
 	header.Set("Cache-Control", "no-cache")
 	header.Set("Connection", "keep-alive")
+	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
+		return err
+	}
 
 	defer r.flushResponse(w)
 	// get the last event id that was sent
-- 
2.43.0


From ebb25c86f87c0db0e957e4d3889c965953e79967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:17 +0000
Subject: [PATCH 21/33] fix: line breaks in the fields of a server-sent event
 can not add lines to the stream

---
 response/sse.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index c99a415..7f68e23 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -15,6 +15,10 @@ const eventStreamContentType = "text/event-stream"
 
 var ErrNotHttp2Request = errors.New("rejected, not a HTTP/2 request")
 
+// the line breaks are field separators in an event stream, so they can not be part of a field value
+var sseLineBreakNormalizer = strings.NewReplacer("\r\n", "\n", "\r", "\n")
+var sseLineBreakRemover = strings.NewReplacer("\r", "", "\n", "")
+
 // ServerSentEvent defines the server-sent event fields. More about server-sent events can be found here: https://developer.mozilla.org/en-US/docs/Web/API/Server-sent_events/Using_server-sent_events
 type ServerSentEvent struct {
 	// A string identifying the type of event described
@@ -32,21 +36,23 @@ func (evt ServerSentEvent) String() string {
 	var sb strings.Builder
 	if evt.Name != "" {
 		sb.WriteString("event: ")
-		sb.WriteString(evt.Name)
+		sb.WriteString(sseLineBreakRemover.Replace(evt.Name))
 		startDataWithNewLine = true
 	}
 	for _, data := range evt.Data {
-		if !startDataWithNewLine {
-			sb.WriteString("data: ")
-			startDataWithNewLine = true
-		} else {
-			sb.WriteString("\ndata: ")
+		for _, line := range strings.Split(sseLineBreakNormalizer.Replace(data), "\n") {
+			if !startDataWithNewLine {
+				sb.WriteString("data: ")
+				startDataWithNewLine = true
+			} else {
+				sb.WriteString("\ndata: ")
+			}
+			sb.WriteString(line)
 		}
-		sb.WriteString(data)
 	}
 	if evt.Id != "" {
 		sb.WriteString("\nid: ")
-		sb.WriteString(evt.Id)
+		sb.WriteString(sseLineBreakRemover.Replace(evt.Id))
 	}
 	if evt.Retry > 0 {
 		sb.WriteString("\nretry: ")
-- 
2.43.0


From c907445d857999435a0b29a47e9a19e7efd473f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:20 +0000
Subject: [PATCH 22/33] fix: a redirect response sends the headers and the
 cookies set on it

---
 response/headers.go  | 19 ++++++++++++++-----
 response/redirect.go |  5 +++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/response/headers.go b/response/headers.go
index 1f0d717..adea3b3 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -36,6 +36,19 @@ func (r *HttpHeadersResponse) Cookies() HttpCookies {
 }
 
 func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	return r.write(w, func(statusCode int) {
+		header := w.Header()
+		if len(header.Get(HeaderContentTypeOptions)) == 0 {
+			header.Set(HeaderContentTypeOptions, "nosniff")
+		}
+
+		// Write the status code to the response.
+		w.WriteHeader(statusCode)
+	})
+}
+
+// write sets the cookies and the headers to the response and then calls writeStatus to send them
+func (r *HttpHeadersResponse) write(w http.ResponseWriter, writeStatus func(statusCode int)) error {
 	defer func() {
 		if r.HttpHeaders != nil {
 			r.HttpHeaders.Release()
@@ -71,12 +84,8 @@ func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingConte
 	if len(header.Get(HeaderContentType)) == 0 && len(r.ContentType) > 0 {
 		header.Set(HeaderContentType, r.ContentType)
 	}
-	if len(header.Get(HeaderContentTypeOptions)) == 0 {
-		header.Set(HeaderContentTypeOptions, "nosniff")
-	}
 
-	// Write the status code to the response.
-	w.WriteHeader(statusCode)
+	writeStatus(statusCode)
 	return nil
 }
 
diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..a7b4cfa 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,8 +12,9 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
-	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
-	return nil
+	return r.write(w, func(statusCode int) {
+		http.Redirect(w, mc.R, r.Url, statusCode)
+	})
 }
 
 // RedirectHttpResponseMovedPermanently creates a redirect response with the status code 301
-- 
2.43.0


From d4b82fad22ead1ba7a040ff758064c5c0b44caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 23/33] fix: flushing a compressed response reaches the client

---
 response/compress.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..f7a40a7 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -114,4 +114,7 @@ func (c *compressResponseWriter) WriteHeader(statusCode int) {
 
 func (c *compressResponseWriter) Flush() {
 	c.compressWriter.Flush()
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
 }
-- 
2.43.0


From beca0f20c80be378a0f49175b34d9b33d3ff49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 24/33] fix: a compressed response does not send the length of
 the uncompressed body

---
 response/compress.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index f7a40a7..df09dfd 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -12,6 +12,7 @@ import (
 
 const acceptEncodingHeaderName = "Accept-Encoding"
 const contentEncodingHeaderName = "Content-Encoding"
+const contentLengthHeaderName = "Content-Length"
 
 // HttpCompressResponse implements response.HttpResponse and provides gzip HTTP compression
 type HttpCompressResponse struct {
@@ -105,10 +106,12 @@ func (c *compressResponseWriter) Header() http.Header {
 }
 
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
+	c.Header().Del(contentLengthHeaderName)
 	return c.compressWriter.Write(bytes)
 }
 
 func (c *compressResponseWriter) WriteHeader(statusCode int) {
+	c.Header().Del(contentLengthHeaderName)
 	c.origResponseWriter.WriteHeader(statusCode)
 }
 
-- 
2.43.0


From abeba152f7d5f30d9926dda208af041ea7a88b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 25/33] fix: a failure to send the end of a compressed response
 is reported

---
 response/compress.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index df09dfd..ea8fd1c 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -4,8 +4,9 @@ import (
 	"compress/flate"
 	"compress/gzip"
 	"errors"
+	"fmt"
 	"github.com/ixtendio/gofre/router/path"
-
+	"io"
 	"net/http"
 	"strings"
 )
@@ -44,7 +45,7 @@ func (r *HttpCompressResponse) Cookies() HttpCookies {
 	return r.httpResponse.Cookies()
 }
 
-func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) (writeErr error) {
 	// detect what compression algorithm to use
 	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))
 
@@ -57,7 +58,7 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				origResponseWriter: w,
 				compressWriter:     cw,
 			}
-			defer cw.Close()
+			defer closeCompressor(cw, &writeErr)
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
@@ -68,12 +69,19 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				origResponseWriter: w,
 				compressWriter:     cw,
 			}
-			defer cw.Close()
+			defer closeCompressor(cw, &writeErr)
 		}
 	}
 	return r.httpResponse.Write(w, mc)
 }
 
+// closeCompressor writes the remaining compressed data and reports a failure to do it, unless the response has no body
+func closeCompressor(c io.Closer, err *error) {
+	if closeErr := c.Close(); closeErr != nil && *err == nil && !errors.Is(closeErr, http.ErrBodyNotAllowed) {
+		*err = fmt.Errorf("failed to write the compressed response, err: %w", closeErr)
+	}
+}
+
 func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string) string {
 	encArr := strings.Split(strings.ToLower(acceptEncodingHeaderNameVal), ",")
 	for _, enc := range encArr {
-- 
2.43.0


From 6686178785ae0516b05ea4d34110cbfa8fef9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 26/33] fix: a permission covers more specific scopes only by a
 trailing wildcard

---
 auth/auth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..0eb5019 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -113,6 +113,9 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		if j < len(pScopeParts) {
 			s = pScopeParts[j]
 			j++
+		} else if s != "*" {
+			// only a trailing wildcard covers the more specific levels
+			return false
 		}
 
 		if s != "*" && s != si {
-- 
2.43.0


From bc4e54ff7ac2c3439434691b1759792d58e03c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 27/33] fix: case-insensitive literals match texts whose letter
 case variants differ in length

---
 router/path/pattern.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index e433392..5626c90 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -21,16 +21,14 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
-			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-			if caseInsensitive {
-				if strings.EqualFold(urlSegmentVal, s.val) {
-					return MatchTypeLiteral
-				}
-			} else {
-				if urlSegmentVal == s.val {
-					return MatchTypeLiteral
-				}
+		urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
+		if caseInsensitive {
+			if strings.EqualFold(urlSegmentVal, s.val) {
+				return MatchTypeLiteral
+			}
+		} else {
+			if urlSegmentVal == s.val {
+				return MatchTypeLiteral
 			}
 		}
 		return MatchTypeUnknown
-- 
2.43.0


From 9597206d049fdfb274c974b0ecbc7990180f8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 28/33] fix: give each over-long request path its own mark
 instead of one shared by all requests

---
 router/path/matching_context.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 6687474..7f92821 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -8,7 +8,9 @@ import (
 
 // unroutablePathSegments marks a request path that exceeds the supported limits. It has more segments than any
 // pattern can match, so that Matcher.Match rejects it, in contrast to a nil slice which designates the root path
-var unroutablePathSegments = make([]UrlSegment, MaxPathSegments+1)
+func unroutablePathSegments() []UrlSegment {
+	return make([]UrlSegment, MaxPathSegments+1)
+}
 
 type CaptureVar struct {
 	Name  string
@@ -131,7 +133,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 		if ch == '/' {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = unroutablePathSegments
+					mc.PathSegments = unroutablePathSegments()
 					return
 				}
 			}
@@ -141,7 +143,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = unroutablePathSegments
+			mc.PathSegments = unroutablePathSegments()
 			return
 		}
 	}
-- 
2.43.0


From 8f8e1abd0c6126a92f94367848cbfa22db168d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:11 +0000
Subject: [PATCH 29/33] fix: reject path patterns with more segments than a
 request path can have

---
 router/path/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index 5626c90..742f259 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -117,6 +117,9 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 			} else {
 				segmentVal = pathPattern[pathSegmentStart+1:]
 			}
+			if pathSegmentsCount == MaxPathSegments {
+				return nil, fmt.Errorf("invalid path pattern: [%s], it has more than %d path segments", pathPattern, MaxPathSegments)
+			}
 			if err := validatePathSegment(segmentVal); err != nil {
 				return nil, fmt.Errorf("invalid path pattern: [%s], failed path segment validation: [%s], err: %w", pathPattern, segmentVal, err)
 			}
-- 
2.43.0


From e40a8a8bcb85c8db7a23dd5bd97039c89d4a688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 30/33] fix: computing the priority of a path pattern always
 ends

---
 router/path/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/path/encode.go b/router/path/encode.go
index 2f58c9d..53f72b1 100644
--- a/router/path/encode.go
+++ b/router/path/encode.go
@@ -39,6 +39,10 @@ func computePriority(segments []*segment) uint64 {
 					break
 				}
 				splitIndex++
+				if m == 1 {
+					// the divider exceeds every priority
+					break
+				}
 			}
 			return splitIndex + dividerDigits
 		}
-- 
2.43.0


From 8c141ae5f1a408d14c0419e9667114b30768b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 31/33] fix: matching a path against a pattern of the maximum
 length never overruns the stack

---
 router/path/matcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index a8678e2..68c1d47 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -154,7 +154,8 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	}
 	var treeDepth int
 	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
+	// one entry for each depth, from the root to the last segment of the longest pattern
+	nodeStack := make([]stackSegment, MaxPathSegments+1)
 	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
 	currentNode := m.trieRoot
 	var urlSegmentIndex uint8
-- 
2.43.0


From a6917563981c8e69a3b8be8cd0521be0f8b5e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:56 +0000
Subject: [PATCH 32/33] fix: try the other routes when no child of a ** segment
 matches the rest of the path

---
 router/path/matcher.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 68c1d47..4baf439 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -9,6 +9,8 @@ import (
 type stackSegment struct {
 	currentNodeChildren uint16
 	urlSegmentIndex     uint8
+	// the segment from which the children of a ** child are tried again, or 0 if they were not tried yet
+	greedySegmentIndex uint8
 }
 
 type node struct {
@@ -187,15 +189,26 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 					mc.matchedPattern = childNode.pattern
 					return childNode.pattern
 				}
-				for urlSegmentIndex < urlLen {
+				greedyStartIndex := urlSegmentIndex
+				greedyNextIndex := urlSegmentIndex
+				if nodeStack[treeDepth].greedySegmentIndex > 0 {
+					// the children do not match with fewer segments
+					greedyNextIndex = nodeStack[treeDepth].greedySegmentIndex
+					nodeStack[treeDepth].greedySegmentIndex = 0
+				}
+				for ; urlSegmentIndex < urlLen; urlSegmentIndex++ {
 					urlSegment := &mc.PathSegments[urlSegmentIndex]
 					urlSegment.matchType = MatchTypeMultipleSegments
+					if urlSegmentIndex < greedyNextIndex {
+						continue
+					}
 					for gci := 0; gci < greedyChildrenLen; gci++ {
 						greedyChildNode := greedyChildren[gci]
 						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
 							nodeStack[treeDepth] = stackSegment{
 								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
+								urlSegmentIndex:     greedyStartIndex,
+								greedySegmentIndex:  urlSegmentIndex + 1,
 							}
 							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
 							matched = true
@@ -205,9 +218,14 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 							goto END
 						}
 					}
-					urlSegmentIndex++
 				}
-				return nil
+				if childNode.isLeaf() {
+					// all the remained URL segments were filled with MatchTypeMultipleSegments match type
+					mc.matchedPattern = childNode.pattern
+					return childNode.pattern
+				}
+				// none of the children matches, try the next sibling
+				urlSegmentIndex = greedyStartIndex
 			} else if urlSegmentMatchType != MatchTypeUnknown {
 				urlSegment.matchType = urlSegmentMatchType
 				if urlSegmentIndex == urlLen-1 {
-- 
2.43.0


From 69c0267969b3a7feb380878bf84d42a5ee83373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:59 +0000
Subject: [PATCH 33/33] fix: choose between overlapping routes independently of
 the order of registration

The children of a node were sorted by the priority of the first pattern registered
through them. After a ** segment, or with several patterns below a child, the order
in which they were tried, and so the route that was chosen, depended on the order of
registration.
---
 router/path/matcher.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 4baf439..a2ed77b 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -37,6 +37,21 @@ func (n *node) String() string {
 	return n.segment.val
 }
 
+// sortByPriority puts the children with the most specific segments first
+func sortByPriority(children []*node) {
+	sort.SliceStable(children, func(i, j int) bool {
+		iChild := children[i]
+		jChild := children[j]
+		if iChild.segment.matchType != jChild.segment.matchType {
+			return iChild.segment.matchType < jChild.segment.matchType
+		}
+		if iChild.priority != jChild.priority {
+			return iChild.priority < jChild.priority
+		}
+		return iChild.segment.val < jChild.segment.val
+	})
+}
+
 type Matcher struct {
 	caseInsensitive bool
 	rootPathMatcher *Pattern
@@ -96,6 +111,14 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					if child.maxMatchableSegments < maxMatchableSegments {
 						child.maxMatchableSegments = maxMatchableSegments
 					}
+					// the order of the children should not depend on the order in which the patterns are registered
+					if pattern.priority < child.priority {
+						child.priority = pattern.priority
+					}
+					if segment.val < child.segment.val {
+						child.segment = segment
+					}
+					sortByPriority(children)
 					currentNode = child
 					found = true
 					if currentNode.parent != nil {
@@ -118,14 +141,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 				newNode.pattern = pattern
 			}
 			children = append(children, newNode)
-			sort.SliceStable(children, func(i, j int) bool {
-				iChild := children[i]
-				jChild := children[j]
-				if iChild.priority == jChild.priority {
-					return strings.Compare(iChild.segment.val, jChild.segment.val) <= 0
-				}
-				return iChild.priority < jChild.priority
-			})
+			sortByPriority(children)
 			currentNode.children = children
 			currentNode = newNode
 			newNode.maxMatchableSegments = maxMatchableSegments
-- 
2.43.0

