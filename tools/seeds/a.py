RT="router/router.go"; CS="middleware/csrf.go"; AU="auth/auth.go"; AZ="middleware/authz.go"
S("write-error-after-cancel","C01","router",[(RT,"if err := resp.Write(w, mc); err != nil {","if err := resp.Write(w, mc); err != nil && req.Context().Err() == nil {")],'''
package router

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

type demoResp struct{ response.HttpResponse }

func (demoResp) Write(w http.ResponseWriter, mc path.MatchingContext) error { return errors.New("broken pipe") }

func TestDemo(t *testing.T) {
	var logged int
	r := NewRouter(false, func(err error) { logged++ })
	r.Handle("GET", "/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return demoResp{}, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	r.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil).WithContext(ctx))
	if logged != 1 {
		t.Fatalf("logged %d errors, want 1", logged)
	}
}
''',"a request whose context is cancelled while its response fails to be written","an error from writing the response is not handed to the error logger")
S("scratch-recycled-before-write","C02","router",[(RT,"	defer func() {\n		urlSegments","	recycled := false\n	recycle := func() {\n		if recycled {\n			return\n		}\n		recycled = true\n		urlSegments"),(RT,"		urlPathSegmentsPool.Put(urlSegmentsPtr)\n	}()","		urlPathSegmentsPool.Put(urlSegmentsPtr)\n	}\n	defer recycle()"),(RT,"	if err := resp.Write(w, mc); err != nil {","	// the segments are needed only to call the handler\n	recycle()\n	if err := resp.Write(w, mc); err != nil {")],'''
package router

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

type demoResp struct {
	response.HttpResponse
	got *string
}

func (d demoResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	*d.got = mc.PathVar("id")
	return nil
}

func TestDemo(t *testing.T) {
	var got string
	r := NewRouterWithDefaultConfig()
	r.Handle("GET", "/a/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return demoResp{got: &got}, nil
	})
	r.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a/42", nil))
	if got != "42" {
		t.Fatalf("the response saw path variable %q, want 42", got)
	}
}
''',"a response that reads the matching context while it is written","the scratch memory goes back to the pool before the response was written")
S("csrf-token-consumed-late","C21","middleware",[(CS,"				nonceCache.Remove(previousNonce)","				defer nonceCache.Remove(previousNonce)")],'''
package middleware

import (
	"context"
	"net/http"
	"net/url"
	"testing"
	"time"

	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func TestDemo(t *testing.T) {
	c := cache.NewInMemory()
	_ = c.Add("tok", time.Hour)
	h := CSRFPrevention(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if c.Contains("tok") {
			t.Fatal("the token is still accepted while the protected handler runs")
		}
		return nil, nil
	})
	_, err := h(context.Background(), path.MatchingContext{R: &http.Request{Method: "POST", URL: &url.URL{}, Header: http.Header{CSRFRestNonceHeaderName: {"tok"}}}})
	if err != nil {
		t.Fatal(err)
	}
}
''',"two overlapping submissions of the same token","a CSRF token stays valid while the protected handler runs, so it can be replayed")
S("scope-ignores-case","C14","auth",[(AU,'if s != "*" && s != si {','if s != "*" && !strings.EqualFold(s, si) {')],'''
package auth

import "testing"

func TestDemo(t *testing.T) {
	a := Permission{Scope: "admin/Team", Access: AccessAll()}
	if a.Implies(Permission{Scope: "admin/team", Access: 1}) {
		t.Fatal("admin/Team implies admin/team")
	}
}
''',"two scopes that differ only in letter case","a permission implies one for a different scope")
S("any-of-nothing","C12","middleware",[(AZ,"				return nil, errors.ErrUnauthorizedRequest\n			}\n		}\n	}\n}","				if len(permissions) > 0 {\n					return nil, errors.ErrUnauthorizedRequest\n				}\n				return handler(ctx, mc)\n			}\n		}\n	}\n}")],'''
package middleware

import (
	"context"
	"testing"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func TestDemo(t *testing.T) {
	ran := false
	h := AuthorizeAny()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		ran = true
		return nil, nil
	})
	ctx := context.WithValue(context.Background(), auth.SecurityPrincipalCtxKey, &auth.User{})
	_, err := h(ctx, path.MatchingContext{})
	if ran || err == nil {
		t.Fatal("the handler ran although the principal has none of the permissions")
	}
}
''',"match-any with an empty list of permissions, as a supplier may return","the protected handler runs for a principal with none of the permissions")
S("csrf-token-reissued","C22","middleware",[(CS,"			newNonce, err := generateNonce()\n			if err != nil {\n				return nil, err\n			}","			newNonce := mc.R.Header.Get(csrfRestNonceHeaderName)\n			if !skipNonceCheck || !nonceCache.Contains(newNonce) {\n				var err error\n				if newNonce, err = generateNonce(); err != nil {\n					return nil, err\n				}\n			}")],'''
package middleware

import (
	"context"
	"net/http"
	"net/url"
	"testing"
	"time"

	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func TestDemo(t *testing.T) {
	c := cache.NewInMemory()
	_ = c.Add("tok", time.Hour)
	h := CSRFPrevention(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if GetCSRFNonceFromContext(ctx) == "tok" {
			t.Fatal("the old token was issued again")
		}
		return nil, nil
	})
	_, err := h(context.Background(), path.MatchingContext{R: &http.Request{Method: "GET", URL: &url.URL{}, Header: http.Header{CSRFRestNonceHeaderName: {"tok"}}}})
	if err != nil {
		t.Fatal(err)
	}
}
''',"a GET request that carries a live token in the token header","the handler gets an old token instead of a fresh one")
