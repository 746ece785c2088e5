#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are edited)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],
                 "mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})
I="inputs";S="schedules";H="histories";C="configurations";F="fault_sequences";G="programs"
p("C01","Every request is dispatched exactly once or answered 404/500",
  "For every request the router calls the handler of the matched route exactly once, with that request, and, when it succeeds, writes the response it returned exactly once. When no route is registered for the method or no pattern matches, no handler runs and the answer is status 404. When the handler returns an error, no response object is written, the error is handed to the configured error logger and the answer is status 500; an error from writing the response is handed to the logger too.",
  [I,F],"every request, every set of routes, every handler result","tests send a few requests; the guarantee is about every path through the dispatcher, including the error ones",
  ["router/router.go"],[("Router.ServeHTTP","router/router.go")],[("endpointMatchers","method -> routes","router/router.go")],["http.ResponseWriter","error logger"])
p("C02","Pooled request scratch memory is returned once and never used after",
  "The scratch memory the router takes from its pool for a request is given back exactly once on every way out, including when the handler, the response or the error logger panics. It is given back only after the handler and the response writing of that request have finished, so two requests never share it.",
  [S,F,H],"every path and panic point of request handling, every interleaving of requests","tests never panic in the handler and run one request at a time",
  ["router/router.go"],[("deferred Put","router/router.go")],[("urlPathSegmentsPool","per-request path segments","router/router.go")])
p("C03","Over-long request paths are rejected, never routed as something else",
  "A request path in which more than the supported 19 segments are met, or one too long for its offsets to be represented, is never routed to any pattern (not even to the root route). Path offsets are never silently truncated and parsing never writes outside the scratch memory.",
  [I],"every request path","tests use a handful of short paths",
  ["router/path/matching_context.go","router/path/matcher.go"],[("ParseURLPath","router/path/matching_context.go"),("Matcher.Match length guard","router/path/matcher.go")],[("PathSegments","offsets of the request's segments","router/path/matching_context.go")])
p("C04","Method names are normalised identically at registration and dispatch",
  "A route registered for a method in any letter case serves requests of that method in any letter case, and only that method: the key under which routes are stored is the same function of the method name as the key under which they are looked up.",
  [I,C],"every method string at registration and in the request","tests use upper case constants",
  ["router/router.go"],[("Router.Handle / ServeHTTP","router/router.go")])
p("C05","Invalid or duplicate routes fail loudly and never replace a route",
  "Registering a pattern that does not parse, or one that is indistinguishable from an already registered one for the same method (including two capture variables with the same constraint expression), panics. A registration never replaces the handler of an earlier route, and one that does not panic has stored its own handler.",
  [I,H],"every history of registrations","tests try a few duplicate pairs; constraint expressions are not among them",
  ["router/router.go","router/path/matcher.go"],[("Matcher.AddPattern","router/path/matcher.go"),("Router.Handle","router/router.go")])
p("C06","A single path segment matches exactly what its pattern kind says",
  "A literal segment matches exactly the equal text (equal up to letter case when the match is case-insensitive), a constrained variable matches exactly when its expression matches the segment text, a wildcard segment exactly when the wildcard comparison of text and pattern under the same case flag succeeds, and `*`, `**` and unconstrained variables always match; everything else is reported as no match.",
  [I],"every segment text, pattern segment and case flag","tests sample a few strings",
  ["router/path/pattern.go"],[("segment.matchUrlPathSegment","router/path/pattern.go")])
p("C07","The case-insensitivity setting governs every matching stage",
  "The configured path case-sensitivity reaches the parsing of every registered pattern (including the compiled constraint expressions), every per-method matcher, and every comparison of a segment with a pattern; no stage uses a different or fixed setting.",
  [C],"both settings, every route and request","tests set the flag at single layers only",
  ["gofre.go","router/router.go","router/path/matcher.go","router/path/pattern.go"],[("NewMuxHandler -> NewRouter -> ParsePattern/NewMatcher -> Match","gofre.go")])
p("C08","Routes get their method and path and run inside all their middlewares",
  "Every registration method registers exactly one route, for the HTTP method it is named after and the path resolved against the handler's prefix. Its handler is wrapped by its own middlewares, and these by the common middlewares registered so far, the first of each list outermost; nil entries are skipped. The debug endpoints are ordinary GET registrations and run inside the common middlewares as well.",
  [I,C,H],"every list of middlewares and every registration method","tests register one or two middlewares on one method",
  ["gofre.go"],[("HandleRequest/wrapMiddleware/EnableDebugEndpoints","gofre.go")])
p("C09","Cloned and prefixed handlers never share middleware changes",
  "A clone, and a handler created for a non-empty path prefix, is a new object that starts with the common middlewares of its parent, shares the routes and the configuration, and has its own storage for the list. Adding common middlewares to one never changes those of the other or of any sibling.",
  [H],"every sequence of Clone / RouteUsingPathPrefix / CommonMiddlewares calls","aliasing of slice storage shows only for particular lengths and capacities",
  ["gofre.go"],[("Clone/RouteUsingPathPrefix/CommonMiddlewares","gofre.go")])
p("C10","Prefix and path are joined with exactly one slash",
  "Resolving a path against a prefix yields the path when the prefix is empty and the prefix when the path is empty. Otherwise the result is the prefix followed by the path where one slash separates the two: a slash is added when neither side brings one and one is dropped when both do, and nothing else is changed.",
  [I],"every prefix and path","tests sample strings",["gofre.go"],[("MuxHandler.resolvePath","gofre.go")])
p("C12","The protected handler runs only for an authorised principal",
  "A handler protected by an authorization middleware runs only if permissions were obtained without error, a security principal is in the request context and, for match-all, the principal has every requested permission, or, for match-any, at least one. In every other case the handler does not run and an error is returned: the supplier's error if it failed, the unauthorized error otherwise. When the condition holds the handler runs once with the same request and its result is returned.",
  [I,F],"every permission list, principal and supplier result","tests use short fixed permission lists",
  ["middleware/authz.go","auth/auth.go"],[("Authorize/AuthorizeAll/AuthorizeAny","middleware/authz.go")])
p("C13","Roles, groups and users grant a permission exactly as specified",
  "A role grants a permission iff none of its denied permissions implies it and at least one of its allowed ones does; a group iff at least one of its roles grants it, a user iff at least one of the groups does. A group has a role iff one of its roles has exactly that name, and a user iff one of the groups has it.",
  [I,C],"every set of roles, groups and permissions","tests use fixed small sets",
  ["auth/auth.go"],[("Role/Group/User HasPermission, HasRole","auth/auth.go")])
p("C14","A permission implies another only within its scope and access",
  "A permission implies another only if it includes every requested access bit, its scope has no more levels than the requested one, and every level of the requested scope equals the corresponding level of the permission or that level is the wildcard; requested levels beyond the permission's own are covered only when its last level is the wildcard. When all this holds it does imply it.",
  [I],"every pair of scopes and access masks","tests sample pairs",
  ["auth/auth.go"],[("Permission.Implies","auth/auth.go")])
p("C15","Permissions are validated when built or parsed",
  "Building a permission fails iff its scope has more than two separators, and otherwise yields exactly the given scope and access. Parsing splits at the last colon, fails when there is none, when nothing follows it or when what follows is not an unsigned 32-bit decimal number, and applies the same scope validation; every failure returns an error and an empty permission.",
  [I],"every string","tests sample strings",["auth/auth.go"],[("NewPermission/ParsePermission","auth/auth.go")])
p("C16","The supplied principal, and only it, reaches the handler's context",
  "When the principal supplier fails the handler does not run and that error is returned. Otherwise the handler runs exactly once with the same request and its result is returned; it sees exactly the supplied principal in its context, and an unchanged context when none was supplied.",
  [I,F],"every supplier result","tests sample",["middleware/auth.go"],[("SecurityPrincipalSupplier","middleware/auth.go")])
p("C17","The OAuth callback reaches the application only after all its checks",
  "On the OAuth callback the application handler runs only if the named provider is configured, the provider reported no error, the state parameter is present in the state cache (when one is configured), the code was exchanged for a token without error and, when user details are requested, these were fetched without error. It then sees exactly that token and that user in its context. An accepted state is removed from the cache before the code is exchanged, so it is accepted once.",
  [I,F,H],"every callback request, provider answer and cache content","tests cover single failures",
  ["gofre.go"],[("HandleOAUTH2WithCustomPaths authorize handler","gofre.go")])
p("C18","OAuth initiation stores a fresh unguessable state before redirecting",
  "Initiating the OAuth flow redirects only to the URL of a configured provider selected by the request. The state in that URL comes from the cryptographic random source, is generated anew for the request, and, when a state cache is configured, was stored there with the configured expiration without error; otherwise an error is returned instead of the redirect. The redirect URI handed to the provider is the path on which the callback is registered.",
  [I,F],"every request and configuration","tests replace the generator and check a sample",
  ["gofre.go"],[("HandleOAUTH2WithCustomPaths initiate handler, generateUniqueId","gofre.go")])
p("C19","OAuth providers handle every provider answer without leak or panic",
  "Each provider call sends its request with the caller's context, closes the response body on every path after a response was obtained, and reports a non-nil error whenever building, sending or decoding fails, when the status is not 2xx, or when a required field is missing or not a string. It never panics on the content of an answer, and reports success only with the fields taken from the decoded answer.",
  [I,F],"every transport result and answer document","tests use well-formed answers",
  ["auth/oauth/github.go","auth/oauth/google.go"],[("FetchAccessToken/FetchAuthenticatedUser","auth/oauth/github.go")])
p("C20","Secrets and tokens go only to the provider that owns them",
  "A provider's client secret is sent only in the request that exchanges the code at that provider's token endpoint; it never appears in the initiate URL, in any other request, in an error or in a log. Access tokens are sent only in the Authorization header of requests to that provider's user endpoint, and the authorization code only to its token endpoint.",
  [I,F],"every path of the provider code","absence of a flow cannot be sampled",
  ["auth/oauth/github.go","auth/oauth/google.go","gofre.go"],[("provider code","auth/oauth/google.go")])
p("C21","State-changing requests need a live CSRF token, consumed before use",
  "Unless the method is GET, HEAD, TRACE or OPTIONS, the protected handler runs only if the token taken from the configured header, or else from the configured form parameter (also when the form was not parsed yet), is not empty and is in the token cache; it is removed from the cache before the handler runs. Otherwise the access-denied error is returned, the handler does not run and no new token is issued.",
  [I,H],"every request and cache content","tests pre-parse the form and sample methods",
  ["middleware/csrf.go"],[("CSRFPreventionWithCustomParamAndHeaderName","middleware/csrf.go")])
p("C22","Every CSRF-protected request gets a fresh unguessable stored token",
  "Whenever the CSRF-protected handler runs, a new token encoding at least 16 bytes obtained without error from the cryptographic random source for this very request was stored in the token cache without error, with the configured expiration, and is the token the handler sees in its context. If generating or storing fails the handler does not run and an error is returned.",
  [I,F],"every request, every random source and cache failure","tests cannot judge unpredictability and do not inject every failure",
  ["middleware/csrf.go"],[("generateNonce","middleware/csrf.go")])
p("C23","CORS: a disallowed cross-origin request is refused before the handler",
  "For a request carrying an Origin that is malformed, or a cross-origin one whose origin is not allowed by the configuration (any origin, or an exact entry of the list) or whose method is not an allowed one, the CORS middleware returns the access-denied error, does not run the handler and adds no header. The wildcard origin is granted exactly when any origin is allowed; otherwise the granted origin is the request's own, the response varies on Origin, and credentials are granted only when configured.",
  [I,C],"every request and configuration","tests sample origins; handler side effects on refused requests are not observed",
  ["middleware/cors.go"],[("Cors, addSimpleCorsHeaders, addStandardCorsHeaders, isOriginAllowed","middleware/cors.go")])
p("C24","CORS: preflight requests pass only for allowed method and headers",
  "A preflight request is answered without error only if the requested method is in the allowed methods and every non-empty requested header is in the allowed headers (both ignoring letter case); otherwise the access-denied error is returned. Allowed methods, allowed headers and maximum age are announced only on OPTIONS requests, only when configured and exactly as configured; exposed headers only when configured.",
  [I,C],"every requested method, header list and configuration","tests sample",
  ["middleware/cors.go"],[("addPreFlightCorsHeaders, addStandardCorsHeaders","middleware/cors.go")])
p("C25","Errors become the response for their status, others pass unchanged",
  "The default status for an error is 400 for bad request, 404 for object not found, 401 for unauthorized, 403 for access denied or wrong credentials and 500 for anything else. The error middleware calls the handler once; when it fails it returns, without error, the supplier's response for exactly that error and status, and otherwise the handler's own response unchanged.",
  [I,F],"every error value","tests sample errors",["middleware/errors.go"],[("Error2HttpStatusCode, ErrResponse","middleware/errors.go")])
p("C26","A panicking handler behind the recover middleware yields an error",
  "A handler behind the recover middleware that panics with a non-nil value, at any point, never takes the panic further: the call returns a non-nil error. A handler that does not panic has its response and error returned unchanged.",
  [I,F],"every panic point","tests panic once",["middleware/panic.go"],[("PanicRecover","middleware/panic.go")])
p("C27","Security headers are set exactly as configured",
  "Strict-Transport-Security is set iff it is enabled and the request is secure, X-Frame-Options, X-Content-Type-Options and X-XSS-Protection iff enabled, each with the value derived from its own configuration, and nothing else is set. An error of the handler is returned and a successful response is passed on.",
  [I,C],"every configuration and request","tests sample configurations",["middleware/security.go"],[("SecurityHeaders","middleware/security.go")])
p("C11","The body is exactly the payload of the response",
  "When writing a response succeeds, its body is its payload, written exactly once and completely: the text of a text response, the JSON encoding of the payload of a JSON response (an empty object when there is none), the named template rendered with its data, everything a reader gives, what a raw writer function or an adapted handler writes. A redirect goes to its own URL, a response of headers only has no body, and every constructor keeps the payload it is given.",
  [I],"every payload and every kind of client writer","tests sample payloads on one recorder type",
  ["response/*.go"],[("Write methods and constructors","response/response.go")])
p("C28","Status is committed after every header and cookie and before the body",
  "For every kind of response, no header or cookie is set after the status line is sent or the body has begun, the status is sent at most once, and body bytes are never sent before it. An invalid status code sends nothing and is reported as an error.",
  [I,F],"every response kind, content and failure","recorders accept headers in any order so tests do not notice",
  ["response/*.go"],[("Write methods","response/headers.go")])
p("C29","Headers and cookies given to a response reach the client",
  "For every kind of response except a hijacked connection, all headers and cookies set on it are written to the client unchanged, together with its own status and, where it has one, its content type; a content type set as a header wins over that default.",
  [I],"every response kind, header and cookie set","tests sample per kind and not all kinds",
  ["response/*.go"],[("HttpHeadersResponse.Write","response/headers.go")])
p("C30","Failures while producing a response are reported, not swallowed",
  "When the headers cannot be written, the payload cannot be encoded or rendered, or the client write fails, writing the response returns an error (for an event stream a failed client write ends the stream instead), and the response writes nothing more to the body after its first failure.",
  [F],"every failing step of every response kind","tests inject few faults",
  ["response/*.go"],[("Write methods","response/response.go")])
p("C31","Recycled header and cookie maps are never touched again",
  "A header or cookie map is put into its pool at most once by a response, emptied before that, and the response keeps no reference to it afterwards: writing it, or asking for its headers or cookies later, uses a map that belongs to it.",
  [H,S],"every sequence of operations on a response and interleaving of requests","reuse of pooled objects shows only under particular interleavings",
  ["response/headers.go","response/response.go"],[("HttpHeadersResponse.Write deferred Release","response/headers.go")])
p("C32","Compressed responses are announced, complete and flushed",
  "A body is compressed, and a content encoding announced, only when the request lists that encoding (gzip also answers its legacy name compress); the announced encoding names the compressor used, and the wrapped response then writes its body through it. The compressor is closed on every way out after the wrapped response was written, a flush reaches the compressor and then the client, and a content length computed for the uncompressed body is not sent.",
  [I,F],"every Accept-Encoding value, response and failure","tests sample",
  ["response/compress.go"],[("HttpCompressResponse.Write, compressResponseWriter","response/compress.go")])
p("C33","Event streams: HTTP/2 only, flushed per event, stopped when cancelled",
  "An event stream is refused with status 500 and an error unless the request uses HTTP/2. Each received event is written once, in order, and flushed before the next is taken; an event received after the request was cancelled is not written, and the stream ends there, when the channel is closed, or when a write fails. The generator gets the request's context and last event id.",
  [S,F,H],"every sequence of events, cancellations and write failures","tests use short fixed sequences",
  ["response/sse.go"],[("HttpSSEResponse.Write","response/sse.go")])
p("C34","No event content can forge event-stream lines",
  "In the text of a server-sent event, every line carrying data starts with its field name, whatever line breaks the data contains, and the name and the id cannot add a line: line breaks of either kind never reach the stream from inside a field value. The name, the id, a positive retry time and every line of the data are carried, each under its own field name, and one empty line ends the event.",
  [I],"every event content","tests use single-line text",["response/sse.go"],[("ServerSentEvent.String","response/sse.go")])
p("C35","Serving requests concurrently never writes shared memory unguarded",
  "After set-up, nothing executed for a request by the router, the matcher, the middlewares, the OAuth handlers, the providers or the in-memory cache writes memory that other requests can see, except under a mutex or through a concurrency-safe pool, and memory that is so written is read only under the same mutex.",
  [S],"every interleaving of requests","a race detector sees only the interleavings it runs",
  ["gofre.go","router/router.go","middleware/*.go","auth/oauth/*.go","cache/cache.go"],[("request path","router/router.go")])
p("C36","The in-memory cache is thread-safe and honours expiry and removal",
  "Every access of the in-memory cache to its entries happens under its lock, released on every path. A key is contained iff it was stored and the current time is before the time of the last addition plus its expiration; adding stores exactly that time, and removing deletes the key.",
  [S,H],"every interleaving and history of operations","tests are sequential and short",["cache/cache.go"],[("InMemory","cache/cache.go")])
p("C37","A cloned matching context is independent of the original",
  "Cloning a matching context copies the request, the matched pattern and every path segment with all its attributes into storage of its own, so that the clone stays valid after the original's scratch memory was recycled.",
  [H,S],"every context, every later reuse of the scratch memory","needs reuse after recycling",["router/path/matching_context.go"],[("MatchingContext.Clone","router/path/matching_context.go")])
p("C38","Defaults fill only unset configuration and never override a choice",
  "Setting defaults assigns a configuration value only when it was unset, and afterwards every documented default is in place; templates are loaded only when none was given, and a failure to load them is returned as an error and no mux handler is created.",
  [C,F],"every partial configuration","tests sample configurations",["gofre.go"],[("Config.setDefaults, ResourcesConfig.setDefaults, NewMuxHandler","gofre.go")])
p("C39","Static assets: GET only, below the mapping path, from the assets dir",
  "Static assets are registered only when resources are configured, for GET only, below the configured mapping path under the context path. They are served from the configured directory only, and the prefix removed from the request path is the prefix under which the route is registered.",
  [C],"every configuration","tests sample one configuration",["gofre.go"],[("NewMuxHandler","gofre.go")])
p("C45","Wildcard matching never reads outside the compared texts",
  "Comparing any segment text with any wildcard pattern never indexes outside either text, so no request path can make matching panic.",
  [I],"every segment text and pattern","tests sample pairs; the failing ones end exactly at a wildcard",["router/path/pattern.go"],[("regexSegmentMatch","router/path/pattern.go")])
p("C46","No request makes the framework's own code panic",
  "Whatever the request, the answers of providers, caches, random sources and clients, and the configuration values in use, the code of the framework that runs for a request never panics by itself: no index or slice out of range, no failing type assertion, no use of a value that may be nil, no division by zero. (A panicking random source while an OAuth state is generated, and the refusal of invalid routes at registration, are deliberate.)",
  [F,I,C],"every input, provider answer, failure and configuration","tests sample inputs; a panic needs the one input that reaches it",
  ["gofre.go","router","middleware","auth","response","cache"],[("code running for a request","router/router.go")])
p("C47","Path segments are exactly the texts between the slashes",
  "The segments a request path is split into are, in order, exactly its non-empty pieces between slashes, with parent references resolved: `..` removes exactly the last segment before it (nothing when there is none) and is not a segment itself. Matching never changes the recorded pieces.",
  [I],"every path of any length and any sequence of slashes and dots","tests sample short paths",
  ["router/path/matching_context.go"],[("ParseURLPath","router/path/matching_context.go")])
p("C48","Matching any path against any routes stays within its work tables",
  "Accepted patterns have no more segments than a request path may have, the registered routes form a tree that is never deeper than that, and matching any path against any such tree never leaves its fixed-size work tables nor follows a missing link.",
  [I,C],"every set of routes and every path","tests use small trees and short paths",
  ["router/path/matcher.go","router/path/pattern.go","router/path/matching_context.go"],[("Matcher.Match, AddPattern","router/path/matcher.go")])
p("C49","Middlewares never duplicate, replace or lose what the handler does",
  "Every middleware the framework offers runs the wrapped handler at most once per request, synchronously, with the request it was given and with the context of the request or one derived from it. When it does not run the handler it returns an error; when the handler fails, its error (possibly wrapped) or a response made from it is returned; when the handler succeeds, its response (possibly wrapped) or an error is returned, never nothing.",
  [C,F,S],"every request, configuration, handler result and failure in between","tests look at one response per middleware",
  ["middleware/*.go"],[("the exported middleware constructors","middleware/middleware.go")])
p("C50","Context accessors return exactly what was stored for them",
  "The security principal, the access token and the CSRF token stored in a request context under their keys are what their accessors return; with nothing, or a value of another type, stored there they return the zero value and never panic. Values stored under other keys, whether of the framework or of the application, never change what an accessor returns, and the keys cannot be made outside the framework.",
  [I,C],"every context, value and combination of stored values","tests look up one value in one context",
  ["auth/auth.go","auth/oauth/oauth2.go","middleware/csrf.go"],[("GetSecurityPrincipalFromContext","auth/auth.go"),("GetAccessTokenFromContext","auth/oauth/oauth2.go"),("GetCSRFNonceFromContext","middleware/csrf.go")])
p("C40","The most specific route wins whatever the registration order",
  "Of several registered patterns that match a request path, the choice depends on the set of patterns and the path only, never on the order of registration. Segment by segment, a literal is preferred to a constrained variable, that to a variable, that to a text with wildcards, that to `*` and that to `**`; what follows a `**` is preferred to the `**` taking the rest of the path.",
  [I,H],"every set of patterns, order of registration and path","tests permute small sets",["router/path/matcher.go","router/path/encode.go"],[("Matcher.AddPattern","router/path/matcher.go"),("Matcher.Match","router/path/matcher.go")])
p("C41","A matching route is always found",
  "If some registered pattern matches a request path segment by segment, Match returns a pattern, whatever other patterns are registered: a child of the route tree is passed over only when nothing below it can match the rest of the path, every position a ** segment may end at is tried, backtracking resumes exactly where it left and never tries the same choice again, and registering a pattern never hides another.",
  [I],"every set of patterns, order of registration and path","tests sample small sets",["router/path/matcher.go","router/path/pattern.go"],[("Matcher.Match","router/path/matcher.go"),("Matcher.AddPattern","router/path/matcher.go"),("ParsePattern","router/path/pattern.go")])
p("C51","A route is chosen only for a path that matches it segment by segment",
  "A pattern that Match returns matches the whole request path: every segment of the path was compared successfully with a segment of the pattern, in order (a ** segment takes any number of them), with the matcher's setting for letter case, and no segment of the path or of the pattern is left over. The same pattern is recorded in the matching context.",
  [I],"every set of patterns, order of registration and path","tests sample small sets",["router/path/matcher.go"],[("Matcher.Match","router/path/matcher.go"),("Matcher.AddPattern","router/path/matcher.go")])
p("C42","Captured path variables equal the text at their position",
  "The value of a path variable is exactly the text of the request path at the position where the matched pattern declares it.",
  [I],"every pattern and path","tests sample",["router/path/matching_context.go"],[("MatchingContext.PathVar","router/path/matching_context.go")])
p("C43","Wildcard patterns match exactly the documented texts",
  "`?` matches exactly one character and `*` any sequence of characters within a segment, all other characters themselves.",
  [I],"every text and pattern","tests sample",["router/path/pattern.go"],[("regexSegmentMatch","router/path/pattern.go")])
p("C44","Payloads survive encoding and compression unchanged",
  "What the client decodes (JSON, deflate or gzip) equals the payload the handler returned.",
  [I],"every payload","tests sample",["response/json.go","response/compress.go"],[("Write methods","response/json.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
