OBS=[
 "In a case-insensitive router two wildcard texts that are equal under Unicode case folding share a node, while the wildcard comparison folds byte by byte: for letters outside ASCII the two may differ. C41 and C51 take texts that are equal under folding to compare alike.",
 "A `**` in a pattern is matched greedily and can match zero segments; a trailing `*` inside a segment needs at least one character (C43: not claimed).",
 "`Role.HasPermission`: a denied permission only blocks what it implies; when the access bits of a denied and an allowed permission overlap in part, the request for the union is granted or refused by implication as a whole.",
 "`Accept-Encoding: compress` is answered with gzip; the existing tests pin this.",
 "A JSON response sends its status before the payload is marshalled, so a marshalling error can not change the status any more (it is reported to the error logger).",
 "The loop of an event stream waits on the channel after cancellation until the next event arrives or the channel is closed; nothing is written then (C33).",
 "With an empty base path and a prefix ending in `/` the OAuth redirect URI contains two slashes.",
 "`isSameOrigin` is never true for an origin that names its default port explicitly; requests that are not CORS requests still get Access-Control headers; a preflight looks at the first `Access-Control-Request-Headers` line only.",
 "`errorToString` garbles an error text whose first character is not ASCII (it upper-cases the first byte).",
 "`NewHttpCompressResponse` returns a typed nil next to its error.",
 "The providers' HTTP client follows 307 and 308 redirects, which resend the body of the code exchange to where the provider's endpoint redirects (C20 assumes an endpoint redirect is the provider's own decision).",
 "`Match` counts the children of a node in 16 bits: 65536 routes below one node would wrap (assumed in C48).",
 "A request path that does not start with a slash (`OPTIONS *`) has no segments and is matched like the root path.",
 "`HttpHijackConnectionResponse` has no header and cookie maps: adding a cookie to it panics in the application's own code.",
]
LIMITS=[
 "C35 tells mutexes apart by type and field, not by object: locking another instance of the same type counts as locked.",
 "C27 does not understand header values memoised across requests behind a `sync.Once` or a lock and would report them as undecided.",
 "C46 does not prove the index arithmetic inside `ParsePattern` (it runs at registration, where C05's rules apply).",
 "Look-ups in tables of more than 24 entries, recursion through symbolic data (other than the bounded recursion the fixpoints recognise) and reflection are reported as undecided.",
 "Functions named by the in-package tests (for example `segment.matchUrlPathSegment`, `isValidOrigin`, `generateNonce`) are looked up by name: renaming one would also break the existing tests' build.",
]
CANNOT={
 "C01":"which of several matching routes is chosen (C40), whether one is found (C41) and whether it matches (C51) are decided there: the matcher is an unknown function here.",
 "C06":"the language of the wildcard comparison itself (C43).",
 "C35":"races inside application code, and objects that an application shares between requests itself.",
 "C32":"that the compressed bytes decode to the payload (C44).",
 "C11":"the bytes encoding/json and html/template produce for a payload (C44).",
 "C20":"implicit flows.",
}
SEEDNOTE="Each of the following was planted before its check was run on it, builds, passes the stable tests and comes with a demonstration. All are reported by the check of the property they break (exit 1 and its VIOLATION line); where a first run missed one, the check was strengthened with a general rule."
