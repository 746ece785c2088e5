COMMON = ("Sound for the Go semantics as represented by go/ssa, the library models and the assumptions listed in the evidence; "
  "a construct the analysis cannot decide is reported as a violation, never skipped.")
AI = "path-sensitive abstract interpretation of the SSA form with value numbering, "
CLAIMS = {
 "C01": (AI+"event-order (typestate) rules", "All paths of the router's request entry for any registered routes, any request and any handler, including panics; the matcher is an unknown function of the path."),
 "C02": (AI+"typestate of the pooled object with exceptional control flow", "All normal and panicking paths of the router's request entry; the pool's constructor and every later use of the scratch memory."),
 "C04": (AI+"value-numbered comparison of the registration and look-up keys", "All paths of the registration and of the request entry for any method name."),
 "C05": (AI+"loop fixpoints with quantified facts, store effects", "All paths of the registration and of the pattern tree insertion, any number of siblings and segments."),
 "C06": (AI+"decision-table comparison", "All paths of the segment comparison for every kind, case flag, text and pattern."),
 "C07": (AI+"def-use (provenance) of every case flag and compiled expression", "All call sites of pattern parsing, matcher construction, segment and wildcard comparison in the router packages."),
 "C08": (AI+"event-order rules over the composed handler, sequence facts of the middleware lists", "All paths of every registration method, for 0 to 2 common and own middlewares each nil or not, any path, prefix and handler."),
 "C09": (AI+"ownership (allocation-site) and effect rules", "All paths of Clone, of the prefixed constructor and of adding common middlewares: storage of the new list is owned by the new handler."),
 "C10": (AI+"string-piece (concatenation) domain", "All paths of MuxHandler.resolvePath; the result is compared with the specification as a concatenation of prefix, slash and path slices."),
 "C12": (AI+"event-order (typestate) rules, loop fixpoints with quantified facts", "All paths of the three authorization middlewares around an unknown handler, any number of permissions."),
 "C13": (AI+"loop fixpoints with quantified (for all / exists) facts", "All paths of Role, Group and User HasPermission and HasRole, slices of any length."),
 "C14": (AI+"decision-table comparison over level shapes", "Permission.Implies, exact (both directions) for scopes of 1 to 4 levels on each side; a valid permission has at most 3."),
 "C15": (AI+"loop fixpoints (counting and search rules)", "All paths of NewPermission and ParsePermission, strings of any length."),
 "C16": (AI+"event-order (typestate) rules", "All paths of the principal-supplier middleware."),
 "C17": (AI+"event-order (typestate) rules", "All paths of the registered callback handler for any configuration, provider, request, cache answer and provider answer."),
 "C18": (AI+"event-order rules, string-piece domain and provenance (def-use) of the state to crypto/rand", "All paths of the registered initiate handler, including generation of the state."),
 "C21": (AI+"event-order (typestate) rules", "All paths of the CSRF middleware for every method, token source and cache answer."),
 "C22": (AI+"event-order rules and provenance (def-use) of the token to crypto/rand", "All paths of the CSRF middleware, including nonce generation."),
 "C38": (AI+"guarded-assignment (effect) rules", "All paths of setting the defaults and of building the mux handler for every combination of set and unset values."),
 "C39": (AI+"string-piece domain and event-order rules", "All paths of building the mux handler, for every resources configuration, path and directory."),
 "C23": (AI+"event-order rules, loop fixpoints with quantified facts, string-piece domain", "All paths of the CORS middleware around an unknown handler, any configuration and request; isValidOrigin, isSameOrigin and addVaryHeader analysed on their own."),
 "C24": (AI+"event-order rules, loop fixpoints with nested quantified facts", "All paths of the CORS middleware, lists of any length."),
 "C25": (AI+"decision-table comparison", "All paths of the error middleware and its status mapping."),
 "C26": (AI+"exceptional control flow (panic/defer/recover)", "All normal and panicking paths of the recover middleware."),
 "C27": (AI+"effect rules on header writes", "All paths of the security-headers middleware for all configurations."),
 "C28": (AI+"typestate of the client writer (headers, status, body)", "All paths of the Write method of every type of the response package that is an HttpResponse; the type list is taken from the source on each run."),
 "C29": (AI+"loop fixpoints with quantified facts, typestate of the client writer", "All paths of every response's Write that end without error, of every constructor and of the header and cookie setters; maps and cookie lists of any size."),
 "C30": (AI+"error-flow rules over typestate", "All paths of every response's Write; every call with an error result is an obligation."),
 "C31": (AI+"ownership and typestate of pooled maps with exceptional control flow", "All normal and panicking paths of every response's Write and of the release and take functions; every recycling call site of the repository."),
 "C11": (AI+"value-numbered comparison of the written body with the payload", "All paths of every response's Write that end without error and of every constructor with a payload."),
 "C32": (AI+"typestate of the compressor with exceptional control flow, loop fixpoints with quantified facts", "All normal and panicking paths of HttpCompressResponse.Write, every method of the compressing writer, all paths of the middleware; Accept-Encoding lists of any length."),
 "C33": (AI+"typestate of the stream (idle, received, checked, written, flushed) carried round the loop", "All paths of HttpSSEResponse.Write for any generator, context and client; every iteration of the event loop is checked against the state it starts in."),
 "C34": (AI+"line automaton over concatenated text with an absent-character domain, loop fixpoints with quantified facts", "All paths of ServerSentEvent.String for names, ids and data of any content and any number of lines."),
 "C36": (AI+"lock-set (held locks) rules on every memory use, event-order and value rules", "All paths, including panics, of every exported operation of every cache in the cache package; one common lock must be held at each use of shared memory."),
 "C37": (AI+"ownership (allocation-site) rules and element-wise copy rules over loops", "All paths of MatchingContext.Clone, any number of segments; every field of the context and of a segment, read from the types on each run."),
 "C19": (AI+"typestate of the answer (obtained, read, closed) and provenance of the result fields", "All paths of FetchAccessToken and FetchAuthenticatedUser of every Provider implementation, for any transport result, status and decoded document."),
 "C20": (AI+"explicit information flow (taint) with endpoint-checked sinks", "All paths of every method of every Provider implementation and of the registered OAuth handlers; every call, store, map write, channel operation, panic and result a secret reaches is an obligation."),
 "C35": ("two-phase points-to analysis (set-up memory against memory of the request) over the SSA of every function reachable for a request, with an interprocedural must-held lock analysis", "every instruction and library call that may write; the instance of a mutex is told apart by type and field, not by object"),
 "C03": (AI+"inferred loop invariants, narrowing-conversion and index obligations", "Paths of any length, every way through the scan and through the guard of Match."),
 "C46": (AI+"panic-freedom obligations (index, nil, assertion, division, pool content), inferred loop invariants", "Every path of every function of the repository that runs for a request and of every exported function outside route registration; each operation that can panic is an obligation."),
 "C47": (AI+"loop transition relation of the scan, ownership of the offset fields", "Every way an iteration of the scan can go, for paths of any length; every writer of the offsets in the repository."),
 "C48": (AI+"lockstep invariants of depth and tree links, inferred loop bounds", "Every path of parsing and registering a pattern and every iteration of Match; trees of any shape with fewer than 65536 children per node."),
 "C45": (AI+"inferred loop invariants in a difference-bound domain", "Every index and slice expression reached by the wildcard comparison, texts of any length."),
 "C49": (AI+"event-order (typestate) and provenance rules on the handler's results", "All paths of every exported middleware constructor's handler (the list is read from the source on each run), for any configuration, request and handler result."),
 "C50": (AI+"comparison of the accessors' results over symbolic contexts", "All paths of the three accessors on contexts extended with unknown values under own, other and foreign keys."),
 "C51": (AI+"inductive invariant of the search loop, decided on each of its transitions", "Every way an iteration of Match can go and every way it can return, for any tree and path; every step of registering a pattern."),
 "C41": (AI+"inductive invariant of the search loop (nothing passed over without a reason), decided on each of its transitions", "Every way an iteration of Match can go, pass over a child or a position, or give up, for any tree and path; every step of registering a pattern and of parsing it. Nodes with fewer than 65536 children."),
 "C40": (AI+"order-of-search invariants of the loop of Match, decision table of the comparison that sorts siblings, order-independence (smallest-value) rules for its keys", "Every way an iteration of Match can go, every step of registering a pattern, every pair of segment kinds and any two siblings of one kind."),
}
NA = {
 "C42": "Relates numeric offsets recorded while matching to positions in arbitrary request text across a recursive search; it needs a relational inductive invariant over the trie and the scratch memory that no dataflow domain in reach expresses.",
 "C43": "The language accepted by a hand-written backtracking matcher is a functional-correctness property over unbounded strings; the memory-safety half of it is decided by C45.",
 "C44": "Round trip through encoding/json and compress/* is functional correctness of library algorithms over arbitrary payloads.",
}
