package main

// Rule for concurrency: code that runs for a request does not write memory that other requests can see.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C35"] = spec{run: checkShared, min: 150,
		explain: "every instruction and library call that can write memory, in every function of the repository that can run for a request (reachable from the ServeHTTP methods, the providers, the caches, and the functions for use in handlers; calls through function values and interfaces are resolved by points-to sets and, for values of the application, by signature). The memory it may write is found with a points-to analysis that tells memory made while setting up from memory made for the request. A write to memory that other requests can see is a violation unless a mutex of that memory is held on every path to it",
		assume:  []string{"handlers and other code of the application keep to the same rule and return responses that no other request uses", "library objects documented as safe for concurrent use are", "what sync.Pool hands out is used by one request at a time (C02, C31)"}}
}

// pwrite is one write that a request can perform
type pwrite struct {
	ctx  *actx
	in   ssa.Instruction
	locs pset
	what string
	// where describes the place in terms of types and fields
	where  string
	atomic bool
}

func checkShared(c *Check) {
	p := c.p
	a := newPTA(p)
	// while setting up
	for _, sp := range p.pkgs {
		if isExample(sp) {
			continue
		}
		if f := sp.Func("init"); f != nil {
			a.context(f, phSetup, nil)
		}
	}
	entries := map[*ssa.Function]bool{}
	for _, f := range p.repoFunctions() {
		if f.Pkg == nil || isExample(f.Pkg) || f.Parent() != nil || f.Synthetic != "" || f.TypeParams().Len() > 0 {
			continue
		}
		if c.servesRequests(f) {
			entries[f] = true
		}
	}
	for _, f := range p.repoFunctions() {
		if f.Pkg == nil || isExample(f.Pkg) || f.Parent() != nil || f.Synthetic != "" || f.TypeParams().Len() > 0 || len(f.Blocks) == 0 {
			continue
		}
		if exportedFn(f) && !isServeHTTP(f) {
			ctx := a.context(f, phSetup, nil)
			for _, pr := range f.Params {
				for _, l := range a.leaves(pr.Type()) {
					a.addVal(ctx, pr, l, a.extSet(phSetup))
				}
			}
		}
		if entries[f] {
			ctx := a.context(f, phRequest, nil)
			for i, pr := range f.Params {
				ph := phRequest
				if i == 0 && f.Signature.Recv() != nil && !requestOwned(f.Signature.Recv().Type()) {
					ph = phSetup
				}
				for _, l := range a.leaves(pr.Type()) {
					a.addVal(ctx, pr, l, a.extSet(ph))
				}
			}
		}
	}
	for round := 0; ; round++ {
		if round > 50 {
			panic(undecided("the points-to analysis does not settle"))
		}
		a.run()
		a.changed = false
		// what exported functions return while setting up belongs to the application
		for _, ctx := range a.order {
			if ctx.phase != phSetup || ctx.fn.Parent() != nil || !exportedFn(ctx.fn) {
				continue
			}
			for k, s := range a.rets {
				if k.ctx == ctx {
					a.give(a.ext[phSetup], s, typeAt(resultType(ctx.fn), k.path))
				}
			}
		}
		if !a.changed {
			break
		}
	}
	t0 := time.Now()
	shared := a.shared()
	t1 := time.Now()
	held := a.locks(shared)
	if os.Getenv("GCDBG") != "" {
		fmt.Fprintln(os.Stderr, "shared", t1.Sub(t0), "locks", time.Since(t1))
	}
	var writes []pwrite
	fns := map[*ssa.Function]bool{}
	for _, ctx := range a.order {
		if ctx.phase != phRequest {
			continue
		}
		fns[ctx.fn] = true
		for _, b := range ctx.fn.Blocks {
			for _, in := range b.Instrs {
				writes = append(writes, a.writesOf(ctx, in)...)
			}
		}
	}
	for f := range fns {
		c.analysed[f.String()] = true
	}
	c.paths = len(a.order)
	type place struct {
		obj  *aobj
		path string // the description of the place for memory of the application
	}
	type guard struct {
		keys  map[string]bool
		first pwrite
	}
	placeOf := func(l aloc, w pwrite) place {
		if l.obj.kind == "ext" {
			return place{l.obj, w.where}
		}
		return place{l.obj, l.path}
	}
	hits := func(w pwrite) (hit []aloc) {
		for l := range w.locs {
			if _, ok := shared[l.obj]; ok {
				hit = append(hit, l)
			}
		}
		sort.Slice(hit, func(i, j int) bool {
			return hit[i].obj.id < hit[j].obj.id || hit[i].obj.id == hit[j].obj.id && hit[i].path < hit[j].path
		})
		return
	}
	guards := map[place]*guard{}
	byObj := map[*aobj][]place{}
	var order []place
	for _, w := range writes {
		hit := hits(w)
		h := map[string]bool{}
		for k := range held[w.ctx][w.in] {
			if k != "done" && !strings.HasPrefix(k, "r:") {
				h[k] = true
			}
		}
		if w.atomic {
			h["atomic"] = true
		}
		if os.Getenv("GCDBG") != "" && len(hit) > 0 {
			fmt.Fprintln(os.Stderr, "shared write", c.p.pos(w.in.Pos()), w.what, hit[0].obj.label, hit[0].path, w.where, "held", h, "in", w.ctx.fn, "entered", w.ctx.id)
		}
		for _, l := range hit {
			ok := map[string]bool{}
			for k := range h {
				if a.canGuard(k, l.obj) {
					ok[k] = true
				}
			}
			if !c.require(len(ok) > 0, "unguarded-write", w.in.Pos(), nil, "%s, which runs for a request, %s memory that other requests can see (%s) without holding a mutex of it", shortName(w.ctx.fn.String()), w.what, shared[l.obj]) {
				break
			}
			pl := placeOf(l, w)
			g := guards[pl]
			if g == nil {
				guards[pl] = &guard{keys: ok, first: w}
				order = append(order, pl)
				byObj[pl.obj] = append(byObj[pl.obj], pl)
				continue
			}
			for k := range g.keys {
				if !ok[k] {
					delete(g.keys, k)
				}
			}
		}
		if len(hit) == 0 {
			c.require(true, "request-memory", w.in.Pos(), nil, "")
		}
	}
	for _, pl := range order {
		g := guards[pl]
		c.require(len(g.keys) > 0, "one-mutex", g.first.in.Pos(), nil, "the writes to %s are guarded by different mutexes", pl.obj.label)
	}
	// what is written under a mutex is read under it
	for _, ctx := range a.order {
		if ctx.phase != phRequest {
			continue
		}
		for _, b := range ctx.fn.Blocks {
			for _, in := range b.Instrs {
				for _, r := range a.readsOf(ctx, in) {
					h := held[ctx][in]
					for _, l := range hits(r) {
						for _, pl := range byObj[l.obj] {
							g := guards[pl]
							if len(g.keys) == 0 {
								continue
							}
							if l.obj.kind == "ext" {
								if pl.path != r.where {
									continue
								}
							} else if !strings.HasPrefix(pl.path, l.path) && !strings.HasPrefix(l.path, pl.path) {
								continue
							}
							ok := false
							for k := range g.keys {
								ok = ok || h[k] || h["r:"+k] || k == "once" && h["done"]
							}
							c.require(ok, "unguarded-read", in.Pos(), nil, "%s, which runs for a request, reads memory that other requests write under a mutex (%s) without holding the mutex", shortName(ctx.fn.String()), shared[l.obj])
						}
					}
				}
			}
		}
	}
	// the analysis reached what it is about
	for _, rel := range []string{"router", "middleware", "auth/oauth", "cache", "response", "router/path", ""} {
		n := 0
		for f := range fns {
			if f.Pkg != nil && f.Pkg == p.pkg(rel) {
				n++
			}
		}
		c.require(n > 0, "covered", p.pkg(rel).Func("init").Pos(), nil, "no function of %q runs for a request", rel)
	}
}

func resultType(f *ssa.Function) types.Type {
	if r := f.Signature.Results(); r.Len() == 1 {
		return r.At(0).Type()
	}
	return f.Signature.Results()
}

func exportedFn(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() {
		return false
	}
	return true
}

func isServeHTTP(f *ssa.Function) bool {
	return f.Name() == "ServeHTTP" && f.Signature.Recv() != nil
}

// requestOwned: values of the type belong to one request
func requestOwned(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") {
	case "response", "auth", "errors":
		return true
	case "router/path":
		return n.Obj().Name() == "MatchingContext"
	}
	return false
}

// servesRequests: the function is called for requests by the server or by the handlers of the application
func (c *Check) servesRequests(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if isServeHTTP(f) {
		return true
	}
	if !exportedFn(f) {
		return false
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
	recv := f.Signature.Recv()
	if recv == nil {
		return rel == "response" || rel == "errors" || rel == "auth" || strings.Contains(f.Name(), "FromContext")
	}
	if requestOwned(recv.Type()) {
		return true
	}
	for _, it := range [][2]string{{"auth/oauth", "Provider"}, {"cache", "Cache"}} {
		iface := c.p.typ(it[0], it[1]).Underlying().(*types.Interface)
		if !types.Implements(recv.Type(), iface) && !types.Implements(types.NewPointer(recv.Type()), iface) {
			continue
		}
		for i := 0; i < iface.NumMethods(); i++ {
			if iface.Method(i).Name() == f.Name() {
				return true
			}
		}
	}
	return false
}

// writesOf lists the memory that an instruction may write
func (a *pta) writesOf(ctx *actx, in ssa.Instruction) (out []pwrite) {
	add := func(v ssa.Value, path, what string) {
		out = append(out, pwrite{ctx: ctx, in: in, locs: at(a.get(ctx, v, ""), path), what: what, where: placeName(v) + path})
	}
	switch x := in.(type) {
	case *ssa.Store:
		add(x.Addr, "", "writes")
	case *ssa.MapUpdate:
		add(x.Map, "[]", "writes a map in")
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				locs := pset{}
				for l := range a.get(ctx, c.Args[0], "") {
					if !exactLiteral(l) {
						locs[l.at("[]")] = true
					}
				}
				if !fullCap(c.Args[0]) {
					out = append(out, pwrite{ctx: ctx, in: in, locs: locs, what: "appends in place to", where: placeName(c.Args[0]) + "[]"})
				}
			case "copy":
				add(c.Args[0], "[]", "copies into")
			case "delete", "clear":
				add(c.Args[0], "[]", "deletes from")
			}
			return
		}
		var name string
		var args []ssa.Value
		if c.IsInvoke() {
			name = c.Method.FullName()
			args = append([]ssa.Value{c.Value}, c.Args...)
			if ext := a.get(ctx, c.Value, ""); len(ext) > 0 {
				lib := false
				for l := range ext {
					lib = lib || l.obj.kind == "ext" || l.typ() == nil || !repoType(l.typ())
				}
				if !lib {
					return
				}
			}
		} else if f := c.StaticCallee(); f != nil {
			if a.p.isRepoFn(f) || f.Pkg == nil {
				return
			}
			name = f.String()
			args = c.Args
		} else {
			return
		}
		if strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "sync/atomic.Load") && len(args) > 0 {
			out = append(out, pwrite{ctx: ctx, in: in, locs: a.get(ctx, args[0], ""), what: "changes", where: placeName(args[0]), atomic: true})
		}
		for _, i := range libraryWrites(name, c, args) {
			if i < len(args) {
				locs := a.get(ctx, args[i], "")
				out = append(out, pwrite{ctx: ctx, in: in, locs: locs, what: "calls " + shortName(name) + " on", where: placeName(args[i])})
			}
		}
	}
	return
}

// readsOf lists the memory that an instruction reads
func (a *pta) readsOf(ctx *actx, in ssa.Instruction) (out []pwrite) {
	add := func(v ssa.Value, path string) {
		out = append(out, pwrite{ctx: ctx, in: in, locs: at(a.get(ctx, v, ""), path), where: placeName(v) + path})
	}
	isMap := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Map)
		return ok
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(x.X, "")
		}
	case *ssa.Lookup:
		if isMap(x.X) {
			add(x.X, "[]")
		}
	case *ssa.Range:
		if isMap(x.X) {
			add(x.X, "[]")
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && isMap(r.X) {
			add(r.X, "[]")
		}
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			args := x.Common().Args
			switch b.Name() {
			case "len":
				if isMap(args[0]) {
					add(args[0], "[]")
				}
			case "append", "copy":
				if _, isSlice := args[1].Type().Underlying().(*types.Slice); isSlice {
					add(args[1], "[]")
				}
			}
		}
	}
	return
}

// placeName describes the place that a value refers to, in terms of types and fields
func placeName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return types.TypeString(deref(x.X.Type()), nil) + "." + structOf(deref(x.X.Type())).Field(x.Field).Name()
	case *ssa.Field:
		return types.TypeString(x.X.Type(), nil) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + placeName(x.X)
		}
	case *ssa.IndexAddr:
		return placeName(x.X) + "[]"
	case *ssa.Slice:
		return placeName(x.X)
	}
	return types.TypeString(v.Type(), nil)
}

// canGuard: there is one such mutex for every instance of the memory
func (a *pta) canGuard(key string, o *aobj) bool {
	m, ok := a.keyObj[key]
	if !ok || m.kind == "global" {
		return true
	}
	if o.kind == "global" || o.in != nil && o.in.Parent().Synthetic != "" {
		return false
	}
	if m.in == nil || o.in == nil {
		return true
	}
	// a mutex made in a function inside the one that makes the memory is another one for every call
	for f := m.in.Parent().Parent(); f != nil; f = f.Parent() {
		if f == o.in.Parent() {
			return false
		}
	}
	return true
}

// exactLiteral: a list written out in full has no spare room, so appending to it copies
func exactLiteral(l aloc) bool {
	al, ok := l.obj.in.(*ssa.Alloc)
	if !ok {
		return false
	}
	_, isArr := deref(al.Type()).Underlying().(*types.Array)
	return isArr && al.Comment == "slicelit" && l.path == ""
}

// fullCap: the slice expression leaves no spare room
func fullCap(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High != nil && sameExpr(s.Max, s.High)
}

// sameExpr: the two values of one block are computed alike, with nothing but reads in between
func sameExpr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	xi, ok1 := x.(ssa.Instruction)
	yi, ok2 := y.(ssa.Instruction)
	if !ok1 || !ok2 || xi.Block() != yi.Block() {
		return false
	}
	between := false
	for _, in := range xi.Block().Instrs {
		if in == xi || in == yi {
			between = !between
			continue
		}
		if !between {
			continue
		}
		switch z := in.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Field, *ssa.BinOp, *ssa.Convert:
		case *ssa.Call:
			if b, ok := z.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	switch p := x.(type) {
	case *ssa.Call:
		q, ok := y.(*ssa.Call)
		if !ok {
			return false
		}
		b1, ok1 := p.Call.Value.(*ssa.Builtin)
		b2, ok2 := q.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && b1.Name() == "len" && b2.Name() == "len" && sameExpr(p.Call.Args[0], q.Call.Args[0])
	case *ssa.UnOp:
		q, ok := y.(*ssa.UnOp)
		return ok && p.Op == token.MUL && q.Op == token.MUL && sameExpr(p.X, q.X)
	case *ssa.FieldAddr:
		q, ok := y.(*ssa.FieldAddr)
		return ok && p.Field == q.Field && sameExpr(p.X, q.X)
	}
	return false
}

func repoType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

var concurrencySafe = []string{"(*sync.", "(*sync/atomic.", "(*net/http.Client).", "(*net/http.Transport).", "(*regexp.Regexp).", "(*strings.Replacer).", "(*html/template.Template).Execute", "(*text/template.Template).Execute", "(*log.Logger).", "(*log/slog.Logger).", "(*os.File).", "(*net.", "(*time.Location).", "(*math/big.Int).Int64", "(*math/big.Int).Cmp", "(*math/big.Int).Uint64", "(*math/big.Int).String", "(*crypto/", "(*net/http.ServeMux).", "(*expvar."}

// libraryWrites: the arguments whose memory a library function may write
func libraryWrites(name string, c *ssa.CallCommon, args []ssa.Value) (out []int) {
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	if has(concurrencySafe...) || has("sync/atomic.") {
		return nil
	}
	if has("(net/http.Header).", "(net/url.Values).", "(net/textproto.MIMEHeader).") {
		if strings.HasSuffix(name, ").Set") || strings.HasSuffix(name, ").Add") || strings.HasSuffix(name, ").Del") {
			return []int{0}
		}
		return nil
	}
	if has("sort.", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace", "maps.Copy", "maps.DeleteFunc", "math/rand.Shuffle", "crypto/rand.Read", "math/rand.Read") {
		if has("sort.Search", "sort.IsSorted", "sort.StringsAreSorted", "sort.SliceIsSorted") {
			return nil
		}
		return []int{0}
	}
	if has("encoding/json.Unmarshal", "encoding/xml.Unmarshal", "io.ReadFull", "io.ReadAtLeast", "crypto/subtle.ConstantTimeCopy", "crypto/subtle.XORBytes") {
		return []int{0, 1}
	}
	if has("(io.Reader).Read", "(io.ReadCloser).Read", "(io.ReaderAt).ReadAt") {
		return []int{0, 1}
	}
	if has("(sort.Interface)", "(container/heap.Interface)", "(hash.") {
		return []int{0}
	}
	// methods with a pointer receiver change the object unless it is known to be safe
	if has("(*") {
		if readerMethod(name) {
			return nil
		}
		out = append(out, 0)
		if strings.HasSuffix(name, ").Read") || strings.HasSuffix(name, ").Decode") || strings.HasSuffix(name, ").Int") {
			out = append(out, 1)
		}
		return out
	}
	return nil
}

// readerMethod: methods with a pointer receiver that do not change the object
func readerMethod(name string) bool {
	i := strings.LastIndex(name, ".")
	m := name[i+1:]
	switch m {
	case "String", "Len", "Cap", "Error", "Unwrap", "Is", "Context", "Cookie", "Cookies", "UserAgent", "Referer", "Query", "EscapedPath", "Hostname", "Port", "IsAbs", "RequestURI", "BasicAuth", "ProtoAtLeast", "WithContext", "Clone", "PathValue", "Lookup", "Name", "Bytes", "Sub", "JoinPath", "ResolveReference", "Parse", "Redacted", "EscapedFragment":
		return true
	}
	return false
}

type heldAt map[*actx]map[ssa.Instruction]map[string]bool

// locks computes, for each instruction of the code that runs for requests, the mutexes held on every path to it
func (a *pta) locks(shared map[*aobj]string) heldAt {
	entry := map[*actx]map[string]bool{} // nil: not known yet (everything)
	callers := map[*actx]int{}
	for _, sites := range a.calls {
		for _, cs := range sites {
			for callee := range cs {
				callers[callee]++
			}
		}
	}
	for _, ctx := range a.order {
		if callers[ctx] == 0 {
			entry[ctx] = map[string]bool{}
		}
		// entered from outside as well
		if ctx.phase == phRequest && ctx.closure == nil && exportedFn(ctx.fn) && ctx.fn.Parent() == nil {
			entry[ctx] = map[string]bool{}
		}
	}
	var out heldAt
	for round := 0; ; round++ {
		if round > 100 {
			panic(undecided("the lock analysis does not settle"))
		}
		changed := false
		out = heldAt{}
		for _, ctx := range a.order {
			if ctx.phase != phRequest {
				continue
			}
			in := entry[ctx]
			if in == nil {
				continue
			}
			at := a.heldIn(ctx, in, shared)
			out[ctx] = at
			for site, cs := range a.calls[ctx] {
				h := at[site.(ssa.Instruction)]
				if _, isGo := site.(*ssa.Go); isGo {
					h = nil
				}
				if _, isDefer := site.(*ssa.Defer); isDefer {
					h = nil // runs later
				}
				for callee := range cs {
					if a.once[callee] {
						h2 := map[string]bool{"once": true}
						for k := range h {
							h2[k] = true
						}
						h = h2
					}
					old, known := entry[callee]
					if !known || old == nil {
						n := map[string]bool{}
						for k := range h {
							n[k] = true
						}
						entry[callee] = n
						changed = true
						continue
					}
					for k := range old {
						if !h[k] {
							delete(old, k)
							changed = true
						}
					}
				}
			}
		}
		if !changed {
			return out
		}
	}
}

func mutexCall(c *ssa.CallCommon) (op string, recv ssa.Value) {
	f := c.StaticCallee()
	if f == nil {
		if c.IsInvoke() && c.Method.FullName() == "(sync.Locker).Lock" {
			return "Lock", c.Value
		}
		if c.IsInvoke() && c.Method.FullName() == "(sync.Locker).Unlock" {
			return "Unlock", c.Value
		}
		return "", nil
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "Lock", c.Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "Unlock", c.Args[0]
	case "(*sync.RWMutex).RLock":
		return "RLock", c.Args[0]
	case "(*sync.RWMutex).RUnlock":
		return "RUnlock", c.Args[0]
	case "(*sync.Once).Do":
		return "Do", c.Args[0]
	}
	return "", nil
}

// lockKeys names the mutex by where it is
func (a *pta) lockKeys(ctx *actx, v ssa.Value, shared map[*aobj]string) (keys []string, ok bool) {
	locs := a.get(ctx, v, "")
	if len(locs) == 0 {
		return nil, false
	}
	for l := range locs {
		if _, is := shared[l.obj]; !is && l.obj.kind != "global" {
			return nil, false
		}
	}
	if fa, isF := v.(*ssa.FieldAddr); isF {
		return []string{types.TypeString(deref(fa.X.Type()), nil) + "." + structOf(deref(fa.X.Type())).Field(fa.Field).Name()}, true
	}
	if ld, isL := v.(*ssa.UnOp); isL {
		if fa, isF := ld.X.(*ssa.FieldAddr); isF {
			return []string{types.TypeString(deref(fa.X.Type()), nil) + "." + structOf(deref(fa.X.Type())).Field(fa.Field).Name()}, true
		}
	}
	if len(locs) == 1 {
		for l := range locs {
			if l.obj.kind != "ext" {
				k := fmt.Sprintf("%d%s", l.obj.id, l.path)
				a.keyObj[k] = l.obj
				return []string{k}, true
			}
		}
	}
	return nil, false
}

// heldIn: the mutexes held before each instruction of the function
func (a *pta) heldIn(ctx *actx, entry map[string]bool, shared map[*aobj]string) map[ssa.Instruction]map[string]bool {
	out := map[ssa.Instruction]map[string]bool{}
	ins := map[*ssa.BasicBlock]map[string]bool{}
	outs := map[*ssa.BasicBlock]map[string]bool{}
	blocks := ctx.fn.Blocks
	for round := 0; ; round++ {
		changed := false
		for bi, b := range blocks {
			var in map[string]bool
			if bi == 0 {
				in = entry
			} else {
				for _, p := range b.Preds {
					o, ok := outs[p]
					if !ok {
						continue
					}
					if in == nil {
						in = map[string]bool{}
						for k := range o {
							in[k] = true
						}
						continue
					}
					for k := range in {
						if !o[k] {
							delete(in, k)
						}
					}
				}
				if in == nil {
					if b == ctx.fn.Recover {
						in = map[string]bool{}
					} else {
						continue
					}
				}
			}
			ins[b] = in
			cur := map[string]bool{}
			for k := range in {
				cur[k] = true
			}
			for _, i := range b.Instrs {
				snap := map[string]bool{}
				for k := range cur {
					snap[k] = true
				}
				out[i] = snap
				call, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				op, recv := mutexCall(call.Common())
				switch op {
				case "Lock":
					if ks, ok := a.lockKeys(ctx, recv, shared); ok {
						for _, k := range ks {
							cur[k] = true
						}
					}
				case "RLock":
					if ks, ok := a.lockKeys(ctx, recv, shared); ok {
						for _, k := range ks {
							cur["r:"+k] = true
						}
					}
				case "Do":
					cur["done"] = true
				case "Unlock", "RUnlock":
					if ks, ok := a.lockKeys(ctx, recv, shared); ok {
						for _, k := range ks {
							if op == "RUnlock" {
								k = "r:" + k
							}
							delete(cur, k)
						}
					} else {
						cur = map[string]bool{}
					}
				default:
					for callee := range a.calls[ctx][call] {
						acq, rel := a.lockEffect(callee, shared)
						for k := range rel {
							delete(cur, k)
						}
						if len(a.calls[ctx][call]) == 1 {
							for k := range acq {
								cur[k] = true
							}
						}
					}
				}
			}
			if !equalKeys(outs[b], cur) || outs[b] == nil {
				outs[b] = cur
				changed = true
			}
		}
		if !changed {
			return out
		}
		if round > 100 {
			panic(undecided("the lock analysis does not settle"))
		}
	}
}

func equalKeys(x, y map[string]bool) bool {
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

// lockEffect: the mutexes a function leaves locked, and those it may unlock
func (a *pta) lockEffect(ctx *actx, shared map[*aobj]string) (acq, rel map[string]bool) {
	if m, ok := a.lockMemo[ctx]; ok {
		return m[0], m[1]
	}
	a.lockMemo[ctx] = [2]map[string]bool{} // a recursive call leaves the mutexes as they are
	defer func() { a.lockMemo[ctx] = [2]map[string]bool{acq, rel} }()
	acq, rel = map[string]bool{}, map[string]bool{}
	locks, deferred := false, map[string]bool{}
	for _, b := range ctx.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			op, recv := mutexCall(ci.Common())
			switch op {
			case "Lock", "RLock", "Do":
				locks = true
			case "Unlock", "RUnlock":
				ks, _ := a.lockKeys(ctx, recv, shared)
				for _, k := range ks {
					if op == "RUnlock" {
						k = "r:" + k
					}
					rel[k] = true
					if _, isDefer := in.(*ssa.Defer); isDefer {
						deferred[k] = true
					}
				}
			default:
				for callee := range a.calls[ctx][ci] {
					if callee == ctx {
						continue
					}
					_, r := a.lockEffect(callee, shared)
					for k := range r {
						rel[k] = true
					}
				}
			}
		}
	}
	if !locks {
		return
	}
	// held at every return
	in := a.heldIn(ctx, map[string]bool{}, shared)
	first := true
	for _, b := range ctx.fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		h := in[r]
		if first {
			for k := range h {
				acq[k] = true
			}
			first = false
			continue
		}
		for k := range acq {
			if !h[k] {
				delete(acq, k)
			}
		}
	}
	for k := range deferred {
		delete(acq, k)
	}
	return
}
