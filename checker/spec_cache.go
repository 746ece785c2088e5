package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C36"] = spec{run: checkCache, min: 12,
		explain: "every exported operation of every cache of the cache package is analysed for an unknown key and expiration: each use of memory reachable from the cache must happen while one common lock is held (for writing when it writes), no path may end with a lock held, take a lock twice or release one that is not held; the effect on the entries and the answer are compared with 'stored and not expired' on every path",
		assume:  []string{"time.Now is the current time", "fields that no operation writes are set before the cache is shared"}}
}

type cacheCase struct {
	c       *Check
	name    string
	recv    *Term
	entries *Term        // address of the field with the entries
	mutable map[int]bool // fields written by operations
	uses    []cacheUse
	op      string
	key     *Term
}

type cacheUse struct {
	op    string
	write bool
	what  *Term
	held  *heldLock
	pos   token.Pos
}

func checkCache(c *Check) {
	iface := c.p.typ("cache", "Cache").Underlying().(*types.Interface)
	n := 0
	for _, m := range sortedMembers(c.p.pkg("cache")) {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		if _, isI := t.Type().Underlying().(*types.Interface); isI {
			continue
		}
		if !types.Implements(types.NewPointer(t.Type()), iface) {
			continue
		}
		n++
		c.cacheType(t)
	}
	c.require(n > 0, "caches", token.NoPos, nil, "no cache was found in the cache package")
}

func (c *Check) cacheType(t *ssa.Type) {
	k := &cacheCase{c: c, name: t.Name(), recv: mkSym("cache", types.NewPointer(t.Type())), mutable: map[int]bool{}}
	str := structOf(t.Type())
	if !c.require(str != nil, "entries", t.Pos(), nil, "%s: not a struct", t.Name()) {
		return
	}
	if types.Implements(t.Type(), c.p.typ("cache", "Cache").Underlying().(*types.Interface)) {
		c.require(false, "shared-lock", t.Pos(), nil, "%s: the operations work on a copy of the cache and of its lock", t.Name())
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		if _, isM := str.Field(i).Type().Underlying().(*types.Map); isM {
			if !c.require(k.entries == nil, "entries", t.Pos(), nil, "%s: more than one map", t.Name()) {
				return
			}
			k.entries = mkFieldAddr(k.recv, i)
		}
	}
	if !c.require(k.entries != nil, "entries", t.Pos(), nil, "%s: the entries are not kept in a map: not understood", t.Name()) {
		return
	}
	// every constructor makes the map
	ctors := 0
	for _, m := range sortedMembers(c.p.pkg("cache")) {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || fn.Name() == "init" || !token.IsExported(fn.Name()) {
			continue
		}
		if deref(fn.Signature.Results().At(0).Type()) != t.Type() {
			continue
		}
		ctors++
		e := c.engine()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, mkSym(p.Name(), p.Type()))
		}
		for _, o := range e.callFn(newState(e), fn, args, nil, 0) {
			c.paths++
			s := scopeOf(o.St)
			if !c.require(o.Panic == nil, "made", fn.Pos(), &s, "%s panics", fn.Name()) {
				continue
			}
			p := stripConv(o.Vals[0])
			c.require(p.Op == OAlloc && o.St.load(mkFieldAddr(p, k.entries.N)).Op == OMakeMap, "made", fn.Pos(), &s, "%s does not make the map of the entries", fn.Name())
			c.require(s.count(func(e *Event) bool { return e.Kind == "go" }) == 0, "no-goroutine", fn.Pos(), &s, "%s starts a goroutine: not understood", fn.Name())
		}
	}
	c.require(ctors > 0, "made", t.Pos(), nil, "%s: no constructor was found", t.Name())

	// which fields do operations write
	ops := c.operations(t)
	for pass := 0; pass < 2; pass++ {
		k.uses = nil
		for _, fn := range ops {
			k.operation(fn, pass == 1)
		}
	}
	// the entries, and every other field, are guarded by one lock
	common := map[int]*heldLock{}
	all := true
	for _, u := range k.uses {
		if u.held == nil {
			all = false
			c.require(false, "under-lock", u.pos, nil, "%s: %s is used without a lock", u.op, u.what)
			continue
		}
		f := k.fieldIn(u.what)
		if common[f] == nil {
			common[f] = u.held
			continue
		}
		var keep *heldLock
		for l := common[f]; l != nil; l = l.prev {
			if u.held.has(l.mu) {
				keep = &heldLock{l.mu, true, keep}
			}
		}
		common[f] = keep
		if !c.require(keep != nil, "under-lock", u.pos, nil, "%s: %s is used under another lock than elsewhere", u.op, u.what) {
			return
		}
	}
	if !all || !c.require(common[k.entries.N] != nil, "under-lock", t.Pos(), nil, "%s: no use of the entries was found", t.Name()) {
		return
	}
	for _, u := range k.uses {
		ok := !u.write
		for l := u.held; l != nil; l = l.prev {
			if common[k.fieldIn(u.what)].has(l.mu) && l.write {
				ok = true
			}
		}
		c.require(ok, "write-lock", u.pos, nil, "%s: %s is changed under a lock that others may hold at the same time", u.op, u.what)
	}
}

func (c *Check) operations(t *ssa.Type) (out []*ssa.Function) {
	ms := c.p.prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if !f.Exported() || f.Pkg() == nil || !c.p.inRepo(f.Pkg().Path()) {
			continue
		}
		out = append(out, c.p.prog.MethodValue(ms.At(i)))
	}
	return
}

func (p *Program) inRepo(path string) bool {
	return path == modPath || len(path) > len(modPath) && path[:len(modPath)+1] == modPath+"/"
}

// operation analyses one operation
func (k *cacheCase) operation(fn *ssa.Function, judge bool) {
	c := k.c
	k.op = fn.Name()
	e := c.engine()
	e.panicCalls = true
	st := newState(e)
	st.facts.assume(mkEq(k.recv, mkNil()), false)
	st.facts.assume(mkEq(mkLoad(k.entries, 0), mkNil()), false)
	args := []*Term{k.recv}
	for _, p := range fn.Params[1:] {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	seen := map[string]bool{}
	str := structOf(deref(k.recv.T))
	e.onAccess = func(s *State, kind string, what *Term, fr *Frame, pos token.Pos) {
		switch kind {
		case "relock":
			c.require(false, "no-deadlock", pos, nil, "%s: the lock %s is taken while it is held", k.op, what)
			return
		case "badunlock":
			c.require(false, "released", pos, nil, "%s: the lock %s is released although it is not held", k.op, what)
			return
		}
		if !contains(what, k.recv) {
			return
		}
		write := kind == "store" || kind == "mapupdate" || kind == "mapdelete" || kind == "mapclear" || kind == "copyto"
		if what.Op == OFieldAddr && what.Args[0] == k.recv {
			if kind == "store" {
				k.mutable[what.N] = true
			}
			if kind == "load" && !k.mutable[what.N] {
				return
			}
			if isSyncType(str.Field(what.N).Type()) {
				c.require(false, "lock-not-copied", pos, nil, "%s: the lock is copied or overwritten", k.op)
				return
			}
		}
		if what == k.recv && kind == "load" {
			c.require(false, "lock-not-copied", pos, nil, "%s: the cache is copied with its lock", k.op)
			return
		}
		if kind == "mapdelete" && judge {
			k.deletion(s, fn.Name(), args, what, pos)
		}
		id := fmt.Sprint(kind, what, pos, heldNames(s.held))
		if !seen[id] {
			seen[id] = true
			var held *heldLock
			for l := s.held; l != nil; l = l.prev {
				if contains(l.mu, k.recv) || rootOf(l.mu).Op == OGlobal {
					held = &heldLock{l.mu, l.write, held}
				}
			}
			k.uses = append(k.uses, cacheUse{k.op, write, what, held, pos})
		}
	}
	outs := e.callFn(st, fn, args, nil, 0)
	if !judge {
		return
	}
	c.paths += len(outs)
	live := 0
	var runs []run
	for _, o := range outs {
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		c.require(o.St.held == nil, "released", fn.Pos(), &r.Scope, "%s ends with a lock held", k.op)
		c.require(r.count(func(e *Event) bool { return e.Kind == "go" || e.Kind == "send" })+len(r.loopEvents(func(e *Event) bool { return e.Kind == "go" || e.Kind == "send" })) == 0, "no-goroutine", fn.Pos(), &r.Scope, "%s works in another goroutine: not understood", k.op)
		if o.Panic == nil {
			live++
			runs = append(runs, r)
		}
	}
	c.require(live > 0, "returns", fn.Pos(), nil, "%s never returns", k.op)
	dumpRuns(c, runs)
	switch fn.Name() {
	case "Add":
		k.add(fn, runs, args[1], args[2])
	case "Remove":
		k.remove(fn, runs, args[1])
	case "Contains":
		k.contains(fn, outs, args[1])
	default:
		for _, r := range runs {
			c.require(len(k.updates(r.Scope)) == 0, "no-change", fn.Pos(), &r.Scope, "%s changes the entries", k.op)
		}
	}
}

func heldNames(h *heldLock) (s string) {
	for ; h != nil; h = h.prev {
		s += fmt.Sprint(h.mu, h.write, ";")
	}
	return
}

func isSyncType(t types.Type) bool {
	s := typeKey(t)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "sync.Map" || s == "sync.Once" || s == "sync.Pool"
}

func (k *cacheCase) isEntries(m *Term) bool {
	m = stripConv(m)
	return m.Op == OLoad && m.Args[0] == k.entries
}

// updates are the insertions and wholesale changes
func (k *cacheCase) updates(s Scope) (out []*Event) {
	s.every(func(_ Scope, ev EvAt) {
		if ev.Kind == "mapupdate" && k.isEntries(ev.Args[0]) || ev.Kind == "mapclear" && k.isEntries(ev.Args[0]) || ev.Kind == "store" && ev.Args[0] == k.entries {
			out = append(out, ev.Event)
		}
	})
	return
}

// expiry is the time kept in an entry
func (k *cacheCase) expiry(st *State, v *Term) *Term {
	t := v.T
	if v.Op == OIface || t == nil {
		return nil
	}
	if typeKey(t) == "time.Time" {
		return v
	}
	if _, isP := t.Underlying().(*types.Pointer); isP {
		v = st.load(v)
	}
	if str := structOf(v.T); str != nil {
		var out *Term
		for i := 0; i < str.NumFields(); i++ {
			if typeKey(str.Field(i).Type()) == "time.Time" {
				if out != nil {
					return nil
				}
				out = mkField(v, i)
			}
		}
		return out
	}
	return nil
}

func plainTime(t *Term) *Term {
	for t != nil && t.Op == OPure && (t.S == "(time.Time).UTC" || t.S == "(time.Time).Local") {
		t = t.Args[0]
	}
	return t
}

// before says whether a is before b, when decided
func beforeTime(f *Facts, a, b *Term) (val, known bool) {
	if v, ok := f.decide(mkLt(mkInt(0), mkPure("(time.Time).Sub", types.Typ[types.Int64], b, a))); ok {
		return v, true
	}
	return f.decide(mkLt(mkPure("(time.Time).Sub", types.Typ[types.Int64], a, b), mkInt(0)))
}

func nowsOf(items []any) (out []*Term) {
	for _, it := range items {
		switch x := it.(type) {
		case *Event:
			if x.Kind == "call" && x.Name == "time.Now" {
				out = append(out, x.Res)
			}
		}
	}
	return
}

// expired: on this path the entry is known to have expired
func (k *cacheCase) expired(st *State, nows []*Term, v *Term) bool {
	x := k.expiry(st, v)
	if x == nil {
		return false
	}
	for _, n := range nows {
		if b, ok := beforeTime(st.facts, n, x); ok && !b {
			return true
		}
	}
	return false
}

func (k *cacheCase) deletion(s *State, op string, args []*Term, what *Term, pos token.Pos) {
	if !k.isEntries(what.Args[0]) {
		return
	}
	sc := scopeOf(s)
	key := what.Args[1]
	if op == "Remove" && s.facts.same(key, args[1]) {
		return
	}
	nows := nowsOf(s.trace.items())
	v, found := s.e.mapGet(s, what.Args[0], key, what.Args[0].T.Underlying().(*types.Map).Elem())
	ok := s.facts.never(found) || k.expired(s, nows, v)
	if !ok && key.Op == ONext && key.S == "key" {
		// ranging over the entries
		ok = k.expired(s, nows, intern(Term{Op: ONext, S: "elem", N: key.N, Args: key.Args, T: what.Args[0].T.Underlying().(*types.Map).Elem()}, ""))
	}
	k.c.require(ok, "only-expired-dropped", pos, &sc, "%s drops the entry of %s, which may not have expired", op, key)
}

func (k *cacheCase) add(fn *ssa.Function, runs []run, key, exp *Term) {
	c := k.c
	stored := 0
	for _, r0 := range runs {
		r0.err = r0.o.Vals[0]
		for _, r := range r0.byErr() {
			ups := k.updates(r.Scope)
			if r.isNotNil(r.err) {
				c.require(len(ups) == 0, "error-without-effect", fn.Pos(), &r.Scope, "Add stores the key and reports an error")
				continue
			}
			evs := r.events(func(e *Event) bool { return e.Kind == "mapupdate" && k.isEntries(e.Args[0]) })
			if !c.require(len(ups) == 1 && len(evs) == 1, "stored-once", fn.Pos(), &r.Scope, "Add does not store exactly one entry") {
				continue
			}
			ev := evs[0]
			stored++
			c.require(same(r.Scope, ev.Args[1], key), "stored-key", ev.Pos, &r.Scope, "Add stores another key than the given one")
			x := plainTime(k.expiry(r.st, ev.Args[2]))
			good := x != nil && x.Op == OPure && x.S == "(time.Time).Add" && same(r.Scope, stripConv(x.Args[1]), exp)
			if good {
				good = false
				for _, n := range nowsOf(r.upto(ev.i).items) {
					good = good || plainTime(x.Args[0]) == n
				}
			}
			c.require(good, "stored-time", ev.Pos, &r.Scope, "Add does not store the current time plus the expiration")
		}
	}
	c.require(stored > 0, "stores", fn.Pos(), nil, "Add never stores a key")
}

func (k *cacheCase) remove(fn *ssa.Function, runs []run, key *Term) {
	c := k.c
	for _, r := range runs {
		c.require(len(k.updates(r.Scope)) == 0, "no-insertion", fn.Pos(), &r.Scope, "Remove changes other entries")
		n := len(r.events(func(e *Event) bool {
			return e.Kind == "mapdelete" && k.isEntries(e.Args[0]) && same(r.Scope, e.Args[1], key)
		}))
		c.require(n > 0 || k.lacks(r.Scope, key), "removed", fn.Pos(), &r.Scope, "Remove leaves the key in the cache")
	}
}

// lookups are the look-ups of the key that were decided on the path
func (k *cacheCase) lookups(s Scope, key *Term) map[*Term]*Term {
	out := map[*Term]*Term{} // look-up -> condition that it found something
	see := func(t *Term) {
		containsF(t, func(x *Term) bool {
			if (x.Op == OLookup || x.Op == OLookupOk) && k.isEntries(x.Args[0]) && same(s, x.Args[1], key) {
				et := x.Args[0].T.Underlying().(*types.Map).Elem()
				l := intern(Term{Op: OLookup, Args: x.Args, N: x.N, T: et}, "")
				out[l] = intern(Term{Op: OLookupOk, Args: x.Args, N: x.N, T: types.Typ[types.Bool]}, "")
			}
			return false
		})
	}
	for _, it := range s.items {
		if f, ok := it.(*FactItem); ok {
			see(f.T)
		}
	}
	return out
}

func (k *cacheCase) lacks(s Scope, key *Term) bool {
	for _, found := range k.lookups(s, key) {
		if s.facts.never(found) {
			return true
		}
	}
	return false
}

func (k *cacheCase) contains(fn *ssa.Function, outs []Outcome, key *Term) {
	c := k.c
	yes, no := 0, 0
	for _, b := range boolCases(outs) {
		c.require(len(k.updates(b.Scope)) == 0, "no-insertion", fn.Pos(), &b.Scope, "Contains changes the entries")
		nows := nowsOf(b.items)
		in, out := false, false
		for l, found := range k.lookups(b.Scope, key) {
			_, isP := l.T.Underlying().(*types.Pointer)
			x := k.expiry(b.o.St, l)
			here := b.facts.always(found)
			if b.facts.never(found) {
				out = true
			}
			if x == nil {
				continue
			}
			for _, n := range nows {
				if v, ok := beforeTime(b.facts, n, x); ok {
					if v && (here || !isP) {
						in = true
					}
					if !v {
						out = true
					}
				}
			}
		}
		if b.val {
			yes++
			c.require(in && !out, "contained-only-if-live", fn.Pos(), &b.Scope, "Contains answers true although the key may not be stored or may have expired")
		} else {
			no++
			c.require(out, "contained-if-live", fn.Pos(), &b.Scope, "Contains answers false although the key may be stored and may not have expired")
		}
	}
	c.require(yes > 0 && no > 0, "answers", fn.Pos(), nil, "Contains always gives the same answer")
}

func sortedMembers(p *ssa.Package) (out []ssa.Member) {
	for _, n := range sortedKeys(p.Members) {
		out = append(out, p.Members[n])
	}
	return
}

// fieldIn is the field of the cache the memory belongs to
func (k *cacheCase) fieldIn(t *Term) int {
	if t.Op == OFieldAddr && t.Args[0] == k.recv {
		return t.N
	}
	for _, a := range t.Args {
		if f := k.fieldIn(a); f >= 0 {
			return f
		}
	}
	return -1
}
