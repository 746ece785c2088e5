package main

// The abstract state carried along a control-flow path, and the memory model.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable operation: a call that leaves the analysed code, a write to memory others may see, ...
type Event struct {
	Kind     string // call invoke dyn store mapupdate mapdelete send recv select go append panic close lock
	Name     string // resolved callee of call and invoke events
	Callee   *Term
	Args     []*Term // for invoke events the receiver is Args[0]
	Snap     []*Term // the arguments with their contents at the time of the event
	Res      *Term
	Fn       *ssa.Function
	Pos      token.Pos
	Deferred bool
	Panic    bool // happened while a panic was unwinding the stack
	ID       int
	Old      *Term
	Prev     *Term // store: what was there before
}

// FactItem is a branch decision (or an inferred invariant)
type FactItem struct {
	T   *Term
	Val bool
	Pos token.Pos
}

// LoopExit says that the loop ran any number of complete iterations before the items that follow it
type LoopExit struct {
	Node *LoopNode
	Part int
}

type TraceNode struct {
	prev *TraceNode
	item any
	n    int
}

func (t *TraceNode) items() []any {
	if t == nil {
		return nil
	}
	out := make([]any, t.n)
	for x := t; x != nil; x = x.prev {
		out[x.n-1] = x.item
	}
	return out
}

type State struct {
	e      *Engine
	mem    map[*Term]*Term
	facts  *Facts
	trace  *TraceNode
	epochs map[string]int
	flags  map[*Term]uint8
	panics map[int]*Term
	steps  int
	held   *heldLock // locks held now
}

// heldLock is a list of the locks held, the last taken first
type heldLock struct {
	mu    *Term
	write bool
	prev  *heldLock
}

func sameHeld(a, b *heldLock) bool {
	for ; a != nil && b != nil; a, b = a.prev, b.prev {
		if a.mu != b.mu || a.write != b.write {
			return false
		}
	}
	return a == b
}

// without removes one lock
func (h *heldLock) without(mu *Term, write bool) (*heldLock, bool) {
	if h == nil {
		return nil, false
	}
	if h.mu == mu && h.write == write {
		return h.prev, true
	}
	p, ok := h.prev.without(mu, write)
	if !ok {
		return h, false
	}
	return &heldLock{h.mu, h.write, p}, true
}

func (h *heldLock) has(mu *Term) bool {
	for ; h != nil; h = h.prev {
		if h.mu == mu {
			return true
		}
	}
	return false
}

const (
	flEscaped uint8 = 1 << iota
	flSummary       // elements written at unknown positions
)

func newState(e *Engine) *State {
	return &State{e: e, mem: map[*Term]*Term{}, facts: newFacts(), epochs: map[string]int{}, flags: map[*Term]uint8{}, panics: map[int]*Term{}}
}

func (s *State) fork() *State {
	n := &State{e: s.e, mem: make(map[*Term]*Term, len(s.mem)), facts: s.facts.clone(), trace: s.trace, epochs: make(map[string]int, len(s.epochs)), flags: make(map[*Term]uint8, len(s.flags)), panics: make(map[int]*Term, len(s.panics)), steps: s.steps, held: s.held}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epochs {
		n.epochs[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	for k, v := range s.panics {
		n.panics[k] = v
	}
	s.e.forks++
	if s.e.forks > s.e.maxForks {
		panic(undecided("too many paths"))
	}
	return n
}

func (s *State) add(item any) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &TraceNode{prev: s.trace, item: item, n: n}
}

func (s *State) assume(t *Term, val bool, pos token.Pos) bool {
	if v, ok := s.facts.decide(t); ok {
		return v == val
	}
	if !s.facts.assume(t, val) {
		return false
	}
	for t.Op == OUn && t.S == "!" {
		t, val = t.Args[0], !val
	}
	s.add(&FactItem{T: t, Val: val, Pos: pos})
	return true
}

// ---- memory

// rootOf is the object an address belongs to
func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case OFieldAddr, OIdxAddr, OCell:
			a = a.Args[0]
		case OSlice:
			a = a.Args[0]
		default:
			return a
		}
	}
}

func isFresh(t *Term) bool {
	return t.Op == OAlloc || t.Op == OMakeMap || t.Op == OMakeSlice || t.Op == OMakeChan || t.Op == OAppend
}

func epochKey(addr *Term) string {
	switch addr.Op {
	case OFieldAddr:
		return "f:" + typeKey(deref(addr.Args[0].T)) + "." + addr.S
	case OIdxAddr:
		if isFresh(addr.Args[0]) {
			return "i:" + itoa(addr.Args[0].ID)
		}
		return "e:" + typeKey(elemType(addr.Args[0].T))
	case OGlobal:
		return "g:" + addr.G.String()
	case OCell:
		return "c:" + addr.S + ":" + itoa(rootOf(addr).ID)
	case OAlloc:
		return "a:" + itoa(addr.ID)
	}
	return "p:" + typeKey(deref(addr.T))
}

// summaryKey is the history of the storage that the cell belongs to
func summaryKey(addr *Term) string {
	if r := rootOf(addr); isFresh(r) && addr.Op == OFieldAddr {
		return "r:" + itoa(r.ID)
	}
	return epochKey(addr)
}

func (s *State) epochOf(addr *Term) int {
	ep := s.epochs[epochKey(addr)]
	// storage of a fresh object gets its own history when it is summarised or escapes
	if r := rootOf(addr); isFresh(r) {
		if k := s.epochs["r:"+itoa(r.ID)]; k > ep {
			ep = k
		}
	}
	if a := addr; a.Op == OFieldAddr {
		if k := s.epochs["all"]; k > ep {
			ep = k
		}
	}
	return ep
}

func (s *State) bump(key string) {
	epochCtr++
	s.epochs[key] = epochCtr
}

func (s *State) canonAddr(addr *Term) *Term {
	// &x[lo:][i] is &x[lo+i]
	if addr.Op == OIdxAddr && addr.Args[0].Op == OSlice {
		b := addr.Args[0]
		return s.canonAddr(mkIdxAddr(b.Args[0], mkBin("+", b.Args[1], addr.Args[1], types.Typ[types.Int])))
	}
	if addr.Op == OIdxAddr {
		i := s.facts.norm(addr.Args[1])
		if i != addr.Args[1] {
			return mkIdxAddr(addr.Args[0], i)
		}
	}
	// the field of an element
	if addr.Op == OFieldAddr && (addr.Args[0].Op == OIdxAddr || addr.Args[0].Op == OFieldAddr) {
		if b := s.canonAddr(addr.Args[0]); b != addr.Args[0] {
			return mkFieldAddr(b, addr.N)
		}
	}
	return addr
}

func (s *State) load(addr *Term) *Term {
	addr = s.canonAddr(addr)
	if v, ok := s.mem[addr]; ok {
		return v
	}
	t := deref(addr.T)
	switch addr.Op {
	case OIdxAddr:
		if els, ok := s.elems(addr.Args[0]); ok {
			if i, ok := addr.Args[1].intVal(); ok && i >= 0 && int(i) < len(els) {
				return els[i]
			}
		}
		if addr.Args[0].Op == OAppend {
			// an element of the base keeps its value when the index is below the old length
			b := addr.Args[0]
			if s.flags[b]&(flSummary|flEscaped) == 0 && !s.hasCellsBelow(b) {
				n := mkLen(b.Args[0])
				if v, ok := s.facts.decide(mkLt(addr.Args[1], n)); ok && v {
					return s.load(mkIdxAddr(b.Args[0], addr.Args[1]))
				} else if ok && s.appendEpoch(b) == s.elemEpoch(b.Args[1]) {
					return s.load(mkIdxAddr(b.Args[1], mkBin("-", addr.Args[1], n, tInt)))
				}
			}
		}
	case OGlobal:
		if v := s.e.p.globVal[addr.G]; v != nil && s.e.p.repo[addr.G.Pkg.Pkg] {
			return v
		}
	case OPtrTo:
		return addr.Args[0]
	}
	// whole aggregates stored somewhere above
	if st := structOf(t); st != nil && st.NumFields() > 0 {
		if _, whole := s.mem[addr]; !whole {
			vals := make([]*Term, st.NumFields())
			for i := range vals {
				vals[i] = s.load(mkFieldAddr(addr, i))
			}
			return mkStruct(t, vals)
		}
	}
	if addr.Op == OFieldAddr {
		if v, ok := s.mem[addr.Args[0]]; ok {
			return mkField(v, addr.N)
		}
		// the field of an element of a known list
		if addr.Args[0].Op == OIdxAddr {
			b := s.canonAddr(addr.Args[0])
			if els, ok := s.elems(b.Args[0]); ok {
				if i, ok := b.Args[1].intVal(); ok && i >= 0 && int(i) < len(els) && structOf(els[i].T) != nil {
					return mkField(els[i], addr.N)
				}
			}
		}
	}
	if s.isZeroRoot(addr) {
		return zeroOf(t)
	}
	return mkLoad(addr, s.epochOf(addr))
}

func (s *State) isZeroRoot(addr *Term) bool {
	r := rootOf(addr)
	if r.Op != OAlloc && r.Op != OMakeSlice {
		return false
	}
	if s.flags[r]&(flEscaped|flSummary) != 0 {
		return false
	}
	// written at an unknown index
	for a := addr; a != r; a = a.Args[0] {
		if a.Op == OIdxAddr && s.flags[a.Args[0]]&flSummary != 0 {
			return false
		}
	}
	return true
}

func (s *State) hasCellsBelow(addr *Term) bool {
	for k := range s.mem {
		for x := k; len(x.Args) > 0 && (x.Op == OFieldAddr || x.Op == OIdxAddr); {
			x = x.Args[0]
			if x == addr {
				return true
			}
		}
	}
	return false
}

// mayAlias for two different cell addresses
func (s *State) mayAlias(a, b *Term) bool {
	if a.Op == OCell || b.Op == OCell {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		if isFresh(ra) && isFresh(rb) || ra.Op == OGlobal && rb.Op == OGlobal || ra.Op == OGlobal && isFresh(rb) || rb.Op == OGlobal && isFresh(ra) {
			return false
		}
		if isFresh(ra) && s.flags[ra]&flEscaped == 0 || isFresh(rb) && s.flags[rb]&flEscaped == 0 {
			return false
		}
	}
	if a.Op == OFieldAddr && b.Op == OFieldAddr {
		if a.N != b.N || !types.Identical(deref(a.Args[0].T), deref(b.Args[0].T)) {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return true
		}
		return s.mayAlias(a.Args[0], b.Args[0]) || a.Args[0].Op != OFieldAddr && a.Args[0].Op != OIdxAddr
	}
	if a.Op == OIdxAddr && b.Op == OIdxAddr {
		if a.Args[0] == b.Args[0] {
			eq, ok := s.facts.equal(a.Args[1], b.Args[1])
			return !ok || eq
		}
		ea, eb := elemType(a.Args[0].T), elemType(b.Args[0].T)
		return ea == nil || eb == nil || types.Identical(ea, eb)
	}
	ta, tb := deref(a.T), deref(b.T)
	return ta != nil && tb != nil && types.Identical(ta, tb)
}

// fresh says that the object is private to the analysed path since the given stage
func (s *State) store(addr, v *Term, ev *Event) {
	if ev != nil && structOf(deref(addr.T)) == nil {
		ev.Prev = s.load(addr)
	}
	addr = s.canonAddr(addr)
	if st := structOf(deref(addr.T)); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkFieldAddr(addr, i), mkField(v, i), nil)
		}
	} else {
		s.storeLeaf(addr, v)
	}
	if ev != nil {
		r := rootOf(addr)
		ev.Kind, ev.Args, ev.ID = "store", []*Term{addr, v}, s.e.nextID()
		ev.Old = r
		s.add(ev)
	}
}

func (s *State) storeLeaf(addr, v *Term) {
	r := rootOf(addr)
	private := isFresh(r) && s.flags[r]&flEscaped == 0
	// the elements that the address goes through
	elem, unknown := false, false
	for a := addr; a != r && len(a.Args) > 0; a = a.Args[0] {
		if a.Op == OIdxAddr {
			elem = true
			if !a.Args[1].isConst() && isFresh(r) {
				unknown = true
				s.flags[a.Args[0]] |= flSummary
			}
		}
	}
	if !private || elem {
		for k := range s.mem {
			if k != addr && s.mayAlias(k, addr) {
				delete(s.mem, k)
			}
		}
	}
	if unknown {
		s.bump(summaryKey(addr))
	}
	if !private {
		s.bump(epochKey(addr))
	}
	s.mem[addr] = v
}

// inSummary: the address goes through an element of a list that was written at an unknown position or comes from elsewhere
func (s *State) inSummary(addr *Term) bool {
	for a := addr; len(a.Args) > 0 && (a.Op == OIdxAddr || a.Op == OFieldAddr || a.Op == OCell || a.Op == OSlice); a = a.Args[0] {
		if a.Op != OIdxAddr || a.Args[0].Op == OMakeMap {
			continue
		}
		if s.flags[a.Args[0]]&flSummary != 0 {
			return true
		}
		if _, ok := a.Args[0].T.Underlying().(*types.Slice); ok && !isFresh(rootOf(a)) {
			return true
		}
	}
	return false
}

// havoc forgets what is stored in the object
func (s *State) havoc(root *Term) {
	if s.e.opaqueRoot != nil && s.e.opaqueRoot(root) {
		return
	}
	if s.e.onHavoc != nil {
		s.e.onHavoc(root)
	}
	s.flags[root] |= flEscaped
	s.bump("r:" + itoa(root.ID))
	for k := range s.mem {
		if rootOf(k) == root {
			delete(s.mem, k)
		}
	}
}

// reach collects the fresh objects reachable from the values
func (s *State) reach(vals []*Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OConst, OSym, OFunc, OGlobal:
			return
		case OLen, OCap, OBin, OUn, OTAok, OLoad, OIndex, OPhi:
			return
		case OCall:
			return
		case OConv:
			if isStringType(t.T) {
				return
			}
		case OPure:
			if isStringType(t.T) || isIntType(t.T) || isBoolType(t.T) {
				return
			}
		}
		if isFresh(t) {
			out[t] = true
			for k, v := range s.mem {
				if rootOf(k) == t {
					rec(v)
					if k.Op == OIdxAddr {
						rec(k.Args[1])
					}
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, v := range vals {
		rec(v)
	}
	return out
}

// elems returns the elements of a slice with known contents
// elemEpoch is the version of what a list holds
func (s *State) elemEpoch(l *Term) int {
	if l.Op == OList {
		return 0
	}
	a := mkIdxAddr(l, mkInt(0))
	ep := s.epochOf(a)
	if st := structOf(deref(a.T)); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if k := s.epochOf(mkFieldAddr(a, i)); k > ep {
				ep = k
			}
		}
	}
	return ep
}

// appendEpoch is the version of the appended elements at the time they were appended
func (s *State) appendEpoch(b *Term) int {
	if x, ok := b.ext.(appendInfo); ok {
		return x.epoch
	}
	return -1
}

type appendInfo struct {
	base  *Term
	epoch int
}

func (s *State) elems(x *Term) ([]*Term, bool) {
	if x.isNil() {
		return nil, true
	}
	switch x.Op {
	case OList:
		return x.Args, true
	case OZero:
		if n := arrayLen(x.T); n >= 0 && n <= 64 {
			out := make([]*Term, n)
			for i := range out {
				out[i] = zeroOf(elemType(x.T))
			}
			return out, true
		}
	case OSlice:
		lo, ok := x.Args[1].intVal()
		if !ok {
			return nil, false
		}
		if x.Args[0].Op == OAlloc {
			n := arrayLen(x.Args[0].T)
			hi := n
			if x.Args[2] != nil {
				if hi, ok = x.Args[2].intVal(); !ok {
					return nil, false
				}
			}
			if n < 0 || lo < 0 || hi > n || lo > hi || hi-lo > 256 {
				return nil, false
			}
			if s.flags[x.Args[0]]&(flSummary|flEscaped) != 0 {
				return nil, false
			}
			out := []*Term{}
			for i := lo; i < hi; i++ {
				out = append(out, s.load(mkIdxAddr(x.Args[0], mkInt(i))))
			}
			return out, true
		}
		els, ok := s.elems(x.Args[0])
		if !ok {
			return nil, false
		}
		hi := int64(len(els))
		if x.Args[2] != nil {
			if hi, ok = x.Args[2].intVal(); !ok {
				return nil, false
			}
		}
		if lo < 0 || lo > hi || hi > int64(len(els)) {
			return nil, false
		}
		return els[lo:hi], true
	case OAppend:
		a, ok := s.elems(x.Args[0])
		if !ok {
			return nil, false
		}
		b, ok := s.elems(x.Args[1])
		if !ok {
			return nil, false
		}
		out := append(append([]*Term(nil), a...), b...)
		for i := range out {
			if v, ok := s.mem[mkIdxAddr(x, mkInt(int64(i)))]; ok {
				out[i] = v
			}
		}
		if s.flags[x]&(flSummary|flEscaped) != 0 {
			return nil, false
		}
		return out, true
	case OMakeSlice:
		if n, ok := x.Args[0].intVal(); ok && n <= 64 && s.flags[x]&(flSummary|flEscaped) == 0 {
			out := make([]*Term, n)
			for i := range out {
				out[i] = s.load2(mkIdxAddr(x, mkInt(int64(i))))
			}
			return out, true
		}
	}
	return nil, false
}

// bytesOf is the content of a list of known length, cell by cell, also when it was filled by someone else
func (s *State) bytesOf(x *Term) *Term {
	if els, ok := s.elems(x); ok {
		return mkList(x.T, els...)
	}
	if x.Op != OSlice || x.Args[0].Op != OAlloc {
		return x
	}
	lo, ok := x.Args[1].intVal()
	hi := arrayLen(x.Args[0].T)
	if x.Args[2] != nil {
		k, isC := x.Args[2].intVal()
		if !isC || k > hi {
			return x
		}
		hi = k
	}
	if !ok || lo < 0 || hi-lo > 256 || hi < lo {
		return x
	}
	var out []*Term
	for i := lo; i < hi; i++ {
		out = append(out, s.load(mkIdxAddr(x.Args[0], mkInt(i))))
	}
	return mkList(x.T, out...)
}

func (s *State) load2(addr *Term) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if st := structOf(deref(addr.T)); st != nil && s.hasCellsBelow(addr) {
		vals := make([]*Term, st.NumFields())
		for i := range vals {
			vals[i] = s.load(mkFieldAddr(addr, i))
		}
		return mkStruct(deref(addr.T), vals)
	}
	return zeroOf(deref(addr.T))
}

// snap resolves the contents of local objects
func (s *State) snap(t *Term, d int) *Term {
	if t == nil || d > 5 {
		return t
	}
	switch t.Op {
	case OIface:
		return mkIface(t.T, s.snap(t.Args[0], d+1))
	case OSlice, OAppend, OMakeSlice:
		if els, ok := s.elems(t); ok {
			out := make([]*Term, len(els))
			for i := range els {
				out[i] = s.snap(els[i], d+1)
			}
			return mkList(t.T, out...)
		}
	case OAlloc:
		if structOf(deref(t.T)) != nil && s.flags[t]&flEscaped == 0 {
			v := s.snap(s.load(t), d+1)
			return intern(Term{Op: OPtrTo, Args: []*Term{v}, T: t.T}, "")
		}
	case OStruct:
		vals := make([]*Term, len(t.Args))
		for i := range vals {
			vals[i] = s.snap(t.Args[i], d+1)
		}
		return mkStruct(t.T, vals)
	case OPure:
		if t.S == "context.WithValue" {
			return mkPure(t.S, t.T, s.snap(t.Args[0], d), t.Args[1], s.snap(t.Args[2], d+1))
		}
	case OMakeMap:
		if s.flags[t]&(flEscaped|flSummary) == 0 {
			var kv []*Term
			for k, v := range s.mem {
				if k.Op == OIdxAddr && k.Args[0] == t {
					kv = append(kv, k.Args[1], s.snap(v, d+1))
				}
			}
			sortPairs(kv)
			return intern(Term{Op: OMapLit, Args: kv, T: t.T}, "")
		}
	}
	return t
}

func sortPairs(kv []*Term) {
	for i := 0; i < len(kv); i += 2 {
		for j := i + 2; j < len(kv); j += 2 {
			if kv[j].String() < kv[i].String() {
				kv[i], kv[j] = kv[j], kv[i]
				kv[i+1], kv[j+1] = kv[j+1], kv[i+1]
			}
		}
	}
}

func itoa(i int) string {
	var b [20]byte
	p := len(b)
	neg := i < 0
	if neg {
		i = -i
	}
	for {
		p--
		b[p] = byte('0' + i%10)
		i /= 10
		if i == 0 {
			break
		}
	}
	if neg {
		p--
		b[p] = '-'
	}
	return string(b[p:])
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
