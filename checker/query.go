package main

// Questions about analysed paths: which events happen, what is known where, what a loop established for all (or some)
// elements of a list.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scope is a stretch of a path: a whole call, or one iteration of a loop
type Scope struct {
	items []any
	base  *Facts // before the items
	facts *Facts // after the items
}

func scopeOf(st *State) Scope {
	return Scope{items: st.trace.items(), base: newFacts(), facts: st.facts}
}

func transScope(t *LoopTrans) Scope { return Scope{items: t.Items, base: t.Base, facts: t.St.facts} }

// from drops what happened before the first n items
func (s Scope) from(n int) Scope {
	return Scope{items: s.items[n:], base: s.factsAt(n), facts: s.facts}
}

// factsAt replays the decisions before item n
func (s Scope) factsAt(n int) *Facts {
	if n >= len(s.items) {
		return s.facts
	}
	f := s.base.clone()
	for _, it := range s.items[:n] {
		if x, ok := it.(*FactItem); ok {
			f.assume(x.T, x.Val)
		}
	}
	return f
}

// upto is the scope before item n
func (s Scope) upto(n int) Scope {
	return Scope{items: s.items[:n], base: s.base, facts: s.factsAt(n)}
}

type EvAt struct {
	*Event
	i int
}

func (s Scope) events(pred func(*Event) bool) []EvAt {
	var out []EvAt
	for i, it := range s.items {
		if e, ok := it.(*Event); ok && pred(e) {
			out = append(out, EvAt{e, i})
		}
	}
	return out
}

// loopEvents are the events of the complete iterations of the loops the scope passed through
func (s Scope) loopEvents(pred func(*Event) bool) []*Event {
	var out []*Event
	for _, it := range s.items {
		if x, ok := it.(*LoopExit); ok {
			for _, t := range x.transitions() {
				ts := transScope(t)
				for _, e := range ts.events(pred) {
					out = append(out, e.Event)
				}
				out = append(out, ts.loopEvents(pred)...)
			}
		}
	}
	return out
}

// every visits all events of the scope with the scope they happen in, loops included
// everyOnce is every, except that the loops in seen are left out; what happens in a loop does not depend on the path
// that leads there
func (s Scope) everyOnce(seen map[loopAt]bool, f func(in Scope, e EvAt)) {
	for i, it := range s.items {
		switch x := it.(type) {
		case *Event:
			f(s, EvAt{x, i})
		case *LoopExit:
			if at := (loopAt{x.Node, x.Part}); !seen[at] {
				seen[at] = true
				for _, t := range x.transitions() {
					transScope(t).everyOnce(seen, f)
				}
			}
		}
	}
}

func (s Scope) every(f func(in Scope, e EvAt)) {
	for i, it := range s.items {
		switch x := it.(type) {
		case *Event:
			f(s, EvAt{x, i})
		case *LoopExit:
			for _, t := range x.transitions() {
				transScope(t).every(f)
			}
		}
	}
}

// transitions of the loop that can happen on the way to the exit
func (x *LoopExit) transitions() []*LoopTrans {
	n := x.Node
	fwd := map[int]bool{0: true}
	for ch := true; ch; {
		ch = false
		for i := range n.Trans {
			t := &n.Trans[i]
			if fwd[t.From] && !fwd[t.To] {
				fwd[t.To] = true
				ch = true
			}
		}
	}
	bwd := map[int]bool{x.Part: true}
	for ch := true; ch; {
		ch = false
		for i := range n.Trans {
			t := &n.Trans[i]
			if bwd[t.To] && !bwd[t.From] {
				bwd[t.From] = true
				ch = true
			}
		}
	}
	var out []*LoopTrans
	for i := range n.Trans {
		t := &n.Trans[i]
		if fwd[t.From] && bwd[t.To] {
			out = append(out, t)
		}
	}
	return out
}

// reachableWithout: the exit can be reached by transitions that do not satisfy the predicate only
func (x *LoopExit) reachableWithout(sat func(*LoopTrans) bool) bool {
	seen := map[int]bool{0: true}
	for ch := true; ch; {
		ch = false
		for i := range x.Node.Trans {
			t := &x.Node.Trans[i]
			if seen[t.From] && !seen[t.To] && !sat(t) {
				seen[t.To] = true
				ch = true
			}
		}
	}
	return seen[x.Part]
}

// Elem recognises the element a loop iteration works on
type Elem struct {
	list *Term
	idx  *Term // nil for range iterators
	it   *Term
	f    *Facts
	desc bool // from the last to the first
}

func (e Elem) is(t *Term) bool {
	if t == nil {
		return false
	}
	if e.it != nil {
		if t.Op == OLookup && t.Args[0] == e.list && t.Args[1].Op == ONext && t.Args[1].S == "key" && t.Args[1].Args[0] == e.it {
			return true
		}
		return t.Op == ONext && t.S == "elem" && t.Args[0] == e.it || t.Op == ONext && t.S == "elem" && t.Args[1] == e.list
	}
	if t.Op == OLoad {
		return e.isAddr(t.Args[0])
	}
	if t.Op == OIndex {
		return t.Args[0] == e.list && e.sameIdx(t.Args[1])
	}
	return false
}

func (e Elem) sameIdx(i *Term) bool { return i == e.idx || e.f != nil && e.f.same(i, e.idx) }

func (e Elem) isAddr(a *Term) bool {
	if a.Op != OIdxAddr || e.idx == nil {
		return false
	}
	if a.Args[0] == e.list {
		return e.sameIdx(a.Args[1])
	}
	base, off := e.list, e.idx
	for base.Op == OSlice {
		base, off = base.Args[0], mkBin("+", base.Args[1], off, tInt)
	}
	return a.Args[0] == base && (a.Args[1] == off || e.f != nil && e.f.same(a.Args[1], off))
}

// cur is the value of a variable at the start of a transition
func (x *LoopExit) cur(t *LoopTrans, vi int) *Term {
	if pv := x.Node.Parts[t.From].Vals[vi]; pv != nil {
		return pv
	}
	return x.Node.Vars[vi].Top
}

// step is the constant by which an integer variable changes in a transition
func (x *LoopExit) step(t *LoopTrans, vi int) (int64, bool) {
	cur := x.cur(t, vi)
	a, k := linear(t.Next[vi])
	b, j := linear(cur)
	if a == b {
		return k - j, true
	}
	d := mkBin("-", t.Next[vi], cur, tInt)
	if v, ok := d.intVal(); ok {
		return v, true
	}
	if v, ok := t.St.facts.exact(d); ok {
		return v, true
	}
	if k, ok := t.Next[vi].intVal(); ok {
		if j, ok := t.St.facts.exact(cur); ok {
			return k - j, true
		}
	}
	return 0, false
}

// covers says that the loop visited every element of the list when left at this exit; rest are the items after it
func (s Scope) covers(at int, list *Term) (elem func(*LoopTrans) Elem, ok bool) {
	x := s.items[at].(*LoopExit)
	trans := x.transitions()
	ln := mkLen(list)
	for vi, v := range x.Node.Vars {
		if !isIntType(v.Top.T) {
			continue
		}
		cur := v.Top
		if pv := x.Node.Parts[x.Part].Vals[vi]; pv != nil {
			cur = pv
		}
		step := int64(0)
		good := true
		for _, t := range trans {
			k, ok := x.step(t, vi)
			if !ok || k != 1 && k != -1 || step != 0 && k != step {
				good = false
				break
			}
			step = k
		}
		if !good {
			continue
		}
		if step >= 0 {
			if a, k := linear(v.Init); a == nil {
				i := mkBin("+", cur, mkInt(-k), tInt)
				if s.facts.never(mkLt(i, ln)) {
					vi := vi
					return func(t *LoopTrans) Elem {
						return Elem{list: list, idx: mkBin("+", x.cur(t, vi), mkInt(-k), tInt), f: t.St.facts}
					}, true
				}
			}
		}
		if step <= 0 {
			// from the last element down
			d := mkBin("-", mkBin("-", ln, mkInt(1), tInt), v.Init, tInt)
			if k, isC := d.intVal(); isC {
				i := mkBin("+", cur, mkInt(k), tInt)
				if s.facts.always(mkLt(i, mkInt(0))) {
					vi := vi
					return func(t *LoopTrans) Elem {
						return Elem{list: list, idx: mkBin("+", x.cur(t, vi), mkInt(k), tInt), f: t.St.facts, desc: true}
					}, true
				}
			}
		}
	}
	// range iterators
	for _, it := range s.items[at:] {
		f, isF := it.(*FactItem)
		if isF && f.T.Op == ONext && f.T.S == "next" && !f.Val && f.T.Args[0].Args[0] == list {
			iter := f.T.Args[0]
			for _, t := range trans {
				stepped := 0
				for _, u := range t.Items {
					if g, isG := u.(*FactItem); isG && g.T.Op == ONext && g.T.S == "next" && g.Val && g.T.Args[0] == iter {
						stepped++
					}
				}
				if stepped != 1 {
					return nil, false
				}
			}
			return func(*LoopTrans) Elem { return Elem{list: list, it: iter} }, true
		}
	}
	return nil, false
}

// forAll: some loop of the scope visited every element of the list and in each complete iteration pred holds
func (s Scope) forAll(list *Term, pred func(it Scope, e Elem) bool) bool {
	if list.isNil() {
		return true
	}
	if v, ok := s.facts.decide(mkEq(mkLen(list), mkInt(0))); ok && v {
		return true
	}
	for at, it := range s.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		elem, ok := s.covers(at, list)
		if !ok {
			continue
		}
		all := true
		for _, t := range x.transitions() {
			el := elem(t)
			if pred(transScope(t), el) {
				continue
			}
			// the first iteration may name its element by a constant index
			if el.idx != nil && el.f != nil && !el.idx.isConst() {
				if k, ok := el.f.exact(el.idx); ok {
					el.idx = mkInt(k)
					if pred(transScope(t), el) {
						continue
					}
				}
			}
			all = false
			break
		}
		if all {
			return true
		}
	}
	return false
}

// exists: pred holds for some element of the list, in the iteration in which a loop was left or in an earlier one
func (s Scope) exists(list *Term, pred func(it Scope, e Elem) bool) bool {
	// the iteration a loop was left in, and straight line code
	cands := map[*Term]bool{}
	var iters []*Term
	for _, it := range s.items {
		visit := func(t *Term) {
			containsF(t, func(x *Term) bool {
				if x.Op == OIdxAddr && x.Args[0] == list || x.Op == OIndex && x.Args[0] == list {
					cands[x.Args[1]] = true
				}
				if x.Op == ONext && x.S == "elem" && x.Args[1] == list {
					iters = append(iters, x.Args[0])
				}
				return false
			})
		}
		switch x := it.(type) {
		case *FactItem:
			visit(x.T)
		case *Event:
			for _, a := range x.Args {
				visit(a)
			}
			for _, a := range x.Snap {
				visit(a)
			}
		case *LoopExit:
			for _, v := range x.Node.Vars {
				visit(v.Init)
			}
			if pv := x.Node.Parts[x.Part].Vals; pv != nil {
				for _, v := range pv {
					visit(v)
				}
			}
		}
	}
	for _, i := range sortTerms(cands) {
		if pred(s, Elem{list: list, idx: i, f: s.facts}) {
			return true
		}
	}
	for _, it := range iters {
		if pred(s, Elem{list: list, it: it}) {
			return true
		}
	}
	for _, it := range s.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		sat := func(t *LoopTrans) bool {
			ts := transScope(t)
			return ts.exists(list, pred)
		}
		if len(x.Node.Trans) > 0 && !x.reachableWithout(sat) {
			return true
		}
	}
	return false
}

// ---- events

func stripConv(t *Term) *Term {
	for t != nil && (t.Op == OConv || t.Op == OTA && len(t.Args) == 1) {
		t = t.Args[0]
	}
	return t
}

func isDyn(sym *Term) func(*Event) bool {
	return func(e *Event) bool { return e.Kind == "dyn" && stripConv(e.Callee) == sym }
}

func isCall(names ...string) func(*Event) bool {
	return func(e *Event) bool {
		if e.Kind != "call" && e.Kind != "invoke" {
			return false
		}
		for _, n := range names {
			if e.Name == n {
				return true
			}
		}
		return false
	}
}

func (s Scope) count(pred func(*Event) bool) int {
	return len(s.events(pred)) + 2*len(s.loopEvents(pred))
}

func globalErr(p *Program, rel, name string) *Term { return mkLoad(mkGlobal(p.global(rel, name)), 0) }

func (s Scope) describe(p *Program) []string {
	var out []string
	for _, it := range s.items {
		switch x := it.(type) {
		case *FactItem:
			v := "holds"
			if !x.Val {
				v = "does not hold"
			}
			out = append(out, p.pos(x.Pos)+": "+clip(x.T.String())+" "+v)
		case *Event:
			n := x.Name
			if n == "" && x.Callee != nil {
				n = x.Callee.String()
			}
			var as []string
			for _, a := range x.Args {
				as = append(as, a.String())
			}
			fn := ""
			if x.Fn != nil {
				fn = " in " + strings.ReplaceAll(x.Fn.String(), modPath+"/", "")
			}
			out = append(out, p.pos(x.Pos)+": "+x.Kind+" "+n+clip("("+strings.Join(as, ", ")+")")+fn)
		case *LoopExit:
			out = append(out, p.pos(x.Node.Pos)+": after any number of iterations of the loop")
		}
	}
	return out
}

func clip(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	if len(s) > 220 {
		s = s[:217] + "..."
	}
	return s
}

// boolCases splits the outcomes of a predicate by its result
type boolCase struct {
	Scope
	o   Outcome
	val bool
}

func boolCases(outs []Outcome) []boolCase {
	var out []boolCase
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		v := o.Vals[0]
		if b, ok := o.St.facts.decide(v); ok {
			out = append(out, boolCase{scopeOf(o.St), o, b})
			continue
		}
		for _, b := range []bool{false, true} {
			st := o.St.fork()
			if st.assume(v, b, token.NoPos) {
				out = append(out, boolCase{scopeOf(st), o, b})
			}
		}
	}
	return out
}

func fnOf(e *Event) *ssa.Function { return e.Fn }
