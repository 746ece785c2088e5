package main

// Loops. A loop whose control is decided by constants is followed exactly; every other loop is summarised by a
// partitioned fixpoint: the values carried around the loop are kept apart while they are constants (flags, "not found
// yet", ...) and generalised to an arbitrary value otherwise, with inductive bounds for integers. The result covers
// any number of iterations.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	watch  map[*ssa.BasicBlock]bool
	ivs    map[*ssa.Phi]bool
}

type loopForest struct{ headers map[*ssa.BasicBlock]*loopInfo }

func (e *Engine) forest(fn *ssa.Function) *loopForest {
	if f := e.loops[fn]; f != nil {
		return f
	}
	f := &loopForest{headers: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := f.headers[s]
			if l == nil {
				l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				f.headers[s] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	for _, l := range f.headers {
		l.analyse()
	}
	e.loops[fn] = f
	return f
}

func (l *loopInfo) analyse() {
	l.watch = map[*ssa.BasicBlock]bool{}
	all := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		exits := false
		for _, s := range b.Succs {
			if !l.blocks[s] {
				exits = true
			}
		}
		if !exits {
			continue
		}
		all[b] = true
		switch c := iff.Cond.(type) {
		case *ssa.BinOp:
			if (c.Op == token.LSS || c.Op == token.GTR || c.Op == token.LEQ || c.Op == token.GEQ || c.Op == token.NEQ) && isIntType(c.X.Type()) {
				l.watch[b] = true
			}
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok {
				l.watch[b] = true
			}
		}
	}
	if len(l.watch) == 0 {
		l.watch = all
	}
	l.ivs = map[*ssa.Phi]bool{}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(ph.Type()) {
			continue
		}
		iv := false
		for i, pr := range l.header.Preds {
			if !l.blocks[pr] {
				continue
			}
			v := ph.Edges[i]
			if v == ssa.Value(ph) {
				continue
			}
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				_, c2 := bo.Y.(*ssa.Const)
				if bo.X == ssa.Value(ph) && c2 {
					iv = true
					continue
				}
			}
			iv = false
			break
		}
		if iv {
			l.ivs[ph] = true
		}
	}
}

// LoopVar is a value carried around a loop
type LoopVar struct {
	Name string
	SSA  *ssa.Phi
	Addr *Term
	Top  *Term // the arbitrary value that represents it
	Init *Term
	full bool // never kept apart
}

type LoopPart struct {
	Vals []*Term // per variable: an exact value, or nil for the arbitrary one
}

type LoopTrans struct {
	From, To int
	Items    []any
	Next     []*Term
	St       *State
	Base     *Facts // at the loop header
}

type LoopNode struct {
	ID       int
	Fn       *ssa.Function
	Pos      token.Pos
	Vars     []*LoopVar
	Parts    []LoopPart
	Trans    []LoopTrans
	EntryTr  *TraceNode
	restarts int
}

func (n *LoopNode) varOf(top *Term) *LoopVar {
	for _, v := range n.Vars {
		if v.Top == top {
			return v
		}
	}
	return nil
}

type watchRec struct {
	fr   int
	l    *loopInfo
	fn   *ssa.Function
	hit  bool
	base int
}

func (e *Engine) runLoop(q path, l *loopInfo) (exits []path, terms []Outcome) {
	e.loopsN++
	if e.cutLoops {
		e.cuts = append(e.cuts, q.st)
		return nil, nil
	}
	if ex, tm, ok := e.tryUnroll(q, l); ok {
		return ex, tm
	}
	return e.fixpoint(q, l)
}

func (e *Engine) copyObligs() map[string]*Oblig {
	out := map[string]*Oblig{}
	for k, v := range e.obligs {
		c := *v
		out[k] = &c
	}
	return out
}

func (e *Engine) tryUnroll(q path, l *loopInfo) (exits []path, terms []Outcome, ok bool) {
	saved := e.copyObligs()
	w := &watchRec{l: l, fn: q.fr.fn, fr: q.fr.id, base: len(e.stack)}
	e.watches = append(e.watches, w)
	defer func() { e.watches = e.watches[:len(e.watches)-1] }()
	start := q.fork()
	start.idx = 0
	cur := []path{start}
	forks0 := e.forks
	for iter := 0; iter <= 40 && len(cur) > 0; iter++ {
		var nxt []path
		for _, c := range cur {
			e.phis(&c)
			b, x, t := e.region(c, l)
			if w.hit {
				e.obligs = saved
				return nil, nil, false
			}
			nxt = append(nxt, b...)
			exits = append(exits, x...)
			terms = append(terms, t...)
		}
		cur = nxt
		if len(cur) > 64 || len(exits)+len(terms) > 256 || e.forks-forks0 > 20000 {
			e.obligs = saved
			return nil, nil, false
		}
	}
	if len(cur) > 0 {
		e.obligs = saved
		return nil, nil, false
	}
	return exits, terms, true
}

// variant says that the value depends on something created since the marks
func variant(t *Term, idMark, epMark int) bool {
	return containsF(t, func(x *Term) bool { return variantHere(x, idMark, epMark) })
}

func variantHere(x *Term, idMark, epMark int) bool {
	{
		switch x.Op {
		case OAlloc, OCall, OPhi, ONext, OMakeMap, OMakeSlice, OMakeChan, OAppend:
			return x.N > idMark
		case OPure:
			return x.S == "range" && x.N > idMark
		case OLoad, OLookup, OLookupOk:
			return x.N > epMark
		case OClosure:
			return false
		}
		return false
	}
}

func (e *Engine) fixpoint(q path, l *loopInfo) (exits []path, terms []Outcome) {
	idMark, epMark := idCtr, epochCtr
	// widening identities live as long as this analysis of the loop
	var vars []*LoopVar
	var phis []*ssa.Phi
	e.phis(&q)
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		name := ph.Comment
		if name == "" {
			name = ph.Name()
		}
		v := &LoopVar{Name: name, SSA: ph, Init: q.fr.env[ph]}
		v.Top = intern(Term{Op: OPhi, N: e.nextID(), S: name, T: ph.Type()}, "")
		v.full = l.ivs[ph]
		vars = append(vars, v)
	}
	cellVar := map[*Term]*LoopVar{}
	havocEp := map[string]int{}
	addFlags := map[*Term]uint8{}
	dropped := map[*Term]bool{} // refuted invariants
	cands := map[*Term]bool{}
	saved := e.copyObligs()
	pos := token.NoPos
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	if !pos.IsValid() {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() && (!pos.IsValid() || in.Pos() < pos) {
					pos = in.Pos()
				}
			}
		}
	}

	addCellVar := func(addr *Term) bool {
		if cellVar[addr] != nil {
			return false
		}
		v := &LoopVar{Name: addr.String(), Addr: addr}
		v.Init = q.st.load(addr)
		if iv, ok := q.st.mem[addr]; ok {
			v.Init = iv
		}
		v.Top = intern(Term{Op: OPhi, N: e.nextID(), S: addr.String(), T: deref(addr.T)}, "")
		cellVar[addr] = v
		vars = append(vars, v)
		return true
	}

	// cells of lists that are written at unknown positions are not followed one by one
	forget := map[*Term]bool{}
	forgetCell := func(a *Term) bool {
		changed := false
		if !forget[a] {
			forget[a] = true
			changed = true
		}
		if k := summaryKey(a); havocEp[k] == 0 {
			epochCtr++
			havocEp[k] = epochCtr
			changed = true
		}
		if v := cellVar[a]; v != nil {
			delete(cellVar, a)
			for i := range vars {
				if vars[i] == v {
					vars = append(append([]*LoopVar(nil), vars[:i]...), vars[i+1:]...)
					break
				}
			}
			for c := range cands {
				if contains(c, v.Top) {
					dropped[c] = true
				}
			}
			changed = true
		}
		return changed
	}

	entryOnly, entryBad := false, false // nothing leads back to the entry partition
	const maxRestart = 80
	for restart := 0; ; restart++ {
		if restart > maxRestart {
			panic(undecided("loop fixpoint does not stabilise in " + q.fr.fn.String()))
		}
		dbg("restart", restart, q.fr.fn, "vars", len(vars))
		if restart > 0 {
			e.obligs = map[string]*Oblig{}
			for k, v := range saved {
				c := *v
				e.obligs[k] = &c
			}
		}
		exits, terms = nil, nil
		node := &LoopNode{ID: e.nextID(), Fn: q.fr.fn, Pos: pos, Vars: append([]*LoopVar(nil), vars...), EntryTr: q.st.trace, restarts: restart}
		n := len(vars)
		entry := LoopPart{Vals: make([]*Term, n)}
		for i, v := range vars {
			if !v.full {
				entry.Vals[i] = v.Init
			}
		}
		node.Parts = []LoopPart{entry}
		find := func(p LoopPart) int {
		next:
			for i, x := range node.Parts {
				for j := range x.Vals {
					if x.Vals[j] != p.Vals[j] {
						continue next
					}
				}
				return i
			}
			node.Parts = append(node.Parts, p)
			return len(node.Parts) - 1
		}
		again := false
		var newCands []*Term
		for pi := 0; pi < len(node.Parts) && !again; pi++ {
			part := node.Parts[pi]
			h := q.fork()
			h.blk, h.prev, h.idx = l.header, nil, len(phis)
			for k, ep := range havocEp {
				h.st.epochs[k] = ep
			}
			for a, fl := range addFlags {
				h.st.flags[a] |= fl
			}
			for a := range forget {
				delete(h.st.mem, a)
			}
			sub := map[*Term]*Term{}
			for i, v := range vars {
				val := part.Vals[i]
				if val == nil {
					val = v.Top
				} else {
					sub[v.Top] = val
				}
				if v.SSA != nil {
					h.fr.env[v.SSA] = val
				} else {
					h.st.mem[v.Addr] = val
				}
			}
			h.st.add(&LoopExit{Node: node, Part: pi})
			mark := h.st.trace.n
			feasible := true
			for _, c := range sortTerms(cands) {
				if dropped[c] || !partCovers(c, vars, part) {
					continue
				}
				if !h.st.assume(c, true, pos) {
					feasible = false
				}
			}
			if pi == 0 && entryOnly {
				for i, v := range vars {
					if part.Vals[i] == nil && v.Init != nil && isIntType(v.Top.T) && !h.st.assume(mkEq(v.Top, v.Init), true, pos) {
						feasible = false
					}
				}
			}
			if !feasible {
				continue
			}
			header := h.st.fork()
			backs, ex, tm := e.region(h, l)
			exits = append(exits, ex...)
			terms = append(terms, tm...)
			for bi := 0; bi < len(backs); bi++ {
				b := backs[bi]
				if !b.st.facts.consistent() {
					continue
				}
				if !sameHeld(b.st.held, header.held) {
					panic(undecided("an iteration of a loop in " + q.fr.fn.String() + " takes or releases a lock for good"))
				}
				// cells changed by the body
				changed := false
				for _, a := range sortTerms2(b.st.mem) {
					if header.mem[a] == b.st.mem[a] || variant(a, idMark, epMark) {
						continue
					}
					if b.st.inSummary(a) {
						changed = forgetCell(a) || changed
					} else if cellVar[a] == nil && addCellVar(a) {
						changed = true
					}
				}
				for _, a := range sortTerms2(header.mem) {
					if _, ok := b.st.mem[a]; !ok {
						if b.st.inSummary(a) {
							changed = forgetCell(a) || changed
						} else if cellVar[a] == nil {
							addCellVar(a)
							changed = true
						}
					}
				}
				for k, v := range b.st.epochs {
					if header.epochs[k] != v {
						if strings.HasPrefix(k, "r:") || strings.HasPrefix(k, "i:") || strings.HasPrefix(k, "a:") {
							// an object of this iteration
							if id, err := strconv.Atoi(k[2:]); err == nil && isFresh(termByID[id]) && termByID[id].N > idMark {
								continue
							}
						}
						if _, ok := havocEp[k]; !ok {
							epochCtr++
							havocEp[k] = epochCtr
							dbg("   havoc", k)
							changed = true
						}
					}
				}
				for a, fl := range b.st.flags {
					if fl&^header.flags[a] != 0 && !variant(a, idMark, epMark) {
						addFlags[a] |= fl
						dbg("   flags", a)
						changed = true
					}
				}
				if changed || again {
					again = true
					continue
				}
				nextVals := make([]*Term, n)
				to := LoopPart{Vals: make([]*Term, n)}
				forked := false
				for i, v := range vars {
					var nv *Term
					if v.SSA != nil {
						k := -1
						for j, pr := range l.header.Preds {
							if pr == b.prev {
								k = j
							}
						}
						nv = e.val(b.fr, v.SSA.Edges[k])
					} else if x, ok := b.st.mem[v.Addr]; ok {
						nv = x
					} else {
						nv = b.st.load(v.Addr)
					}
					nv = b.st.facts.norm(nv)
					nextVals[i] = nv
					if v.full {
						continue
					}
					if nv == v.Top || part.Vals[i] == nil && nv == v.Top {
						continue
					}
					if isBoolType(nv.T) && !nv.isConst() {
						// keep the two truth values apart
						f2 := b.fork()
						if f2.st.assume(nv, false, pos) {
							backs = append(backs, f2)
						}
						if b.st.assume(nv, true, pos) {
							backs = append(backs, b)
						}
						forked = true
						break
					}
					if !variant(nv, idMark, epMark) {
						to.Vals[i] = nv
					}
				}
				if forked {
					continue
				}
				// too many exact values: generalise
				for i, v := range vars {
					if v.full || to.Vals[i] == nil {
						continue
					}
					seen := map[*Term]bool{to.Vals[i]: true}
					for _, p := range node.Parts {
						if p.Vals[i] != nil {
							seen[p.Vals[i]] = true
						}
					}
					limit := 4
					if restart > 12 && !to.Vals[i].isConst() {
						limit = 1
					}
					if restart > 30 && !isBoolType(v.Top.T) {
						limit = 0
					}
					if len(seen) > limit {
						v.full = true
						changed = true
					}
				}
				if changed {
					again = true
					break
				}
				ti := find(to)
				if ti == 0 && entryOnly {
					entryOnly, entryBad = false, true
					again = true
					break
				}
				if len(node.Parts) > 40 {
					// generalise the non boolean variables
					for i, v := range vars {
						_ = i
						if !v.full && !isBoolType(v.Top.T) {
							v.full = true
							changed = true
						}
					}
					if !changed {
						panic(undecided("too many loop partitions in " + q.fr.fn.String()))
					}
					again = true
					break
				}
				// inductive invariants
				nsub := map[*Term]*Term{}
				for i, v := range vars {
					nsub[v.Top] = nextVals[i]
				}
				for _, c := range sortTerms(cands) {
					if dropped[c] || !partCovers(c, vars, to) {
						continue
					}
					if ok, known := b.st.facts.decide(subst(c, nsub)); !known || !ok {
						dropped[c] = true
						dbg("   dropped", c, "part", pi, "->", to.Vals, "as", subst(c, nsub))
						if os.Getenv("GCDROP") != "" && strings.Contains(c.String(), os.Getenv("GCDROP")) {
							printItems(e.p, b.st.trace.items()[mark-1:], "      ")
						}
						again = true
					}
				}
				if again {
					break
				}
				items := b.st.trace.items()[mark:]
				newCands = append(newCands, candidates(vars, items, b.st)...)
				node.Trans = append(node.Trans, LoopTrans{From: pi, To: ti, Items: items, Next: nextVals, St: b.st, Base: header.facts})
			}
		}
		if again {
			continue
		}
		// propose bounds, once
		added := false
		newCands = append(newCands, initCandidates(vars)...)
		for _, c := range newCands {
			if cands[c] || dropped[c] {
				continue
			}
			// about values of one iteration
			tops := map[*Term]bool{}
			for _, v := range vars {
				tops[v.Top] = true
			}
			if containsF(c, func(x *Term) bool { return !tops[x] && variantHere(x, idMark, epMark) }) {
				continue
			}
			// must hold on entry, when the entry has arbitrary values for its variables
			if partCovers(c, vars, node.Parts[0]) {
				isub := map[*Term]*Term{}
				for _, v := range vars {
					isub[v.Top] = v.Init
				}
				if ok, known := q.st.facts.decide(subst(c, isub)); !known || !ok {
					dropped[c] = true
					continue
				}
			}
			cands[c] = true
			dbg("   added", c)
			added = true
		}
		if added {
			continue
		}
		if !entryOnly && !entryBad && len(node.Parts) > 1 {
			back, open := false, false
			for _, t := range node.Trans {
				back = back || t.To == 0
			}
			for i, v := range vars {
				open = open || node.Parts[0].Vals[i] == nil && isIntType(v.Top.T)
			}
			if open && !back {
				entryOnly = true
				continue
			}
		}
		// the exits see the final partitioning
		return exits, terms
	}
}

// partCovers: the partition has an arbitrary value for some variable of the candidate and exact ones for none
func partCovers(c *Term, vars []*LoopVar, p LoopPart) bool {
	any := false
	ok := true
	for i, v := range vars {
		if contains(c, v.Top) {
			any = true
			if p.Vals[i] != nil {
				ok = false
			}
		}
	}
	return any && ok
}

func sortTerms(m map[*Term]bool) []*Term {
	out := make([]*Term, 0, len(m))
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func sortTerms2(m map[*Term]*Term) []*Term {
	out := make([]*Term, 0, len(m))
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// initCandidates proposes bounds by the initial values
func initCandidates(vars []*LoopVar) []*Term {
	var out []*Term
	add := func(t *Term) {
		if _, ok := t.boolVal(); !ok {
			out = append(out, t)
		}
	}
	for _, v := range vars {
		if !isIntType(v.Top.T) || !isInt64(v.Top.T) && !isIntType(v.Top.T) {
			continue
		}
		if v.full && v.Init != nil {
			add(mkNot(mkLt(v.Top, v.Init)))
			add(mkNot(mkLt(v.Init, v.Top)))
		}
		if v.full && v.Init.isInt(0) {
			continue
		}
		add(mkNot(mkLt(v.Top, mkInt(0))))
		add(mkNot(mkLt(v.Top, mkInt(-1))))
	}
	for i, u := range vars {
		for j, v := range vars {
			if i == j || !isIntType(u.Top.T) || !isIntType(v.Top.T) {
				continue
			}
			add(mkNot(mkLt(v.Top, u.Top)))
			add(mkLt(u.Top, v.Top))
			if u.Name == "rangeindex" && isInt64(u.Top.T) && isInt64(v.Top.T) {
				add(mkNot(mkLt(mkBin("+", u.Top, mkInt(1), tInt), v.Top)))
			}
		}
	}
	return out
}

// candidates proposes upper bounds from the comparisons made in the body
func candidates(vars []*LoopVar, items []any, st *State) []*Term {
	var out []*Term
	tops := map[*Term]bool{}
	var ints []*LoopVar
	for _, v := range vars {
		tops[v.Top] = true
		if isIntType(v.Top.T) {
			ints = append(ints, v)
		}
	}
	seen := map[*Term]bool{}
	bound := func(y *Term) {
		if y == nil || seen[y] {
			return
		}
		seen[y] = true
		// only loop invariant bounds
		if containsF(y, func(x *Term) bool { return x.Op == OPhi || x.Op == ONext || x.Op == OCall && false }) {
			return
		}
		for _, v := range ints {
			out = append(out, mkNot(mkLt(y, v.Top)), mkLt(v.Top, y))
		}
	}
	for _, it := range items {
		f, ok := it.(*FactItem)
		if !ok {
			continue
		}
		cmp := f.T
		if cmp.Op == OUn && cmp.S == "!" {
			cmp = cmp.Args[0]
		}
		if cmp.Op != OBin || (cmp.S != "<" && cmp.S != "==") {
			continue
		}
		x, y := cmp.Args[0], cmp.Args[1]
		if !isIntType(x.T) && !isIntType(y.T) {
			continue
		}
		ax, _ := linear(x)
		ay, _ := linear(y)
		if ax != nil && ay != nil {
			bound(ax)
			bound(ay)
		}
		if ax != nil && ay == nil && tops[ax] {
			// compared with a constant
			bound(y)
		}
	}
	_ = fmt.Sprint
	var res []*Term
	for _, c := range out {
		if _, ok := c.boolVal(); !ok {
			res = append(res, c)
		}
	}
	return res
}

func (f *Facts) consistent() bool {
	// a negative cycle through the zero atom
	for k := range f.zone {
		if d, ok := f.dist(k.b, k.a); ok && d+f.zone[k] < 0 {
			return false
		}
	}
	return true
}

var _ = types.Typ
