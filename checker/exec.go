package main

// The interpreter of the abstract domain: a forward analysis over SSA that keeps the paths of a function apart
// (trace partitioning) and computes fixpoints for loops (loops.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	p        *Program
	forks    int
	maxForks int
	depth    int
	fnsSeen  map[*ssa.Function]bool
	callsN   int
	loopsN   int
	loops    map[*ssa.Function]*loopForest
	stack    []*ssa.Function

	// options of a check
	opaque     map[string]bool // callee names that are not looked into (recorded as events)
	pureOpaque map[string]bool // callees not looked into, treated as functions of their arguments
	panicCalls bool            // every unknown call may also panic
	bounds     bool            // generate index obligations
	typePanics bool            // generate obligations for unchecked type assertions
	nilChecks  bool            // generate obligations for nil dereferences, writes to nil maps and divisions by zero
	narrow     bool            // generate obligations for integer conversions that may lose bits
	cutLoops   bool            // stop at the first loop
	cuts       []*State        // the states at these loops
	opaqueRoot func(*Term) bool
	obligs     map[string]*Oblig
	onEvent    func(*State, *Event)
	onHavoc    func(*Term)
	onAccess   func(st *State, kind string, what *Term, fr *Frame, pos token.Pos) // every use of memory and locks
	allStores  bool                                                               // record the writes to unshared objects too
	inDefer    int
	inPanic    bool
	maxRec     int
	stageID    int
	watches    []*watchRec
	noInline   func(fn *ssa.Function) bool
}

// Oblig is a local proof obligation (index in range, type assertion succeeds, ...)
type Oblig struct {
	Kind, Desc string
	Pos        token.Pos
	Fn         *ssa.Function
	Proved     bool
	Why        string
	Times      int
	Fails      []obligFail
}

// obligFail is an index that could not be shown to be in range
type obligFail struct {
	base, idx, n *Term
	facts        *Facts
}

func (e *Engine) deepRec(n int) { e.maxRec = n }

func newEngine(p *Program) *Engine {
	return &Engine{p: p, maxForks: 400000, fnsSeen: map[*ssa.Function]bool{}, loops: map[*ssa.Function]*loopForest{}, opaque: map[string]bool{}, pureOpaque: map[string]bool{}, obligs: map[string]*Oblig{}}
}

// ids are unique across engines: terms are interned globally
var idCtr, epochCtr int

func (e *Engine) nextID() int { idCtr++; return idCtr }

func (e *Engine) oblige(kind string, fn *ssa.Function, pos token.Pos, proved bool, desc string) *Oblig {
	k := kind + "|" + fn.String() + "|" + fmt.Sprint(pos) + "|"
	o := e.obligs[k]
	if o == nil {
		o = &Oblig{Kind: kind, Pos: pos, Fn: fn, Proved: true, Desc: desc}
		e.obligs[k] = o
	}
	o.Times++
	if !proved {
		o.Proved = false
		o.Why = desc
	}
	return o
}

type deferRec struct {
	callee *Term
	common *ssa.CallCommon
	args   []*Term
	pos    token.Pos
	id     int
}

type Frame struct {
	id      int
	fn      *ssa.Function
	env     map[ssa.Value]*Term
	defers  []deferRec
	deferOf int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferRec(nil), f.defers...)
	return &n
}

type path struct {
	st        *State
	fr        *Frame
	blk, prev *ssa.BasicBlock
	idx       int
}

func (p path) fork() path {
	p.st = p.st.fork()
	p.fr = p.fr.clone()
	return p
}

type Outcome struct {
	St    *State
	Vals  []*Term
	Panic *Term // non nil: the call panics with this value
}

func (o Outcome) res() *Term {
	switch len(o.Vals) {
	case 0:
		return mkTuple()
	case 1:
		return o.Vals[0]
	}
	return mkTuple(o.Vals...)
}

// callFn analyses the body of fn
func (e *Engine) callFn(st *State, fn *ssa.Function, args, free []*Term, deferOf int) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(undecided("no body: " + fn.String()))
	}
	rec := 0
	for _, f := range e.stack {
		if f == fn {
			rec++
		}
	}
	if len(e.stack) > 60 || rec > 3 && rec > e.maxRec {
		panic(undecided("recursion through " + fn.String()))
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.fnsSeen[fn] = true
	fr := &Frame{id: e.nextID(), fn: fn, env: map[ssa.Value]*Term{}, deferOf: deferOf}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		}
	}
	_, exits, terms := e.region(path{st: st, fr: fr, blk: fn.Blocks[0]}, nil)
	if len(exits) > 0 {
		panic("region exits from a function")
	}
	return terms
}

// region explores the blocks reachable from p inside loop (nil: the whole function)
func (e *Engine) region(p path, loop *loopInfo) (backs, exits []path, terms []Outcome) {
	work := []path{}
	var arrive func(q path)
	forest := e.forest(p.fr.fn)
	arrive = func(q path) {
		if loop != nil && q.blk == loop.header {
			backs = append(backs, q)
			return
		}
		if loop != nil && !loop.blocks[q.blk] {
			exits = append(exits, q)
			return
		}
		if l := forest.headers[q.blk]; l != nil {
			ex, tm := e.runLoop(q, l)
			terms = append(terms, tm...)
			for _, x := range ex {
				arrive(x)
			}
			return
		}
		work = append(work, q)
	}
	if loop != nil {
		work = append(work, p) // p starts at the header with its phis already set
	} else {
		arrive(p)
	}
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		if q.prev != nil && q.idx == 0 {
			e.phis(&q)
		}
		nx, tm := e.block(q)
		terms = append(terms, tm...)
		for _, x := range nx {
			arrive(x)
		}
	}
	return
}

func (e *Engine) phis(q *path) {
	var vals []*Term
	var phis []*ssa.Phi
	k := -1
	for i, pr := range q.blk.Preds {
		if pr == q.prev {
			k = i
		}
	}
	for _, in := range q.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(q.fr, ph.Edges[k]))
	}
	for i, ph := range phis {
		q.fr.env[ph] = vals[i]
	}
	q.idx = len(phis)
}

func (e *Engine) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return mkFunc(x)
	case *ssa.Global:
		return mkGlobal(x)
	case *ssa.Builtin:
		return intern(Term{Op: OBuiltin, S: x.Name()}, "")
	}
	t, ok := fr.env[v]
	if !ok {
		panic(undecided(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
	}
	return t
}

// block executes the block of p from its current instruction; it returns the paths that enter successor blocks
func (e *Engine) block(p path) (next []path, terms []Outcome) {
	work := []path{p}
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
	instrs:
		for q.idx < len(q.blk.Instrs) {
			in := q.blk.Instrs[q.idx]
			q.idx++
			q.st.steps++
			switch x := in.(type) {
			case *ssa.Jump:
				next = append(next, path{st: q.st, fr: q.fr, blk: q.blk.Succs[0], prev: q.blk})
				break instrs
			case *ssa.If:
				c := e.val(q.fr, x.Cond)
				pos := x.Cond.Pos()
				if v, ok := q.st.facts.decide(c); ok {
					i := 1
					if v {
						i = 0
					}
					next = append(next, path{st: q.st, fr: q.fr, blk: q.blk.Succs[i], prev: q.blk})
					break instrs
				}
				q.st.e.noteUndecided(q.fr.fn, q.blk)
				r := q.fork()
				if r.st.assume(c, false, pos) {
					next = append(next, path{st: r.st, fr: r.fr, blk: q.blk.Succs[1], prev: q.blk})
				}
				if q.st.assume(c, true, pos) {
					next = append(next, path{st: q.st, fr: q.fr, blk: q.blk.Succs[0], prev: q.blk})
				}
				break instrs
			case *ssa.Return:
				vals := make([]*Term, len(x.Results))
				for i, r := range x.Results {
					vals[i] = e.val(q.fr, r)
				}
				terms = append(terms, Outcome{St: q.st, Vals: vals})
				break instrs
			case *ssa.Panic:
				v := e.val(q.fr, x.X)
				q.st.add(&Event{Kind: "panic", Args: []*Term{v}, Fn: q.fr.fn, Pos: x.Pos(), ID: e.nextID()})
				terms = append(terms, e.unwind(q, v)...)
				break instrs
			case *ssa.RunDefers:
				rs := e.runDefers(q.st, q.fr, nil)
				for _, r := range rs {
					if r.Panic != nil {
						// the remaining deferred calls already ran
						terms = append(terms, e.afterUnwind(r.St, q.fr, r.Panic)...)
						continue
					}
					n := path{st: r.St, fr: q.fr.clone(), blk: q.blk, prev: q.prev, idx: q.idx}
					n.fr.defers = nil
					work = append(work, n)
				}
				break instrs
			default:
				more, tm := e.instr(&q, in)
				terms = append(terms, tm...)
				if more != nil {
					work = append(work, more...)
					break instrs
				}
			}
		}
	}
	return
}

// noteUndecided tells the enclosing attempts to follow a loop exactly that a branch was not decided by constants
func (e *Engine) noteUndecided(fn *ssa.Function, b *ssa.BasicBlock) {
	for _, w := range e.watches {
		if w.fn == fn && w.base == len(e.stack) && w.l.watch[b] {
			w.hit = true
		}
	}
}

// unwind runs the deferred calls because of a panic
func (e *Engine) unwind(q path, v *Term) []Outcome {
	var out []Outcome
	for _, r := range e.runDefers(q.st, q.fr, v) {
		out = append(out, e.afterUnwind(r.St, q.fr, r.Panic)...)
	}
	return out
}

func (e *Engine) afterUnwind(st *State, fr *Frame, v *Term) []Outcome {
	if v != nil {
		return []Outcome{{St: st, Panic: v}}
	}
	// recovered: the function returns its named results
	if fr.fn.Recover == nil {
		res := fr.fn.Signature.Results()
		vals := make([]*Term, res.Len())
		for i := range vals {
			vals[i] = zeroOf(res.At(i).Type())
		}
		return []Outcome{{St: st, Vals: vals}}
	}
	f := fr.clone()
	f.defers = nil
	nx, terms := e.block(path{st: st, fr: f, blk: fr.fn.Recover})
	if len(nx) > 0 {
		panic(undecided("control flow in a recover block"))
	}
	return terms
}

// runDefers runs the deferred calls of the frame, last first. pv is the value of the panic in progress.
func (e *Engine) runDefers(st *State, fr *Frame, pv *Term) []Outcome {
	type ds struct {
		st *State
		i  int
		pv *Term
	}
	work := []ds{{st, len(fr.defers) - 1, pv}}
	var out []Outcome
	for len(work) > 0 {
		d := work[len(work)-1]
		work = work[:len(work)-1]
		if d.i < 0 {
			out = append(out, Outcome{St: d.st, Panic: d.pv})
			continue
		}
		rec := fr.defers[d.i]
		if d.pv != nil {
			d.st.panics[fr.id] = d.pv
		} else {
			delete(d.st.panics, fr.id)
		}
		saved := e.inDefer
		e.inDefer++
		savedP := e.inPanic
		e.inPanic = d.pv != nil || savedP
		outs := e.call(d.st, fr, rec.callee, rec.common, rec.args, rec.pos, fr.id)
		e.inDefer = saved
		e.inPanic = savedP
		for _, o := range outs {
			npv := d.pv
			if d.pv != nil {
				if _, still := o.St.panics[fr.id]; !still {
					npv = nil // recovered
				}
			}
			delete(o.St.panics, fr.id)
			if o.Panic != nil {
				npv = o.Panic
			}
			work = append(work, ds{o.St, d.i - 1, npv})
		}
	}
	return out
}

// instr executes one instruction. When control continues in other paths than q they are returned in more.
func (e *Engine) instr(q *path, in ssa.Instruction) (more []path, terms []Outcome) {
	fr, st := q.fr, q.st
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.val(fr, v)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := mkAlloc(e.nextID(), deref(x.Type()), x.Comment)
		set(x, a)
	case *ssa.BinOp:
		e.checkDiv(st, fr, x, get(x.Y))
		set(x, e.binop(st, x.Op, get(x.X), get(x.Y), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			e.checkNil(st, fr, get(x.X), "dereference", x.Pos())
			e.access(st, "load", get(x.X), fr, x.Pos())
			set(x, st.load(get(x.X)))
		case token.ARROW:
			ch := get(x.X)
			ev := e.event(st, "recv", "", nil, []*Term{ch}, fr, x.Pos())
			ev.Res = mkCall(e.nextID(), "recv", elemType(ch.T))
			st.add(ev)
			if x.CommaOk {
				ok := mkPure("recvok", types.Typ[types.Bool], ev.Res)
				return e.forkBool(q, x, ok, mkTuple(ev.Res, mkBool(true)), mkTuple(zeroOf(elemType(x.X.Type())), mkBool(false)), x.Pos()), nil
			}
			set(x, ev.Res)
		default:
			set(x, mkUn(x.Op.String(), get(x.X), x.Type()))
		}
	case *ssa.ChangeInterface:
		set(x, get(x.X))
	case *ssa.ChangeType:
		v := get(x.X)
		if v.Op == OMakeMap || v.Op == OFunc || v.Op == OClosure {
			set(x, v)
		} else {
			set(x, mkConv(x.Type(), v))
		}
	case *ssa.Convert:
		if e.narrow {
			set(x, e.narrowing(st, fr, x, get(x.X)))
		} else {
			set(x, e.convert(st, x.Type(), get(x.X)))
		}
	case *ssa.MultiConvert:
		set(x, e.convert(st, x.Type(), get(x.X)))
	case *ssa.MakeInterface:
		set(x, mkIface(x.X.Type(), get(x.X)))
	case *ssa.MakeClosure:
		b := make([]*Term, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = get(v)
		}
		set(x, mkClosure(x.Fn.(*ssa.Function), b))
	case *ssa.MakeMap:
		set(x, intern(Term{Op: OMakeMap, N: e.nextID(), T: x.Type()}, ""))
	case *ssa.MakeChan:
		set(x, intern(Term{Op: OMakeChan, N: e.nextID(), T: x.Type(), Args: []*Term{get(x.Size)}}, ""))
	case *ssa.MakeSlice:
		set(x, intern(Term{Op: OMakeSlice, N: e.nextID(), T: x.Type(), Args: []*Term{get(x.Len), get(x.Cap)}}, ""))
	case *ssa.FieldAddr:
		e.checkNil(st, fr, get(x.X), "field of", x.Pos())
		set(x, mkFieldAddr(get(x.X), x.Field))
	case *ssa.Field:
		set(x, mkField(get(x.X), x.Field))
	case *ssa.IndexAddr:
		b, i := get(x.X), st.facts.norm(get(x.Index))
		e.checkIndex(st, fr, b, i, x.Pos())
		set(x, mkIdxAddr(b, i))
	case *ssa.Index:
		b, i := get(x.X), st.facts.norm(get(x.Index))
		e.checkIndex(st, fr, b, i, x.Pos())
		if isStringType(b.T) || isStringType(x.X.Type()) {
			set(x, st.facts.index(b, i, x.Type()))
		} else if els, ok := st.elems(b); ok && i.isConst() {
			n, _ := i.intVal()
			set(x, els[n])
		} else {
			set(x, mkIndex(b, i, x.Type()))
		}
	case *ssa.Slice:
		b := get(x.X)
		lo, hi, max := get(x.Low), get(x.High), get(x.Max)
		if lo != nil {
			lo = st.facts.norm(lo)
		}
		if hi != nil {
			hi = st.facts.norm(hi)
		}
		e.checkSlice(st, fr, b, lo, hi, x.Pos())
		set(x, st.facts.slice(b, lo, hi, max, x.Type()))
	case *ssa.SliceToArrayPointer:
		set(x, mkConv(x.Type(), get(x.X)))
	case *ssa.Extract:
		set(x, mkExtract(get(x.Tuple), x.Index))
	case *ssa.Store:
		addr, v := get(x.Addr), get(x.Val)
		e.checkNil(st, fr, addr, "store through", x.Pos())
		e.doStore(st, fr, addr, v, x.Pos())
	case *ssa.MapUpdate:
		e.mapUpdate(st, fr, get(x.Map), get(x.Key), get(x.Value), x.Pos())
	case *ssa.Lookup:
		return e.lookup(q, x)
	case *ssa.Range:
		set(x, intern(Term{Op: OPure, S: "range", Args: []*Term{get(x.X)}, N: e.nextID(), T: x.Type()}, ""))
	case *ssa.Next:
		return e.next(q, x), nil
	case *ssa.TypeAssert:
		v := get(x.X)
		ok := mkTAok(x.AssertedType, v)
		if b, known := st.facts.decide(ok); known {
			if x.CommaOk {
				if b {
					set(x, mkTuple(mkTA(x.AssertedType, v), mkBool(true)))
				} else {
					set(x, mkTuple(zeroOf(x.AssertedType), mkBool(false)))
				}
				return nil, nil
			}
			if b {
				set(x, mkTA(x.AssertedType, v))
				e.obligeTA(fr, x, true)
				return nil, nil
			}
			e.obligeTA(fr, x, false)
			pv := mkCall(e.nextID(), "runtime.TypeAssertionError", nil)
			st.add(&Event{Kind: "panic", Name: "typeassert", Fn: fr.fn, Pos: x.Pos(), ID: e.nextID()})
			return []path{}, e.unwind(*q, pv)
		}
		if x.CommaOk {
			return e.forkBool(q, x, ok, mkTuple(mkTA(x.AssertedType, v), mkBool(true)), mkTuple(zeroOf(x.AssertedType), mkBool(false)), x.Pos()), nil
		}
		e.obligeTA(fr, x, false)
		st.assume(ok, true, x.Pos())
		set(x, mkTA(x.AssertedType, v))
	case *ssa.Send:
		ev := e.event(st, "send", "", nil, []*Term{get(x.Chan), get(x.X)}, fr, x.Pos())
		st.add(ev)
	case *ssa.Select:
		return e.sel(q, x), nil
	case *ssa.Go:
		cal, args := e.callee(fr, &x.Call)
		ev := e.event(st, "go", calleeName(cal, &x.Call), cal, args, fr, x.Pos())
		st.add(ev)
		for r := range st.reach(append([]*Term{cal}, args...)) {
			st.flags[r] |= flEscaped
		}
	case *ssa.Defer:
		cal, args := e.callee(fr, &x.Call)
		fr.defers = append(fr.defers, deferRec{cal, &x.Call, args, x.Pos(), e.nextID()})
	case *ssa.Call:
		cal, args := e.callee(fr, &x.Call)
		outs := e.call(st, fr, cal, &x.Call, args, x.Pos(), 0)
		if len(outs) == 1 && outs[0].Panic == nil {
			q.st = outs[0].St
			set(x, outs[0].res())
			return nil, nil
		}
		more = []path{}
		for i, o := range outs {
			n := *q
			n.st = o.St
			if i < len(outs)-1 {
				n.fr = fr.clone()
			}
			if o.Panic != nil {
				terms = append(terms, e.unwind(n, o.Panic)...)
				continue
			}
			n.fr.env[x] = o.res()
			more = append(more, n)
		}
		return more, terms
	default:
		panic(undecided(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
	}
	return nil, nil
}

func (e *Engine) obligeTA(fr *Frame, x *ssa.TypeAssert, ok bool) {
	if e.typePanics {
		if !ok && e.nilChecks {
			ok = e.p.alwaysHolds(x)
		}
		e.oblige("type-assertion", fr.fn, x.Pos(), ok, "unchecked assertion to "+shortType(x.AssertedType))
	}
}

// forkBool continues with v set to a when cond holds and to b when it does not
func (e *Engine) forkBool(q *path, v ssa.Value, cond, a, b *Term, pos token.Pos) []path {
	if val, ok := q.st.facts.decide(cond); ok {
		if val {
			q.fr.env[v] = a
		} else {
			q.fr.env[v] = b
		}
		return []path{*q}
	}
	r := q.fork()
	out := []path{}
	if q.st.assume(cond, true, pos) {
		q.fr.env[v] = a
		out = append(out, *q)
	}
	if r.st.assume(cond, false, pos) {
		r.fr.env[v] = b
		out = append(out, r)
	}
	return out
}

func (e *Engine) event(st *State, kind, name string, callee *Term, args []*Term, fr *Frame, pos token.Pos) *Event {
	ev := &Event{Kind: kind, Name: name, Callee: callee, Args: args, Pos: pos, ID: e.nextID(), Deferred: e.inDefer > 0, Panic: e.inPanic}
	if fr != nil {
		ev.Fn = fr.fn
	}
	ev.Snap = make([]*Term, len(args))
	for i, a := range args {
		ev.Snap[i] = st.snap(a, 0)
	}
	return ev
}

func (e *Engine) doStore(st *State, fr *Frame, addr, v *Term, pos token.Pos) {
	r := rootOf(addr)
	e.access(st, "store", addr, fr, pos)
	var ev *Event
	if r.Op != OAlloc || st.flags[r]&flEscaped != 0 || r.N <= e.stageID || e.allStores {
		ev = &Event{Fn: fr.fn, Pos: pos, Deferred: e.inDefer > 0, Panic: e.inPanic}
	}
	st.store(addr, v, ev)
}

func (e *Engine) binop(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	nx, ny := x, y
	if !(op == token.EQL || op == token.NEQ) || !isStringType(x.T) {
		if c := st.facts.normNB(x); c.isConst() && !c.isNil() {
			nx = c
		}
		if c := st.facts.normNB(y); c.isConst() && !c.isNil() {
			ny = c
		}
	}
	if op == token.EQL || op == token.NEQ {
		// comparing structs field by field
		if sx, sy := structOf(x.T), structOf(y.T); sx != nil && sy != nil && (x.Op == OStruct || y.Op == OStruct || x.Op == OZero || y.Op == OZero) && x != y {
			r := mkBool(true)
			for i := 0; i < sx.NumFields(); i++ {
				c := mkEq(mkField(x, i), mkField(y, i))
				if b, ok := c.boolVal(); ok {
					if !b {
						r = mkBool(false)
						break
					}
					continue
				}
				if v, ok := r.boolVal(); ok && v {
					r = c
				} else {
					r = mkPure("and", types.Typ[types.Bool], r, c)
				}
			}
			if op == token.NEQ {
				return mkNot(r)
			}
			return r
		}
	}
	return mkBin(op.String(), nx, ny, t)
}

func (e *Engine) convert(st *State, t types.Type, x *Term) *Term {
	if isStringType(t) && !isStringType(x.T) {
		// string(bytes) of a known list of bytes
		if els, ok := st.elems(x); ok && x.Op != OConst {
			if elemType(x.T) != nil {
				if bt, ok := elemType(x.T).Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
					parts := make([]*Term, len(els))
					for i, el := range els {
						parts[i] = byteStr(el)
					}
					return mkConcat(parts...)
				}
			}
		}
		if x.Op == OMakeSlice || x.Op == OAppend {
			return intern(Term{Op: OConv, Args: []*Term{x}, N: e.nextID(), T: t}, typeKey(t))
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && x.T != nil {
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return mkConv(t, x)
		}
		// (*string)(unsafe.Pointer(&bytes))
		if isStringOrBytes(p.Elem()) && isStringOrBytes(deref(x.T)) && !types.Identical(p, x.T) {
			v := st.load(x)
			return intern(Term{Op: OPtrTo, Args: []*Term{e.convert(st, p.Elem(), v)}, T: t}, "")
		}
	}
	return mkConv(t, x)
}

// narrowing converts an integer; a conversion that may lose bits is an obligation, one that cannot keeps the value
func (e *Engine) narrowing(st *State, fr *Frame, x *ssa.Convert, v *Term) *Term {
	r := e.convert(st, x.Type(), v)
	if r.Op != OConv || r.S == "widen" || r.Args[0] != v || v.T == nil {
		return r
	}
	lo, hi, ok1 := intRange(x.Type())
	_, _, ok2 := intRange(v.T)
	if !ok1 || !ok2 {
		return r
	}
	fits := st.facts.never(mkLt(v, mkConst(lo, v.T))) && st.facts.never(mkLt(mkConst(hi, v.T), v))
	ob := e.oblige("conversion", fr.fn, x.Pos(), fits, fmt.Sprintf("conversion of %s to %s", v, shortType(x.Type())))
	if !fits {
		// reported once; what follows is judged as if the value fitted
		ob.Fails = append(ob.Fails[:len(ob.Fails):len(ob.Fails)], obligFail{nil, v, nil, nil})
		st.assume(mkLt(v, mkConst(lo, v.T)), false, x.Pos())
		st.assume(mkLt(mkConst(hi, v.T), v), false, x.Pos())
	}
	return intern(Term{Op: OConv, S: "widen", Args: []*Term{v}, T: x.Type()}, typeKey(x.Type()))
}

func (e *Engine) checkIndex(st *State, fr *Frame, b, i *Term, pos token.Pos) {
	if !e.bounds {
		return
	}
	var n *Term
	if a := arrayLen(b.T); a >= 0 {
		n = mkInt(a)
	} else {
		n = mkLen(b)
	}
	lo, ok1 := st.facts.decide(mkLt(i, mkInt(0)))
	hi, ok2 := st.facts.decide(mkLt(i, n))
	good := ok1 && !lo && ok2 && hi
	o := e.oblige("index", fr.fn, pos, good, fmt.Sprintf("index %s of %s (length %s)", i, b, n))
	if !good {
		o.Fails = append(o.Fails[:len(o.Fails):len(o.Fails)], obligFail{b, i, n, st.facts.clone()})
		st.assume(mkLt(i, mkInt(0)), false, pos)
		st.assume(mkLt(i, n), true, pos)
	}
}

func (e *Engine) checkSlice(st *State, fr *Frame, b, lo, hi *Term, pos token.Pos) {
	if !e.bounds {
		return
	}
	var n *Term
	if a := arrayLen(b.T); a >= 0 {
		n = mkInt(a)
	} else {
		n = mkLen(b)
	}
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = n
	}
	neg := st.facts.never(mkLt(lo, mkInt(0)))
	ord := st.facts.never(mkLt(hi, lo))
	in := st.facts.never(mkLt(n, hi))
	good := neg && ord && in
	if e.nilChecks && !good {
		// a text seen as an array that is larger than any text
		big := n.isConst() && arrayLen(b.T) >= 1<<30 && hi.Op == OLen
		good = neg && big || e.recorded(b, lo, hi)
	}
	e.oblige("slice", fr.fn, pos, good, fmt.Sprintf("slice [%s:%s] of %s (length %s)", lo, hi, b, n))
	if !good {
		st.assume(mkLt(lo, mkInt(0)), false, pos)
		st.assume(mkLt(hi, lo), false, pos)
		if isStringType(b.T) {
			st.assume(mkLt(n, hi), false, pos)
		}
	}
}

func (e *Engine) mapUpdate(st *State, fr *Frame, m, k, v *Term, pos token.Pos) {
	e.checkNil(st, fr, m, "entry added to", pos)
	e.access(st, "mapupdate", mkIdxAddr(m, k), fr, pos)
	ev := e.event(st, "mapupdate", "", nil, []*Term{m, k, v}, fr, pos)
	st.add(ev)
	e.setMapCell(st, m, k, v)
}

func (e *Engine) setMapCell(st *State, m, k, v *Term) {
	addr := mkIdxAddr(m, k)
	for c := range st.mem {
		if c.Op == OIdxAddr && c != addr && isMapTerm(c.Args[0]) {
			if c.Args[0] == m {
				if eq, ok := st.facts.equal(c.Args[1], k); ok && !eq {
					continue
				}
				delete(st.mem, c)
			} else if !(isFresh(m) && isFresh(c.Args[0])) && types.Identical(c.Args[0].T, m.T) && !(isFresh(m) && st.flags[m]&flEscaped == 0) && !(isFresh(c.Args[0]) && st.flags[c.Args[0]]&flEscaped == 0) {
				delete(st.mem, c)
			}
		}
	}
	if isFresh(m) && !k.isConst() {
		st.flags[m] |= flSummary
	}
	st.bump(mapEpoch(m))
	st.mem[addr] = v
}

func isMapTerm(t *Term) bool {
	if t.T == nil {
		return false
	}
	_, ok := t.T.Underlying().(*types.Map)
	return ok
}

func mapEpoch(m *Term) string {
	if isFresh(m) {
		return "m:" + itoa(m.ID)
	}
	return "m:" + typeKey(m.T)
}

func (e *Engine) lookup(q *path, x *ssa.Lookup) (more []path, terms []Outcome) {
	fr, st := q.fr, q.st
	m, k := e.val(fr, x.X), st.facts.norm(e.val(fr, x.Index))
	if isStringType(x.X.Type()) {
		e.checkIndex(st, fr, m, k, x.Pos())
		fr.env[x] = st.facts.index(m, k, x.Type())
		return nil, nil
	}
	mt := x.X.Type().Underlying().(*types.Map)
	e.access(st, "lookup", mkIdxAddr(m, k), fr, x.Pos())
	if m.Op == OMapLit && len(m.Args) <= 2*maxTable {
		return e.tableLookup(q, x, m, k), nil
	}
	v, found := e.mapGet(st, m, k, mt.Elem())
	if !x.CommaOk {
		if val, ok := st.facts.decide(found); ok {
			if !val {
				v = zeroOf(mt.Elem())
			}
			fr.env[x] = v
			return nil, nil
		}
		if v.Op != OLookup && v.Op != OPure {
			return e.forkBool(q, x, found, v, zeroOf(mt.Elem()), x.Pos()), nil
		}
		fr.env[x] = v
		return nil, nil
	}
	return e.forkBool(q, x, found, mkTuple(v, mkBool(true)), mkTuple(zeroOf(mt.Elem()), mkBool(false)), x.Pos()), nil
}

// maxTable is the largest constant table whose entries are told apart
const maxTable = 24

// tableLookup takes one path for each entry of a constant table the key may be, and one for none of them
func (e *Engine) tableLookup(q *path, x *ssa.Lookup, m, k *Term) []path {
	var out []path
	cur := *q
	set := func(p path, v *Term, found bool) {
		if x.CommaOk {
			v = mkTuple(v, mkBool(found))
		}
		p.fr.env[x] = v
		out = append(out, p)
	}
	for i := 0; i < len(m.Args); i += 2 {
		cond := mkEq(m.Args[i], k)
		if is, ok := cur.st.facts.decide(cond); ok {
			if is {
				set(cur, m.Args[i+1], true)
				return out
			}
			continue
		}
		r := cur.fork()
		if r.st.assume(cond, true, x.Pos()) {
			set(r, m.Args[i+1], true)
		}
		if !cur.st.assume(cond, false, x.Pos()) {
			return out
		}
	}
	set(cur, zeroOf(x.X.Type().Underlying().(*types.Map).Elem()), false)
	return out
}

// mapGet returns the value stored under k and the condition that there is one
func (e *Engine) mapGet(st *State, m, k *Term, et types.Type) (v, found *Term) {
	if m.isNil() {
		return zeroOf(et), mkBool(false)
	}
	if m.Op == OMapLit {
		// literal of a package variable: the equal key decides
		for i := 0; i < len(m.Args); i += 2 {
			if eq, ok := st.facts.equal(m.Args[i], k); ok && eq {
				return m.Args[i+1], mkBool(true)
			}
		}
		all := true
		for i := 0; i < len(m.Args); i += 2 {
			if eq, ok := st.facts.equal(m.Args[i], k); !ok || eq {
				all = false
			}
		}
		if all {
			return zeroOf(et), mkBool(false)
		}
	}
	if v, ok := st.mem[mkIdxAddr(m, k)]; ok {
		if v == deletedTerm {
			return zeroOf(et), mkBool(false)
		}
		return v, mkBool(true)
	}
	for c, v := range st.mem {
		if c.Op == OIdxAddr && c.Args[0] == m {
			if eq, ok := st.facts.equal(c.Args[1], k); ok && eq {
				if v == deletedTerm {
					return zeroOf(et), mkBool(false)
				}
				return v, mkBool(true)
			}
		}
	}
	if m.Op == OMakeMap && st.flags[m]&(flEscaped|flSummary) == 0 {
		// every entry is known; is every known key different?
		all := true
		for c := range st.mem {
			if c.Op == OIdxAddr && c.Args[0] == m {
				if eq, ok := st.facts.equal(c.Args[1], k); !ok || eq {
					all = false
				}
			}
		}
		if all {
			return zeroOf(et), mkBool(false)
		}
	}
	ep := st.epochs[mapEpoch(m)]
	if r := st.epochs["r:"+itoa(m.ID)]; r > ep {
		ep = r
	}
	lk := intern(Term{Op: OLookup, Args: []*Term{m, k}, N: ep, T: et}, "")
	return lk, intern(Term{Op: OLookupOk, Args: []*Term{m, k}, N: ep, T: types.Typ[types.Bool]}, "")
}

var deletedTerm = mkSym("$deleted", nil)

func rangedMap(r *ssa.Range) *types.Map {
	m, _ := r.X.Type().Underlying().(*types.Map)
	return m
}

// next models one step of a range over a map or a string
func (e *Engine) next(q *path, x *ssa.Next) []path {
	it := e.val(q.fr, x.Iter)
	src := it.Args[0]
	e.access(q.st, "range", src, q.fr, x.Pos())
	id := e.nextID()
	okT := intern(Term{Op: ONext, S: "next", N: id, Args: []*Term{it}, T: types.Typ[types.Bool]}, "")
	var kt, vt types.Type
	if x.IsString {
		kt, vt = types.Typ[types.Int], types.Typ[types.Int32]
	} else if rg, ok := x.Iter.(*ssa.Range); ok && rangedMap(rg) != nil {
		kt, vt = rangedMap(rg).Key(), rangedMap(rg).Elem()
	} else {
		tt := x.Type().(*types.Tuple)
		kt, vt = tt.At(1).Type(), tt.At(2).Type()
	}
	k := intern(Term{Op: ONext, S: "key", N: id, Args: []*Term{it, src}, T: kt}, "")
	v := intern(Term{Op: ONext, S: "elem", N: id, Args: []*Term{it, src}, T: vt}, "")
	tt := mkTuple(mkBool(true), k, v)
	ff := mkTuple(mkBool(false), zeroOf(kt), zeroOf(vt))
	if src.isNil() || src.isStr("") {
		q.fr.env[x] = ff
		return []path{*q}
	}
	if src.Op == OMakeMap && q.st.flags[src]&(flEscaped|flSummary) == 0 {
		has := false
		for c := range q.st.mem {
			if c.Op == OIdxAddr && c.Args[0] == src {
				has = true
			}
		}
		if !has {
			q.fr.env[x] = ff
			return []path{*q}
		}
	}
	e.noteUndecided(q.fr.fn, q.blk)
	return e.forkBool(q, x, okT, tt, ff, x.Pos())
}

func (e *Engine) sel(q *path, x *ssa.Select) []path {
	var out []path
	n := len(x.States)
	tt := x.Type().(*types.Tuple)
	mk := func(p path, idx int, vals []*Term, ok *Term) path {
		args := []*Term{mkConst(constant.MakeInt64(int64(idx)), types.Typ[types.Int]), ok}
		args = append(args, vals...)
		p.fr.env[x] = mkTuple(args...)
		return p
	}
	zeroVals := func() []*Term {
		var vs []*Term
		for i := 2; i < tt.Len(); i++ {
			vs = append(vs, zeroOf(tt.At(i).Type()))
		}
		return vs
	}
	var chans []*Term
	for _, s := range x.States {
		chans = append(chans, e.val(q.fr, s.Chan))
	}
	sid := e.nextID()
	r := 0
	for i, s := range x.States {
		p := q.fork()
		ch := chans[i]
		vs := zeroVals()
		if s.Dir == types.RecvOnly {
			ev := e.event(p.st, "recv", "select", nil, append([]*Term{ch}, chans...), p.fr, s.Pos)
			ev.Res = mkCall(sid*100+i, "recv", elemType(ch.T))
			p.st.add(ev)
			okT := mkPure("recvok", types.Typ[types.Bool], ev.Res)
			p2 := p.fork()
			if p.st.assume(okT, true, s.Pos) {
				v1 := append([]*Term(nil), vs...)
				v1[r] = ev.Res
				out = append(out, mk(p, i, v1, mkBool(true)))
			}
			if p2.st.assume(okT, false, s.Pos) {
				out = append(out, mk(p2, i, vs, mkBool(false)))
			}
			r++
		} else {
			ev := e.event(p.st, "send", "select", nil, []*Term{ch, e.val(p.fr, s.Send)}, p.fr, s.Pos)
			p.st.add(ev)
			out = append(out, mk(p, i, vs, mkBool(false)))
		}
	}
	if !x.Blocking {
		p := q.fork()
		ev := e.event(p.st, "select", "default", nil, chans, p.fr, x.Pos())
		p.st.add(ev)
		out = append(out, mk(p, -1, zeroVals(), mkBool(false)))
	}
	_ = n
	return out
}

func (e *Engine) callee(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	v := e.val(fr, c.Value)
	if c.IsInvoke() {
		args = append(args, v)
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return v, args
}

func calleeName(cal *Term, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch cal.Op {
	case OFunc, OClosure:
		return fnName(cal.Fn)
	case OBuiltin:
		return cal.S
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// call evaluates a call; cal is the function value (the receiver for invoke mode)
func (e *Engine) call(st *State, fr *Frame, cal *Term, c *ssa.CallCommon, args []*Term, pos token.Pos, deferOf int) []Outcome {
	if c.IsInvoke() {
		recv := cal
		for recv.Op == OTA && types.IsInterface(recv.T) {
			recv = recv.Args[0]
		}
		// an interface value of a known dynamic type
		if recv.Op != OIface {
			if k := st.facts.normNB(recv); k.Op == OIface {
				recv = k
			}
		}
		if recv.Op == OIface {
			m := e.p.prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				panic(undecided("method not found: " + c.Method.FullName()))
			}
			return e.callStatic(st, fr, m, nil, append([]*Term{recv.Args[0]}, args[1:]...), pos, deferOf)
		}
		e.checkNil(st, fr, recv, "method of", pos)
		args = append([]*Term{recv}, args[1:]...)
		// the method is named after the interface the value was declared with
		name := c.Method.FullName()
		if recv.T != nil && types.IsInterface(recv.T) {
			if m, _, _ := types.LookupFieldOrMethod(recv.T, false, c.Method.Pkg(), c.Method.Name()); m != nil {
				if f, ok := m.(*types.Func); ok && types.Identical(f.Type(), c.Method.Type()) {
					name = f.FullName()
				}
			}
		}
		return e.invokeUnknown(st, fr, name, c.Signature(), args, pos)
	}
	cal = st.facts.normNB(cal)
	switch cal.Op {
	case OFunc:
		return e.callStatic(st, fr, cal.Fn, nil, args, pos, deferOf)
	case OClosure:
		return e.callStatic(st, fr, cal.Fn, cal.Args, args, pos, deferOf)
	case OBuiltin:
		return e.builtin(st, fr, cal.S, c, args, pos, deferOf)
	}
	e.checkNil(st, fr, cal, "call of", pos)
	return e.unknown(st, fr, "dyn", "", cal, c.Signature(), args, pos)
}

// checkNil generates the obligation that a value used as a pointer, a map written to, an interface or a function is
// not nil: it is discharged unless the path makes it nil, and a value that is nil by convention in some cases (an entry
// that may be missing in a map, the result of a call that may have failed) must be known not to be
func (e *Engine) checkNil(st *State, fr *Frame, t *Term, what string, pos token.Pos) {
	if !e.nilChecks || fr.fn == nil || !e.p.isRepoFn(fr.fn) {
		return
	}
	v := stripConv(st.facts.normNB(t))
	switch v.Op {
	case OAlloc, OMakeMap, OMakeChan, OMakeSlice, OIface, OFunc, OClosure, OFieldAddr, OIdxAddr, OMapLit, OGlobal:
		return
	}
	nilT := mkEq(v, mkNil())
	good := true
	switch {
	case st.facts.never(nilT):
	case v.isNil() || v.Op == OZero || st.facts.always(nilT):
		good = false
	case v.Op == OLookup:
		ok := intern(Term{Op: OLookupOk, Args: v.Args, N: v.N, T: types.Typ[types.Bool]}, "")
		good = st.facts.always(ok)
	case v.Op == OExtract && v.N == 0 && v.Args[0].T != nil:
		if tu, ok := v.Args[0].T.(*types.Tuple); ok && tu.Len() > 1 && isErrorType(tu.At(tu.Len()-1).Type()) {
			good = st.facts.always(mkEq(mkExtract(v.Args[0], tu.Len()-1), mkNil()))
		}
	case v.Op == OExtract && isErrorType(v.T):
		// the error of a call that also has a result
		good = false
	default:
		good = !e.p.mayBeNil(v)
	}
	e.oblige("nil", fr.fn, pos, good, fmt.Sprintf("%s %s, which may be nil", what, v))
	if !good && !v.isNil() && v.Op != OZero && !st.facts.always(nilT) {
		st.assume(nilT, false, pos)
	}
}

func (e *Engine) checkDiv(st *State, fr *Frame, x *ssa.BinOp, y *Term) {
	if !e.nilChecks || x.Op != token.QUO && x.Op != token.REM || !isIntType(x.Type()) || !e.p.isRepoFn(fr.fn) {
		return
	}
	e.oblige("division", fr.fn, x.Pos(), st.facts.never(mkEq(st.facts.norm(y), mkInt(0))), fmt.Sprintf("division by %s, which may be zero", y))
}

// CallValue lets a rule call a function value
func (e *Engine) callValue(st *State, cal *Term, args ...*Term) []Outcome {
	fr := &Frame{id: e.nextID(), env: map[ssa.Value]*Term{}}
	switch cal.Op {
	case OFunc:
		return e.callStatic(st, fr, cal.Fn, nil, args, cal.Fn.Pos(), 0)
	case OClosure:
		return e.callStatic(st, fr, cal.Fn, cal.Args, args, cal.Fn.Pos(), 0)
	case OIface:
		return e.callValue(st, cal.Args[0], args...)
	case OConv:
		return e.callValue(st, cal.Args[0], args...)
	}
	panic(undecided("not a known function: " + cal.String()))
}

// callMethod calls the method of a value of a known dynamic type
func (e *Engine) callMethod(st *State, t types.Type, name string, recv *Term, args ...*Term) []Outcome {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			m := e.p.prog.MethodValue(ms.At(i))
			fr := &Frame{id: e.nextID(), env: map[ssa.Value]*Term{}}
			return e.callStatic(st, fr, m, nil, append([]*Term{recv}, args...), m.Pos(), 0)
		}
	}
	panic(undecided("method not found: " + t.String() + "." + name))
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if e.p.isRepoFn(fn) {
		return true
	}
	if fn.Synthetic != "" && (strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound")) {
		return true
	}
	for f := fn; f != nil; f = f.Parent() {
		g := f
		if o := f.Origin(); o != nil {
			g = o
		}
		if g.Pkg != nil {
			switch g.Pkg.Pkg.Path() {
			case "slices", "maps", "cmp", "iter":
				return true
			}
		}
	}
	return false
}

func (e *Engine) callStatic(st *State, fr *Frame, fn *ssa.Function, free, args []*Term, pos token.Pos, deferOf int) []Outcome {
	e.callsN++
	name := fnName(fn)
	if e.pureOpaque[name] {
		return []Outcome{{St: st, Vals: pureResults(name, fn.Signature, e.snaps(st, args))}}
	}
	if e.opaque[name] {
		return e.unknownFn(st, fr, fn, name, args, free, pos)
	}
	if m := models[name]; m != nil {
		if outs, ok := m(&callCtx{e: e, st: st, fr: fr, fn: fn, args: args, pos: pos, deferOf: deferOf, name: name}); ok {
			return outs
		}
	}
	if e.noInline != nil && e.p.isRepoFn(fn) && e.noInline(fn) {
		return e.unknownFn(st, fr, fn, name, args, free, pos)
	}
	if fn.Signature.Recv() != nil && len(args) > 0 && !e.inlinable(fn) {
		if _, ptr := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
			e.checkNil(st, fr, args[0], "method "+fn.Name()+" of", pos)
		}
	}
	if e.inlinable(fn) {
		rec := 0
		for _, f := range e.stack {
			if f == fn {
				rec++
			}
		}
		if rec <= 1 || rec <= e.maxRec {
			return e.callFn(st, fn, args, free, deferOf)
		}
	}
	if pureFns[name] {
		return []Outcome{{St: st, Vals: pureResults(name, fn.Signature, e.snaps(st, args))}}
	}
	return e.unknownFn(st, fr, fn, name, args, free, pos)
}

func (e *Engine) snaps(st *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = st.facts.norm(st.snap(a, 0))
	}
	return out
}

func pureResults(name string, sig *types.Signature, args []*Term) []*Term {
	n := sig.Results().Len()
	if n == 1 {
		return []*Term{mkPure(name, sig.Results().At(0).Type(), args...)}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = mkExtract(mkPure(name, sig.Results(), args...), i)
	}
	return out
}

func (e *Engine) unknownFn(st *State, fr *Frame, fn *ssa.Function, name string, args, free []*Term, pos token.Pos) []Outcome {
	cal := mkFunc(fn)
	if len(free) > 0 {
		cal = mkClosure(fn, free)
	}
	return e.unknown(st, fr, "call", name, cal, fn.Signature, args, pos)
}

func (e *Engine) invokeUnknown(st *State, fr *Frame, name string, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
	if e.pureOpaque[name] {
		return []Outcome{{St: st, Vals: pureResults(name, sig, e.snaps(st, args))}}
	}
	if m := models[name]; m != nil {
		if outs, ok := m(&callCtx{e: e, st: st, fr: fr, args: args, pos: pos, name: name, sig: sig}); ok {
			return outs
		}
	}
	if pureFns[name] {
		return []Outcome{{St: st, Vals: pureResults(name, sig, e.snaps(st, args))}}
	}
	return e.unknown(st, fr, "invoke", name, nil, sig, args, pos)
}

// unknown is a call into code that is not analysed: it may do anything to the objects it can reach
func (e *Engine) unknown(st *State, fr *Frame, kind, name string, cal *Term, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
	ev := e.event(st, kind, name, cal, args, fr, pos)
	n := sig.Results().Len()
	nm := name
	if nm == "" {
		nm = "call"
	}
	var vals []*Term
	switch n {
	case 0:
	case 1:
		ev.Res = mkCall(e.nextID(), nm, sig.Results().At(0).Type())
		vals = []*Term{ev.Res}
	default:
		ev.Res = mkCall(e.nextID(), nm, sig.Results())
		for i := 0; i < n; i++ {
			vals = append(vals, mkExtract(ev.Res, i))
		}
	}
	st.add(ev)
	if e.onEvent != nil {
		e.onEvent(st, ev)
	}
	if e.permutes(st, name, args) {
		// only the order of the elements changes
	} else if !noHavoc[name] {
		var target *ssa.Function
		if kind == "call" && cal != nil {
			target = cal.Fn
		}
		restore := e.keepFields(st, target, args)
		e.havocArgs(st, append([]*Term{cal}, args...))
		restore()
	}
	outs := []Outcome{{St: st, Vals: vals}}
	if e.panicCalls && e.mayPanic(kind, name) {
		p := st.fork()
		pv := mkCall(e.nextID(), "panic of "+nm, types.NewInterfaceType(nil, nil))
		p.assume(mkEq(pv, mkNil()), false, pos)
		p.add(&Event{Kind: "panic", Name: "callee", Callee: cal, Fn: ev.Fn, Pos: pos, ID: e.nextID(), Args: []*Term{pv}})
		outs = append(outs, Outcome{St: p, Panic: pv})
	}
	return outs
}

// permutes: the call sorts a list with a comparison that has no effects
func (e *Engine) permutes(st *State, name string, args []*Term) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
	default:
		return false
	}
	if len(args) != 2 {
		return false
	}
	cmp := stripConv(args[1])
	if cmp.Op != OClosure && cmp.Op != OFunc || cmp.Fn == nil || !onlyComputes(cmp.Fn, 0) {
		return false
	}
	l := stripConv(args[0])
	if l.Op == OIface {
		l = stripConv(l.Args[0])
	}
	if _, ok := l.T.Underlying().(*types.Slice); !ok {
		return false
	}
	r := rootOf(l)
	if !isFresh(r) {
		st.bump("e:" + typeKey(elemType(l.T)))
	}
	var lost []*Term
	for k, v := range st.mem {
		elem := false
		for a := k; a != r && (a.Op == OFieldAddr || a.Op == OIdxAddr || a.Op == OSlice); a = a.Args[0] {
			elem = elem || a.Op == OIdxAddr && types.Identical(elemTypeOf(a.Args[0].T), elemTypeOf(l.T))
		}
		if elem && (rootOf(k) == r || !isFresh(r) && !isFresh(rootOf(k))) {
			lost = append(lost, v)
			delete(st.mem, k)
		}
	}
	for o := range st.reach(lost) {
		st.flags[o] |= flEscaped
	}
	if isFresh(r) {
		st.flags[r] |= flSummary
		st.flags[l] |= flSummary
		st.bump("i:" + itoa(l.ID))
		st.bump("i:" + itoa(r.ID))
		st.bump("r:" + itoa(r.ID))
	}
	return true
}

// onlyComputes: the function changes nothing that it does not own
func onlyComputes(fn *ssa.Function, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); !ok || al.Heap {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.Select:
				return false
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					if n := x.Call.Value.Name(); n != "len" && n != "cap" && n != "min" && n != "max" {
						return false
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil {
					return false
				}
				if pureFns[f.String()] || f.String() == "strings.Compare" || f.String() == "strings.EqualFold" {
					continue
				}
				if !onlyComputes(f, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func elemTypeOf(t types.Type) types.Type {
	if e := elemType(t); e != nil {
		return e
	}
	return types.Typ[types.Invalid]
}

func (e *Engine) havocArgs(st *State, args []*Term) {
	var direct []*Term
	var clos []*Term
	for _, a := range args {
		if a == nil {
			continue
		}
		direct = append(direct, a)
	}
	roots := st.reach(direct)
	// closures: only the captured variables they write can change
	_ = clos
	ro := map[*Term]bool{}
	for _, a := range direct {
		e.readOnlyCaptures(st, a, ro)
	}
	for r := range roots {
		if ro[r] {
			st.flags[r] |= 0
			continue
		}
		st.havoc(r)
	}
}

// readOnlyCaptures: variables captured by closures that never assign them (and do not pass on their address)
func (e *Engine) readOnlyCaptures(st *State, t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Op == OClosure {
			for i, fv := range x.Fn.FreeVars {
				if i < len(x.Args) && x.Args[i].Op == OAlloc && readOnlyVar(fv) && escapesOnlyReadOnly(x.Args[i]) {
					out[x.Args[i]] = true
				}
			}
		}
		if isFresh(x) {
			for k, v := range st.mem {
				if rootOf(k) == x {
					rec(v)
				}
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

func escapesOnlyReadOnly(*Term) bool { return true }

// readOnlyVar: the captured variable is only loaded
func readOnlyVar(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnlyVar(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnlyVar(x) {
				return false
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !readOnlyVar(f.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []*Term, pos token.Pos, deferOf int) []Outcome {
	one := func(t *Term) []Outcome { return []Outcome{{St: st, Vals: []*Term{t}}} }
	switch name {
	case "len":
		x := args[0]
		e.access(st, "len", x, fr, pos)
		if n := arrayLen(x.T); n >= 0 && x.T != nil {
			return one(mkInt(n))
		}
		if x.Op == OMapLit {
			return one(mkInt(int64(len(x.Args) / 2)))
		}
		if isMapTerm(x) {
			if x.Op == OMakeMap && st.flags[x]&(flEscaped|flSummary) == 0 {
				n := 0
				for k, v := range st.mem {
					if k.Op == OIdxAddr && k.Args[0] == x && v != deletedTerm {
						n++
					}
				}
				return one(mkInt(int64(n)))
			}
			ep := st.epochs[mapEpoch(x)]
			return one(intern(Term{Op: OLen, Args: []*Term{x}, N: ep, T: types.Typ[types.Int]}, ""))
		}
		return one(st.facts.norm(mkLen(x)))
	case "cap":
		if n := arrayLen(args[0].T); n >= 0 {
			return one(mkInt(n))
		}
		return one(mkCap(args[0]))
	case "append":
		return one(e.appendTo(st, fr, args[0], args[1], c.Args[0].Type(), pos))
	case "copy":
		e.access(st, "copyfrom", args[1], fr, pos)
		e.access(st, "copyto", args[0], fr, pos)
		ev := e.event(st, "copy", "copy", nil, args, fr, pos)
		st.add(ev)
		dst, src := args[0], args[1]
		r := rootOf(dst)
		if els, ok := st.elems(src); ok && isFresh(r) {
			if d, ok := st.elems(dst); ok && len(d) <= 64 {
				for i := range els {
					if i < len(d) {
						st.store(mkIdxAddr(dst, mkInt(int64(i))), els[i], nil)
					}
				}
				n := len(els)
				if len(d) < n {
					n = len(d)
				}
				return one(mkInt(int64(n)))
			}
		}
		st.flags[dst] |= flSummary
		st.flags[r] |= flSummary
		for k := range st.mem {
			if rootOf(k) == r && k != r {
				delete(st.mem, k)
			}
		}
		st.bump("r:" + itoa(r.ID))
		ev.Res = mkCall(e.nextID(), "copy", types.Typ[types.Int])
		return one(ev.Res)
	case "delete":
		e.access(st, "mapdelete", mkIdxAddr(args[0], args[1]), fr, pos)
		ev := e.event(st, "mapdelete", "delete", nil, args, fr, pos)
		st.add(ev)
		m, k := args[0], args[1]
		if m.isNil() {
			return []Outcome{{St: st}}
		}
		for cl := range st.mem {
			if cl.Op == OIdxAddr && isMapTerm(cl.Args[0]) && cl.Args[0] == m {
				if eq, ok := st.facts.equal(cl.Args[1], k); ok && !eq {
					continue
				}
				delete(st.mem, cl)
			}
		}
		st.bump(mapEpoch(m))
		st.mem[mkIdxAddr(m, k)] = deletedTerm
		return []Outcome{{St: st}}
	case "clear":
		e.access(st, "mapclear", args[0], fr, pos)
		ev := e.event(st, "mapclear", "clear", nil, args, fr, pos)
		st.add(ev)
		m := args[0]
		for cl := range st.mem {
			if cl.Op == OIdxAddr && cl.Args[0] == m {
				delete(st.mem, cl)
			}
		}
		st.bump(mapEpoch(m))
		return []Outcome{{St: st}}
	case "recover":
		if fr.deferOf != 0 {
			if v, ok := st.panics[fr.deferOf]; ok && v != nil {
				delete(st.panics, fr.deferOf)
				st.add(&Event{Kind: "recover", Fn: fr.fn, Pos: pos, ID: e.nextID(), Args: []*Term{v}})
				return one(v)
			}
		} else if deferOf != 0 {
			// defer recover(): does not recover (called directly by the deferred mechanism)
			return one(mkNil())
		}
		return one(mkNil())
	case "close":
		st.add(e.event(st, "close", "close", nil, args, fr, pos))
		return []Outcome{{St: st}}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			cond := mkLt(a, r)
			if name == "max" {
				cond = mkLt(r, a)
			}
			if v, ok := st.facts.decide(cond); ok {
				if v {
					r = a
				}
			} else {
				r = mkPure(name, r.T, r, a)
			}
		}
		return one(r)
	case "print", "println":
		st.add(e.event(st, "call", name, nil, args, fr, pos))
		return []Outcome{{St: st}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "String":
		return one(intern(Term{Op: OConv, Args: []*Term{args[0]}, N: e.nextID(), T: types.Typ[types.String]}, "string"))
	case "StringData", "SliceData", "Slice":
		return one(mkPure("unsafe."+name, c.Signature().Results().At(0).Type(), args...))
	}
	panic(undecided("builtin " + name))
}

func (e *Engine) appendTo(st *State, fr *Frame, base, extra *Term, t types.Type, pos token.Pos) *Term {
	ev := e.event(st, "append", "append", nil, []*Term{base, extra}, fr, pos)
	if extra.isNil() || extra.Op == OList && len(extra.Args) == 0 {
		ev.Res = base
		st.add(ev)
		return base
	}
	var ex *Term = extra
	if els, ok := st.elems(extra); ok && !isStringType(extra.T) {
		if len(els) == 0 {
			ev.Res = base
			st.add(ev)
			return base
		}
		ex = mkList(t, els...)
	}
	bs := base
	if els, ok := st.elems(base); ok {
		// the elements are copied or shared; either way they are these
		bs = mkList(t, els...)
	}
	ep := 0
	if !isStringOrBytes(ex.T) || ex.Op != OConv {
		ep = st.elemEpoch(ex)
	}
	r := intern(Term{Op: OAppend, Args: []*Term{bs, ex}, N: e.nextID(), T: t, ext: appendInfo{base, ep}}, "")
	ev.Res = r
	st.add(ev)
	return r
}

type callCtx struct {
	e       *Engine
	st      *State
	fr      *Frame
	fn      *ssa.Function
	sig     *types.Signature
	args    []*Term
	pos     token.Pos
	deferOf int
	name    string
}
