package main

// Rules for pattern registration and segment matching.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C05"] = spec{run: checkRegistration, min: 20,
		explain: "every path of Router.Handle and Matcher.AddPattern; loops over segments and siblings are summarised by fixpoints. Rules: no normal return after a parse or add error, the handler is attached before the pattern is added, a pattern slot is only written when empty, every successful way has written the new pattern in the iteration of the last segment, and siblings are skipped (followed) only when they are distinguishable (indistinguishable) under the match kind",
		assume:  []string{"regular expressions are compared by their source text; two different texts for the same language count as distinguishable"}}
	specs["C06"] = spec{run: checkSegmentMatch, min: 16,
		explain: "every path of segment.matchUrlPathSegment is compared, for every match kind and both case settings, with the decision table of the specification",
		assume:  []string{"strings.EqualFold is the meaning of equal up to letter case"}}
	specs["C07"] = spec{run: checkCaseFlag, min: 8,
		explain: "def-use analysis of the case flag from the configuration to every consumer: NewRouter, ParsePattern (including the compiled expressions), the matchers, every segment comparison; the fields that carry it are written by their constructors only"}
}

func (p *Program) ptrField(t types.Type, f func(types.Type) bool, what string) int {
	st := structOf(t)
	found := -1
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if f(st.Field(i).Type()) {
			if found >= 0 {
				panic(undecided("more than one field for " + what + " in " + t.String()))
			}
			found = i
		}
	}
	if found < 0 {
		panic(undecided("no field for " + what + " in " + t.String()))
	}
	return found
}

func (c *Check) fieldByName(t types.Type, name string) int {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(undecided("no field " + name + " in " + t.String()))
}

func isNamedPtr(key string) func(types.Type) bool {
	return func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && typeKey(p.Elem()) == key
	}
}

// ---- C05

func checkRegistration(c *Check) {
	rc := c.router(nil)
	c.paths += len(rc.reg)
	okRuns := 0
	patT := c.p.typ("router/path", "Pattern")
	att := c.fieldByName(patT, "Attachment")
	for _, o := range rc.reg {
		s := scopeOf(o.St)
		parses := s.events(isCall(fnPattern))
		adds := s.events(isCall(fnAdd))
		pos := lastPos(s)
		if o.Panic != nil {
			failed := false
			for _, e := range parses {
				failed = failed || !s.isNil(mkExtract(e.Res, 1))
			}
			for _, e := range adds {
				failed = failed || !s.isNil(e.Res)
			}
			c.require(failed, "panics-only-on-error", pos, &s, "Handle panics although the pattern was parsed and added")
			continue
		}
		okRuns++
		if !c.require(len(parses) == 1 && len(s.loopEvents(isCall(fnPattern))) == 0 && same(s, parses[0].Args[0], rc.pattern), "parsed-once", pos, &s, "Handle returns without having parsed the given pattern exactly once") {
			continue
		}
		if !c.require(len(adds) == 1 && len(s.loopEvents(isCall(fnAdd))) == 0, "added-once", pos, &s, "Handle returns without having added the pattern exactly once") {
			continue
		}
		for _, u := range s.events(func(e *Event) bool { return e.Kind == "mapupdate" && isMatcherMap(e.Args[0].T) }) {
			c.require(entryMissing(s, u), "routes-kept", u.Pos, &s, "the routes registered before for a method are replaced: the entry %s of the table is set without knowing that there is none", u.Args[1])
		}
		pat := mkExtract(parses[0].Res, 0)
		c.require(s.isNil(mkExtract(parses[0].Res, 1)), "parse-error-panics", parses[0].Pos, &s, "Handle returns although the pattern did not parse")
		c.require(s.isNil(adds[0].Res), "add-error-panics", adds[0].Pos, &s, "Handle returns although the pattern could not be added")
		c.require(same(s, adds[0].Args[1], pat), "adds-parsed-pattern", adds[0].Pos, &s, "another pattern than the parsed one is added")
		var last *Event
		lastAt := -1
		addr := mkFieldAddr(pat, att)
		for _, e := range s.events(func(e *Event) bool { return e.Kind == "store" && e.Args[0] == addr }) {
			last, lastAt = e.Event, e.i
		}
		ok := last != nil && lastAt < adds[0].i && stripIface(last.Args[1]) == rc.handler
		if last != nil {
			v := last.Args[1]
			ok = ok && v.Op == OIface && typeKey(v.T) == typeKey(c.handlerType())
		}
		c.require(ok, "handler-attached", adds[0].Pos, &s, "the pattern is added without the handler of this registration attached to it")
	}
	c.require(okRuns > 0, "registers", token.NoPos, nil, "Handle never returns")
	c.checkAddPattern()
}

// entryMissing: before the entry of a map is set, it was found not to be there (or it is set to what was found)
func entryMissing(s Scope, u EvAt) bool {
	for i, it := range s.items {
		if i >= u.i {
			break
		}
		f, ok := it.(*FactItem)
		if !ok {
			continue
		}
		var of *Term
		switch {
		case f.Val && f.T.Op == OBin && f.T.S == "==" && f.T.Args[0].isNil():
			of = stripConv(f.T.Args[1])
		case f.Val && f.T.Op == OBin && f.T.S == "==" && f.T.Args[1].isNil():
			of = stripConv(f.T.Args[0])
		case !f.Val && f.T.Op == OLookupOk:
			of = f.T
		}
		if of != nil && (of.Op == OLookup || of.Op == OLookupOk) && of.Args[0] == u.Args[0] && same(s, of.Args[1], u.Args[1]) {
			return true
		}
	}
	v := stripConv(u.Args[2])
	return v.Op == OLookup && v.Args[0] == u.Args[0] && same(s, v.Args[1], u.Args[1])
}

func lastPos(s Scope) token.Pos { r := run{Scope: s}; return r.pos() }

func (c *Check) checkAddPattern() {
	e := c.engine()
	e.allStores = true
	fn := c.p.fn("router/path", "Matcher.AddPattern")
	m, pat := mkSym("m", fn.Params[0].Type()), mkSym("pattern", fn.Params[1].Type())
	patKey := typeKey(deref(pat.T))
	st := newState(e)
	st.facts.assume(mkEq(m, mkNil()), false)
	st.facts.assume(mkEq(pat, mkNil()), false)
	segT := c.p.typ("router/path", "segment")
	segsField := c.p.ptrField(deref(pat.T), func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && typeKey(deref(s.Elem())) == typeKey(segT)
	}, "segments")
	segs := mkLoad(mkFieldAddr(pat, segsField), 0)
	outs := e.callFn(st, fn, []*Term{m, pat}, nil, 0)
	c.paths += len(outs)
	isSlot := func(ev *Event) bool {
		return ev.Kind == "store" && ev.Args[0].Op == OFieldAddr && isNamedPtr(patKey)(deref(ev.Args[0].T))
	}
	stored := func(s Scope) bool {
		hit := false
		s.everyOnce(map[loopAt]bool{}, func(_ Scope, ev EvAt) {
			if isSlot(ev.Event) && stripConv(ev.Args[1]) == pat {
				hit = true
			}
		})
		return hit
	}
	seenEv := map[*Event]bool{}
	slots := map[loopAt]bool{}
	searching := map[*LoopNode]bool{}
	lastStep := map[*LoopTrans]bool{}
	seenLoop, inside := map[*LoopNode]bool{}, map[loopAt]bool{}
	ok := 0
	for _, o := range outs {
		s := scopeOf(o.St)
		if o.Panic != nil {
			c.require(false, "no-panic", lastPos(s), &s, "AddPattern panics")
			continue
		}
		// a slot is written only when it is empty
		s.everyOnce(slots, func(in Scope, ev EvAt) {
			if !isSlot(ev.Event) || seenEv[ev.Event] {
				return
			}
			seenEv[ev.Event] = true
			root := rootOf(ev.Args[0])
			empty := ev.Prev != nil && in.upto(ev.i).isNil(ev.Prev) || isFresh(root)
			c.require(empty, "slot-empty-before-write", ev.Pos, &in, "the pattern of an earlier registration may be replaced")
			c.require(stripConv(ev.Args[1]) == pat, "slot-gets-own-pattern", ev.Pos, &in, "another pattern than the registered one is stored")
		})
		c.siblings(s, m, pat, segT, seenLoop, inside, searching)
		for _, q := range (run{Scope: s, o: o, e: e, st: o.St, err: o.Vals[0]}).byErr() {
			if !q.isNil(q.err) {
				continue
			}
			ok++
			pos := lastPos(q.Scope)
			done := false
			for _, ev := range q.events(isSlot) {
				done = done || stripConv(ev.Args[1]) == pat
			}
			// written in the iteration of the last segment
			for at, it := range q.items {
				x, isL := it.(*LoopExit)
				if !isL || done {
					continue
				}
				elem, cov := q.covers(at, segs)
				if !cov {
					continue
				}
				all := true
				for _, t := range x.transitions() {
					if t.To != x.Part {
						continue // not the last iteration
					}
					f := t.St.facts.clone()
					idx := elem(t).idx
					if idx == nil {
						all = false
						break
					}
					if !f.assume(mkLt(mkBin("+", idx, mkInt(1), tInt), mkLen(segs)), false) || !f.consistent() {
						continue
					}
					ts := transScope(t)
					if lastStep[t] {
						continue
					}
					if !c.require(stored(ts), "stored-at-last-segment", lastPos(ts), &ts, "a registration succeeds without storing its pattern") {
						all = false
						continue
					}
					c.attached(ts, pat, isSlot)
					lastStep[t] = true
				}
				// the loop runs at least once; a way that has no last iteration does not exist
				done = all && q.facts.never(mkEq(mkLen(segs), mkInt(0)))
			}
			c.require(done, "success-means-stored", pos, &q.Scope, "AddPattern may return without error although the pattern was not stored")
		}
	}
	c.require(ok > 0, "adds", token.NoPos, nil, "AddPattern never succeeds")
	c.require(len(seenLoop) > 0, "siblings-compared", token.NoPos, nil, "the siblings of a node are not searched for an equal one")
}

type loopAt struct {
	n    *LoopNode
	part int
}

// attached: a new node that holds the pattern is put into the list of some other node
func (c *Check) attached(ts Scope, pat *Term, isSlot func(*Event) bool) {
	for _, ev := range ts.events(isSlot) {
		root := rootOf(ev.Args[0])
		if !isFresh(root) {
			continue
		}
		in := false
		ts.everyOnce(map[loopAt]bool{}, func(_ Scope, e2 EvAt) {
			if e2.Kind == "store" && rootOf(e2.Args[0]) != root && contains(e2.Args[1], root) {
				in = true
			}
		})
		c.require(in, "new-node-attached", ev.Pos, &ts, "the node made for the pattern is not reachable from the tree")
	}
}

// siblings checks how the loops over sibling nodes decide that a child stands for the same segment
func (c *Check) siblings(s Scope, m, pat *Term, segT types.Type, seen map[*LoopNode]bool, inside map[loopAt]bool, searching map[*LoopNode]bool) {
	nodeT := c.p.typ("router/path", "node")
	segF := c.fieldByName(nodeT, "segment")
	mtF, valF, reF := c.fieldByName(segT, "matchType"), c.fieldByName(segT, "val"), c.fieldByName(segT, "captureVarPattern")
	ciF := c.p.ptrField(deref(m.T), func(t types.Type) bool { return isBoolType(t) }, "case flag")
	mtConst := func(n string) *Term {
		k := c.p.pkg("router/path").Pkg.Scope().Lookup(n).(*types.Const)
		return mkConst(k.Val(), k.Type())
	}
	var walk func(s Scope)
	segKey, nodeKey := isNamedPtr(typeKey(segT)), isNamedPtr(typeKey(nodeT))
	collect := func(items []any) (segsOf []*Term, children []*Term) {
		ss, cs := map[*Term]bool{}, map[*Term]bool{}
		add := func(t *Term) {
			containsF(t, func(x *Term) bool {
				if x.Op == OLoad && segKey(x.T) {
					if contains(x, pat) {
						ss[x] = true
					}
				}
				if x.Op == OLoad && x.Args[0].Op == OIdxAddr && nodeKey(x.T) {
					cs[x] = true
				}
				return false
			})
		}
		for _, it := range items {
			switch x := it.(type) {
			case *FactItem:
				add(x.T)
			case *Event:
				for _, a := range x.Args {
					add(a)
				}
			}
		}
		return sortTerms(ss), sortTerms(cs)
	}
	fld := func(st *State, base *Term, i int) *Term { return st.load(mkFieldAddr(base, i)) }
	// relation: 1 same, -1 different, 0 unknown
	relationOf := func(f *Facts, st *State, seg, cs *Term) int {
		mc, ms := fld(st, cs, mtF), fld(st, seg, mtF)
		if f.never(mkEq(mc, ms)) {
			return -1
		}
		if !f.always(mkEq(mc, ms)) {
			return 0
		}
		is := func(n string) (bool, bool) {
			if v, ok := f.decide(mkEq(mc, mtConst(n))); ok {
				return v, true
			}
			return f.decide(mkEq(ms, mtConst(n)))
		}
		for _, n := range []string{"MatchTypeCaptureVar", "MatchTypeSingleSegment", "MatchTypeMultipleSegments"} {
			if v, ok := is(n); ok && v {
				return 1
			}
		}
		eq := func(t *Term) int {
			if v, ok := f.decide(t); ok {
				if v {
					return 1
				}
				return -1
			}
			return 0
		}
		if v, ok := is("MatchTypeConstraintCaptureVar"); ok && v {
			a := mkPure("(*regexp.Regexp).String", tString, fld(st, cs, reF))
			b := mkPure("(*regexp.Regexp).String", tString, fld(st, seg, reF))
			if r := eq(mkEq(a, b)); r != 0 {
				return r
			}
			if f.always(mkEq(fld(st, cs, reF), fld(st, seg, reF))) {
				return 1
			}
			return 0
		}
		for _, n := range []string{"MatchTypeCaptureVar", "MatchTypeSingleSegment", "MatchTypeMultipleSegments", "MatchTypeConstraintCaptureVar"} {
			if v, ok := is(n); !ok || v {
				return 0
			}
		}
		a, b := fld(st, cs, valF), fld(st, seg, valF)
		if v, ok := f.decide(fld(st, m, ciF)); ok && !v {
			return eq(mkEq(a, b))
		} else if ok {
			return eq(mkEqualFold(a, b))
		}
		return 0
	}
	relation := func(sc Scope, st *State, seg, child *Term) int {
		if r := relationOf(sc.facts, st, seg, fld(st, child, segF)); r != 0 {
			return r
		}
		// the node may get the equal segment of this pattern for its own afterwards
		for _, cs := range loadsIn(sc, child, segF) {
			if r := relationOf(sc.facts, st, seg, cs); r != 0 {
				return r
			}
		}
		return 0
	}
	walk = func(s Scope) {
		for at, it := range s.items {
			x, ok := it.(*LoopExit)
			if !ok {
				continue
			}
			over, known := searching[x.Node]
			for i := range x.Node.Trans {
				if known {
					break
				}
				t := &x.Node.Trans[i]
				_, cs := collect(t.Items)
				for _, ch := range cs {
					for _, v := range x.Node.Vars {
						over = over || contains(ch.Args[0].Args[1], v.Top)
					}
				}
			}
			searching[x.Node] = over
			if over && !seen[x.Node] {
				seen[x.Node] = true
				for i := range x.Node.Trans {
					t := &x.Node.Trans[i]
					ts := transScope(t)
					segsOf, cs := collect(t.Items)
					diff := false
					for _, sg := range segsOf {
						for _, ch := range cs {
							diff = diff || relation(ts, t.St, sg, ch) == -1
						}
					}
					c.require(diff, "skips-only-distinguishable", lastPos(ts), &ts, "a sibling that may be indistinguishable from the new segment is passed over, so a duplicate would be registered")
				}
			}
			if over {
				c.followed(s.from(at+1), collect, relation)
			}
			if inside[loopAt{x.Node, x.Part}] {
				continue
			}
			inside[loopAt{x.Node, x.Part}] = true
			for _, t := range x.transitions() {
				walk(transScope(t))
			}
		}
	}
	walk(s)
}

// followed: when an existing sibling is taken (its pattern slot or list is used), it must stand for the same segment
func (c *Check) followed(after Scope, collect func([]any) ([]*Term, []*Term), relation func(Scope, *State, *Term, *Term) int) {
	// the decision is part of the iteration in which the search loop was left
	segsOf, cs := collect(after.items)
	st := newState(c.engines[len(c.engines)-1])
	for _, ch := range cs {
		used := false
		for _, it := range after.items {
			if ev, ok := it.(*Event); ok && ev.Kind == "store" && contains(ev.Args[0], ch) {
				used = true
			}
		}
		if !used {
			continue
		}
		okk := false
		for _, sg := range segsOf {
			okk = okk || relation(after, st, sg, ch) == 1
		}
		c.require(okk, "follows-only-same", lastPos(after), &after, "an existing node is taken for a segment it may not stand for")
	}
}

// ---- C06

func checkSegmentMatch(c *Check) {
	fn := c.p.fn("router/path", "segment.matchUrlPathSegment")
	segT := c.p.typ("router/path", "segment")
	usT := c.p.typ("router/path", "UrlSegment")
	e := c.engine()
	e.pureOpaque[pathPkg+".regexSegmentMatch"] = true
	args := symParams(fn, "")
	s, urlPath, us, ci := args[0], args[1], args[2], args[3]
	st := newState(e)
	st.facts.assume(mkEq(s, mkNil()), false)
	st.facts.assume(mkEq(us, mkNil()), false)
	ld := func(b *Term, t types.Type, n string) *Term { return mkLoad(mkFieldAddr(b, c.fieldByName(t, n)), 0) }
	mt, val, re := ld(s, segT, "matchType"), ld(s, segT, "val"), ld(s, segT, "captureVarPattern")
	text := mkSlice(urlPath, ld(us, usT, "startIndex"), ld(us, usT, "endIndex"), nil, tString)
	kind := func(n string) *Term {
		k := c.p.pkg("router/path").Pkg.Scope().Lookup(n).(*types.Const)
		return mkConst(k.Val(), k.Type())
	}
	unknown := kind("MatchTypeUnknown")
	outs := e.callFn(st, fn, args, nil, 0)
	c.paths += len(outs)
	seen := map[string]bool{}
	for _, o := range outs {
		if o.Panic != nil {
			sc := scopeOf(o.St)
			c.require(false, "no-panic", lastPos(sc), &sc, "matching a segment panics")
			continue
		}
		for _, n := range []string{"MatchTypeLiteral", "MatchTypeConstraintCaptureVar", "MatchTypeCaptureVar", "MatchTypeRegex", "MatchTypeSingleSegment", "MatchTypeMultipleSegments", ""} {
			a := o.St.fork()
			feasible := true
			if n != "" {
				feasible = a.assume(mkEq(mt, kind(n)), true, fn.Pos())
			} else {
				for _, k := range []string{"MatchTypeLiteral", "MatchTypeConstraintCaptureVar", "MatchTypeCaptureVar", "MatchTypeRegex", "MatchTypeSingleSegment", "MatchTypeMultipleSegments"} {
					feasible = feasible && a.assume(mkEq(mt, kind(k)), false, fn.Pos())
				}
			}
			if !feasible {
				continue
			}
			for _, fold := range []bool{false, true} {
				b := a.fork()
				if !b.assume(ci, fold, fn.Pos()) {
					continue
				}
				var cond *Term
				switch n {
				case "MatchTypeLiteral":
					cond = mkEq(text, val)
					if fold {
						cond = mkEqualFold(text, val)
					}
				case "MatchTypeConstraintCaptureVar":
					cond = mkPure("(*regexp.Regexp).MatchString", types.Typ[types.Bool], re, text)
				case "MatchTypeRegex":
					cond = mkPure(pathPkg+".regexSegmentMatch", types.Typ[types.Bool], text, val, mkBool(fold))
					alt := mkPure(pathPkg+".regexSegmentMatch", types.Typ[types.Bool], text, val, ci)
					if _, ok := b.facts.decide(alt); ok {
						cond = alt
					}
				case "":
					cond = mkBool(false)
				default:
					cond = mkBool(true)
				}
				for _, hit := range []bool{true, false} {
					d := b.fork()
					if !d.assume(cond, hit, fn.Pos()) {
						continue
					}
					want := unknown
					if hit {
						want = kind(n)
					}
					sc := scopeOf(d)
					seen[n+itoa(b2i(hit))] = true
					c.require(same(sc, o.Vals[0], want) || d.facts.always(mkEq(o.Vals[0], want)), "decision-table", lastPos(scopeOf(o.St)), &sc, "kind %s (ignoring case %v, specified to match %v) yields %s", n, fold, hit, o.Vals[0])
				}
			}
		}
	}
	for _, k := range []string{"MatchTypeLiteral1", "MatchTypeLiteral0", "MatchTypeConstraintCaptureVar1", "MatchTypeConstraintCaptureVar0", "MatchTypeRegex1", "MatchTypeRegex0", "MatchTypeCaptureVar1", "MatchTypeSingleSegment1", "MatchTypeMultipleSegments1"} {
		c.require(seen[k], "table-covered", fn.Pos(), nil, "case %s does not occur", k)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C07

// origins follows a value back to where it comes from, through local variables, parameters and captured variables
func (c *Check) origins(v ssa.Value, f func(v ssa.Value) (done bool)) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if f(v) {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				f(nil)
				return
			}
			switch a := x.X.(type) {
			case *ssa.Alloc:
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						n++
						rec(s.Val)
					}
				}
				if n == 0 {
					f(nil)
				}
			case *ssa.FreeVar:
				rec(a)
			default:
				f(nil)
			}
		case *ssa.Parameter:
			calls := c.callsTo(x.Parent())
			idx := -1
			for i, p := range x.Parent().Params {
				if p == x {
					idx = i
				}
			}
			if len(calls) == 0 || idx < 0 {
				f(nil)
			}
			for _, cc := range calls {
				if idx < len(cc.Args) {
					rec(cc.Args[idx])
				}
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			idx := -1
			for i, p := range fn.FreeVars {
				if p == x {
					idx = i
				}
			}
			n := 0
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						n++
						bind := mc.Bindings[idx]
						if a, ok := bind.(*ssa.Alloc); ok {
							for _, r := range *a.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == a {
									rec(s.Val)
								}
							}
						} else {
							rec(bind)
						}
					}
				}
			}
			if n == 0 {
				f(nil)
			}
		default:
			f(nil)
		}
	}
	rec(v)
}

// callsTo lists the static calls of a function in the repository
func (c *Check) callsTo(fn *ssa.Function) (out []*ssa.CallCommon) {
	for _, f := range c.p.repoFunctions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					out = append(out, ci.Common())
				}
			}
		}
	}
	return
}

func (c *Check) fieldLoad(v ssa.Value, t types.Type, name string) bool {
	u, ok := v.(*ssa.UnOp)
	if ok && u.Op == token.MUL {
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && types.Identical(deref(fa.X.Type()), t) && structOf(t).Field(fa.Field).Name() == name
	}
	if f, ok := v.(*ssa.Field); ok {
		return types.Identical(f.X.Type(), t) && structOf(t).Field(f.Field).Name() == name
	}
	return false
}

// flowsFrom: every origin of the value is the given field
func (c *Check) flowsFrom(v ssa.Value, t types.Type, name string) bool {
	ok, any := true, false
	c.origins(v, func(x ssa.Value) bool {
		if x == nil {
			ok = false
			return true
		}
		if c.fieldLoad(x, t, name) {
			any = true
			return true
		}
		if _, isC := x.(*ssa.Const); isC {
			ok = false
			return true
		}
		return false
	})
	return ok && any
}

func checkCaseFlag(c *Check) {
	matcherT := c.p.typ("router/path", "Matcher")
	routerT := c.p.typ("router", "Router")
	isBool := func(t types.Type) bool { return isBoolType(t) }
	mf := structOf(matcherT).Field(c.p.ptrField(matcherT, isBool, "case flag")).Name()
	rf := structOf(routerT).Field(c.p.ptrField(routerT, isBool, "case flag")).Name()
	cfgT := c.p.typ("", "Config")

	// configuration to router
	nr := c.p.fn("router", "NewRouter")
	made := 0
	for _, f := range c.p.repoFunctions() {
		if f.Pkg == nil || f.Pkg != c.p.pkg("") && !inPkg(f, c.p.pkg("")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !returnsPtr(g, routerT) || g.Pkg == nil || g.Pkg != c.p.pkg("router") || g.Signature.Recv() != nil {
					continue
				}
				made++
				ok = g == nr && c.flowsFrom(ci.Common().Args[0], cfgT, "CaseInsensitivePathMatch")
				c.require(ok, "config-to-router", ci.Pos(), nil, "the router is not made with the configured case sensitivity")
			}
		}
	}
	c.require(made > 0, "router-made", token.NoPos, nil, "no router is made from a configuration")

	// router to patterns and matchers
	rc := c.router(nil)
	adds := 0
	for _, o := range rc.reg {
		s := scopeOf(o.St)
		for _, ev := range s.events(isCall(fnPattern)) {
			c.require(same(s, ev.Args[1], rc.ci), "router-to-pattern", ev.Pos, &s, "the pattern is not parsed with the case sensitivity of the router")
		}
		for _, ev := range s.events(isCall(fnAdd)) {
			m := stripConv(ev.Args[0])
			adds++
			if isFresh(m) {
				v := o.St.load(mkFieldAddr(m, c.fieldByName(matcherT, mf)))
				c.require(same(s, v, rc.ci), "router-to-matcher", ev.Pos, &s, "the matcher is not made with the case sensitivity of the router")
			}
		}
		for _, ev := range s.events(func(e *Event) bool { return e.Kind == "mapupdate" && isMatcherMap(e.Args[0].T) }) {
			v := stripConv(ev.Args[2])
			c.require(isFresh(v), "matcher-made-here", ev.Pos, &s, "the matcher stored for a method is not a new one")
		}
	}
	c.require(adds > 0, "patterns-added", token.NoPos, nil, "no pattern is added")

	// the flags are set by constructors only
	for _, f := range c.p.repoFunctions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := deref(fa.X.Type())
				name := ""
				if st := structOf(t); st != nil {
					name = st.Field(fa.Field).Name()
				}
				flag := types.Identical(t, matcherT) && name == mf || types.Identical(t, routerT) && name == rf || types.Identical(t, cfgT) && name == "CaseInsensitivePathMatch"
				if flag {
					_, local := fa.X.(*ssa.Alloc)
					if strings_HasSuffix(f, "/examples") {
						continue
					}
					c.require(local, "flag-fixed-after-construction", s.Pos(), nil, "%s changes the case sensitivity of an existing object", f.Name())
				}
			}
		}
	}

	// every comparison of a segment
	seg := c.p.fn("router/path", "segment.matchUrlPathSegment")
	calls := 0
	for _, f := range c.p.repoFunctions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != seg {
					continue
				}
				calls++
				c.require(c.flowsFrom(ci.Common().Args[3], matcherT, mf), "matcher-to-segment", ci.Pos(), nil, "a segment is compared with another case sensitivity than the matcher's")
			}
		}
	}
	c.require(calls > 0, "segments-compared", token.NoPos, nil, "no segment is compared")

	c.checkCompiled()
}

func strings_HasSuffix(f *ssa.Function, s string) bool {
	return f.Pkg != nil && len(f.Pkg.Pkg.Path()) >= len(s) && f.Pkg.Pkg.Path()[len(f.Pkg.Pkg.Path())-len(s):] == s
}

func inPkg(f *ssa.Function, p *ssa.Package) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg == p {
			return true
		}
	}
	return false
}

func returnsPtr(g *ssa.Function, t types.Type) bool {
	r := g.Signature.Results()
	return r.Len() >= 1 && types.Identical(deref(r.At(0).Type()), t)
}

// checkCompiled: the constraint expressions of a pattern are compiled with the case flag of the pattern
func (c *Check) checkCompiled() {
	fn := c.p.fn("router/path", "ParsePattern")
	compile := map[string]bool{"regexp.Compile": true, "regexp.MustCompile": true, "regexp.CompilePOSIX": true, "regexp.MustCompilePOSIX": true}
	e := c.engine()
	for k := range compile {
		e.opaque[k] = true
	}
	e.noInline = func(f *ssa.Function) bool { return !c.p.reaches(f, compile) }
	args := symParams(fn, "")
	st := newState(e)
	outs := e.callFn(st, fn, args, nil, 0)
	c.paths += len(outs)
	seen := map[*Event]bool{}
	on, off := 0, 0
	for _, o := range outs {
		scopeOf(o.St).every(func(in Scope, ev EvAt) {
			if ev.Kind != "call" || !compile[ev.Name] || seen[ev.Event] {
				return
			}
			seen[ev.Event] = true
			at := in.upto(ev.i)
			v, ok := at.facts.decide(args[1])
			src := at.facts.norm(ev.Args[0])
			first := src
			for first.Op == OConcat {
				first = first.Args[0]
			}
			pre, isC := first.strVal()
			if !c.require(ok, "expression-follows-flag", ev.Pos, &in, "the expression is compiled without regard to the case sensitivity") {
				return
			}
			if v {
				on++
				c.require(isC && pre == "(?i)", "expression-ignores-case", ev.Pos, &in, "the expression is compiled case-sensitively although the pattern ignores case")
			} else {
				off++
				c.require(!isC, "expression-respects-case", ev.Pos, &in, "the expression is compiled with a flag although the pattern respects case")
			}
		})
	}
	c.require(on > 0 && off > 0, "expressions-compiled", fn.Pos(), nil, "the compilation of the constraint expressions was not found (%d/%d)", on, off)
}
