package main

import (
	"fmt"
	"go/types"
)

func init() {
	specs["C13"] = spec{run: checkGrants, min: 6,
		explain: "Role/Group/User HasPermission and HasRole are analysed as predicates; for every path and either answer the quantified conditions over the lists are decided on loop fixpoints (answer yes implies the condition, answer no implies its negation)",
		assume:  []string{"the lists are not changed during the call"}}
	specs["C14"] = spec{run: checkImplies, min: 100,
		explain: "Permission.Implies is interpreted for every pair of scopes with 1 to 4 levels (each level an unknown text without separator) and unknown access bits; every path and answer is compared with the required condition",
		assume:  []string{"scopes of at most 4 levels (validated permissions have at most 3)"}}
	specs["C15"] = spec{run: checkPermissionParsing, min: 12,
		explain: "every path of NewPermission and ParsePermission is enumerated; separator counting and colon search are decided on loop fixpoints (or their library equivalents), each failure must be justified and each success must carry exactly the parts"}
}

func checkGrants(c *Check) {
	perm := mkSym("permission", c.p.typ("auth", "Permission"))
	rname := mkSym("roleName", tString)
	const (
		implies   = "(" + authPkg + ".Permission).Implies"
		roleHas   = "(" + authPkg + ".Role).HasPermission"
		groupHas  = "(" + authPkg + ".Group).HasPermission"
		groupRole = "(" + authPkg + ".Group).HasRole"
	)
	mentions := func(s Scope, e Elem, fn string, arg *Term, want bool) bool {
		// the answer of the nested question about the element is decided
		for _, it := range s.items {
			f, ok := it.(*FactItem)
			if !ok {
				continue
			}
			hit := containsF(f.T, func(t *Term) bool {
				if t.Op != OPure || t.S != fn || !e.is(stripAddr(t.Args[0])) || !same(s, t.Args[1], arg) {
					return false
				}
				v, ok := s.facts.decide(t)
				return ok && v == want
			})
			if hit {
				return true
			}
		}
		return false
	}
	type q = func(s Scope, e Elem, want bool) bool
	var roleGrants, groupGrants, groupHasRole, roleNamed q
	impl := func(s Scope, e Elem, want bool) bool { return mentions(s, e, implies, perm, want) }
	role := func(s Scope, denied, allowed *Term, want bool) bool {
		if want {
			return s.forAll(denied, func(it Scope, e Elem) bool { return impl(it, e, false) }) &&
				s.exists(allowed, func(it Scope, e Elem) bool { return impl(it, e, true) })
		}
		return s.exists(denied, func(it Scope, e Elem) bool { return impl(it, e, true) }) ||
			s.forAll(allowed, func(it Scope, e Elem) bool { return impl(it, e, false) })
	}
	// q holds for some element of the list (or for none)
	some := func(s Scope, list *Term, f q, want bool) bool {
		if want {
			return s.exists(list, func(it Scope, e Elem) bool { return f(it, e, true) })
		}
		return s.forAll(list, func(it Scope, e Elem) bool { return f(it, e, false) })
	}
	roleGrants = func(s Scope, e Elem, want bool) bool {
		return mentions(s, e, roleHas, perm, want) || role(s, c.elemField(e, "DeniedPermissions"), c.elemField(e, "AllowedPermissions"), want)
	}
	groupGrants = func(s Scope, e Elem, want bool) bool {
		return mentions(s, e, groupHas, perm, want) || some(s, c.elemField(e, "Roles"), roleGrants, want)
	}
	roleNamed = func(s Scope, e Elem, want bool) bool {
		v, ok := s.facts.decide(mkEq(c.elemField(e, "Name"), rname))
		return ok && v == want
	}
	groupHasRole = func(s Scope, e Elem, want bool) bool {
		return mentions(s, e, groupRole, rname, want) || some(s, c.elemField(e, "Roles"), roleNamed, want)
	}
	ask := func(typ, method string, arg *Term, opaque []string, cond func(s Scope, self *Term, want bool) bool) {
		fn := c.p.fn("auth", typ+"."+method)
		e := c.engine()
		for _, o := range opaque {
			e.pureOpaque[o] = true
		}
		self := mkSym("self", fn.Params[0].Type())
		st := newState(e)
		for _, o := range e.callFn(st, fn, []*Term{self, arg}, nil, 0) {
			if o.Panic != nil {
				s := scopeOf(o.St)
				c.require(false, "no-panic", fn.Pos(), &s, "%s.%s panics", typ, method)
				continue
			}
			for _, b := range boolCases([]Outcome{o}) {
				c.paths++
				sc := b.Scope
				rule := "no-only-if-none"
				if b.val {
					rule = "yes-only-if-granted"
				}
				sv := self
				if _, isP := self.T.Underlying().(*types.Pointer); isP {
					sv = o.St.load(self)
				}
				c.require(cond(sc, sv, b.val), rule, fn.Pos(), &sc, "%s.%s answers %v although the condition for that is not established", typ, method, b.val)
			}
		}
	}
	ask("Role", "HasPermission", perm, []string{implies}, func(s Scope, self *Term, want bool) bool {
		return role(s, c.fieldOfVal(self, "DeniedPermissions"), c.fieldOfVal(self, "AllowedPermissions"), want)
	})
	ask("Group", "HasPermission", perm, []string{implies, roleHas}, func(s Scope, self *Term, want bool) bool {
		return some(s, c.fieldOfVal(self, "Roles"), roleGrants, want)
	})
	ask("User", "HasPermission", perm, []string{implies, roleHas, groupHas}, func(s Scope, self *Term, want bool) bool {
		return some(s, c.fieldOfVal(self, "Groups"), groupGrants, want)
	})
	ask("Group", "HasRole", rname, nil, func(s Scope, self *Term, want bool) bool {
		return some(s, c.fieldOfVal(self, "Roles"), roleNamed, want)
	})
	ask("User", "HasRole", rname, []string{groupRole}, func(s Scope, self *Term, want bool) bool {
		return some(s, c.fieldOfVal(self, "Groups"), groupHasRole, want)
	})
}

// stripAddr: the object behind a pointer to a known value
func stripAddr(t *Term) *Term {
	t = stripConv(t)
	if t.Op == OPtrTo {
		return t.Args[0]
	}
	return t
}

// elemField is a field of a list element, in the version before any change
func (c *Check) elemField(e Elem, name string) *Term {
	if e.idx == nil {
		panic(undecided("field of a range element"))
	}
	a := mkIdxAddr(e.list, e.idx)
	return mkLoad(c.fieldAddr(a, name), 0)
}

func checkImplies(c *Check) {
	fn := c.p.fn("auth", "Permission.Implies")
	pt := c.p.typ("auth", "Permission")
	max := 4
	mk := func(e *Engine, st *State, who string, n int) (perm *Term, levels []*Term) {
		var parts []*Term
		for i := 0; i < n; i++ {
			l := mkSym(fmt.Sprintf("%s%d", who, i), tString)
			st.facts.assume(mkLt(mkPure("strings.Index", tInt, l, mkStr("/")), mkInt(0)), true)
			levels = append(levels, l)
			if i > 0 {
				parts = append(parts, mkStr("/"))
			}
			parts = append(parts, l)
		}
		return mkStruct(pt, []*Term{mkConcat(parts...), mkSym(who+"Access", c.p.typ("auth", "Access"))}), levels
	}
	for n := 1; n <= max; n++ {
		for k := 1; k <= max; k++ {
			e := c.engine()
			st := newState(e)
			p, ps := mk(e, st, "p", n)
			q, qs := mk(e, st, "q", k)
			pa, qa := mkField(p, 1), mkField(q, 1)
			access := mkEq(mkBin("&", pa, qa, pa.T), qa)
			for _, o := range e.callFn(st, fn, []*Term{p, q}, nil, 0) {
				if o.Panic != nil {
					s := scopeOf(o.St)
					c.require(false, "no-panic", fn.Pos(), &s, "Implies panics")
					continue
				}
				for _, b := range boolCases([]Outcome{o}) {
					c.paths++
					sc := b.Scope
					star := func(i int) (bool, bool) { return sc.facts.decide(mkEq(ps[i], mkStr("*"))) }
					eq := func(i int) (bool, bool) { return sc.facts.decide(mkEq(ps[i], qs[i])) }
					av, ak := sc.facts.decide(access)
					why := ""
					refuted := false
					if !ak || !av {
						why = "the access bits are not checked"
					}
					if ak && !av {
						refuted = true
					}
					if n > k {
						refuted = true
						why = "the permission is more specific than the request"
					} else {
						for i := 0; i < n; i++ {
							s, sk := star(i)
							q, qk := eq(i)
							if !(sk && s || qk && q) {
								why = fmt.Sprintf("level %d is neither equal nor the wildcard", i)
							}
							if sk && !s && qk && !q {
								refuted = true
							}
						}
						if k > n {
							s, sk := star(n - 1)
							if !(sk && s) {
								why = "further levels are covered without a wildcard as the last level"
							}
							if sk && !s {
								refuted = true
							}
						}
					}
					if b.val {
						c.require(why == "", "implies-only-if", fn.Pos(), &sc, "%d levels imply %d levels although %s", n, k, why)
					} else {
						c.require(refuted, "implies-if", fn.Pos(), &sc, "%d levels do not imply %d levels although nothing was found missing", n, k)
					}
				}
			}
		}
	}
}

// countAtLeast / countAtMost: what the path establishes about how many separators the text holds
func (c *Check) sepCount(s Scope, text *Term, sep byte) (lo int64, hi int64) {
	lo, hi = 0, 1<<40
	sp := mkPure("strings.Split", types.NewSlice(tString), text, mkStr(string(rune(sep))))
	for k := int64(1); k < 8; k++ {
		if s.facts.never(mkLt(mkLen(sp), mkInt(k+1))) { // len >= k+1
			if k > lo {
				lo = k
			}
		}
		if s.facts.always(mkLt(mkLen(sp), mkInt(k+1))) && k-1 < hi { // len <= k
			hi = k - 1
		}
	}
	isSep := func(f *Facts, t *Term) (bool, bool) { return f.decide(mkEq(t, mkConst(constByte(sep), t.T))) }
	for at, it := range s.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		for vi, v := range x.Node.Vars {
			if !isIntType(v.Top.T) {
				continue
			}
			if k, ok := v.Init.intVal(); !ok || k != 0 {
				continue
			}
			good := true
			elemOf := func(items []any) *Term {
				for _, u := range items {
					if f, isF := u.(*FactItem); isF {
						var found *Term
						containsF(f.T, func(t *Term) bool {
							if t.Op == ONext && t.S == "elem" && t.Args[1] == text || t.Op == OIndex && t.Args[0] == text {
								found = t
								return true
							}
							return false
						})
						if found != nil {
							return found
						}
					}
				}
				return nil
			}
			for _, t := range x.transitions() {
				el := elemOf(t.Items)
				k, ok := x.step(t, vi)
				if el == nil || !ok {
					good = false
					break
				}
				hit, dec := isSep(t.St.facts, el)
				if !dec || hit && k != 1 || !hit && k != 0 {
					good = false
					break
				}
			}
			if !good {
				continue
			}
			cur := v.Top
			if pv := x.Node.Parts[x.Part].Vals[vi]; pv != nil {
				cur = pv
			}
			// the iteration the loop is left in
			extra := int64(0)
			if el := elemOf(s.items[at+1:]); el != nil {
				if hit, dec := isSep(s.facts, el); dec && hit {
					extra = 1
				}
			}
			for k := int64(1); k < 8; k++ {
				if s.facts.never(mkLt(cur, mkInt(k-extra))) && k > lo {
					lo = k
				}
			}
			if _, full := s.covers(at, text); full {
				for k := int64(7); k >= 0; k-- {
					if s.facts.never(mkLt(mkInt(k), cur)) && k < hi {
						hi = k
					}
				}
			}
		}
	}
	return
}

func checkPermissionParsing(c *Check) {
	permT := c.p.typ("auth", "Permission")
	// what is returned for a scope and access
	// NewPermission
	fn := c.p.fn("auth", "NewPermission")
	e := c.engine()
	args := symParams(fn, "")
	st := newState(e)
	for _, o := range e.callFn(st, fn, args, nil, 0) {
		c.paths++
		s := scopeOf(o.St)
		if o.Panic != nil {
			c.require(false, "no-panic", fn.Pos(), &s, "NewPermission panics")
			continue
		}
		lo, hi := c.sepCount(s, args[0], '/')
		if s.isNil(o.Vals[1]) {
			c.require(hi <= 2, "accepts-only-valid", fn.Pos(), &s, "a permission is built without having found at most two separators")
			c.require(same(s, o.Vals[0], mkStruct(permT, []*Term{args[0], args[1]})), "exact-parts", fn.Pos(), &s, "the permission built is %s", o.Vals[0])
		} else if c.require(s.isNotNil(o.Vals[1]), "error-decided", fn.Pos(), &s, "the error may or may not be nil") {
			c.require(lo >= 3, "rejects-only-invalid", fn.Pos(), &s, "a scope is rejected without having found more than two separators")
			c.require(same(s, o.Vals[0], zeroOf(permT)), "empty-on-error", fn.Pos(), &s, "a permission is returned with the error")
		}
	}
	// ParsePermission
	fn = c.p.fn("auth", "ParsePermission")
	e = c.engine()
	text := mkSym("text", tString)
	st = newState(e)
	for _, o := range e.callFn(st, fn, []*Term{text}, nil, 0) {
		c.paths++
		s := scopeOf(o.St)
		if o.Panic != nil {
			c.require(false, "no-panic", fn.Pos(), &s, "ParsePermission panics")
			continue
		}
		idx, none := c.lastIndex(s, text, ':')
		var scope, digits, parsed, perr *Term
		if idx != nil {
			scope = mkSlice(text, mkInt(0), idx, nil, tString)
			digits = mkSlice(text, mkBin("+", idx, mkInt(1), tInt), nil, nil, tString)
			for _, it := range s.items {
				if f, ok := it.(*FactItem); ok {
					containsF(f.T, func(t *Term) bool {
						if t.Op == OPure && t.S == "strconv.ParseUint" && same(s, t.Args[0], digits) && t.Args[1].isInt(10) && t.Args[2].isInt(32) {
							parsed, perr = mkExtract(t, 0), mkExtract(t, 1)
						}
						return false
					})
				}
			}
		}
		last := idx != nil && s.facts.always(mkEq(mkLen(text), mkBin("+", idx, mkInt(1), tInt)))
		if s.isNil(o.Vals[1]) {
			if !c.require(idx != nil, "last-colon", fn.Pos(), &s, "a permission is returned without the last colon having been found") {
				continue
			}
			if !c.require(parsed != nil && s.isNil(perr), "access-number", fn.Pos(), &s, "a permission is returned although what follows the last colon was not parsed as an unsigned 32 bit decimal number") {
				continue
			}
			_, hi := c.sepCount(s, scope, '/')
			c.require(hi <= 2, "scope-validated", fn.Pos(), &s, "a permission is returned without having found at most two separators in its scope")
			want := mkStruct(permT, []*Term{scope, e.convert(o.St, c.p.typ("auth", "Access"), parsed)})
			c.require(same(s, o.Vals[0], want), "exact-parts", fn.Pos(), &s, "the permission returned is %s", o.Vals[0])
			continue
		}
		if !c.require(s.isNotNil(o.Vals[1]), "error-decided", fn.Pos(), &s, "the error may or may not be nil") {
			continue
		}
		c.require(same(s, o.Vals[0], zeroOf(permT)), "empty-on-error", fn.Pos(), &s, "a permission is returned with the error")
		why := none || last || perr != nil && s.isNotNil(perr)
		if !why && scope != nil {
			lo, _ := c.sepCount(s, scope, '/')
			why = lo >= 3
		}
		c.require(why, "rejects-only-invalid", fn.Pos(), &s, "a text is rejected for no reason found")
	}
}

// lastIndex: the position at which the path found the last occurrence of a character, or that there is none
func (c *Check) lastIndex(s Scope, text *Term, ch byte) (idx *Term, none bool) {
	li := mkPure("strings.LastIndex", tInt, text, mkStr(string(rune(ch))))
	if s.facts.never(mkLt(li, mkInt(0))) {
		return li, false
	}
	if s.facts.always(mkLt(li, mkInt(0))) {
		return nil, true
	}
	at := func(i *Term) *Term { return mkIndex(text, i, types.Typ[types.Uint8]) }
	is := func(f *Facts, i *Term) (bool, bool) {
		return f.decide(mkEq(at(i), mkConst(constByte(ch), types.Typ[types.Uint8])))
	}
	for n, it := range s.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		for vi, v := range x.Node.Vars {
			if !isIntType(v.Top.T) {
				continue
			}
			// from the last character down, past other characters only
			if d, ok := mkBin("-", mkLen(text), v.Init, tInt).intVal(); !ok || d != 1 && d != 0 {
				continue
			} else {
				off := d - 1 // the character looked at is v+off
				good := true
				for _, t := range x.transitions() {
					k, ok := x.step(t, vi)
					hit, dec := is(t.St.facts, mkBin("+", x.cur(t, vi), mkInt(off), tInt))
					if !ok || k != -1 || !dec || hit {
						good = false
					}
				}
				if !good {
					continue
				}
				cur := v.Top
				if pv := x.Node.Parts[x.Part].Vals[vi]; pv != nil {
					cur = pv
				}
				i := mkBin("+", cur, mkInt(off), tInt)
				if hit, dec := is(s.facts, i); dec && hit {
					return i, false
				}
				if s.facts.always(mkLt(i, mkInt(0))) {
					return nil, true
				}
			}
		}
		_ = n
	}
	return nil, false
}
