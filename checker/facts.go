package main

// Facts: what is known about the value-numbered terms at a program point. Conditions are atoms over terms; integers are
// compared in the difference-bound (zone) domain. Everything here is a fixed lattice computation, no search.

import "go/types"

type zkey struct{ a, b *Term } // bound on a-b

type Facts struct {
	truth map[*Term]bool // atoms
	cst   map[*Term]*Term
	neq   map[zkey]bool // a != b (constants on the right)
	zone  map[zkey]int64
	adj   map[*Term][]*Term // a -> b with a bound on a-b
	par   map[*Term]*Term   // representative of equal non constant terms
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, cst: map[*Term]*Term{}, neq: map[zkey]bool{}, zone: map[zkey]int64{}, adj: map[*Term][]*Term{}, par: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.cst {
		g.cst[k] = v
	}
	for k, v := range f.neq {
		g.neq[k] = v
	}
	for k, v := range f.zone {
		g.zone[k] = v
	}
	for k, v := range f.adj {
		g.adj[k] = v[:len(v):len(v)]
	}
	for k, v := range f.par {
		g.par[k] = v
	}
	return g
}

var zeroTerm = mkSym("$0", nil)

// atomOf views an integer term as atom+k, with the zero atom for constants
func atomOf(t *Term) (*Term, int64) {
	a, k := linear(t)
	if a == nil {
		return zeroTerm, k
	}
	for a.Op == OConv && a.S == "widen" {
		b, k2 := linear(a.Args[0])
		if k2 != 0 || b == nil {
			break
		}
		a = b
	}
	return a, k
}

func (f *Facts) rep(t *Term) *Term {
	for {
		p, ok := f.par[t]
		if !ok {
			return t
		}
		t = p
	}
}

// norm replaces a term by the constant it is known to equal
func (f *Facts) norm(t *Term) *Term {
	if t == nil {
		return nil
	}
	if c, ok := f.cst[t]; ok {
		return c
	}
	if r := f.rep(t); r != t {
		if c, ok := f.cst[r]; ok {
			return c
		}
		return r
	}
	if (t.Op == OConv && t.S == "widen") || t.Op == OIface {
		x := f.norm(t.Args[0])
		if x != t.Args[0] && x.isConst() && t.Op == OConv {
			return mkConv(t.T, x)
		}
	}
	if isIntType(t.T) {
		a, k := linear(t)
		if a != nil && a != t {
			if c, ok := f.cst[a]; ok {
				if v, ok := c.intVal(); ok {
					return mkInt(v + k)
				}
			}
		}
		if v, ok := f.exact(t); ok {
			return mkInt(v)
		}
	}
	if isBoolType(t.T) {
		if v, ok := f.decide(t); ok {
			return mkBool(v)
		}
	}
	return t
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// exact: the zone determines the value
func (f *Facts) exact(t *Term) (int64, bool) {
	if len(f.zone) == 0 {
		return 0, false
	}
	if t.isConst() {
		return 0, false
	}
	hi, ok1 := f.upper(t, mkInt(0))
	if !ok1 {
		return 0, false
	}
	lo, ok2 := f.upper(mkInt(0), t)
	if ok2 && hi == -lo {
		return hi, true
	}
	return 0, false
}

// upper returns a bound on x-y
func (f *Facts) upper(x, y *Term) (int64, bool) {
	ax, kx := atomOf(x)
	ay, ky := atomOf(y)
	d, ok := f.dist(ax, ay)
	// the difference of two values is bounded by their distance
	if ay == zeroTerm && f.isDiff(ax) {
		if k, ok2 := f.upper(ax.Args[0], ax.Args[1]); ok2 && (!ok || k < d) {
			d, ok = k, true
		}
	}
	if ax == zeroTerm && f.isDiff(ay) {
		if k, ok2 := f.upper(ay.Args[1], ay.Args[0]); ok2 && (!ok || k < d) {
			d, ok = k, true
		}
	}
	if !ok {
		return 0, false
	}
	return d + kx - ky, true
}

// sumOfLens: a sum of lengths, which does not overflow
func sumOfLens(a *Term) bool {
	if a.Op != OBin || a.S != "+" {
		return false
	}
	for _, x := range a.Args {
		if x.Op != OLen && x.Op != OCap && !sumOfLens(x) {
			return false
		}
	}
	return true
}

func implicitBounds(a *Term) (lo, hi int64, hasLo, hasHi bool) {
	if a.Op == OLen || a.Op == OCap {
		return 0, 0, true, false
	}
	if sumOfLens(a) {
		return 0, 0, true, false
	}
	if isIntType(a.T) {
		if l, h, ok := intRange(a.T); ok {
			lv, lok := constInt64(l)
			hv, hok := constInt64(h)
			if isUnsigned(a.T) {
				b := a.T.Underlying().(*types.Basic)
				if sizeBits(b) < 64 {
					return lv, hv, lok, hok
				}
				return 0, 0, true, false
			}
			b := a.T.Underlying().(*types.Basic)
			if sizeBits(b) < 64 {
				return lv, hv, lok, hok
			}
		}
	}
	return 0, 0, false, false
}

// dist is the shortest path bound on a-b in the zone
func (f *Facts) dist(a, b *Term) (int64, bool) {
	if a == b {
		return 0, true
	}
	type nd struct {
		t *Term
		d int64
	}
	best := map[*Term]int64{a: 0}
	work := []*Term{a}
	steps := 0
	for len(work) > 0 && steps < 4000 {
		steps++
		t := work[0]
		work = work[1:]
		d := best[t]
		relax := func(u *Term, w int64) {
			if old, ok := best[u]; !ok || d+w < old {
				best[u] = d + w
				work = append(work, u)
			}
		}
		for _, u := range f.adj[t] {
			relax(u, f.bound(t, u))
		}
		// implicit: t - 0 <= hi ; 0 - u <= -lo for the targets we care about
		if t != zeroTerm {
			if _, hi, _, ok := implicitBounds(t); ok {
				relax(zeroTerm, hi)
			}
			// a sum with a non negative part: (x + y) bounded by parts is not expressed here
			if t.Op == OBin && t.S == "%" {
				if m, ok := t.Args[1].intVal(); ok && m > 0 {
					relax(zeroTerm, m-1)
				}
			}
			if t.Op == OBin && (t.S == ">>" || t.S == "/") && isIntType(t.T) && isUnsigned(t.T) {
				// of a value of bounded width
				if _, h, _, ok := implicitBounds(t.Args[0]); ok && h > 0 {
					if m, ok := t.Args[1].intVal(); ok && t.S == ">>" && m >= 0 && m < 63 {
						relax(zeroTerm, h>>uint(m))
					} else if ok && t.S == "/" && m > 0 {
						relax(zeroTerm, h/m)
					}
				}
			}
			if t.Op == OBin && t.S == "&" {
				for _, a := range t.Args {
					if m, ok := a.intVal(); ok && m >= 0 {
						relax(zeroTerm, m)
					}
				}
			}
		} else {
			if lo, _, ok, _ := implicitBounds(b); ok {
				relax(b, -lo)
			}
			for k := range f.adj {
				if lo, _, ok, _ := implicitBounds(k); ok && k != zeroTerm {
					if _, seen := best[k]; !seen || d-lo < best[k] {
						relax(k, -lo)
					}
				}
			}
		}
	}
	d, ok := best[b]
	return d, ok
}

// bound on a-b with ≠ tightening
func (f *Facts) bound(a, b *Term) int64 { return f.zone[zkey{a, b}] }

func (f *Facts) addZone(a, b *Term, k int64) {
	// a - b <= k ; tighten with a - b != k
	key := zkey{a, b}
	for i := 0; i < 64; i++ {
		if f.isNeq(a, b, k) {
			k--
		} else {
			break
		}
	}
	if old, ok := f.zone[key]; ok {
		if old <= k {
			return
		}
	} else {
		f.adj[a] = append(f.adj[a], b)
	}
	f.zone[key] = k
	// a bound on a difference of values bounded from below, which does not overflow
	if b == zeroTerm && f.isDiff(a) {
		p, kp := atomOf(a.Args[0])
		q, kq := atomOf(a.Args[1])
		f.addZone(p, q, k-kp+kq)
	}
	if a == zeroTerm && f.isDiff(b) {
		p, kp := atomOf(b.Args[0])
		q, kq := atomOf(b.Args[1])
		f.addZone(q, p, k+kp-kq)
	}
}

func (f *Facts) isDiff(d *Term) bool {
	if d.Op != OBin || d.S != "-" || !isInt64(d.T) {
		return false
	}
	for _, x := range d.Args {
		lo, ok := f.upper(mkInt(0), x)
		if !ok || lo > 1<<32 {
			return false
		}
	}
	return true
}

// isNeq: a-b != k recorded
func (f *Facts) isNeq(a, b *Term, k int64) bool {
	if a == zeroTerm {
		a, b, k = b, a, -k
	}
	if b == zeroTerm {
		return f.neq[zkey{a, mkInt(k)}]
	}
	return f.neq[zkey{a, mkBin("+", b, mkInt(k), types.Typ[types.Int])}] || f.neq[zkey{b, mkBin("+", a, mkInt(-k), types.Typ[types.Int])}]
}

// decide evaluates a boolean term under the facts
func (f *Facts) decide(t *Term) (val, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if t.Op == OUn && t.S == "!" {
		v, ok := f.decide(t.Args[0])
		return !v, ok
	}
	if v, ok := f.truth[t]; ok {
		return v, true
	}
	if c, ok := f.cst[t]; ok {
		if b, ok := c.boolVal(); ok {
			return b, true
		}
	}
	if t.Op == OPure && t.S == "strings.EqualFold" {
		if v, ok := f.decide(mkEq(t.Args[0], t.Args[1])); ok && v {
			return true, true
		}
	}
	if t.Op == OBin {
		x, y := t.Args[0], t.Args[1]
		switch t.S {
		case "==":
			nx, ny := f.normNB(x), f.normNB(y)
			if nx != x || ny != y {
				e := mkEq(nx, ny)
				if b, ok := e.boolVal(); ok {
					return b, true
				}
				if v, ok := f.truth[e]; ok {
					return v, true
				}
				if e.Op == OUn {
					if v, ok := f.truth[e.Args[0]]; ok {
						return !v, true
					}
				}
			}
			if f.neq[zkey{x, y}] || f.neq[zkey{y, x}] || f.neq[zkey{nx, ny}] || f.neq[zkey{ny, nx}] {
				return false, true
			}
			if isBoolType(x.T) && isBoolType(y.T) {
				a, ok1 := f.decide(x)
				b, ok2 := f.decide(y)
				if ok1 && ok2 {
					return a == b, true
				}
			}
			if isIntType(x.T) || isIntType(y.T) {
				d1, ok1 := f.upper(x, y)
				d2, ok2 := f.upper(y, x)
				if ok1 && d1 < 0 || ok2 && d2 < 0 {
					return false, true
				}
				if ok1 && ok2 && d1 == 0 && d2 == 0 {
					return true, true
				}
			}
			if isStringType(x.T) && isStringType(y.T) {
				for _, p := range [][2]*Term{{x, y}, {y, x}, {nx, ny}, {ny, nx}} {
					if v, ok := f.truth[mkEqualFold(p[0], p[1])]; ok && !v {
						return false, true
					}
				}
				if !y.isConst() {
					if v, ok := f.decide(mkEq(mkLen(x), mkLen(y))); ok && !v {
						return false, true
					}
				}
			}
			// s == "" with s known to equal another constant is handled by norm; len facts:
			if y.isStr("") {
				if lo, ok := f.upper(mkInt(0), mkLen(x)); ok && lo < 0 {
					return false, true
				}
			} else if s, ok := y.strVal(); ok {
				ln := mkLen(x)
				if hi, ok := f.upper(ln, mkInt(0)); ok && hi < int64(len(s)) {
					return false, true
				}
				if lo, ok := f.upper(mkInt(0), ln); ok && -lo > int64(len(s)) {
					return false, true
				}
			}
		case "<":
			d, ok := f.upper(x, y)
			if ok && d < 0 {
				return true, true
			}
			d, ok = f.upper(y, x)
			if ok && d <= 0 {
				return false, true
			}
			nx, ny := f.normNB(x), f.normNB(y)
			if nx != x || ny != y {
				e := mkLt(nx, ny)
				if b, ok := e.boolVal(); ok {
					return b, true
				}
				neg := false
				if e.Op == OUn {
					e, neg = e.Args[0], true
				}
				if v, ok := f.truth[e]; ok {
					return v != neg, true
				}
			}
		}
	}
	return false, false
}

// normNB is norm for the operands of comparisons (no recursion into deciding booleans)
func (f *Facts) normNB(t *Term) *Term {
	if c, ok := f.cst[t]; ok {
		return c
	}
	if r := f.rep(t); r != t {
		if c, ok := f.cst[r]; ok {
			return c
		}
		return r
	}
	if t.Op == OConv && t.S == "widen" {
		x := f.normNB(t.Args[0])
		if x.isConst() {
			return mkConv(t.T, x)
		}
	}
	return t
}

// assume records that t has the given truth value; false means the program point is unreachable
func (f *Facts) assume(t *Term, val bool) bool {
	for t.Op == OUn && t.S == "!" {
		t, val = t.Args[0], !val
	}
	if v, ok := f.decide(t); ok {
		if v != val {
			return false
		}
		if t.isConst() {
			return true
		}
	}
	f.truth[t] = val
	if t.Op == OBin {
		x, y := t.Args[0], t.Args[1]
		switch t.S {
		case "==":
			isInt := isIntType(x.T) || isIntType(y.T)
			if val {
				if y.isConst() {
					f.cst[x] = y
					if s, ok := y.strVal(); ok {
						ln := mkLen(x)
						if !ln.isConst() {
							f.cst[ln] = mkInt(int64(len(s)))
							a, k := atomOf(ln)
							f.addZone(a, zeroTerm, int64(len(s))-k)
							f.addZone(zeroTerm, a, k-int64(len(s)))
						}
					}
				} else if !x.isConst() && !isInt {
					rx, ry := f.rep(x), f.rep(y)
					if rx != ry {
						if cy, ok := f.cst[ry]; ok {
							if cx, ok := f.cst[rx]; ok && cx != cy {
								return false
							}
							f.cst[rx] = cy
						}
						if rx.ID < ry.ID {
							rx, ry = ry, rx
						}
						f.par[rx] = ry
						if c, ok := f.cst[rx]; ok {
							f.cst[ry] = c
						}
					}
				}
				if isStringType(x.T) && !x.isConst() && !y.isConst() {
					if l := mkEq(mkLen(x), mkLen(y)); !l.isConst() && !f.assume(l, true) {
						return false
					}
				}
				if isInt {
					ax, kx := atomOf(x)
					ay, ky := atomOf(y)
					f.addZone(ax, ay, ky-kx)
					f.addZone(ay, ax, kx-ky)
				}
			} else {
				f.neq[zkey{x, y}] = true
				if y.isStr("") {
					a, k := atomOf(mkLen(x))
					f.addZone(zeroTerm, a, k-1)
				}
				if isInt {
					ax, kx := atomOf(x)
					ay, ky := atomOf(y)
					f.retighten(ax, ay, ky-kx)
					f.retighten(ay, ax, kx-ky)
				}
			}
		case "<":
			if isIntType(x.T) || isIntType(y.T) {
				ax, kx := atomOf(x)
				ay, ky := atomOf(y)
				if val { // ax+kx <= ay+ky-1
					f.addZone(ax, ay, ky-kx-1)
				} else { // ay+ky <= ax+kx
					f.addZone(ay, ax, kx-ky)
				}
				f.lenFacts(ax)
				f.lenFacts(ay)
			}
		}
	}
	return true
}

// a length that became exactly zero makes the string empty, a positive one makes it non empty
func (f *Facts) lenFacts(a *Term) {
	if a.Op != OLen || !isStringType(a.Args[0].T) {
		return
	}
	s := a.Args[0]
	if hi, ok := f.upper(a, mkInt(0)); ok && hi == 0 {
		f.cst[s] = mkStr("")
	} else if lo, ok := f.upper(mkInt(0), a); ok && lo < 0 {
		f.neq[zkey{s, mkStr("")}] = true
	}
}

func (f *Facts) retighten(a, b *Term, k int64) {
	if d, ok := f.dist(a, b); ok && d == k {
		f.addZone(a, b, k-1)
	}
}

// equal decides the equality of two values under the facts
func (f *Facts) equal(x, y *Term) (bool, bool) { return f.decide(mkEq(x, y)) }

// same is true only when the values are known to be equal
func (f *Facts) same(x, y *Term) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil {
		return false
	}
	v, ok := f.decide(mkEq(f.normNB(x), f.normNB(y)))
	return ok && v
}

// never is true only when t is known to be false; always when known to be true
func (f *Facts) never(t *Term) bool  { v, ok := f.decide(t); return ok && !v }
func (f *Facts) always(t *Term) bool { v, ok := f.decide(t); return ok && v }

func constInt64(v interface{ ExactString() string }) (int64, bool) {
	var n int64
	neg := false
	s := v.ExactString()
	for i, c := range s {
		if i == 0 && c == '-' {
			neg = true
			continue
		}
		if c < '0' || c > '9' || n > (1<<62)/10 {
			return 0, false
		}
		n = n*10 + int64(c-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// index is the byte of the text, taken from the part of a concatenation it lies in
func (f *Facts) index(x, i *Term, t types.Type) *Term {
	if x.Op == OConcat {
		if k, ok := i.intVal(); ok {
			for _, p := range x.Args {
				if n, ok := f.exact(mkLen(p)); ok && n <= k {
					k -= n
					continue
				}
				if f.always(mkLt(mkInt(k), mkLen(p))) {
					return f.index(p, mkInt(k), t)
				}
				break
			}
		}
	}
	return mkIndex(x, i, t)
}

// slice is part of the text; a cut off start is taken from the parts of a concatenation
func (f *Facts) slice(x, lo, hi, max *Term, t types.Type) *Term {
	if x.Op == OConcat && lo != nil && hi == nil {
		if k, ok := lo.intVal(); ok && k > 0 {
			for j, p := range x.Args {
				if n, ok := f.exact(mkLen(p)); ok && n <= k {
					k -= n
					if k == 0 {
						return mkConcat(x.Args[j+1:]...)
					}
					continue
				}
				if f.always(mkLe(mkInt(k), mkLen(p))) {
					return mkConcat(append([]*Term{mkSlice(p, mkInt(k), nil, nil, tString)}, x.Args[j+1:]...)...)
				}
				break
			}
		}
	}
	return mkSlice(x, lo, hi, max, t)
}

func mkLe(x, y *Term) *Term { return mkNot(mkLt(y, x)) }
