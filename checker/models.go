package main

// Models of the library functions the analysed code uses. Everything not listed is an unknown call: an event that may
// do anything to the objects it can reach.

import (
	"go/constant"
	"go/token"
	"go/types"
	"net/http"
	"strings"
)

type model = func(*callCtx) ([]Outcome, bool)

var models map[string]model

func (c *callCtx) one(t ...*Term) ([]Outcome, bool) {
	return []Outcome{{St: c.st, Vals: t}}, true
}

func (c *callCtx) results() *types.Tuple {
	if c.fn != nil {
		return c.fn.Signature.Results()
	}
	return c.sig.Results()
}

// arg is an argument with what is known about it substituted
func (c *callCtx) arg(i int) *Term { return c.st.facts.normNB(c.args[i]) }

// event records the call without giving it any effect on the analysed memory
func (c *callCtx) event(kind string) *Event {
	var cal *Term
	if c.fn != nil {
		cal = mkFunc(c.fn)
	}
	ev := c.e.event(c.st, kind, c.name, cal, c.args, c.fr, c.pos)
	c.st.add(ev)
	return ev
}

func (c *callCtx) emit(ev *Event) {
	if c.e.onEvent != nil {
		c.e.onEvent(c.st, ev)
	}
}

// pureEvent: an event whose results are a function of the arguments (and their contents)
func pureEvent(c *callCtx) ([]Outcome, bool) {
	ev := c.event("call")
	sigT := c.results()
	vals := pureResultsT(c.name, sigT, c.e.snaps(c.st, c.args))
	if len(vals) == 1 {
		ev.Res = vals[0]
	} else if len(vals) > 1 {
		ev.Res = vals[0].Args[0]
	}
	c.emit(ev)
	return []Outcome{{St: c.st, Vals: vals}}, true
}

func pureResultsT(name string, res *types.Tuple, args []*Term) []*Term {
	n := res.Len()
	if n == 0 {
		return nil
	}
	if n == 1 {
		return []*Term{mkPure(name, res.At(0).Type(), args...)}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = mkExtract(mkPure(name, res, args...), i)
	}
	return out
}

// freshEvent: an event with fresh results and no effect on reachable memory
func freshEvent(c *callCtx) ([]Outcome, bool) {
	ev := c.event("call")
	res := c.results()
	var vals []*Term
	switch res.Len() {
	case 0:
	case 1:
		ev.Res = mkCall(c.e.nextID(), c.name, res.At(0).Type())
		vals = []*Term{ev.Res}
	default:
		ev.Res = mkCall(c.e.nextID(), c.name, res)
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, mkExtract(ev.Res, i))
		}
	}
	c.emit(ev)
	return []Outcome{{St: c.st, Vals: vals}}, true
}

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func oneByte(t *Term) (byte, bool) {
	s, ok := t.strVal()
	if ok && len(s) == 1 {
		return s[0], true
	}
	return 0, false
}

func mkByte(b byte) *Term { return mkConst(constant.MakeInt64(int64(b)), types.Typ[types.Uint8]) }

// affix decides a prefix (or suffix) test, splitting the state where needed
func (c *callCtx) affix(s, p *Term, suffix bool) (outs []struct {
	st *State
	c  *Term
}) {
	add := func(st *State, t *Term) {
		outs = append(outs, struct {
			st *State
			c  *Term
		}{st, t})
	}
	if p.isStr("") || s == p {
		add(c.st, mkBool(true))
		return
	}
	if ps, ok := p.strVal(); ok {
		if ss, ok := s.strVal(); ok {
			if suffix {
				add(c.st, mkBool(strings.HasSuffix(ss, ps)))
			} else {
				add(c.st, mkBool(strings.HasPrefix(ss, ps)))
			}
			return
		}
		if s.Op == OConcat {
			edge := s.Args[0]
			if suffix {
				edge = s.Args[len(s.Args)-1]
			}
			if es, ok := edge.strVal(); ok {
				n := len(es)
				if len(ps) <= n {
					if suffix {
						add(c.st, mkBool(strings.HasSuffix(es, ps)))
					} else {
						add(c.st, mkBool(strings.HasPrefix(es, ps)))
					}
					return
				}
			}
		}
		if b, ok := oneByte(p); ok {
			empty := mkEq(s, mkStr(""))
			idx := mkInt(0)
			if suffix {
				idx = mkBin("-", mkLen(s), mkInt(1), tInt)
			}
			eq := mkEq(c.st.facts.index(s, idx, types.Typ[types.Uint8]), mkByte(b))
			if v, ok := c.st.facts.decide(empty); ok {
				if v {
					add(c.st, mkBool(false))
				} else {
					add(c.st, eq)
				}
				return
			}
			o := c.st.fork()
			if o.assume(empty, true, c.pos) {
				add(o, mkBool(false))
			}
			if c.st.assume(empty, false, c.pos) {
				add(c.st, eq)
			}
			return
		}
	} else if s.Op == OConcat {
		if !suffix && s.Args[0] == p || suffix && s.Args[len(s.Args)-1] == p {
			add(c.st, mkBool(true))
			return
		}
	}
	n := "strings.HasPrefix"
	if suffix {
		n = "strings.HasSuffix"
	}
	add(c.st, mkPure(n, tBool, s, p))
	return
}

func (c *callCtx) hasAffix(suffix bool) ([]Outcome, bool) {
	var out []Outcome
	for _, r := range c.affix(c.arg(0), c.arg(1), suffix) {
		out = append(out, Outcome{St: r.st, Vals: []*Term{r.c}})
	}
	return out, true
}

// split the state on a condition and give a value for each side
func (c *callCtx) branch(st *State, cond *Term, yes, no func(*State) []*Term) []Outcome {
	if v, ok := st.facts.decide(cond); ok {
		if v {
			return []Outcome{{St: st, Vals: yes(st)}}
		}
		return []Outcome{{St: st, Vals: no(st)}}
	}
	var out []Outcome
	o := st.fork()
	if o.assume(cond, false, c.pos) {
		out = append(out, Outcome{St: o, Vals: no(o)})
	}
	if st.assume(cond, true, c.pos) {
		out = append(out, Outcome{St: st, Vals: yes(st)})
	}
	return out
}

func (c *callCtx) trimAffix(suffix, found bool) ([]Outcome, bool) {
	s, p := c.arg(0), c.arg(1)
	var out []Outcome
	for _, r := range c.affix(s, p, suffix) {
		out = append(out, c.branch(r.st, r.c, func(*State) []*Term {
			var t *Term
			if suffix {
				t = mkSlice(s, nil, mkBin("-", mkLen(s), mkLen(p), tInt), nil, tString)
			} else {
				t = c.st.facts.slice(s, mkLen(p), nil, nil, tString)
			}
			if found {
				return []*Term{t, mkBool(true)}
			}
			return []*Term{t}
		}, func(*State) []*Term {
			if found {
				return []*Term{s, mkBool(false)}
			}
			return []*Term{s}
		})...)
	}
	return out, true
}

// indexTerm is the position of sub in s, with the bounds every such result has
func (c *callCtx) indexTerm(name string, s, sub *Term) *Term {
	if a, ok := s.strVal(); ok {
		if b, ok := sub.strVal(); ok {
			if name == "strings.Index" {
				return mkInt(int64(strings.Index(a, b)))
			}
			return mkInt(int64(strings.LastIndex(a, b)))
		}
	}
	if ps, ok := c.pieces(s, sub); ok {
		if len(ps) == 1 {
			return mkInt(-1)
		}
		if name == "strings.Index" {
			return mkLen(ps[0])
		}
		return mkBin("-", mkLen(s), mkBin("+", mkLen(ps[len(ps)-1]), mkInt(1), tInt), tInt)
	}
	r := mkPure(name, tInt, s, sub)
	c.st.assume(mkLt(r, mkInt(-1)), false, c.pos)
	n := int64(0)
	if b, ok := sub.strVal(); ok {
		n = int64(len(b))
	}
	if n > 0 {
		// r <= len(s)-n holds for -1 too as far as it is used (r < len(s) when found)
		c.st.assume(mkLt(r, mkLen(s)), true, c.pos)
	} else {
		c.st.assume(mkLt(mkLen(s), r), false, c.pos)
	}
	return r
}

// pieces splits a text put together from constants and parts known not to hold the one byte separator
func (c *callCtx) pieces(s, sep *Term) ([]*Term, bool) {
	v, ok := sep.strVal()
	if !ok || len(v) != 1 {
		return nil, false
	}
	parts := []*Term{s}
	if s.Op == OConcat {
		parts = s.Args
	}
	var out []*Term
	var cur []*Term
	for _, p := range parts {
		if k, ok := p.strVal(); ok {
			for i, x := range strings.Split(k, v) {
				if i > 0 {
					out = append(out, mkConcat(cur...))
					cur = nil
				}
				cur = append(cur, mkStr(x))
			}
			continue
		}
		if !c.st.facts.always(mkLt(mkPure("strings.Index", tInt, p, sep), mkInt(0))) {
			return nil, false
		}
		cur = append(cur, p)
	}
	return append(out, mkConcat(cur...)), true
}

func charStr(t *Term) *Term {
	if v, ok := t.intVal(); ok {
		return mkStr(string(rune(v)))
	}
	return mkConv(tString, t)
}

func foldStr(f func(string) string) model {
	return func(c *callCtx) ([]Outcome, bool) {
		a := c.arg(0)
		if s, ok := a.strVal(); ok {
			return c.one(mkStr(f(s)))
		}
		return c.one(mkPure(c.name, tString, a))
	}
}

func (c *callCtx) split(s, sep *Term) *Term {
	r := mkPure("strings.Split", types.NewSlice(tString), s, sep)
	if v, ok := sep.strVal(); ok && v != "" {
		if cs, ok := s.strVal(); ok {
			var els []*Term
			for _, p := range strings.Split(cs, v) {
				els = append(els, mkStr(p))
			}
			return mkList(types.NewSlice(tString), els...)
		}
		if ps, ok := c.pieces(s, sep); ok {
			return mkList(types.NewSlice(tString), ps...)
		}
		c.st.assume(mkLt(mkLen(r), mkInt(1)), false, c.pos)
	}
	return r
}

// ---- text buffers

func bufCell(p *Term) *Term { return mkCell(p, "$buf", tString) }

func (c *callCtx) bufWrite(p, s *Term) {
	cell := bufCell(p)
	c.st.store(cell, mkConcat(c.st.load(cell), s), nil)
}

func bytesAsString(st *State, b *Term) *Term {
	if b.Op == OConv && isStringType(b.Args[0].T) {
		return b.Args[0]
	}
	return st.e.convert(st, tString, b)
}

func bufModels(m map[string]model, typ string) {
	recv := "(*" + typ + ")."
	lenErr := func(c *callCtx, s *Term) ([]Outcome, bool) {
		c.bufWrite(c.args[0], s)
		return c.one(mkLen(s), mkNil())
	}
	m[recv+"WriteString"] = func(c *callCtx) ([]Outcome, bool) { return lenErr(c, c.arg(1)) }
	m[recv+"Write"] = func(c *callCtx) ([]Outcome, bool) { return lenErr(c, bytesAsString(c.st, c.args[1])) }
	m[recv+"WriteByte"] = func(c *callCtx) ([]Outcome, bool) {
		c.bufWrite(c.args[0], byteStr(c.arg(1)))
		return c.one(mkNil())
	}
	m[recv+"WriteRune"] = func(c *callCtx) ([]Outcome, bool) {
		c.bufWrite(c.args[0], charStr(c.arg(1)))
		return c.one(mkPure("runelen", tInt, c.arg(1)), mkNil())
	}
	m[recv+"String"] = func(c *callCtx) ([]Outcome, bool) { return c.one(c.st.load(bufCell(c.args[0]))) }
	m[recv+"Bytes"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkConv(c.results().At(0).Type(), c.st.load(bufCell(c.args[0]))))
	}
	m[recv+"Len"] = func(c *callCtx) ([]Outcome, bool) { return c.one(mkLen(c.st.load(bufCell(c.args[0])))) }
	m[recv+"Reset"] = func(c *callCtx) ([]Outcome, bool) {
		c.st.store(bufCell(c.args[0]), mkStr(""), nil)
		return c.one()
	}
	m[recv+"Grow"] = func(c *callCtx) ([]Outcome, bool) { return c.one() }
}

func byteStr(t *Term) *Term {
	if v, ok := t.intVal(); ok {
		return mkStr(string([]byte{byte(v)}))
	}
	return mkPure("bytestr", tString, t)
}

// ---- formatting

func (c *callCtx) format(f *Term, args *Term) *Term {
	fs, ok := f.strVal()
	els, ok2 := c.st.elems(args)
	if !ok || !ok2 {
		return mkPure("fmt.Sprintf", tString, append([]*Term{f}, c.st.snap(args, 0))...)
	}
	var parts []*Term
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			parts = append(parts, mkStr(fs[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb := fs[i+1 : j+1]
		i = j
		if verb == "%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if ai >= len(els) {
			parts = append(parts, mkStr("%!"))
			continue
		}
		parts = append(parts, c.formatArg(verb, els[ai]))
		ai++
	}
	return mkConcat(parts...)
}

func (c *callCtx) formatArg(verb string, a *Term) *Term {
	v := a
	if a.Op == OIface {
		v = c.st.facts.normNB(a.Args[0])
		plain := true
		for _, name := range []string{"Error", "String", "Format"} {
			if hasMethod(a.T, name) {
				plain = false
			}
		}
		if plain && isStringType(a.T) && (verb == "s" || verb == "v") {
			return v
		}
		if plain && isIntType(a.T) && (verb == "d" || verb == "v") {
			return mkItoa(v)
		}
		if plain && isBoolType(a.T) && (verb == "t" || verb == "v") {
			return mkPure("strconv.FormatBool", tString, v)
		}
		if verb == "T" {
			return mkStr(typeKey(a.T))
		}
	}
	if verb == "w" {
		verb = "v"
	}
	return mkPure("fmt%"+verb, tString, c.st.snap(v, 0))
}

func mkItoa(v *Term) *Term {
	if v.Op == OConv && v.S == "widen" {
		v = v.Args[0]
	}
	if n, ok := v.intVal(); ok {
		return mkStr(itoa(int(n)))
	}
	return mkPure("strconv.Itoa", tString, v)
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// ---- http headers

func headerCell(h *Term, key *Term) *Term {
	if s, ok := key.strVal(); ok {
		return mkCell(h, "key:"+http.CanonicalHeaderKey(s), tString)
	}
	return nil
}

func (c *callCtx) header(key *Term) *Term {
	h := c.arg(0)
	for h.Op == OConv {
		h = h.Args[0]
	}
	return headerCell(h, key)
}

func (c *callCtx) forgetHeaders(h *Term, but *Term) {
	for h.Op == OConv {
		h = h.Args[0]
	}
	for k := range c.st.mem {
		if k.Op == OCell && k != but && rootOf(k) == rootOf(h) {
			delete(c.st.mem, k)
		}
	}
}

// ---- contexts

func contextValue(st *State, ctx, key *Term) *Term {
	for {
		ctx = st.facts.normNB(ctx)
		if ctx.Op == OTA || ctx.Op == OConv {
			ctx = ctx.Args[0]
			continue
		}
		if ctx.Op == OPure && ctx.S == "context.WithValue" {
			eq, ok := st.facts.equal(ctx.Args[1], key)
			if ok && eq {
				return ctx.Args[2]
			}
			if ok {
				ctx = ctx.Args[0]
				continue
			}
		}
		if ctx.Op == OPure && (ctx.S == "context.Background" || ctx.S == "context.TODO") {
			return mkNil()
		}
		break
	}
	return mkPure("(context.Context).Value", types.NewInterfaceType(nil, nil), ctx, key)
}

func init() {
	m := map[string]model{}
	models = m

	// --- the process ends
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln"} {
		m[n] = func(c *callCtx) ([]Outcome, bool) { return nil, true }
	}

	// --- strings
	m["strings.HasPrefix"] = func(c *callCtx) ([]Outcome, bool) { return c.hasAffix(false) }
	m["strings.HasSuffix"] = func(c *callCtx) ([]Outcome, bool) { return c.hasAffix(true) }
	m["strings.TrimPrefix"] = func(c *callCtx) ([]Outcome, bool) { return c.trimAffix(false, false) }
	m["strings.TrimSuffix"] = func(c *callCtx) ([]Outcome, bool) { return c.trimAffix(true, false) }
	m["strings.CutPrefix"] = func(c *callCtx) ([]Outcome, bool) { return c.trimAffix(false, true) }
	m["strings.CutSuffix"] = func(c *callCtx) ([]Outcome, bool) { return c.trimAffix(true, true) }
	idx := func(name string, char bool) model {
		return func(c *callCtx) ([]Outcome, bool) {
			sub := c.arg(1)
			if char {
				sub = charStr(sub)
			}
			return c.one(c.indexTerm(name, c.arg(0), sub))
		}
	}
	m["strings.Index"] = idx("strings.Index", false)
	m["strings.IndexByte"] = idx("strings.Index", true)
	m["strings.IndexRune"] = idx("strings.Index", true)
	m["strings.LastIndex"] = idx("strings.LastIndex", false)
	m["strings.LastIndexByte"] = idx("strings.LastIndex", true)
	has := func(char bool) model {
		return func(c *callCtx) ([]Outcome, bool) {
			sub := c.arg(1)
			if char {
				sub = charStr(sub)
			}
			return c.one(mkNot(mkLt(c.indexTerm("strings.Index", c.arg(0), sub), mkInt(0))))
		}
	}
	m["strings.Contains"] = has(false)
	m["strings.ContainsRune"] = has(true)
	anyOf := func(val func(c *callCtx) *Term) model {
		return func(c *callCtx) ([]Outcome, bool) {
			if s, ok := c.arg(1).strVal(); ok && len(s) == 1 {
				return c.one(val(c))
			}
			return nil, false
		}
	}
	m["strings.ContainsAny"] = anyOf(func(c *callCtx) *Term {
		return mkNot(mkLt(c.indexTerm("strings.Index", c.arg(0), c.arg(1)), mkInt(0)))
	})
	m["strings.IndexAny"] = anyOf(func(c *callCtx) *Term { return c.indexTerm("strings.Index", c.arg(0), c.arg(1)) })
	m["strings.LastIndexAny"] = anyOf(func(c *callCtx) *Term { return c.indexTerm("strings.LastIndex", c.arg(0), c.arg(1)) })
	m["strings.EqualFold"] = func(c *callCtx) ([]Outcome, bool) { return c.one(mkEqualFold(c.arg(0), c.arg(1))) }
	m["strings.ToUpper"] = foldStr(strings.ToUpper)
	m["strings.ToLower"] = foldStr(strings.ToLower)
	m["strings.TrimSpace"] = foldStr(strings.TrimSpace)
	m["strings.Clone"] = func(c *callCtx) ([]Outcome, bool) { return c.one(c.arg(0)) }
	m["strings.Split"] = func(c *callCtx) ([]Outcome, bool) { return c.one(c.split(c.arg(0), c.arg(1))) }
	m["strings.SplitN"] = func(c *callCtx) ([]Outcome, bool) {
		if v, ok := c.arg(2).intVal(); ok && v < 0 {
			return c.one(c.split(c.arg(0), c.arg(1)))
		}
		return nil, false
	}
	m["strings.Count"] = func(c *callCtx) ([]Outcome, bool) {
		if s, ok := c.arg(1).strVal(); !ok || s == "" {
			return nil, false
		}
		return c.one(mkBin("-", mkLen(c.split(c.arg(0), c.arg(1))), mkInt(1), tInt))
	}
	m["strings.Cut"] = func(c *callCtx) ([]Outcome, bool) {
		s, sep := c.arg(0), c.arg(1)
		i := c.indexTerm("strings.Index", s, sep)
		return c.branch(c.st, mkLt(i, mkInt(0)), func(*State) []*Term {
			return []*Term{s, mkStr(""), mkBool(false)}
		}, func(*State) []*Term {
			return []*Term{mkSlice(s, nil, i, nil, tString), mkSlice(s, mkBin("+", i, mkLen(sep), tInt), nil, nil, tString), mkBool(true)}
		}), true
	}
	m["strings.Join"] = func(c *callCtx) ([]Outcome, bool) {
		if els, ok := c.st.elems(c.args[0]); ok {
			var parts []*Term
			for i, e := range els {
				if i > 0 {
					parts = append(parts, c.arg(1))
				}
				parts = append(parts, e)
			}
			return c.one(mkConcat(parts...))
		}
		return c.one(mkPure("strings.Join", tString, c.st.snap(c.args[0], 0), c.arg(1)))
	}
	m["strings.Compare"] = func(c *callCtx) ([]Outcome, bool) {
		if c.arg(0) == c.arg(1) {
			return c.one(mkInt(0))
		}
		a, b := c.arg(0), c.arg(1)
		k := func(n int64) func(*State) []*Term { return func(*State) []*Term { return []*Term{mkInt(n)} } }
		var outs []Outcome
		for _, o := range c.branch(c.st, mkEq(a, b), k(0), k(1)) {
			if o.Vals[0].isInt(0) {
				outs = append(outs, o)
				continue
			}
			outs = append(outs, c.branch(o.St, mkBin("<", a, b, tBool), k(-1), k(1))...)
		}
		return outs, true
	}
	m["(*strings.Replacer).Replace"] = func(c *callCtx) ([]Outcome, bool) {
		r := c.arg(0)
		return c.one(mkPure("(*strings.Replacer).Replace", tString, r, c.arg(1)))
	}
	m["strings.NewReplacer"] = func(c *callCtx) ([]Outcome, bool) {
		if els, ok := c.st.elems(c.args[0]); ok {
			return c.one(mkPure("strings.NewReplacer", c.results().At(0).Type(), els...))
		}
		return nil, false
	}
	m["strings.ReplaceAll"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("strings.ReplaceAll", tString, c.arg(0), c.arg(1), c.arg(2)))
	}
	m["strings.Replace"] = func(c *callCtx) ([]Outcome, bool) {
		if v, ok := c.arg(3).intVal(); ok && v < 0 {
			return c.one(mkPure("strings.ReplaceAll", tString, c.arg(0), c.arg(1), c.arg(2)))
		}
		return nil, false
	}
	for _, n := range []string{"strings.Repeat", "strings.Title", "strings.ToTitle", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Fields", "strings.IndexFunc", "strings.SplitN", "strings.SplitAfter", "strings.Replace", "strings.ContainsAny", "strings.IndexAny", "strings.LastIndexAny", "strings.Count", "strings.NewReader", "strings.TrimFunc", "strings.Map",
		"bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer", "bytes.Equal",
		"strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint", "strconv.ParseBool", "strconv.Quote", "strconv.FormatBool", "strconv.AppendInt", "strconv.FormatUint",
		"net/url.QueryEscape", "net/url.PathEscape", "net/url.Parse", "net/url.ParseRequestURI", "net/url.JoinPath",
		"(*net/url.URL).Port", "(*net/url.URL).Hostname", "(*net/url.URL).String", "(*net/url.URL).IsAbs", "(*net/url.URL).Query", "(*net/url.URL).EscapedPath",
		"path.Join", "path.Clean", "path/filepath.Join", "path/filepath.Clean",
		"regexp.Compile", "regexp.QuoteMeta", "(*regexp.Regexp).MatchString", "(*regexp.Regexp).String",
		"unicode.ToUpper", "unicode.ToLower", "unicode.IsUpper", "unicode.IsLower", "unicode.IsLetter", "unicode.IsDigit", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneLen", "unicode/utf8.ValidString", "unicode/utf8.DecodeRuneInString",
		"errors.Unwrap", "net/http.StatusText", "net/http.CanonicalHeaderKey",
		"(*net/http.Request).Cookies", "(*net/http.Request).Cookie", "(*net/http.Request).UserAgent", "(*net/http.Request).Referer", "(*net/http.Request).PostFormValue", "(*net/http.Request).FormValue", "(*net/http.Request).ProtoAtLeast", "(*net/http.Request).BasicAuth", "(*net/http.Request).PathValue",
		"(*net/http.Cookie).String", "(*net/http.Cookie).Valid",
		"(net/http.ResponseWriter).Header",
		"(context.Context).Done", "(context.Context).Deadline", "context.Background", "context.TODO",
		"(error).Error", "(fmt.Stringer).String",
		"(time.Time).Add", "(time.Time).AddDate", "(time.Time).UnixMilli", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).IsZero", "(time.Time).Equal", "(time.Time).UTC", "(time.Time).Truncate", "(time.Time).Round", "(time.Duration).Seconds", "(time.Duration).Milliseconds", "(time.Time).Format", "(time.Duration).String",
		"math/big.NewInt", "(*math/big.Int).Int64", "(*math/big.Int).Text", "(*math/big.Int).String", "(*math/big.Int).Uint64",
		"encoding/json.NewDecoder", "encoding/json.NewEncoder", "io.LimitReader", "io.NopCloser", "bufio.NewReader",
		"net/http.FileServer", "net/http.Dir", "net/http.StripPrefix", "expvar.Handler", "net/http.MaxBytesReader",
		"reflect.TypeOf", "reflect.ValueOf", "reflect.DeepEqual", "runtime/debug.Stack",
		"crypto/sha256.Sum256", "crypto/subtle.ConstantTimeCompare",
	} {
		pureFns[n] = true
	}
	// a random number is at least 0 and below its limit
	m["(*math/big.Int).Int64"] = func(c *callCtx) ([]Outcome, bool) {
		r := pureResults(c.name, c.fn.Signature, c.e.snaps(c.st, c.args))[0]
		if x := c.arg(0); x.Op == OExtract && x.N == 0 && x.Args[0].Op == OCall && x.Args[0].S == "crypto/rand.Int" {
			for n := c.st.trace; n != nil; n = n.prev {
				ev, ok := n.item.(*Event)
				if !ok || ev.Res != x.Args[0] || len(ev.Args) != 2 {
					continue
				}
				if max := c.st.facts.normNB(ev.Args[1]); max.Op == OPure && max.S == "math/big.NewInt" {
					if k, ok := stripConv(max.Args[0]).intVal(); ok {
						c.st.facts.assume(mkLt(r, mkInt(0)), false)
						c.st.facts.assume(mkLt(r, mkInt(k)), true)
					}
				}
				break
			}
		}
		return c.one(r)
	}
	// the text of the bytes at the time of the call
	m["encoding/hex.EncodeToString"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("encoding/hex.EncodeToString", tString, c.st.bytesOf(c.args[0])))
	}
	m["(*encoding/base64.Encoding).EncodeToString"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("(*encoding/base64.Encoding).EncodeToString", tString, c.arg(0), c.st.bytesOf(c.args[1])))
	}
	m["strconv.Itoa"] = func(c *callCtx) ([]Outcome, bool) { return c.one(mkItoa(c.arg(0))) }
	m["strconv.FormatInt"] = func(c *callCtx) ([]Outcome, bool) {
		if c.arg(1).isInt(10) {
			return c.one(mkItoa(c.arg(0)))
		}
		return c.one(mkPure(c.name, tString, c.arg(0), c.arg(1)))
	}
	m["strconv.FormatUint"] = m["strconv.FormatInt"]
	bufModels(m, "strings.Builder")
	bufModels(m, "bytes.Buffer")

	// --- fmt, errors, log
	m["fmt.Sprintf"] = func(c *callCtx) ([]Outcome, bool) { return c.one(c.format(c.arg(0), c.args[1])) }
	sprint := func(c *callCtx, a *Term) *Term {
		if els, ok := c.st.elems(a); ok {
			var parts []*Term
			simple := true
			for _, e := range els {
				if e.Op != OIface || !isStringType(e.T) {
					simple = len(els) == 1
				}
				parts = append(parts, c.formatArg("v", e))
			}
			if simple {
				return mkConcat(parts...)
			}
		}
		return mkPure("fmt.Sprint", tString, c.st.snap(a, 0))
	}
	m["fmt.Sprint"] = func(c *callCtx) ([]Outcome, bool) { return c.one(sprint(c, c.args[0])) }
	fprint := func(text func(c *callCtx) *Term) model {
		return func(c *callCtx) ([]Outcome, bool) {
			w := c.arg(0)
			t := text(c)
			if w.Op == OIface && isTextBuffer(w.T) {
				c.bufWrite(w.Args[0], t)
				return c.one(mkLen(t), mkNil())
			}
			// recorded as one write of the text
			ev := c.e.event(c.st, "call", "io.WriteString", nil, []*Term{w, t}, c.fr, c.pos)
			ev.Res = mkCall(c.e.nextID(), "io.WriteString", c.results())
			c.st.add(ev)
			c.emit(ev)
			return c.one(mkExtract(ev.Res, 0), mkExtract(ev.Res, 1))
		}
	}
	m["fmt.Fprintf"] = fprint(func(c *callCtx) *Term { return c.format(c.arg(1), c.args[2]) })
	m["fmt.Fprint"] = fprint(func(c *callCtx) *Term { return sprint(c, c.args[1]) })
	m["fmt.Fprintln"] = fprint(func(c *callCtx) *Term { return mkConcat(sprint(c, c.args[1]), mkStr("\n")) })
	m["io.WriteString"] = func(c *callCtx) ([]Outcome, bool) {
		w := c.arg(0)
		if w.Op == OIface && isTextBuffer(w.T) {
			c.bufWrite(w.Args[0], c.arg(1))
			return c.one(mkLen(c.arg(1)), mkNil())
		}
		return freshEvent(c)
	}
	m["fmt.Errorf"] = freshEvent
	m["errors.New"] = freshEvent
	nonNilCallees["fmt.Errorf"] = true
	nonNilCallees["errors.New"] = true
	m["errors.Is"] = func(c *callCtx) ([]Outcome, bool) {
		e, t := c.arg(0), c.arg(1)
		if eq, ok := c.st.facts.equal(e, t); ok && eq {
			return c.one(mkBool(true))
		}
		if c.st.facts.same(e, mkNil()) {
			if n, ok := c.st.facts.equal(t, mkNil()); ok && !n {
				return c.one(mkBool(false))
			}
		}
		return c.one(mkPure("errors.Is", tBool, e, t))
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println", "fmt.Printf", "fmt.Println", "fmt.Print", "log/slog.Error", "log/slog.Info", "log/slog.Warn", "log/slog.Debug"} {
		m[n] = freshEvent
	}

	// --- context
	m["context.WithValue"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("context.WithValue", c.results().At(0).Type(), c.arg(0), c.arg(1), c.arg(2)))
	}
	nonNilCallees["context.WithValue"] = true
	m["(context.Context).Value"] = func(c *callCtx) ([]Outcome, bool) { return c.one(contextValue(c.st, c.args[0], c.arg(1))) }
	m["(context.Context).Err"] = func(c *callCtx) ([]Outcome, bool) {
		ev := c.event("invoke")
		ev.Res = mkCall(c.e.nextID(), c.name, c.results().At(0).Type())
		return c.one(ev.Res)
	}
	m["(*net/http.Request).Context"] = func(c *callCtx) ([]Outcome, bool) {
		r := c.arg(0)
		if r.Op == OPure && r.S == "(*net/http.Request).WithContext" {
			return c.one(r.Args[1])
		}
		return c.one(mkPure(c.name, c.results().At(0).Type(), r))
	}
	m["(*net/http.Request).WithContext"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure(c.name, c.results().At(0).Type(), c.arg(0), c.arg(1)))
	}

	// --- headers
	m["(net/http.Header).Get"] = func(c *callCtx) ([]Outcome, bool) {
		if cell := c.header(c.arg(1)); cell != nil {
			return c.one(c.st.load(cell))
		}
		return c.one(mkPure(c.name, tString, c.arg(0), c.arg(1)))
	}
	m["(net/http.Header).Set"] = func(c *callCtx) ([]Outcome, bool) {
		ev := c.event("call")
		cell := c.header(c.arg(1))
		if cell == nil {
			c.forgetHeaders(c.arg(0), nil)
			c.st.bump("hdr")
		} else {
			c.st.store(cell, c.arg(2), nil)
		}
		c.emit(ev)
		return c.one()
	}
	m["(net/http.Header).Add"] = func(c *callCtx) ([]Outcome, bool) {
		ev := c.event("call")
		if cell := c.header(c.arg(1)); cell != nil {
			old := c.st.load(cell)
			if eq, ok := c.st.facts.equal(old, mkStr("")); ok && eq {
				c.st.store(cell, c.arg(2), nil)
			}
		} else {
			c.forgetHeaders(c.arg(0), nil)
		}
		c.emit(ev)
		return c.one()
	}
	m["(net/http.Header).Del"] = func(c *callCtx) ([]Outcome, bool) {
		ev := c.event("call")
		if cell := c.header(c.arg(1)); cell != nil {
			c.st.store(cell, mkStr(""), nil)
		} else {
			c.forgetHeaders(c.arg(0), nil)
		}
		c.emit(ev)
		return c.one()
	}
	m["(net/http.Header).Values"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure(c.name, c.results().At(0).Type(), c.arg(0), c.arg(1)))
	}

	// --- url values
	valsCell := func(v *Term) *Term { return mkCell(v, "$vals", tString) }
	addVal := func(c *callCtx) ([]Outcome, bool) {
		v := c.arg(0)
		for v.Op == OConv {
			v = v.Args[0]
		}
		if !isFresh(v) {
			return freshEvent(c)
		}
		cell := valsCell(v)
		c.st.store(cell, mkPure("kv", tString, c.st.load(cell), c.arg(1), c.arg(2)), nil)
		c.event("call")
		return c.one()
	}
	m["(net/url.Values).Add"] = addVal
	m["(net/url.Values).Set"] = addVal
	m["(net/url.Values).Encode"] = func(c *callCtx) ([]Outcome, bool) {
		v := c.arg(0)
		for v.Op == OConv {
			v = v.Args[0]
		}
		if isFresh(v) {
			return c.one(mkPure(c.name, tString, c.st.snap(v, 0), c.st.load(valsCell(v))))
		}
		return c.one(mkPure(c.name, tString, v))
	}
	m["(net/url.Values).Get"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure(c.name, tString, c.e.snaps(c.st, c.args)...))
	}
	m["(net/url.Values).Has"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure(c.name, tBool, c.e.snaps(c.st, c.args)...))
	}

	// --- json
	m["encoding/json.Marshal"] = pureEvent
	m["encoding/json.MarshalIndent"] = pureEvent

	// --- time
	m["time.Now"] = freshEvent
	before := func(a, b *Term) *Term { // a before b
		return mkLt(mkInt(0), mkPure("(time.Time).Sub", types.Typ[types.Int64], b, a))
	}
	m["(time.Time).Before"] = func(c *callCtx) ([]Outcome, bool) { return c.one(before(c.arg(0), c.arg(1))) }
	m["(time.Time).After"] = func(c *callCtx) ([]Outcome, bool) { return c.one(before(c.arg(1), c.arg(0))) }
	m["(time.Time).Sub"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("(time.Time).Sub", types.Typ[types.Int64], c.arg(0), c.arg(1)))
	}
	m["(time.Time).Compare"] = func(c *callCtx) ([]Outcome, bool) {
		// the sign of a-b
		return c.one(mkPure("(time.Time).Sub", types.Typ[types.Int64], c.arg(0), c.arg(1)))
	}
	now := func(c *callCtx) *Term {
		ev := c.e.event(c.st, "call", "time.Now", nil, nil, c.fr, c.pos)
		ev.Res = mkCall(c.e.nextID(), "time.Now", c.fn.Signature.Params().At(0).Type())
		c.st.add(ev)
		return ev.Res
	}
	m["time.Until"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("(time.Time).Sub", types.Typ[types.Int64], c.arg(0), now(c)))
	}
	m["time.Since"] = func(c *callCtx) ([]Outcome, bool) {
		return c.one(mkPure("(time.Time).Sub", types.Typ[types.Int64], now(c), c.arg(0)))
	}

	// --- sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock", "(sync.Locker).Lock", "(sync.Locker).Unlock",
		"(*sync.Map).Load", "(*sync.Map).Store", "(*sync.Map).Delete", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		m[n] = func(c *callCtx) ([]Outcome, bool) {
			if strings.HasSuffix(c.name, "Lock") {
				// what the lock guards may have been changed by others
				c.e.lockHavoc(c.st, c.args[0])
			}
			lockStep(c)
			return freshEvent(c)
		}
	}
	m["(*sync.Pool).Get"] = func(c *callCtx) ([]Outcome, bool) {
		outs, ok := freshEvent(c)
		if c.e.nilChecks {
			if t, n := c.e.p.poolShape(stripConv(c.args[0])); t != nil {
				res := outs[0].Vals[0]
				c.st.facts.assume(mkTAok(t, res), true)
				if n > 0 {
					list := c.st.load(mkTA(t, res))
					c.st.facts.assume(mkEq(mkLen(list), mkInt(n)), true)
				}
			}
		}
		return outs, ok
	}
	nonNilCallees["(*sync.Pool).Get"] = true
	m["(*sync.Pool).Put"] = func(c *callCtx) ([]Outcome, bool) {
		if c.e.nilChecks {
			if t, n := c.e.p.poolShape(stripConv(c.args[0])); t != nil {
				v := c.arg(1)
				for v.Op == OConv {
					v = v.Args[0]
				}
				good := v.Op == OIface && types.Identical(v.T, t)
				if known, ok := c.st.facts.decide(mkTAok(t, v)); ok && known {
					good = true
				}
				if good && n > 0 {
					p := v
					if v.Op == OIface {
						p = v.Args[0]
					}
					good = c.st.facts.same(mkLen(c.st.load(p)), mkInt(n))
					if k, ok := c.st.lenOf(c.st.load(p)); ok {
						good = k == n
					}
				}
				c.e.oblige("pooled", c.fr.fn, c.pos, good, "the pool is given back something else than what is taken out of it: "+v.String())
			}
		}
		return freshEvent(c)
	}
	m["(*sync.Once).Do"] = func(c *callCtx) ([]Outcome, bool) {
		skip := c.st.fork()
		ev := c.event("call")
		_ = ev
		out := c.e.callValueIn(c.st, c.fr, c.arg(1))
		for i := range out {
			out[i].Vals = nil
			out[i].St.add(&Event{Kind: "once-end", Name: "(*sync.Once).Do", Args: c.args, Fn: c.fr.fn, Pos: c.pos, ID: c.e.nextID()})
		}
		return append(out, Outcome{St: skip}), true
	}

	// --- misc events without effect on the analysed memory
	for _, n := range []string{"net/http.SetCookie", "net/http.Redirect", "net/http.Error", "math/rand.Int", "math/rand.Intn", "math/rand.Int63", "math/rand.Int63n", "math/rand/v2.Int", "math/rand/v2.IntN", "math/rand/v2.Int64N", "crypto/rand.Int", "crypto/rand.Text", "os.Getenv", "io.Copy",
		"net/http.NewRequestWithContext", "net/http.NewRequest", "(*net/http.Client).Do",
		"compress/gzip.NewWriterLevel", "compress/gzip.NewWriter", "compress/flate.NewWriter", "compress/zlib.NewWriter", "compress/zlib.NewWriterLevel"} {
		m[n] = freshEvent
	}
	nonNilCallees["crypto/rand.Text"] = true
	nonNilCallees["compress/gzip.NewWriter"] = true
	nonNilCallees["compress/zlib.NewWriter"] = true
	for _, n := range []string{"context.Background", "encoding/json.NewDecoder", "encoding/json.NewEncoder", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "net/http.FileServer", "net/http.StripPrefix", "expvar.Handler", "math/big.NewInt", "strings.NewReplacer", "html/template.New", "(*net/http.Request).WithContext", "(*net/http.Request).Context"} {
		nonNilCallees[n] = true
	}
	m["crypto/rand.Read"] = func(c *callCtx) ([]Outcome, bool) { return c.fill(c.args[0]) }
	m["io.ReadFull"] = func(c *callCtx) ([]Outcome, bool) { return c.fill(c.args[1]) }

	// --- runtime helpers without effect
	m["runtime.Gosched"] = freshEvent
}

// fill: the call writes to the bytes of the slice
func (c *callCtx) fill(b *Term) ([]Outcome, bool) {
	ev := c.event("call")
	ev.Res = mkCall(c.e.nextID(), c.name, c.results())
	r := rootOf(b)
	if isFresh(r) {
		c.st.havoc(r)
		c.st.flags[b] |= flSummary
	} else {
		c.st.bump("e:" + typeKey(elemType(b.T)))
	}
	c.emit(ev)
	return []Outcome{{St: c.st, Vals: []*Term{mkExtract(ev.Res, 0), mkExtract(ev.Res, 1)}}}, true
}

// lockHavoc forgets the state of the object that contains the mutex
func (e *Engine) lockHavoc(st *State, mu *Term) {
	base := mu
	if mu.Op == OFieldAddr {
		base = mu.Args[0]
	}
	for k := range st.mem {
		if contains(k, base) && k != mu {
			if isFresh(rootOf(k)) {
				continue
			}
			delete(st.mem, k)
		}
	}
	if t := structOf(deref(base.T)); t != nil {
		for i := 0; i < t.NumFields(); i++ {
			st.bump("f:" + typeKey(deref(base.T)) + "." + t.Field(i).Name())
			if _, ok := t.Field(i).Type().Underlying().(*types.Map); ok {
				st.bump("m:" + typeKey(t.Field(i).Type()))
			}
		}
	}
}

// lockStep keeps the list of the locks held
func lockStep(c *callCtx) {
	mu := stripIface(stripConv(c.args[0]))
	st := c.st
	acquire := func(write bool) {
		if st.held.has(mu) {
			c.e.access(st, "relock", mu, c.fr, c.pos)
		}
		st.held = &heldLock{mu, write, st.held}
	}
	release := func(write bool) {
		h, ok := st.held.without(mu, write)
		if !ok {
			c.e.access(st, "badunlock", mu, c.fr, c.pos)
		}
		st.held = h
	}
	switch c.name[strings.LastIndex(c.name, ".")+1:] {
	case "Lock":
		acquire(true)
	case "RLock":
		acquire(false)
	case "Unlock":
		release(true)
	case "RUnlock":
		release(false)
	}
}

// access tells the check about a use of memory
func (e *Engine) access(st *State, kind string, what *Term, fr *Frame, pos token.Pos) {
	if e.onAccess != nil {
		e.onAccess(st, kind, what, fr, pos)
	}
}

func isTextBuffer(t types.Type) bool {
	s := typeKey(t)
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

func mkEqualFold(a, b *Term) *Term {
	if x, ok := a.strVal(); ok {
		if y, ok := b.strVal(); ok {
			return mkBool(strings.EqualFold(x, y))
		}
	}
	if a == b {
		return mkBool(true)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mkPure("strings.EqualFold", tBool, a, b)
}

func (e *Engine) callValueIn(st *State, fr *Frame, f *Term) []Outcome {
	if f.Op == OFunc || f.Op == OClosure {
		return e.callValue(st, f)
	}
	sig, _ := f.T.Underlying().(*types.Signature)
	if sig == nil {
		panic(undecided("call of " + f.String()))
	}
	return e.unknown(st, fr, "dyn", "", f, sig, nil, fr.fn.Pos())
}

var pureFns = map[string]bool{}

// noHavoc: calls that leave the memory of the analysed code alone
var noHavoc = map[string]bool{}

// calls of library functions that call back into code of the user
var staticMayPanic = map[string]bool{"io.Copy": true, "net/http.Redirect": true, "(*encoding/json.Encoder).Encode": true, "io.WriteString": true}

func (e *Engine) mayPanic(kind, name string) bool {
	if kind == "call" {
		return staticMayPanic[name] || strings.Contains(name, modPath)
	}
	switch name {
	case "(error).Error", "(net/http.ResponseWriter).Header", "(context.Context).Done", "(net/http.Flusher).Flush":
		return false
	}
	return true
}
