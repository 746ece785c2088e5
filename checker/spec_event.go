package main

// Rules for the text of server-sent events.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	specs["C34"] = spec{run: checkEventText, min: 40,
		explain: "every path of ServerSentEvent.String for any name, id, number of data texts and content: the text produced is followed as a sequence of pieces, across loops as an invariant of the text built so far, by an automaton of event-stream lines; every piece that is not constant must be free of line breaks (a may-contain-character analysis over the string functions it went through) and stand on a line that begins with its own field name",
		assume:  []string{"the documented behaviour of the functions of package strings"}}
}

// evState is where in the event-stream the text built so far ends
type evState struct {
	at    int // lnStart..lnDone
	field string
	has   string // fields written, sorted
}

const (
	lnStart = iota // nothing or an empty first line
	lnLine         // at the beginning of a line
	lnField        // after a field name
	lnFull         // after a field name and its value
	lnDone         // after the empty line that ends the event
)

var evFields = map[string]string{"event": "Name", "id": "Id", "data": "Data", "retry": "Retry"}

type evSet map[evState]bool

type evLoop struct {
	x    *LoopExit
	vi   int
	part int
	body bool // seen from inside the loop
}

type evText struct {
	c      *Check
	fields map[string]*Term
	memo   map[evKey]evSet
}

type evKey struct {
	n    *LoopNode
	vi   int
	part int
}

type evEnv struct {
	up    *evEnv
	scope Scope
	loops map[*Term]evLoop
}

func (v *evEnv) find(t *Term) (evLoop, *evEnv, bool) {
	for e := v; e != nil; e = e.up {
		if l, ok := e.loops[t]; ok {
			return l, e, true
		}
	}
	return evLoop{}, nil, false
}

// env knows the loops of a stretch
func (v *evText) env(up *evEnv, s Scope) *evEnv {
	e := &evEnv{up: up, scope: s, loops: map[*Term]evLoop{}}
	for _, it := range s.items {
		if x, ok := it.(*LoopExit); ok {
			for i, lv := range x.Node.Vars {
				e.loops[lv.Top] = evLoop{x: x, vi: i, part: x.Part}
			}
		}
	}
	return e
}

func (v *evText) fail(s Scope, format string, args ...any) {
	v.c.require(false, "event-lines", token.NoPos, &s, format, args...)
}

// run follows the pieces of a text
func (v *evText) run(env *evEnv, in evSet, t *Term) evSet {
	switch {
	case t.Op == OConcat:
		for _, p := range t.Args {
			in = v.run(env, in, p)
		}
		return in
	case t.Op == OConv && isStringType(t.T) && len(t.Args) == 1 && (isStringType(t.Args[0].T) || isBytes(t.Args[0].T)):
		return v.run(env, in, t.Args[0])
	}
	if s, ok := t.strVal(); ok {
		out := evSet{}
		for st := range in {
			if n, ok := v.constant(env, st, s); ok {
				out[n] = true
			}
		}
		return out
	}
	if l, at, ok := env.find(t); ok {
		for st := range in {
			if st != (evState{}) {
				// text built by a loop of its own and then appended
				return v.value(env, in, t)
			}
		}
		if l.body {
			m := v.memo[evKey{l.x.Node, l.vi, l.part}]
			if m == nil {
				panic(undecided("the text of an event depends on several variables of a loop"))
			}
			return m
		}
		return v.loop(at, l)
	}
	if env.scope.facts.always(mkEq(t, mkStr(""))) {
		return in
	}
	return v.value(env, in, t)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// loop: what the variable of a loop may hold where the loop is left
func (v *evText) loop(env *evEnv, l evLoop) evSet {
	n := l.x.Node
	for p := range n.Parts {
		if k := (evKey{n, l.vi, p}); v.memo[k] == nil {
			v.memo[k] = evSet{}
		}
	}
	for round := 0; ; round++ {
		if round > 50 {
			panic(undecided("the text of an event grows without a pattern"))
		}
		changed := false
		for p := range n.Parts {
			k := evKey{n, l.vi, p}
			add := func(s evSet) {
				for st := range s {
					if !v.memo[k][st] {
						v.memo[k][st] = true
						changed = true
					}
				}
			}
			if p == 0 {
				add(v.run(env, evSet{evState{}: true}, n.Vars[l.vi].Init))
			}
			for i := range n.Trans {
				t := &n.Trans[i]
				if t.To != p {
					continue
				}
				ts := transScope(t)
				te := v.env(env, ts)
				// while the body of the loop runs its variables hold what they held at its start
				saved := map[*Term]evLoop{}
				for j, lv := range n.Vars {
					saved[lv.Top] = evLoop{x: l.x, vi: j, part: t.From, body: true}
				}
				mid := &evEnv{up: env, scope: ts, loops: saved}
				te.up = mid
				next := t.Next[l.vi]
				add(v.runIn(te, l, t.From, next))
			}
		}
		if !changed {
			break
		}
	}
	return v.memo[evKey{n, l.vi, l.part}]
}

// runIn follows the next value of a loop variable, whose present value is what is known so far
func (v *evText) runIn(env *evEnv, l evLoop, from int, next *Term) evSet {
	top := l.x.Node.Vars[l.vi].Top
	parts := []*Term{next}
	if next.Op == OConcat {
		parts = next.Args
	}
	in := evSet{evState{}: true}
	for i, p := range parts {
		if p == top {
			if i != 0 {
				v.fail(env.scope, "the text built so far is not the beginning of what is built next")
				return evSet{}
			}
			in = v.memo[evKey{l.x.Node, l.vi, from}]
			if pv := l.x.Node.Parts[from].Vals[l.vi]; pv != nil && pv != top {
				in = v.run(env, evSet{evState{}: true}, pv)
			}
			continue
		}
		in = v.run(env, in, p)
	}
	return in
}

func (v *evText) constant(env *evEnv, st evState, s string) (evState, bool) {
	for s != "" {
		if s[0] == '\r' {
			v.fail(env.scope, "a carriage return is written")
			return st, false
		}
		if s[0] == '\n' {
			s = s[1:]
			switch st.at {
			case lnStart:
				st.at = lnLine
			case lnLine:
				st.at = lnDone
			case lnField, lnFull:
				st.at, st.field = lnLine, ""
			default:
				v.fail(env.scope, "something is written after the empty line that ends the event")
				return st, false
			}
			continue
		}
		line := s
		if i := strings.IndexAny(s, "\n\r"); i >= 0 {
			line = s[:i]
		}
		s = s[len(line):]
		switch st.at {
		case lnStart, lnLine:
			i := strings.IndexByte(line, ':')
			f := ""
			if i >= 0 {
				f = line[:i]
			}
			if i == 0 {
				st.at, st.field = lnFull, ""
				continue
			}
			if evFields[f] == "" || line[i+1:] != "" && line[i+1:] != " " {
				v.fail(env.scope, "the line beginning with %q does not begin with a field name", line)
				return st, false
			}
			st.at, st.field = lnField, f
			if !strings.Contains(st.has, f+";") {
				h := strings.Split(strings.TrimSuffix(st.has+f, ";"), ";")
				sort.Strings(h)
				st.has = strings.Join(h, ";") + ";"
			}
		case lnDone:
			v.fail(env.scope, "%q is written after the empty line that ends the event", line)
			return st, false
		default:
			v.fail(env.scope, "%q is written within the line of field %q", line, st.field)
			return st, false
		}
	}
	return st, true
}

// value: a piece that is not constant
func (v *evText) value(env *evEnv, in evSet, t *Term) evSet {
	out := evSet{}
	v.c.obligs++
	for st := range in {
		if st.at == lnFull && st.field != "" || st.at != lnField && st.at != lnFull {
			v.fail(env.scope, "%s is written where no field name precedes it", t)
			continue
		}
		if st.at == lnFull {
			v.fail(env.scope, "%s is written into a comment", t)
			continue
		}
		fields := v.fieldsOf(t)
		v.c.require(len(fields) == 1 && fields[evFields[st.field]], "own-field", token.NoPos, &env.scope, "%s is written as field %q", t, st.field)
		clean := v.absent(env, t, '\r') && v.absent(env, t, '\n')
		if !clean && st.field == "data" && v.dataLines(env, t) {
			clean = true
		}
		v.c.require(clean, "no-line-break", token.NoPos, &env.scope, "%s is written although it may contain a line break", t)
		st.at = lnFull
		out[st] = true
	}
	return out
}

// fieldsOf are the fields of the event a value is made of
func (v *evText) fieldsOf(t *Term) map[string]bool {
	out := map[string]bool{}
	containsF(t, func(x *Term) bool {
		for n, f := range v.fields {
			if x == f {
				out[n] = true
			}
		}
		return false
	})
	return out
}

// constList are the values of constant arguments
func constList(args []*Term) (out []string, ok bool) {
	for _, a := range args {
		if a.Op == OList {
			l, ok := constList(a.Args)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
			continue
		}
		s, ok := a.strVal()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// absent: the character does not occur in the text
func (v *evText) absent(env *evEnv, t *Term, ch byte) bool {
	c := string(ch)
	if s, ok := t.strVal(); ok {
		return !strings.Contains(s, c)
	}
	for e := env; e != nil; e = e.up {
		for f, val := range e.scope.facts.truth {
			if f.Op == OPure && !val && len(f.Args) == 2 && f.Args[0] == t {
				switch f.S {
				case "strings.Contains", "strings.ContainsAny":
					if s, ok := f.Args[1].strVal(); ok && (f.S == "strings.ContainsAny" && strings.Contains(s, c) || s == c) {
						return true
					}
				case "strings.ContainsRune":
					if n, ok := f.Args[1].intVal(); ok && n == int64(ch) {
						return true
					}
				}
			}
		}
	}
	switch t.Op {
	case OConcat:
		for _, p := range t.Args {
			if !v.absent(env, p, ch) {
				return false
			}
		}
		return true
	case OConv:
		if len(t.Args) == 1 && (isStringType(t.Args[0].T) || isBytes(t.Args[0].T)) {
			return v.absent(env, t.Args[0], ch)
		}
	case OSlice:
		return isStringType(t.T) && v.absent(env, t.Args[0], ch)
	case OExtract:
		return false
	case OIndex, OLoad:
		// an element of a list made by cutting a text
		l := t.Args[0]
		if t.Op == OLoad {
			if l.Op != OIdxAddr {
				return false
			}
			l = l.Args[0]
		}
		for l.Op == OSlice {
			l = l.Args[0]
		}
		return v.absentIn(env, l, ch)
	case ONext:
		return t.S == "elem" && v.absentIn(env, t.Args[1], ch)
	case OPure:
		switch t.S {
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "strconv.Quote":
			return true
		case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToValidUTF8", "strings.Clone":
			for _, a := range t.Args {
				if isStringType(a.T) && !v.absent(env, a, ch) && a == t.Args[0] {
					return false
				}
			}
			return true
		case "strings.ReplaceAll", "strings.Replace":
			if t.S == "strings.Replace" && !t.Args[3].isInt(-1) {
				return v.absent(env, t.Args[0], ch) && v.absent(env, t.Args[2], ch)
			}
			if !v.absent(env, t.Args[2], ch) {
				return false
			}
			return t.Args[1].isStr(c) || v.absent(env, t.Args[0], ch)
		case "(*strings.Replacer).Replace":
			if t.Args[0].Op != OPure || t.Args[0].S != "strings.NewReplacer" {
				return false
			}
			pairs, ok := constList(t.Args[0].Args)
			if !ok || len(pairs)%2 != 0 {
				return false
			}
			consumed := false
			for i := 0; i < len(pairs); i += 2 {
				if strings.Contains(pairs[i+1], c) {
					return false
				}
				consumed = consumed || pairs[i] == c
			}
			return consumed || v.absent(env, t.Args[1], ch)
		case "strings.Join":
			return v.absent(env, t.Args[1], ch) && v.absentIn(env, t.Args[0], ch)
		case "fmt.Sprint", "fmt.Sprintf":
			for _, a := range t.Args {
				if !v.absent(env, a, ch) {
					return false
				}
			}
			return len(t.Args) > 0
		}
	}
	return isIntType(t.T)
}

// absentIn: the character does not occur in any text of the list
func (v *evText) absentIn(env *evEnv, l *Term, ch byte) bool {
	if l.Op == OList {
		for _, a := range l.Args {
			if !v.absent(env, a, ch) {
				return false
			}
		}
		return true
	}
	if l.Op != OPure {
		return false
	}
	switch l.S {
	case "strings.Split":
		return l.Args[1].isStr(string(ch)) || v.absent(env, l.Args[0], ch)
	case "strings.Fields":
		return ch == '\n' || ch == '\r' || v.absent(env, l.Args[0], ch)
	case "strings.SplitN", "strings.SplitAfter", "strings.FieldsFunc":
		return v.absent(env, l.Args[0], ch)
	}
	return false
}

// dataLines: line breaks within the text all come with the field name of the next line
func (v *evText) dataLines(env *evEnv, t *Term) bool {
	const next = "\ndata: "
	isNext := func(x *Term) bool { return x.isStr(next) || x.isStr("\ndata:") }
	if t.Op != OPure {
		return false
	}
	switch t.S {
	case "strings.ReplaceAll":
		return t.Args[1].isStr("\n") && isNext(t.Args[2]) && v.absent(env, t.Args[0], '\r')
	case "strings.Join":
		return isNext(t.Args[1]) && v.absentIn(env, t.Args[0], '\n') && v.absentIn(env, t.Args[0], '\r')
	case "(*strings.Replacer).Replace":
		if t.Args[0].Op != OPure || t.Args[0].S != "strings.NewReplacer" {
			return false
		}
		pairs, ok := constList(t.Args[0].Args)
		if !ok || len(pairs)%2 != 0 {
			return false
		}
		eaten := map[string]bool{}
		for i := 0; i < len(pairs); i += 2 {
			if !isNext(mkStr(pairs[i+1])) {
				return false
			}
			eaten[pairs[i]] = true
		}
		return eaten["\n"] && (eaten["\r"] || v.absent(env, t.Args[1], '\r'))
	}
	return false
}

func checkEventText(c *Check) {
	named := c.p.typ("response", "ServerSentEvent")
	var recv types.Type = named
	fn := c.p.prog.LookupMethod(named, c.p.pkg("response").Pkg, "String")
	if fn == nil || fn.Synthetic != "" {
		recv = types.NewPointer(named)
		fn = c.p.prog.LookupMethod(recv, c.p.pkg("response").Pkg, "String")
	}
	if fn == nil {
		panic(undecided("ServerSentEvent has no String method"))
	}
	e := c.engine()
	st := newState(e)
	evt := mkSym("evt", recv)
	if recv != named {
		st.facts.assume(mkEq(evt, mkNil()), false)
	}
	field := func(n string) *Term {
		f, ok := fieldNamed(st.fork(), evt, n)
		if !ok {
			panic(undecided("ServerSentEvent has no field " + n))
		}
		return f
	}
	data := field("Data")
	v := &evText{c: c, fields: map[string]*Term{}, memo: map[evKey]evSet{}}
	for _, n := range evFields {
		v.fields[n] = field(n)
	}
	ends := 0
	for _, o := range e.callFn(st, fn, []*Term{evt}, nil, 0) {
		c.paths++
		r := run{Scope: scopeOf(o.St), o: o, e: e, st: o.St}
		pos := fn.Pos()
		if !c.require(o.Panic == nil, "event-text-no-panic", pos, &r.Scope, "String panics") {
			continue
		}
		out := o.Vals[0]
		env := v.env(nil, r.Scope)
		res := v.run(env, evSet{evState{}: true}, out)
		empty := r.facts.always(mkEq(out, mkStr("")))
		for s := range res {
			ends++
			if s.at == lnStart {
				continue
			}
			if empty {
				// the text was found to be empty: what the loops may have built is not what they built here
				continue
			}
			c.require(s.at == lnDone, "event-ended", pos, &r.Scope, "the text of the event does not end with an empty line")
			for f, n := range map[string]string{"event": "Name", "id": "Id"} {
				if !r.facts.always(mkEq(field(n), mkStr(""))) {
					c.require(strings.Contains(s.has, f+";"), "field-written", pos, &r.Scope, "%s of the event is not written", n)
				}
			}
			if !r.facts.never(mkLt(mkInt(0), field("Retry"))) {
				c.require(strings.Contains(s.has, "retry;"), "field-written", pos, &r.Scope, "the retry time of the event is not written")
			}
		}
		if len(res) == 0 {
			c.require(false, "event-lines", pos, &r.Scope, "no text of the event was found")
		}
		all := r.forAllT(data, func(x *LoopExit, t *LoopTrans, el Elem) bool { return v.carried(x, t, el) })
		if !all && data.Op != OSym {
			// all data joined at once
			all = containsF(out, func(x *Term) bool {
				return x.Op == OPure && x.S == "strings.Join" && x.Args[0] == data
			})
		}
		c.require(all || empty, "all-data-written", pos, &r.Scope, "not every line of the data is written")
	}
	c.require(ends > 0, "event-text-reachable", fn.Pos(), nil, "no way to return a text was found")
}

// forAllT is forAll with the transitions
func (s Scope) forAllT(list *Term, pred func(x *LoopExit, t *LoopTrans, e Elem) bool) bool {
	if list.isNil() || s.facts.always(mkEq(mkLen(list), mkInt(0))) {
		return true
	}
	for at, it := range s.items {
		x, ok := it.(*LoopExit)
		if !ok {
			continue
		}
		elem, ok := s.covers(at, list)
		if !ok {
			continue
		}
		all := true
		for _, t := range x.transitions() {
			if !pred(x, t, elem(t)) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// carried: the iteration adds every line of the element to the text
func (v *evText) carried(x *LoopExit, t *LoopTrans, el Elem) bool {
	s := transScope(t)
	env := v.env(nil, s)
	for vi := range x.Node.Vars {
		n := t.Next[vi]
		if n == nil || !isStringType(n.T) {
			continue
		}
		// the whole text with its line breaks replaced, or split into a known number of lines
		parts := []*Term{n}
		if n.Op == OConcat {
			parts = n.Args
		}
		for _, p := range parts {
			base := p
			for base.Op == OPure && len(base.Args) > 0 && (v.dataLines(env, base) || isNormalizer(base)) {
				i := 0
				if base.S == "(*strings.Replacer).Replace" {
					i = 1
				}
				base = base.Args[i]
				if base.Op == OPure && base.S == "strings.Split" {
					base = base.Args[0]
				}
			}
			if el.is(base) && v.dataLines(env, p) {
				return true
			}
		}
		lines := map[*Term]bool{}
		find := func(y *Term) bool {
			if y.Op == OPure && y.S == "strings.Split" && y.Args[1].isStr("\n") {
				b := y.Args[0]
				for b.Op == OPure && isNormalizer(b) {
					if b.S == "(*strings.Replacer).Replace" {
						b = b.Args[1]
					} else {
						b = b.Args[0]
					}
				}
				if el.is(b) {
					lines[y] = true
				}
			}
			return false
		}
		containsF(n, find)
		for _, it := range s.items {
			switch y := it.(type) {
			case *FactItem:
				containsF(y.T, find)
			case *LoopExit:
				for _, u := range y.transitions() {
					for _, w := range u.Next {
						if w != nil {
							containsF(w, find)
						}
					}
				}
			}
		}
		for l := range lines {
			if s.forAllT(l, func(y *LoopExit, u *LoopTrans, le Elem) bool {
				for _, w := range u.Next {
					if w == nil || !isStringType(w.T) {
						continue
					}
					ps := []*Term{w}
					if w.Op == OConcat {
						ps = w.Args
					}
					for _, p := range ps {
						if le.is(p) {
							return true
						}
					}
				}
				return false
			}) {
				return true
			}
		}
	}
	return false
}

// isNormalizer: turns every kind of line break into \n and changes nothing else
func isNormalizer(t *Term) bool {
	switch t.S {
	case "strings.ReplaceAll":
		return (t.Args[1].isStr("\r\n") || t.Args[1].isStr("\r")) && t.Args[2].isStr("\n")
	case "(*strings.Replacer).Replace":
		if t.Args[0].Op != OPure || t.Args[0].S != "strings.NewReplacer" {
			return false
		}
		pairs, ok := constList(t.Args[0].Args)
		if !ok {
			return false
		}
		for i := 0; i+1 < len(pairs); i += 2 {
			if strings.Trim(pairs[i], "\r\n") != "" || pairs[i+1] != "\n" {
				return false
			}
		}
		return true
	}
	return false
}
