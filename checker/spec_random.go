package main

// Which random bytes a text is made of.

import (
	"go/types"
	"strings"
)

// randomBytes is the number of bytes of crypto/rand, read on this path before item at, that the text is an encoding of
func randomBytes(s Scope, at int, tok *Term) (n int64, why string) {
	tok = s.facts.norm(stripConv(tok))
	pre := s.upto(at)
	type src struct {
		root *Term
		n    int64
	}
	var srcs []src
	for _, ev := range pre.events(isCall("crypto/rand.Read", "io.ReadFull")) {
		b := ev.Args[0]
		if ev.Name == "io.ReadFull" {
			if !isRandReader(ev.Args[0]) {
				continue
			}
			b = ev.Args[1]
		}
		if !s.isNil(mkExtract(ev.Res, 1)) {
			why = "; the error of the random source is not checked"
			continue
		}
		l, ok := pre.exactInt(mkLen(b))
		if !ok {
			why = "; the number of random bytes is not known"
			continue
		}
		srcs = append(srcs, src{b, l})
	}
	if tok.Op == OPure && tok.S == "crypto/rand.Text" || tok.Op == OCall && tok.S == "crypto/rand.Text" {
		return 16, ""
	}
	isSrc := func(t *Term) int64 {
		for _, x := range srcs {
			if t == x.root || s.facts.same(t, x.root) || rootOf(t) == rootOf(x.root) && mkLen(t) == mkLen(x.root) {
				return x.n
			}
		}
		return 0
	}
	// changing the case of hexadecimal digits loses nothing
	for tok.Op == OPure && (tok.S == "strings.ToUpper" || tok.S == "strings.ToLower") && tok.Args[0].Op == OPure && (tok.Args[0].S == "encoding/hex.EncodeToString" || strings.HasPrefix(tok.Args[0].S, "fmt%x") || strings.HasPrefix(tok.Args[0].S, "fmt%X")) {
		tok = tok.Args[0]
	}
	switch {
	case tok.Op == OPure && (tok.S == "encoding/hex.EncodeToString" || strings.HasSuffix(tok.S, ").EncodeToString") || strings.HasPrefix(tok.S, "fmt%x") || strings.HasPrefix(tok.S, "fmt%X")):
		for _, a := range tok.Args {
			if k := isSrc(a); k > 0 {
				return k, ""
			}
			if a.Op == OList {
				k := int64(0)
				for _, sc := range srcs {
					for i := int64(0); i < sc.n && i < 256; i++ {
						if containsElem(a.Args, rootOf(sc.root), i) {
							k++
						}
					}
				}
				if k > 0 {
					return k, ""
				}
			}
		}
		return 0, why + "; encodes something else than the random bytes"
	}
	// put together in a loop over the bytes, or byte by byte
	total := int64(0)
	parts := []*Term{tok}
	if tok.Op == OConcat {
		parts = tok.Args
	}
	var straight []*Term
	for _, p := range parts {
		if p.Op != OPhi {
			straight = append(straight, p)
			continue
		}
		for i, it := range pre.items {
			x, ok := it.(*LoopExit)
			if !ok || x.Node.varOf(p) == nil {
				continue
			}
			vi := -1
			for j, v := range x.Node.Vars {
				if v.Top == p {
					vi = j
				}
			}
			for _, sc := range srcs {
				elem, full := pre.covers(i, sc.root)
				if !full {
					why = "; the loop does not visit all random bytes"
					continue
				}
				good := true
				for _, t := range x.transitions() {
					cur := x.cur(t, vi)
					nxt := t.Next[vi]
					var added []*Term
					if nxt.Op == OConcat && nxt.Args[0] == cur {
						added = nxt.Args[1:]
					} else if cur.isStr("") {
						added = []*Term{nxt}
						if nxt.Op == OConcat {
							added = nxt.Args
						}
					} else {
						good = false
						break
					}
					e := elem(t)
					dbg("added", added, "elem", e.list, e.idx)
					if bitsOf(added, func(y *Term) bool { return e.is(y) }) != 0xff {
						good = false
						why = "; not every bit of a random byte reaches the token"
						break
					}
				}
				if good {
					total += sc.n
				}
			}
		}
	}
	for _, sc := range srcs {
		for i := int64(0); i < sc.n && i < 64; i++ {
			ix := mkIdxAddr(sc.root, mkInt(i))
			if bitsOf(straight, func(y *Term) bool {
				return y.Op == OLoad && (y.Args[0] == ix || y.Args[0].Op == OIdxAddr && rootOf(y.Args[0]) == rootOf(sc.root) && y.Args[0].Args[1].isInt(i))
			}) == 0xff {
				total++
			}
		}
	}
	if total == 0 && len(srcs) == 0 && why == "" {
		why = "; the random source is not read"
	}
	return total, why
}

// containsElem: one of the terms is the content of the cell i of the root
func containsElem(ts []*Term, root *Term, i int64) bool {
	for _, t := range ts {
		if t.Op == OLoad && t.Args[0].Op == OIdxAddr && rootOf(t.Args[0]) == root && t.Args[0].Args[1].isInt(i) {
			return true
		}
	}
	return false
}

func isRandReader(t *Term) bool {
	return containsF(t, func(x *Term) bool { return x.Op == OGlobal && x.G.String() == "crypto/rand.Reader" })
}

// bitsOf: the bits of the byte that determine one of the characters
func bitsOf(chars []*Term, isByte func(*Term) bool) int64 {
	var all int64
	for _, ch := range chars {
		all |= charBits(ch, isByte)
	}
	return all & 0xff
}

func charBits(t *Term, isByte func(*Term) bool) int64 {
	if isByte(t) {
		return 0xff
	}
	switch t.Op {
	case OConv:
		return charBits(t.Args[0], isByte)
	case OPure:
		if strings.HasPrefix(t.S, "fmt%") || t.S == "strconv.Itoa" || t.S == "strconv.FormatInt" || t.S == "strconv.FormatUint" || t.S == "encoding/hex.EncodeToString" || t.S == "bytestr" {
			var b int64
			for _, a := range t.Args {
				b |= charBits(a, isByte)
			}
			return b
		}
	case OList:
		var b int64
		for _, a := range t.Args {
			b |= charBits(a, isByte)
		}
		return b
	case OSlice, OIndex:
		// a table look-up with different entries
		if tab, ok := t.Args[0].strVal(); ok && t.Op == OIndex && distinctChars(tab) {
			return charBits(t.Args[1], isByte)
		}
	case OBin:
		a, b := t.Args[0], t.Args[1]
		switch t.S {
		case "+", "-", "^":
			if b.isConst() {
				return charBits(a, isByte)
			}
			if a.isConst() {
				return charBits(b, isByte)
			}
		case "&":
			if k, ok := b.intVal(); ok {
				return charBits(a, isByte) & k
			}
			if k, ok := a.intVal(); ok {
				return charBits(b, isByte) & k
			}
		case ">>":
			if k, ok := b.intVal(); ok && k < 8 {
				return charBits(a, isByte) >> k << k
			}
		case "/":
			if k, ok := b.intVal(); ok {
				for j := int64(0); j < 8; j++ {
					if k == 1<<j {
						return charBits(a, isByte) >> j << j
					}
				}
			}
		case "%":
			if k, ok := b.intVal(); ok {
				for j := int64(0); j < 8; j++ {
					if k == 1<<j {
						return charBits(a, isByte) & (k - 1)
					}
				}
			}
		}
	}
	return 0
}

func distinctChars(s string) bool {
	seen := map[byte]bool{}
	for i := 0; i < len(s); i++ {
		if seen[s[i]] {
			return false
		}
		seen[s[i]] = true
	}
	return s != ""
}

var _ = types.Typ
