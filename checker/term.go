package main

// Value-numbered terms: the abstract values of the analysis. Two syntactically different program expressions that
// compute the same value from the same inputs get the same *Term (hash consing), which is what makes the rules
// independent of how the code is written.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst Op = iota
	OSym
	OFunc
	OClosure
	OBuiltin
	OGlobal
	OAlloc
	OFieldAddr
	OIdxAddr
	OLoad
	OField
	OStruct
	OZero
	OSlice
	OAppend
	OMakeMap
	OMakeSlice
	OMakeChan
	OLookup
	OLookupOk
	OCall
	OPure
	OExtract
	OTuple
	OBin
	OUn
	OConv
	OIface
	OTA
	OTAok
	OLen
	OCap
	OConcat
	OIndex
	OPhi
	ONext
	OList
	OMapLit
	OPtrTo
	OCell
)

var opNames = [...]string{"const", "sym", "func", "closure", "builtin", "global", "alloc", "fieldaddr", "idxaddr", "load", "field", "struct", "zero", "slice", "append", "makemap", "makeslice", "makechan", "lookup", "lookupok", "call", "pure", "extract", "tuple", "bin", "un", "conv", "iface", "ta", "taok", "len", "cap", "concat", "index", "phi", "next", "list", "maplit", "ptrto", "cell"}

type Term struct {
	ID   int
	Op   Op
	Args []*Term
	S    string
	C    constant.Value
	T    types.Type
	Fn   *ssa.Function
	G    *ssa.Global
	N    int
	ext  any // side information attached at creation (not part of the identity)
}

var termTab = map[string]*Term{}
var termCount int
var termByID = []*Term{nil}

func intern(t Term, extra string) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + int(t.Op)))
	for _, a := range t.Args {
		if a == nil {
			b.WriteString("_,")
			continue
		}
		b.WriteString(strconv.Itoa(a.ID))
		b.WriteByte(',')
	}
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.N))
	b.WriteByte('|')
	b.WriteString(extra)
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCount++
	t.ID = termCount
	p := &t
	termTab[k] = p
	termByID = append(termByID, p)
	return p
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mkConst(v constant.Value, t types.Type) *Term {
	return intern(Term{Op: OConst, C: v, T: t}, fmt.Sprint(v.Kind())+v.ExactString())
}
func mkInt(i int64) *Term     { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkStr(s string) *Term    { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term     { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkNil() *Term            { return intern(Term{Op: OConst, S: "nil"}, "nil") }
func (t *Term) isNil() bool   { return t.Op == OConst && t.C == nil }
func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) boolVal() (bool, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) intVal() (int64, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) isInt(i int64) bool  { v, ok := t.intVal(); return ok && v == i }
func (t *Term) isStr(s string) bool { v, ok := t.strVal(); return ok && v == s }

func mkSym(name string, t types.Type) *Term {
	return intern(Term{Op: OSym, S: name, T: t}, typeKey(t))
}

func fnKey(fn *ssa.Function) string { return fmt.Sprintf("%p", fn) }

func mkFunc(fn *ssa.Function) *Term {
	return intern(Term{Op: OFunc, Fn: fn, T: fn.Signature}, fnKey(fn))
}
func mkClosure(fn *ssa.Function, b []*Term) *Term {
	return intern(Term{Op: OClosure, Fn: fn, Args: b, T: fn.Signature}, fnKey(fn))
}
func mkGlobal(g *ssa.Global) *Term {
	return intern(Term{Op: OGlobal, G: g, T: g.Type()}, g.String())
}
func mkAlloc(n int, elem types.Type, what string) *Term {
	return intern(Term{Op: OAlloc, N: n, T: types.NewPointer(elem), S: what}, "")
}
func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}
func mkFieldAddr(base *Term, i int) *Term {
	st := structOf(deref(base.T))
	if st == nil {
		panic(undecided("field address on non-struct " + base.String()))
	}
	f := st.Field(i)
	return intern(Term{Op: OFieldAddr, Args: []*Term{base}, N: i, S: f.Name(), T: types.NewPointer(f.Type())}, "")
}
func mkCell(base *Term, name string, t types.Type) *Term {
	return intern(Term{Op: OCell, Args: []*Term{base}, S: name, T: types.NewPointer(t)}, "")
}
func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}
func mkIdxAddr(base, idx *Term) *Term {
	et := elemType(base.T)
	var pt types.Type
	if et != nil {
		pt = types.NewPointer(et)
	}
	return intern(Term{Op: OIdxAddr, Args: []*Term{base, idx}, T: pt}, "")
}
func mkLoad(addr *Term, epoch int) *Term {
	return intern(Term{Op: OLoad, Args: []*Term{addr}, N: epoch, T: deref(addr.T)}, "")
}
func mkField(v *Term, i int) *Term {
	switch v.Op {
	case OStruct:
		return v.Args[i]
	case OZero:
		return zeroOf(structOf(v.T).Field(i).Type())
	case OLoad:
		// a field of a loaded struct is the load of the field
		return mkLoad(mkFieldAddr(v.Args[0], i), v.N)
	}
	st := structOf(v.T)
	if st == nil {
		panic(undecided("field of non-struct " + v.String()))
	}
	f := st.Field(i)
	return intern(Term{Op: OField, Args: []*Term{v}, N: i, S: f.Name(), T: f.Type()}, "")
}
func mkStruct(t types.Type, vals []*Term) *Term {
	// re-assemble a struct copied field by field
	if len(vals) > 0 {
		var src *Term
		ok := true
		allZero := true
		for i, v := range vals {
			if v != zeroOf(structOf(t).Field(i).Type()) {
				allZero = false
			}
			var s *Term
			if v.Op == OField && v.N == i {
				s = v.Args[0]
			} else if v.Op == OLoad && v.Args[0].Op == OFieldAddr && v.Args[0].N == i {
				s = mkLoad(v.Args[0].Args[0], v.N)
			}
			if s == nil || (src != nil && s != src) || !types.Identical(s.T, t) {
				ok = false
			}
			src = s
		}
		if ok && src != nil {
			return src
		}
		if allZero {
			return intern(Term{Op: OZero, T: t}, typeKey(t))
		}
	}
	return intern(Term{Op: OStruct, Args: vals, T: t}, typeKey(t))
}
func zeroOf(t types.Type) *Term {
	if t == nil {
		return mkNil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
		return mkNil()
	case *types.Struct, *types.Array:
		return intern(Term{Op: OZero, T: t}, typeKey(t))
	case *types.Tuple:
		return intern(Term{Op: OZero, T: t}, typeKey(t))
	}
	return mkNil()
}
func mkPure(name string, t types.Type, args ...*Term) *Term {
	return intern(Term{Op: OPure, S: name, Args: args, T: t}, "")
}
func mkCall(id int, name string, t types.Type) *Term {
	return intern(Term{Op: OCall, S: name, N: id, T: t}, "")
}
func mkTuple(args ...*Term) *Term { return intern(Term{Op: OTuple, Args: args}, "") }
func mkExtract(t *Term, i int) *Term {
	if t.Op == OTuple {
		return t.Args[i]
	}
	var et types.Type
	if tt, ok := t.T.(*types.Tuple); ok && i < tt.Len() {
		et = tt.At(i).Type()
	}
	return intern(Term{Op: OExtract, Args: []*Term{t}, N: i, T: et}, "")
}
func mkIface(t types.Type, x *Term) *Term {
	return intern(Term{Op: OIface, Args: []*Term{x}, T: t}, typeKey(t))
}
func mkList(t types.Type, args ...*Term) *Term {
	return intern(Term{Op: OList, Args: args, T: t}, "")
}

func mkLen(x *Term) *Term {
	switch x.Op {
	case OConst:
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
		if x.isNil() {
			return mkInt(0)
		}
	case OList:
		return mkInt(int64(len(x.Args)))
	case OMakeSlice:
		return x.Args[0]
	case OSlice:
		base, lo, hi := x.Args[0], x.Args[1], x.Args[2]
		if hi == nil {
			if a := arrayLen(base.T); a >= 0 {
				hi = mkInt(a)
			} else {
				hi = mkLen(base)
			}
		}
		return mkBin("-", hi, lo, types.Typ[types.Int])
	case OConcat:
		r := mkInt(0)
		for _, a := range x.Args {
			r = mkBin("+", r, mkLen(a), types.Typ[types.Int])
		}
		return r
	case OAppend:
		return mkBin("+", mkLen(x.Args[0]), mkLen(x.Args[1]), types.Typ[types.Int])
	case OConv:
		if isStringOrBytes(x.T) && isStringOrBytes(x.Args[0].T) {
			return mkLen(x.Args[0])
		}
	}
	return intern(Term{Op: OLen, Args: []*Term{x}, T: types.Typ[types.Int]}, "")
}

func isStringOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// arrayLen returns the length of the array t (or *t) designates, or -1
func arrayLen(t types.Type) int64 {
	if t == nil {
		return -1
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Len()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Len()
		}
	}
	return -1
}

func mkCap(x *Term) *Term {
	if x.Op == OMakeSlice {
		return x.Args[1]
	}
	if x.Op == OSlice && x.Args[3] != nil {
		return mkBin("-", x.Args[3], x.Args[1], types.Typ[types.Int])
	}
	if x.isNil() {
		return mkInt(0)
	}
	return intern(Term{Op: OCap, Args: []*Term{x}, T: types.Typ[types.Int]}, "")
}

// mkSlice is x[lo:hi:max] of a string, slice or pointer to array; nil bounds are the defaults
func mkSlice(x, lo, hi, max *Term, t types.Type) *Term {
	if lo == nil {
		lo = mkInt(0)
	}
	if x.isNil() {
		return x
	}
	if s, ok := x.strVal(); ok {
		l, ok1 := lo.intVal()
		h := int64(len(s))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return mkStr(s[l:h])
		}
	}
	if x.Op == OSlice {
		// re-slicing: offsets add up
		xlo := x.Args[1]
		it := types.Typ[types.Int]
		var nhi, nmax *Term
		if hi != nil {
			nhi = mkBin("+", xlo, hi, it)
		} else {
			nhi = x.Args[2]
		}
		if max != nil {
			nmax = mkBin("+", xlo, max, it)
		} else {
			nmax = x.Args[3]
		}
		return mkSlice(x.Args[0], mkBin("+", xlo, lo, it), nhi, nmax, t)
	}
	if hi != nil && hi == mkLen(x) && arrayLen(x.T) < 0 {
		hi = nil
	}
	if hi != nil && arrayLen(x.T) >= 0 && hi.isInt(arrayLen(x.T)) {
		hi = nil
	}
	if lo.isInt(0) && hi == nil && max == nil && arrayLen(x.T) < 0 {
		return x
	}
	if isStringType(x.T) {
		if hi != nil && hi == lo {
			return mkStr("")
		}
		if hi == nil && lo == mkLen(x) {
			return mkStr("")
		}
		if x.Op == OConcat && lo.isInt(0) && hi != nil {
			// a prefix that ends at a part boundary
			acc := mkInt(0)
			for i, a := range x.Args {
				acc = mkBin("+", acc, mkLen(a), types.Typ[types.Int])
				if acc == hi {
					return mkConcat(x.Args[:i+1]...)
				}
			}
		}
	}
	return intern(Term{Op: OSlice, Args: []*Term{x, lo, hi, max}, T: t}, "")
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == OConcat {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if s, ok := p.strVal(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if l, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = mkStr(l + s)
					return
				}
			}
		}
		// s[:i] + s[i:] is s
		if len(out) > 0 && p.Op == OSlice {
			l := out[len(out)-1]
			if l.Op == OSlice && l.Args[0] == p.Args[0] && l.Args[2] != nil && l.Args[2] == p.Args[1] {
				out = out[:len(out)-1]
				add(mkSlice(l.Args[0], l.Args[1], p.Args[2], nil, p.T))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{Op: OConcat, Args: out, T: types.Typ[types.String]}, "")
}

func mkUn(op string, x *Term, t types.Type) *Term {
	if op == "!" {
		if b, ok := x.boolVal(); ok {
			return mkBool(!b)
		}
		if x.Op == OUn && x.S == "!" {
			return x.Args[0]
		}
	}
	if x.Op == OConst && x.C != nil {
		var tok token.Token
		switch op {
		case "-":
			tok = token.SUB
		case "^":
			tok = token.XOR
		}
		if tok != 0 && !(tok == token.XOR && isUnsigned(t)) {
			return mkConst(constant.UnaryOp(tok, x.C, 0), t)
		}
		if tok == token.XOR {
			if b, ok := t.Underlying().(*types.Basic); ok {
				return mkConst(constant.UnaryOp(tok, x.C, uint(sizeBits(b))), t)
			}
		}
	}
	return intern(Term{Op: OUn, S: op, Args: []*Term{x}, T: t}, "")
}

func sizeBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func intRange(t types.Type) (lo, hi constant.Value, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
		return nil, nil, false
	}
	bits := uint(sizeBits(b))
	one := constant.MakeInt64(1)
	if b.Info()&types.IsUnsigned != 0 {
		return constant.MakeInt64(0), constant.BinaryOp(constant.Shift(one, token.SHL, bits), token.SUB, one), true
	}
	h := constant.Shift(one, token.SHL, bits-1)
	return constant.UnaryOp(token.SUB, h, 0), constant.BinaryOp(h, token.SUB, one), true
}

// wrapInt reduces v to the range of the integer type t
func wrapInt(v constant.Value, t types.Type) constant.Value {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if constant.Compare(v, token.GEQ, lo) && constant.Compare(v, token.LEQ, hi) {
		return v
	}
	b := t.Underlying().(*types.Basic)
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(sizeBits(b)))
	// v mod 2^n
	r := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if constant.Compare(r, token.GTR, hi) {
		r = constant.BinaryOp(r, token.SUB, mod)
	}
	return r
}

var binToks = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT, "<<": token.SHL, ">>": token.SHR}

// isInt64: arithmetic of this type is treated as unbounded (lengths, indexes); the narrower types wrap
func isInt64(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 && sizeBits(b) == 64
}

// linear splits t into atom + k (atom nil for a constant)
func linear(t *Term) (*Term, int64) {
	if v, ok := t.intVal(); ok {
		return nil, v
	}
	if t.Op == OBin && t.S == "+" && isInt64(t.T) {
		if v, ok := t.Args[1].intVal(); ok {
			a, k := linear(t.Args[0])
			return a, k + v
		}
	}
	return t, 0
}

func mkBin(op string, x, y *Term, t types.Type) *Term {
	switch op {
	case "==":
		return mkEq(x, y)
	case "!=":
		return mkUn("!", mkEq(x, y), types.Typ[types.Bool])
	case "<":
		return mkLt(x, y)
	case ">":
		return mkLt(y, x)
	case "<=":
		return mkUn("!", mkLt(y, x), types.Typ[types.Bool])
	case ">=":
		return mkUn("!", mkLt(x, y), types.Typ[types.Bool])
	}
	if op == "+" && isStringType(t) {
		return mkConcat(x, y)
	}
	if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil {
		tok := binToks[op]
		switch op {
		case "<<", ">>":
			if s, ok := y.intVal(); ok && s >= 0 && s < 512 && x.C.Kind() == constant.Int {
				return mkConst(wrapInt(constant.Shift(x.C, tok, uint(s)), t), t)
			}
		case "/", "%":
			if x.C.Kind() == constant.Int && y.C.Kind() == constant.Int && constant.Sign(y.C) != 0 {
				if op == "/" {
					tok = token.QUO_ASSIGN // integer division
				}
				return mkConst(wrapInt(constant.BinaryOp(x.C, tok, y.C), t), t)
			}
		default:
			if x.C.Kind() == y.C.Kind() && (x.C.Kind() == constant.Int || x.C.Kind() == constant.Float) {
				v := constant.BinaryOp(x.C, tok, y.C)
				if x.C.Kind() == constant.Int {
					v = wrapInt(v, t)
				}
				return mkConst(v, t)
			}
		}
	}
	if isIntType(t) {
		switch op {
		case "-":
			if x == y {
				return mkInt(0)
			}
			if y.isInt(0) {
				return x
			}
			if v, ok := y.intVal(); ok && isInt64(t) {
				return mkBin("+", x, mkInt(-v), t)
			}
			if isInt64(t) {
				// (a+k1)-(b+k2): cancel equal atoms and keep the constant outside
				ax, kx := linear(x)
				ay, ky := linear(y)
				if ax == ay {
					return mkInt(kx - ky)
				}
				if ax != nil && ax.Op == OBin && ax.S == "+" {
					if ax.Args[0] == ay {
						return mkBin("+", ax.Args[1], mkInt(kx-ky), t)
					}
					if ax.Args[1] == ay {
						return mkBin("+", ax.Args[0], mkInt(kx-ky), t)
					}
				}
				if (kx != 0 || ky != 0) && ax != nil && ay != nil {
					return mkBin("+", mkBin("-", ax, ay, t), mkInt(kx-ky), t)
				}
			}
			if y.isInt(0) {
				return x
			}
		case "+":
			// (a-k)+k is a, also when it wraps around
			if v, ok := y.intVal(); ok && !isInt64(t) && x.Op == OBin && x.S == "-" && x.Args[1].isInt(v) && types.Identical(x.T, t) {
				return x.Args[0]
			}
			if v, ok := x.intVal(); ok {
				if _, ok2 := y.intVal(); !ok2 {
					x, y = y, mkInt(v)
				}
			}
			if y.isInt(0) {
				return x
			}
			if v, ok := y.intVal(); ok && isInt64(t) {
				a, k := linear(x)
				if k != 0 {
					return mkBin("+", a, mkInt(k+v), t)
				}
				return intern(Term{Op: OBin, S: "+", Args: []*Term{x, y}, T: t}, "")
			}
			if isInt64(t) {
				ax, kx := linear(x)
				ay, ky := linear(y)
				if kx != 0 || ky != 0 {
					return mkBin("+", mkBin("+", ax, ay, t), mkInt(kx+ky), t)
				}
				// b + (a-b) is a
				for i := 0; i < 2; i++ {
					if y.Op == OBin && y.S == "-" && y.Args[1] == x {
						return y.Args[0]
					}
					x, y = y, x
				}
				if x.ID > y.ID {
					x, y = y, x
				}
			}
		case "&", "|", "*":
			if op == "&" && (x.isInt(0) || y.isInt(0)) {
				return mkInt(0)
			}
			if op == "|" && x.isInt(0) {
				return y
			}
			if op == "|" && y.isInt(0) {
				return x
			}
			if op != "*" && x == y {
				return x
			}
			if x.ID > y.ID {
				x, y = y, x
			}
		}
	}
	return intern(Term{Op: OBin, S: op, Args: []*Term{x, y}, T: t}, "")
}

// definitelyNonNil says that a reference value is not nil, from its construction
func definitelyNonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OFunc, OClosure, OIface, OMakeMap, OMakeSlice, OMakeChan, OGlobal, OFieldAddr, OIdxAddr, OPtrTo, OCell, OStruct, OMapLit, OConcat:
		return true
	case OList:
		return len(t.Args) > 0
	case OSlice:
		// a slice of an array, or of a slice that is not nil
		return t.Args[0].Op == OAlloc || t.Args[0].Op == OMakeSlice
	case OAppend:
		return t.Args[1].Op == OList && len(t.Args[1].Args) > 0 || t.Args[0].Op == OList && len(t.Args[0].Args) > 0
	case OPure, OCall:
		return nonNilCallees[t.S]
	case OLoad:
		if t.Args[0].Op == OGlobal && nonNilGlobals[t.Args[0].G] {
			return true
		}
	}
	return false
}

var nonNilCallees = map[string]bool{}
var nonNilGlobals = map[*ssa.Global]bool{}

// distinctValues says that x and y can never be equal, from their construction
func distinctValues(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.isConst() && y.isConst() {
		return true // interned by value
	}
	if x.isNil() {
		x, y = y, x
	}
	if y.isNil() {
		return definitelyNonNil(x)
	}
	if x.Op == OIface && y.Op == OIface {
		if !types.Identical(x.T, y.T) {
			return true
		}
		return distinctValues(x.Args[0], y.Args[0])
	}
	freshRef := func(t *Term) bool {
		return t.Op == OAlloc || t.Op == OMakeMap || t.Op == OMakeChan || t.Op == OMakeSlice
	}
	if freshRef(x) && freshRef(y) {
		return true
	}
	if x.Op == OGlobal && y.Op == OGlobal {
		return true
	}
	if (x.Op == OGlobal && freshRef(y)) || (y.Op == OGlobal && freshRef(x)) {
		return true
	}
	if (freshRef(x) && y.Op == OSym) || (freshRef(y) && x.Op == OSym) {
		return true
	}
	// loads of two different never reassigned error values
	if x.Op == OLoad && y.Op == OLoad && x.Args[0].Op == OGlobal && y.Args[0].Op == OGlobal && x.Args[0] != y.Args[0] {
		return uniqueErrGlobals[x.Args[0].G] && uniqueErrGlobals[y.Args[0].G]
	}
	isFreshErr := func(t *Term) bool { return t.Op == OCall && freshErrCallees[t.S] }
	isErrGlobal := func(t *Term) bool { return t.Op == OLoad && t.Args[0].Op == OGlobal && uniqueErrGlobals[t.Args[0].G] }
	if (isFreshErr(x) && (isErrGlobal(y) || isFreshErr(y))) || (isFreshErr(y) && isErrGlobal(x)) {
		return true
	}
	if (x.Op == OIface && isErrGlobal(y)) || (y.Op == OIface && isErrGlobal(x)) {
		// the global holds an *errors.errorString, a boxed repo value is something else
		return true
	}
	return false
}

// uniqueErrGlobals: package variables initialised by errors.New and never assigned again
var uniqueErrGlobals = map[*ssa.Global]bool{}
var freshErrCallees = map[string]bool{"errors.New": true, "fmt.Errorf": true}

func mkEq(x, y *Term) *Term {
	if x == y {
		return mkBool(true)
	}
	if distinctValues(x, y) {
		return mkBool(false)
	}
	// constants (and nil) to the right, otherwise ordered by identity
	if x.isConst() || (!y.isConst() && x.ID > y.ID) {
		x, y = y, x
	}
	if b, ok := y.boolVal(); ok {
		if b {
			return x
		}
		return mkUn("!", x, types.Typ[types.Bool])
	}
	if x.Op == OIface && y.Op == OIface && types.Identical(x.T, y.T) {
		return mkEq(x.Args[0], y.Args[0])
	}
	// len(s) == 0 is s == ""
	if y.isInt(0) && x.Op == OLen && isStringType(x.Args[0].T) {
		return mkEq(x.Args[0], mkStr(""))
	}
	if y.isInt(0) && x.Op == OLen && x.Args[0].Op == OConcat {
		return mkEq(x.Args[0], mkStr(""))
	}
	if y.isStr("") && x.Op == OConcat {
		for _, a := range x.Args {
			if _, ok := a.strVal(); ok {
				return mkBool(false)
			}
		}
	}
	// x+k == y+k is x == y, also when the sums wrap around
	if x.Op == OBin && y.Op == OBin && x.S == y.S && (x.S == "+" || x.S == "-") && x.Args[1] == y.Args[1] && x.Args[1].isConst() && isIntType(x.T) && types.Identical(x.T, y.T) {
		return mkEq(x.Args[0], y.Args[0])
	}
	// x &^ y == 0 and x | y == y are x & y == x
	if x.Op == OBin && x.S == "&^" && y.isInt(0) {
		return mkEq(mkBin("&", x.Args[0], x.Args[1], x.T), x.Args[0])
	}
	for _, p := range [2][2]*Term{{x, y}, {y, x}} {
		if or := p[0]; or.Op == OBin && or.S == "|" && isIntType(or.T) {
			if or.Args[0] == p[1] {
				return mkEq(mkBin("&", or.Args[1], or.Args[0], or.T), or.Args[1])
			}
			if or.Args[1] == p[1] {
				return mkEq(mkBin("&", or.Args[0], or.Args[1], or.T), or.Args[0])
			}
		}
	}
	if isIntType(x.T) || isIntType(y.T) {
		ax, kx := linear(x)
		ay, ky := linear(y)
		if ax != nil && ay != nil && ax == ay {
			return mkBool(kx == ky)
		}
		if ax != nil && ay == nil && kx != 0 {
			return mkEq(ax, mkInt(ky-kx))
		}
		if ax != nil && ay != nil && (kx != 0 || ky != 0) {
			// canonical: the smaller atom alone on the left
			if ax.ID > ay.ID {
				ax, ay, kx, ky = ay, ax, ky, kx
			}
			y2 := mkBin("+", ay, mkInt(ky-kx), types.Typ[types.Int])
			return intern(Term{Op: OBin, S: "==", Args: []*Term{ax, y2}, T: types.Typ[types.Bool]}, "")
		}
	}
	return intern(Term{Op: OBin, S: "==", Args: []*Term{x, y}, T: types.Typ[types.Bool]}, "")
}

func mkLt(x, y *Term) *Term {
	if x == y {
		return mkBool(false)
	}
	if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
		return mkBool(constant.Compare(x.C, token.LSS, y.C))
	}
	if isIntType(x.T) || isIntType(y.T) {
		ax, kx := linear(x)
		ay, ky := linear(y)
		if ax != nil && ax == ay {
			return mkBool(kx < ky)
		}
		nonneg := func(a *Term) bool {
			return a.Op == OLen || a.Op == OCap || (isUnsigned(a.T) && isIntType(a.T))
		}
		switch {
		case ax == nil && ay != nil: // k < a
			k := kx - ky
			if nonneg(ay) {
				if k < 0 {
					return mkBool(true)
				}
				if k == 0 {
					return mkUn("!", mkEq(ay, mkInt(0)), types.Typ[types.Bool])
				}
			}
			// canonical form of k < a is not (a < k+1)
			return mkUn("!", mkLtRaw(ay, mkInt(k+1)), types.Typ[types.Bool])
		case ay == nil && ax != nil: // a < k
			k := ky - kx
			if nonneg(ax) {
				if k <= 0 {
					return mkBool(false)
				}
				if k == 1 {
					return mkEq(ax, mkInt(0))
				}
			}
			return mkLtRaw(ax, mkInt(k))
		case ax != nil && ay != nil:
			// ax + k < ay: canonical with the smaller atom on the left
			k := ky - kx // ax < ay + k
			if ax.ID < ay.ID {
				return mkLtRaw(ax, mkBin("+", ay, mkInt(k), types.Typ[types.Int]))
			}
			// ax < ay+k  <=>  not (ay+k <= ax) <=> not (ay < ax-k+1)
			return mkUn("!", mkLtRaw(ay, mkBin("+", ax, mkInt(1-k), types.Typ[types.Int])), types.Typ[types.Bool])
		}
	}
	return mkLtRaw(x, y)
}

func mkLtRaw(x, y *Term) *Term {
	return intern(Term{Op: OBin, S: "<", Args: []*Term{x, y}, T: types.Typ[types.Bool]}, "")
}

func mkNot(x *Term) *Term { return mkUn("!", x, types.Typ[types.Bool]) }

func mkConv(t types.Type, x *Term) *Term {
	if x.T != nil && types.Identical(x.T, t) {
		return x
	}
	if x.Op == OConst {
		if x.C == nil {
			return x
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int:
				return mkConst(wrapInt(x.C, t), t)
			case b.Info()&types.IsFloat != 0 && (x.C.Kind() == constant.Int || x.C.Kind() == constant.Float):
				return mkConst(constant.ToFloat(x.C), t)
			case b.Info()&types.IsString != 0 && x.C.Kind() == constant.String:
				return mkConst(x.C, t)
			case b.Info()&types.IsString != 0 && x.C.Kind() == constant.Int:
				if i, ok := constant.Int64Val(x.C); ok {
					return mkStr(string(rune(i)))
				}
			}
		}
	}
	if x.T != nil {
		// conversions that keep the representation (named <-> underlying) are transparent
		if types.Identical(x.T.Underlying(), t.Underlying()) {
			return x
		}
		// widening an integer keeps the value
		xl, xh, ok1 := intRange(x.T)
		tl, th, ok2 := intRange(t)
		if ok1 && ok2 && constant.Compare(tl, token.LEQ, xl) && constant.Compare(xh, token.LEQ, th) {
			return intern(Term{Op: OConv, S: "widen", Args: []*Term{x}, T: t}, typeKey(t))
		}
	}
	// string([]byte(s)) and []byte(string(b)) round trips
	if x.Op == OConv && isStringOrBytes(t) && isStringOrBytes(x.T) && isStringOrBytes(x.Args[0].T) && isStringType(t) == isStringType(x.Args[0].T) {
		return x.Args[0]
	}
	return intern(Term{Op: OConv, Args: []*Term{x}, T: t}, typeKey(t))
}

// mkTA is the value of x.(t) assuming it succeeds
func mkTA(t types.Type, x *Term) *Term {
	if x.Op == OIface {
		if types.IsInterface(t) {
			return x
		}
		if types.Identical(x.T, t) {
			return x.Args[0]
		}
	}
	if types.IsInterface(t) {
		// same value, other static type
		return intern(Term{Op: OTA, Args: []*Term{x}, T: t}, "i")
	}
	return intern(Term{Op: OTA, Args: []*Term{x}, T: t}, typeKey(t))
}
func mkTAok(t types.Type, x *Term) *Term {
	if x.isNil() {
		return mkBool(false)
	}
	if x.Op == OIface {
		if it, ok := t.Underlying().(*types.Interface); ok && types.IsInterface(t) {
			return mkBool(types.Implements(x.T, it))
		}
		return mkBool(types.Identical(x.T, t))
	}
	if x.Op == OTA && types.IsInterface(x.T) {
		x = x.Args[0]
	}
	return intern(Term{Op: OTAok, Args: []*Term{x}, T: types.Typ[types.Bool], S: typeKey(t), ext: t}, "")
}

func mkIndex(x, i *Term, t types.Type) *Term {
	if s, ok := x.strVal(); ok {
		if v, ok := i.intVal(); ok && v >= 0 && v < int64(len(s)) {
			return mkConst(constant.MakeInt64(int64(s[v])), t)
		}
	}
	if x.Op == OSlice && isStringType(x.T) {
		return mkIndex(x.Args[0], mkBin("+", x.Args[1], i, types.Typ[types.Int]), t)
	}
	return intern(Term{Op: OIndex, Args: []*Term{x, i}, T: t}, "")
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 8 {
		return "…"
	}
	args := func(sep string) string {
		var p []string
		for _, a := range t.Args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, sep)
	}
	switch t.Op {
	case OConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.ExactString()
	case OSym:
		return t.S
	case OFunc:
		return t.Fn.String()
	case OClosure:
		return "closure " + t.Fn.String()
	case OGlobal:
		return "&" + t.G.String()
	case OAlloc:
		return fmt.Sprintf("new#%d(%s)", t.N, t.S)
	case OFieldAddr:
		return "&" + t.Args[0].str(d+1) + "." + t.S
	case OCell:
		return "&" + t.Args[0].str(d+1) + "." + t.S
	case OIdxAddr:
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OLoad:
		a := t.Args[0]
		s := a.str(d + 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.N != 0 {
			s += "@" + strconv.Itoa(t.N)
		}
		return s
	case OField:
		return t.Args[0].str(d+1) + "." + t.S
	case OStruct:
		return shortType(t.T) + "{" + args(", ") + "}"
	case OZero:
		return shortType(t.T) + "{}"
	case OSlice:
		s := t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":"
		if t.Args[2] != nil {
			s += t.Args[2].str(d + 1)
		}
		if t.Args[3] != nil {
			s += ":" + t.Args[3].str(d+1)
		}
		return s + "]"
	case OCall:
		return fmt.Sprintf("%s#%d", t.S, t.N)
	case OPure:
		return t.S + "(" + args(", ") + ")"
	case OExtract:
		return t.Args[0].str(d+1) + "." + strconv.Itoa(t.N)
	case OTuple:
		return "(" + args(", ") + ")"
	case OBin:
		return "(" + t.Args[0].str(d+1) + " " + t.S + " " + t.Args[1].str(d+1) + ")"
	case OUn:
		return t.S + t.Args[0].str(d+1)
	case OConv:
		return shortType(t.T) + "(" + args(", ") + ")"
	case OIface:
		return t.Args[0].str(d + 1)
	case OTA:
		return t.Args[0].str(d+1) + ".(" + shortType(t.T) + ")"
	case OTAok:
		return t.Args[0].str(d+1) + " is " + t.S
	case OConcat:
		return args(" + ")
	case OIndex:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OList:
		return "[" + args(", ") + "]"
	case OPhi:
		return fmt.Sprintf("phi#%d(%s)", t.N, t.S)
	case ONext:
		return fmt.Sprintf("%s#%d(%s)", t.S, t.N, args(","))
	}
	return opNames[t.Op] + ":" + t.S + "#" + strconv.Itoa(t.N) + "(" + args(", ") + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// contains reports whether sub occurs in t
func contains(t, sub *Term) bool { return containsF(t, func(x *Term) bool { return x == sub }) }

func containsF(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces terms bottom-up (only through the constructors used by the rules)
func subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	switch t.Op {
	case OBin:
		return mkBin(t.S, args[0], args[1], t.T)
	case OUn:
		return mkUn(t.S, args[0], t.T)
	case OConcat:
		return mkConcat(args...)
	case OSlice:
		return mkSlice(args[0], args[1], args[2], args[3], t.T)
	case OLen:
		return mkLen(args[0])
	case OField:
		return mkField(args[0], t.N)
	case OLoad:
		return mkLoad(args[0], t.N)
	case OFieldAddr:
		return mkFieldAddr(args[0], t.N)
	case OIdxAddr:
		return mkIdxAddr(args[0], args[1])
	case OIndex:
		return mkIndex(args[0], args[1], t.T)
	case OConv:
		return mkConv(t.T, args[0])
	case OIface:
		return mkIface(t.T, args[0])
	case OExtract:
		return mkExtract(args[0], t.N)
	case OTAok:
		return mkTAok(t.ext.(types.Type), args[0])
	case OTA:
		return mkTA(t.T, args[0])
	}
	n := *t
	n.Args = args
	extra := ""
	switch t.Op {
	case OStruct:
		return mkStruct(t.T, args)
	case OClosure:
		extra = fnKey(t.Fn)
	}
	return intern(n, extra)
}

type undecidedErr struct{ msg string }

func undecided(msg string) undecidedErr { return undecidedErr{msg} }
func (u undecidedErr) Error() string    { return u.msg }

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
