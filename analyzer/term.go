package main

// Hash-consed value terms (the value-numbering domain) and linear expressions.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OpConst    Op = iota
	OpSym         // symbolic root: parameter, call result, loop variable, ...
	OpLin         // linear integer combination
	OpGlobal      // address of a global
	OpFunc        // function value
	OpAlloc       // address of an object created during the analysed run
	OpField       // address of a struct field
	OpElem        // address of an array / slice element: (backing, index)
	OpBack        // backing array of an opaque slice
	OpLen         // length of an opaque slice/string/channel
	OpCap         // capacity of an opaque slice
	OpSlice       // slice value: backing, offset, length, capacity
	OpLoad        // unknown memory content: (address) at an epoch
	OpClosure     // function + bindings
	OpIface       // interface value with known dynamic type
	OpTuple       //
	OpStruct      // struct value
	OpFieldVal    // field of an opaque struct value
	OpSel         // element of an opaque array value / byte content
	OpMapVal      // pseudo address of a map element value
	OpMapHas      // pseudo address of a map element presence bit
	OpMapLen      // pseudo address of a map length
	OpSub         // bytes [off,off+len) of a content
	OpConcat      // concatenation of byte values
	OpUpd         // content with bytes [off,off+len) replaced by src
	OpEnc         // integer encoded as bytes
	OpDec         // integer decoded from bytes (content, off)
	OpZeros       // zero bytes
	OpConv        // integer conversion that may not be the identity
	OpWrap        // integer arithmetic that may wrap
	OpBin         // other binary operation
	OpUn          // other unary operation
	OpGE          // Lin >= 0
	OpEQZ         // Lin == 0
	OpEq          // equality of non-integers
	OpNot         //
	OpCall        // uninterpreted pure function
	OpStrData     // backing array of a string viewed as bytes
	OpPseudo      // pseudo address for modelled objects (buffer contents, reader positions, ...)
	OpElemV       // a one-element sequence
	OpNumText     // decimal text of an integer
)

var opNames = [...]string{"const", "sym", "lin", "global", "func", "alloc", "field", "elem", "back", "len", "cap", "slice", "load", "closure", "iface", "tuple", "struct", "fieldval", "sel", "mapval", "maphas", "maplen", "sub", "concat", "upd", "enc", "dec", "zeros", "conv", "wrap", "bin", "un", "ge", "eqz", "eq", "not", "call", "strdata", "pseudo", "elemv", "itoa"}

type LT struct {
	A *Term
	K int64
}

// Lin is sum K*A + C over mathematical integers.
type Lin struct {
	T []LT
	C int64
}

type Term struct {
	ID   int
	Op   Op
	Args []*Term
	Typ  types.Type
	C    constant.Value
	Aux  string
	Idx  int
	L    *Lin
	Fn   *ssa.Function
	Org  *Origin // where the symbol is born
	NN   bool    // never nil
	Pair *Term   // error result this (pointer/interface) result came with
}

// Origin says in which frame and block a symbol is created.
type Origin struct {
	fr  *Frame
	blk *ssa.BasicBlock
}

type interner struct {
	m     map[string]*Term
	n     int
	types map[types.Type]string
}

var in = &interner{m: map[string]*Term{}, types: map[types.Type]string{}}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := in.types[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	in.types[t] = s
	return s
}

func (i *interner) get(key string, mk func() *Term) *Term {
	if t, ok := i.m[key]; ok {
		return t
	}
	t := mk()
	i.n++
	t.ID = i.n
	i.m[key] = t
	return t
}

var keyBuf []byte

func mk(op Op, typ types.Type, aux string, args ...*Term) *Term {
	k := keyBuf[:0]
	k = strconv.AppendInt(k, int64(op), 10)
	k = append(k, '|')
	k = append(k, aux...)
	k = append(k, '|')
	for _, a := range args {
		k = append(k, ',')
		k = strconv.AppendInt(k, int64(a.ID), 10)
	}
	switch op {
	case OpConv, OpWrap, OpIface, OpStruct, OpDec, OpSym, OpLoad, OpBin, OpUn, OpZeros, OpCall:
		k = append(k, '|')
		k = append(k, typeKey(typ)...)
	}
	keyBuf = k
	if t, ok := in.m[string(k)]; ok {
		return t
	}
	in.n++
	t := &Term{ID: in.n, Op: op, Typ: typ, Aux: aux, Args: append([]*Term(nil), args...)}
	in.m[string(k)] = t
	return t
}

func mkIdx(op Op, typ types.Type, idx int, args ...*Term) *Term {
	t := mk(op, typ, "#"+strconv.Itoa(idx), args...)
	t.Idx = idx
	return t
}

func sym(name string, typ types.Type) *Term { return mk(OpSym, typ, name) }

func mkConst(c constant.Value, typ types.Type) *Term {
	if c == nil {
		// zero value / nil of a type
		return mkNil(typ)
	}
	if c.Kind() == constant.Int {
		if v, ok := constant.Int64Val(c); ok {
			return mkInt(v)
		}
	}
	key := "c|" + c.Kind().String() + "|" + c.ExactString()
	return in.get(key, func() *Term { return &Term{Op: OpConst, Typ: typ, C: c} })
}

var intTyp = types.Typ[types.Int]
var boolTyp = types.Typ[types.Bool]
var strTyp = types.Typ[types.String]
var byteTyp = types.Typ[types.Uint8]

func mkInt(v int64) *Term {
	return in.get("i|"+strconv.FormatInt(v, 10), func() *Term {
		return &Term{Op: OpConst, Typ: intTyp, C: constant.MakeInt64(v), L: &Lin{C: v}}
	})
}
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), strTyp) }
func mkBool(b bool) *Term  { return mkConst(constant.MakeBool(b), boolTyp) }
func mkNil(typ types.Type) *Term {
	return in.get("nil", func() *Term { return &Term{Op: OpConst, Aux: "nil"} })
}

func (t *Term) isNil() bool { return t.Op == OpConst && t.C == nil }
func (t *Term) isConst() bool {
	return t.Op == OpConst
}
func (t *Term) intConst() (int64, bool) {
	if t.L != nil && len(t.L.T) == 0 {
		return t.L.C, true
	}
	return 0, false
}
func (t *Term) strConst() (string, bool) {
	if t.Op == OpConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) boolConst() (bool, bool) {
	if t.Op == OpConst && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// ---- linear expressions

func lin(t *Term) Lin {
	if t.L != nil {
		return *t.L
	}
	return Lin{T: []LT{{t, 1}}}
}
func linC(c int64) Lin { return Lin{C: c} }

func (a Lin) add(b Lin) Lin { return a.addK(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.addK(b, -1) }
func (a Lin) addC(c int64) Lin {
	return Lin{T: a.T, C: a.C + c}
}
func (a Lin) addK(b Lin, k int64) Lin {
	r := Lin{C: a.C + k*b.C}
	if n := len(a.T) + len(b.T); n > 0 {
		r.T = make([]LT, 0, n)
	}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || (i < len(a.T) && a.T[i].A.ID < b.T[j].A.ID):
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].A.ID < a.T[i].A.ID:
			r.T = append(r.T, LT{b.T[j].A, k * b.T[j].K})
			j++
		default:
			if s := a.T[i].K + k*b.T[j].K; s != 0 {
				r.T = append(r.T, LT{a.T[i].A, s})
			}
			i++
			j++
		}
	}
	return r
}
func (a Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{C: a.C * k, T: make([]LT, 0, len(a.T))}
	for _, t := range a.T {
		r.T = append(r.T, LT{t.A, t.K * k})
	}
	return r
}
func (a Lin) isConst() bool { return len(a.T) == 0 }
func (a Lin) neg() Lin      { return a.scale(-1) }
func (a Lin) key() string {
	b := make([]byte, 0, 16+12*len(a.T))
	for _, t := range a.T {
		b = strconv.AppendInt(b, t.K, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.A.ID), 10)
		b = append(b, ' ')
	}
	b = strconv.AppendInt(b, a.C, 10)
	return string(b)
}

// LKey is a 128-bit fingerprint of a Lin.
type LKey [2]uint64

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (a Lin) hkey() LKey {
	h := LKey{mix(uint64(a.C) + 0x9e3779b97f4a7c15), mix(uint64(a.C) ^ 0x7f4a7c15deadbeef)}
	for _, t := range a.T {
		x := mix(uint64(t.A.ID)*0x9e3779b97f4a7c15 + 1)
		h[0] += mix(x ^ uint64(t.K))
		h[1] += mix(x + uint64(t.K)*0xc2b2ae3d27d4eb4f)
	}
	return h
}

// skey fingerprints the coefficients only.
func (a Lin) skey() LKey {
	a.C = 0
	return a.hkey()
}
func (a Lin) coef(x *Term) int64 {
	for _, t := range a.T {
		if t.A == x {
			return t.K
		}
	}
	return 0
}
func (a Lin) String() string {
	var b strings.Builder
	for i, t := range a.T {
		if t.K >= 0 && i > 0 {
			b.WriteByte('+')
		}
		if t.K == -1 {
			b.WriteByte('-')
		} else if t.K != 1 {
			fmt.Fprintf(&b, "%d*", t.K)
		}
		b.WriteString(t.A.String())
	}
	if a.C != 0 || len(a.T) == 0 {
		if a.C >= 0 && len(a.T) > 0 {
			b.WriteByte('+')
		}
		fmt.Fprintf(&b, "%d", a.C)
	}
	return b.String()
}

func mkLin(l Lin) *Term {
	if len(l.T) == 0 {
		return mkInt(l.C)
	}
	if len(l.T) == 1 && l.T[0].K == 1 && l.C == 0 {
		return l.T[0].A
	}
	return in.get("lin|"+l.key(), func() *Term {
		ll := l
		args := make([]*Term, len(l.T))
		for i, t := range l.T {
			args[i] = t.A
		}
		return &Term{Op: OpLin, Typ: intTyp, L: &ll, Args: args}
	})
}

func substLin(l Lin, m map[*Term]*Term) Lin {
	r := Lin{C: l.C}
	for _, t := range l.T {
		if v, ok := m[t.A]; ok {
			r = r.addK(lin(v), t.K)
		} else {
			r = r.add(Lin{T: []LT{{t.A, t.K}}})
		}
	}
	return r
}

// ---- booleans

func mkGE(l Lin) *Term {
	if l.isConst() {
		return mkBool(l.C >= 0)
	}
	return in.get("ge|"+l.key(), func() *Term {
		t := mkLin(l)
		return &Term{Op: OpGE, Typ: boolTyp, Args: []*Term{t}}
	})
}
func mkEQZ(l Lin) *Term {
	if l.isConst() {
		return mkBool(l.C == 0)
	}
	if l.T[0].K < 0 {
		l = l.neg()
	}
	return in.get("eqz|"+l.key(), func() *Term {
		t := mkLin(l)
		return &Term{Op: OpEQZ, Typ: boolTyp, Args: []*Term{t}}
	})
}
func mkNot(t *Term) *Term {
	if b, ok := t.boolConst(); ok {
		return mkBool(!b)
	}
	switch t.Op {
	case OpNot:
		return t.Args[0]
	case OpGE:
		return mkGE(lin(t.Args[0]).neg().addC(-1))
	}
	return mk(OpNot, boolTyp, "", t)
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 && !wide {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OpConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case OpSym:
		return t.Aux
	case OpLin:
		return "(" + t.L.String() + ")"
	case OpGlobal:
		return "&" + t.Aux
	case OpFunc:
		return "func:" + t.Aux
	case OpAlloc:
		return "new:" + t.Aux
	case OpField:
		return t.Args[0].str(d+1) + "." + fieldName(t)
	case OpElem:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OpLoad:
		return "*(" + t.Args[0].str(d+1) + ")" // @epoch
	case OpFieldVal:
		return t.Args[0].str(d+1) + "." + strconv.Itoa(t.Idx)
	case OpSel:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OpGE:
		return t.Args[0].str(d+1) + ">=0"
	case OpEQZ:
		return t.Args[0].str(d+1) + "==0"
	case OpEq:
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case OpNot:
		return "!(" + t.Args[0].str(d+1) + ")"
	case OpConv, OpWrap:
		return shortType(t.Typ) + "(" + as() + ")"
	case OpDec:
		return "dec:" + t.Aux + ":" + shortType(t.Typ) + "(" + as() + ")"
	case OpCall, OpBin, OpUn, OpEnc, OpPseudo:
		return t.Aux + "(" + as() + ")"
	}
	s := opNames[t.Op]
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	return s + "(" + as() + ")"
}

func fieldName(t *Term) string {
	if st := derefStruct(t.Args[0].Typ); st != nil && t.Idx < st.NumFields() {
		return st.Field(t.Idx).Name()
	}
	return strconv.Itoa(t.Idx)
}

func derefStruct(typ types.Type) *types.Struct {
	if typ == nil {
		return nil
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	s, _ := typ.Underlying().(*types.Struct)
	return s
}

func deref(typ types.Type) types.Type {
	if typ == nil {
		return nil
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// contains reports whether t mentions a subterm satisfying f.
func (t *Term) contains(f func(*Term) bool, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.contains(f, seen) {
			return true
		}
	}
	return false
}
func (t *Term) mentions(x *Term) bool {
	return t.contains(func(y *Term) bool { return x == y }, map[*Term]bool{})
}

func subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.Args) == 0 {
		memo[t] = t
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = subst(a, f, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		switch t.Op {
		case OpLin:
			m := map[*Term]*Term{}
			for i, a := range t.Args {
				m[a] = args[i]
			}
			r = mkLin(substLin(*t.L, m))
		case OpGE:
			r = mkGE(lin(args[0]))
		case OpEQZ:
			r = mkEQZ(lin(args[0]))
		case OpNot:
			r = mkNot(args[0])
		case OpLen:
			r = lenT(args[0])
		case OpCap:
			r = capT(args[0])
		case OpEq:
			r = mkEq(args[0], args[1])
		case OpConcat:
			r = mkConcat(args...)
		default:
			r = mk(t.Op, t.Typ, t.Aux, args...)
			r.Idx, r.Fn = t.Idx, t.Fn
			if r.Org == nil {
				r.Org = t.Org
			}
		}
	}
	memo[t] = r
	return r
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

// ---- integer types

func intRange(typ types.Type) (lo, hi int64, hasLo, hasHi, ok bool) {
	if typ == nil {
		return
	}
	b, isB := typ.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true, true, true
	case types.Int16:
		return -32768, 32767, true, true, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true, true, true
	case types.Uint8:
		return 0, 255, true, true, true
	case types.Uint16:
		return 0, 65535, true, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false, true
	default:
		return 0, 0, false, false, true
	}
}
func isInt(typ types.Type) bool { _, _, _, _, ok := intRange(typ); return ok }
func isString(typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func intSize(typ types.Type) int {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Bool:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr:
		return 8
	}
	return 0
}
func isByteElem(typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	return b.String()
}
