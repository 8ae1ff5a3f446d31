package main

// Sequence contents: byte strings, array and slice contents as terms.

import (
	"go/types"
	"strconv"
)

func isByteSeq(t *Term) bool { return t.Op == OpConst && t.C != nil }

// lenOfBytes is the length (in elements) of a sequence value.
func lenOfBytes(t *Term) *Term {
	switch t.Op {
	case OpConst:
		if s, ok := t.strConst(); ok {
			return mkInt(int64(len(s)))
		}
		return mkInt(0)
	case OpSub:
		return t.Args[2]
	case OpConcat:
		l := Lin{}
		for _, a := range t.Args {
			l = l.add(lin(lenOfBytes(a)))
		}
		return mkLin(l)
	case OpEnc:
		if len(t.Args) == 2 { // encoded sequence: element count in Args[1], element size in Idx
			return mkLin(lin(t.Args[1]).scale(int64(t.Idx)))
		}
		return mkInt(int64(t.Idx))
	case OpZeros:
		if len(t.Args) > 0 {
			return t.Args[0]
		}
	case OpUpd:
		return lenOfBytes(t.Args[0])
	case OpElemV:
		return mkInt(1)
	case OpDec:
		if len(t.Args) == 3 {
			return t.Args[2]
		}
	}
	if t.Typ != nil {
		if a, ok := t.Typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	return mk(OpLen, intTyp, "", t)
}

func eqLin(f *Facts, a, b Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.C == 0
	}
	return f != nil && f.entailsEq(d)
}
func geLin(f *Facts, a, b Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.C >= 0
	}
	return f != nil && f.entails(d)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == OpConcat {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if p.isNil() {
			return
		}
		if s, ok := p.strConst(); ok && s == "" {
			return
		}
		if l, ok := lenOfBytes(p).intConst(); ok && l == 0 {
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if s1, ok := q.strConst(); ok {
				if s2, ok := p.strConst(); ok {
					out[n-1] = mkStr(s1 + s2)
					return
				}
			}
			if q.Op == OpSub && p.Op == OpSub && q.Args[0] == p.Args[0] && eqLin(nil, lin(q.Args[1]).add(lin(q.Args[2])), lin(p.Args[1])) {
				out[n-1] = mkSub(nil, q.Args[0], lin(q.Args[1]), lin(q.Args[2]).add(lin(p.Args[2])))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk(OpConcat, nil, "", out...)
}

func concatParts(t *Term) []*Term {
	if t.Op == OpConcat {
		return t.Args
	}
	return []*Term{t}
}

// mkSub is bytes [off, off+n) of c.
func mkSub(f *Facts, c *Term, off, n Lin) *Term {
	if n.isConst() && n.C == 0 {
		return mkStr("")
	}
	switch c.Op {
	case OpConst:
		if s, ok := c.strConst(); ok && off.isConst() && n.isConst() && off.C >= 0 && n.C >= 0 && off.C+n.C <= int64(len(s)) {
			return mkStr(s[off.C : off.C+n.C])
		}
	case OpSub:
		return mkSub(f, c.Args[0], lin(c.Args[1]).add(off), n)
	case OpZeros:
		return mk(OpZeros, c.Typ, "", mkLin(n))
	case OpUpd:
		uo, un := lin(c.Args[1]), lin(c.Args[2])
		end := off.add(n)
		switch {
		case eqLin(f, uo, off) && eqLin(f, un, n):
			return c.Args[3]
		case geLin(f, uo, end) || geLin(f, off, uo.add(un)):
			return mkSub(f, c.Args[0], off, n)
		case geLin(f, off, uo) && geLin(f, uo.add(un), end):
			return mkSub(f, c.Args[3], off.sub(uo), n)
		case eqLin(f, uo.add(un), end) && geLin(f, uo, off):
			return mkConcat(mkSub(f, c.Args[0], off, uo.sub(off)), c.Args[3])
		case eqLin(f, off, uo) && geLin(f, end, uo.add(un)):
			return mkConcat(c.Args[3], mkSub(f, c.Args[0], uo.add(un), end.sub(uo).sub(un)))
		case geLin(f, uo, off) && geLin(f, end, uo.add(un)):
			return mkConcat(mkSub(f, c.Args[0], off, uo.sub(off)), c.Args[3], mkSub(f, c.Args[0], uo.add(un), end.sub(uo).sub(un)))
		}
	case OpConcat:
		var out []*Term
		cur := Lin{}
		state := 0
		end := off.add(n)
		for _, p := range c.Args {
			pl := lin(lenOfBytes(p))
			nxt := cur.add(pl)
			if state == 0 {
				if eqLin(f, cur, off) {
					state = 1
				} else if geLin(f, off, cur) && geLin(f, nxt, off.addC(1)) { // starts inside p
					if geLin(f, nxt, end) {
						return mkSub(f, p, off.sub(cur), n)
					}
					if geLin(f, end, nxt) {
						out = append(out, mkSub(f, p, off.sub(cur), nxt.sub(off)))
						state = 1
						if eqLin(f, nxt, end) {
							return mkConcat(out...)
						}
						cur = nxt
						continue
					}
					break
				}
			}
			if state == 1 {
				if eqLin(f, nxt, end) {
					return mkConcat(append(out, p)...)
				}
				if geLin(f, nxt, end) {
					return mkConcat(append(out, mkSub(f, p, Lin{}, end.sub(cur)))...)
				}
				if !geLin(f, end, nxt) {
					break
				}
				out = append(out, p)
			}
			cur = nxt
		}
	}
	if off.isConst() && off.C == 0 && eqLin(f, n, lin(lenOfBytes(c))) {
		return c
	}
	return mk(OpSub, c.Typ, "", c, mkLin(off), mkLin(n))
}

// mkUpd replaces [off, off+n) of c by src.
func mkUpd(f *Facts, c *Term, off, n Lin, src *Term) *Term {
	if n.isConst() && n.C == 0 {
		return c
	}
	if off.isConst() && off.C == 0 && eqLin(f, n, lin(lenOfBytes(c))) {
		return src
	}
	if c.Op == OpUpd {
		uo, un := lin(c.Args[1]), lin(c.Args[2])
		if geLin(nil, uo, off) && geLin(nil, off.add(n), uo.add(un)) {
			c = c.Args[0]
			return mkUpd(f, c, off, n, src)
		}
	}
	return mk(OpUpd, c.Typ, "", c, mkLin(off), mkLin(n), src)
}

// mkSel is element i of c.
func mkSel(f *Facts, c *Term, i Lin, elem types.Type) *Term {
	switch c.Op {
	case OpConst:
		if s, ok := c.strConst(); ok && i.isConst() && i.C >= 0 && i.C < int64(len(s)) {
			return mkInt(int64(s[i.C]))
		}
	case OpSub:
		return mkSel(f, c.Args[0], lin(c.Args[1]).add(i), elem)
	case OpZeros:
		if elem != nil {
			return zeroTerm(elem)
		}
	case OpElemV:
		return c.Args[0]
	case OpUpd:
		uo, un := lin(c.Args[1]), lin(c.Args[2])
		if geLin(f, i, uo) && geLin(f, uo.add(un), i.addC(1)) {
			return mkSel(f, c.Args[3], i.sub(uo), elem)
		}
		if geLin(f, uo, i.addC(1)) || geLin(f, i, uo.add(un)) {
			return mkSel(f, c.Args[0], i, elem)
		}
	case OpConcat:
		cur := Lin{}
		for _, p := range c.Args {
			nxt := cur.add(lin(lenOfBytes(p)))
			if geLin(f, nxt, i.addC(1)) {
				if geLin(f, i, cur) {
					return mkSel(f, p, i.sub(cur), elem)
				}
				break
			}
			if !geLin(f, i, nxt) {
				break
			}
			cur = nxt
		}
	case OpDec:
		if len(c.Args) == 3 { // decoded sequence
			if st, ok := c.Typ.Underlying().(*types.Slice); ok {
				sz := fixedSize(st.Elem())
				return decodeVal(f, c.Aux, c.Args[0], lin(c.Args[1]).add(i.scale(int64(sz))), st.Elem())
			}
		}
	case OpEnc:
		if c.Idx == 1 && i.isConst() && i.C == 0 && len(c.Args) == 1 {
			return c.Args[0]
		}
	}
	t := mk(OpSel, elem, "", c, mkLin(i))
	return t
}

func elemV(v *Term, elem types.Type) *Term {
	if isByteElem(elem) {
		if c, ok := v.intConst(); ok && c >= 0 && c < 256 {
			return mkStr(string([]byte{byte(c)}))
		}
		return mkEnc("", 1, v, elem)
	}
	return mk(OpElemV, nil, "", v)
}

func mkEnc(order string, size int, v *Term, typ types.Type) *Term {
	if size == 1 {
		order = ""
	}
	if c, ok := v.intConst(); ok && c >= 0 {
		b := make([]byte, size)
		for i := 0; i < size; i++ {
			x := byte(uint64(c) >> (8 * uint(i)))
			if order == "BE" {
				b[size-1-i] = x
			} else {
				b[i] = x
			}
		}
		return mkStr(string(b))
	}
	if c, ok := v.intConst(); ok && c < 0 {
		b := make([]byte, size)
		for i := 0; i < size; i++ {
			x := byte(uint64(c) >> (8 * uint(i)))
			if order == "BE" {
				b[size-1-i] = x
			} else {
				b[i] = x
			}
		}
		return mkStr(string(b))
	}
	// integers of the same size encode alike: strip same-size conversions
	for v.Op == OpConv && intSize(v.Args[0].Typ) >= size && intSize(v.Typ) >= size {
		v = v.Args[0]
	}
	// re-encoding what was decoded with the same size and order is the identity
	if v.Op == OpDec && len(v.Args) == 2 && v.Aux == order && intSize(v.Typ) == size && !isBoolT(v.Typ) {
		return mkSub(nil, v.Args[0], lin(v.Args[1]), linC(int64(size)))
	}
	t := mk(OpEnc, nil, order+":"+strconv.Itoa(size), v)
	t.Idx = size
	return t
}

func mkEncBool(v *Term) *Term {
	if b, ok := v.boolConst(); ok {
		if b {
			return mkStr("\x01")
		}
		return mkStr("\x00")
	}
	t := mk(OpEnc, nil, "bool:1", v)
	t.Idx = 1
	return t
}

// fixedSize is encoding/binary's size of a type, -1 if it has none.
func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String, types.UnsafePointer, types.UntypedInt:
			return -1
		case types.Bool:
			return 1
		case types.Float32:
			return 4
		case types.Float64, types.Complex64:
			return 8
		}
		if s := intSize(t); s > 0 {
			return s
		}
	case *types.Array:
		if e := fixedSize(u.Elem()); e >= 0 {
			return e * int(u.Len())
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			s := fixedSize(u.Field(i).Type())
			if s < 0 {
				return -1
			}
			n += s
		}
		return n
	}
	return -1
}

// encodeVal gives encoding/binary's bytes of a value; ok=false if the type has no fixed encoding.
func encodeVal(st *State, order string, v *Term, typ types.Type) (*Term, bool) {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if fixedSize(u.Elem()) >= 0 {
			return encodeVal(st, order, st.load(v, u.Elem()), u.Elem())
		}
		if _, ok := u.Elem().Underlying().(*types.Slice); ok {
			return encodeVal(st, order, st.load(v, u.Elem()), u.Elem())
		}
		return nil, false
	case *types.Slice:
		if isByteElem(u.Elem()) {
			return st.bytesOf(v), true
		}
		sz := fixedSize(u.Elem())
		if sz < 0 {
			return nil, false
		}
		c := st.bytesOf(v)
		if l, ok := lenOfBytes(c).intConst(); ok && l <= 64 {
			var parts []*Term
			for i := int64(0); i < l; i++ {
				p, ok := encodeVal(st, order, mkSel(st.facts, c, linC(i), u.Elem()), u.Elem())
				if !ok {
					return nil, false
				}
				parts = append(parts, p)
			}
			return mkConcat(parts...), true
		}
		t := mk(OpEnc, u.Elem(), order+":seq:"+typeKey(u.Elem()), c, lenOfBytes(c))
		t.Idx = sz
		return t, true
	}
	if fixedSize(typ) < 0 {
		return nil, false
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if isBoolT(typ) {
			return mkEncBool(v), true
		}
		return mkEnc(order, intSize(typ), v, typ), true
	case *types.Array:
		if isByteElem(u.Elem()) {
			return mkSub(st.facts, v, Lin{}, linC(u.Len())), true
		}
		var parts []*Term
		for i := int64(0); i < u.Len(); i++ {
			p, _ := encodeVal(st, order, mkSel(st.facts, v, linC(i), u.Elem()), u.Elem())
			parts = append(parts, p)
		}
		return mkConcat(parts...), true
	case *types.Struct:
		var parts []*Term
		for i := 0; i < u.NumFields(); i++ {
			fv := fieldOf(v, i, u)
			if u.Field(i).Name() == "_" {
				fv = zeroTerm(u.Field(i).Type())
			}
			p, ok := encodeVal(st, order, fv, u.Field(i).Type())
			if !ok {
				return nil, false
			}
			parts = append(parts, p)
		}
		return mkConcat(parts...), true
	}
	return nil, false
}

// decodeVal gives the value of type typ decoded from content c at pos.
func decodeVal(f *Facts, order string, c *Term, pos Lin, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		sz := intSize(typ)
		if sz == 1 {
			order = ""
			if !isBoolT(typ) {
				e := mkSel(f, c, pos, byteTyp)
				if intSize(typ) == 1 && (e.Op == OpSel || e.isConst()) && typeKey(typ.Underlying()) == "uint8" {
					return e
				}
			}
		}
		// same-size re-decode of an encoded value
		piece := mkSub(f, c, pos, linC(int64(sz)))
		if piece.Op == OpEnc && len(piece.Args) == 1 && piece.Idx == sz {
			if isBoolT(typ) {
				if piece.Aux == "bool:1" {
					return piece.Args[0]
				}
			} else if piece.Aux == order+":"+strconv.Itoa(sz) && typeKey(piece.Args[0].Typ) == typeKey(typ) {
				return piece.Args[0]
			}
		}
		// canonicalise to the innermost content
		for c.Op == OpSub {
			pos = lin(c.Args[1]).add(pos)
			c = c.Args[0]
		}
		return mk(OpDec, typ, order, c, mkLin(pos))
	case *types.Array:
		if isByteElem(u.Elem()) {
			return mkSub(f, c, pos, linC(u.Len()))
		}
		var parts []*Term
		sz := fixedSize(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			parts = append(parts, elemV(decodeVal(f, order, c, pos.addC(i*int64(sz)), u.Elem()), u.Elem()))
		}
		return mkConcat(parts...)
	case *types.Struct:
		var fs []*Term
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, decodeVal(f, order, c, pos.addC(off), u.Field(i).Type()))
			off += int64(fixedSize(u.Field(i).Type()))
		}
		return mk(OpStruct, typ, "", fs...)
	}
	return mk(OpDec, typ, order, c, mkLin(pos))
}

// fieldOf projects a field out of a struct value.
func fieldOf(v *Term, i int, st *types.Struct) *Term {
	if v.Op == OpStruct && i < len(v.Args) {
		return v.Args[i]
	}
	var ft types.Type
	if st != nil && i < st.NumFields() {
		ft = st.Field(i).Type()
	}
	if v.Op == OpZeros && ft != nil {
		return zeroTerm(ft)
	}
	return mkIdx(OpFieldVal, ft, i, v)
}

// transparent reports whether struct values of this type are tracked field by field.
func transparent(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg().Path()) {
		if n.Obj().Pkg().Path() == "reflect" || typeKey(t) == "sync.Pool" {
			return true
		}
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				return false
			}
		}
	}
	return true
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Kind() == types.UnsafePointer:
			return mkNil(t)
		}
		return mk(OpZeros, t, "")
	case *types.Struct:
		if !transparent(t) {
			return mk(OpZeros, t, "")
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroTerm(u.Field(i).Type()))
		}
		return mk(OpStruct, t, "", fs...)
	case *types.Array:
		return mk(OpZeros, t, "", mkInt(u.Len()))
	}
	return mkNil(t)
}
