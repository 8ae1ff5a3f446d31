package main

// Models of the external functions the module uses: what they return, what
// they may write, and when they fail.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(c *callCtx, t *Thread) ([]*Thread, bool)

var models map[string]model

func pure(c *callCtx, t *Thread) ([]*Thread, bool) {
	rs := c.sig.Results()
	if rs.Len() == 1 {
		return c.done(t, mk(OpCall, rs.At(0).Type(), c.name, c.byVal(t.st)...)), true
	}
	var r []*Term
	for i := 0; i < rs.Len(); i++ {
		r = append(r, mk(OpCall, rs.At(i).Type(), c.name+"#"+strconv.Itoa(i), c.byVal(t.st)...))
	}
	return c.done(t, r...), true
}

// byVal replaces slice arguments by their contents.
func (c *callCtx) byVal(st *State) []*Term {
	var r []*Term
	for i, a := range c.args {
		if i < len(c.typs) && isSliceT(c.typs[i]) {
			r = append(r, st.bytesOf(a))
		} else {
			r = append(r, a)
		}
	}
	return r
}

func bufCell(a *Term) *Term  { return mk(OpPseudo, strTyp, "buf", a) }
func pendCell(a *Term) *Term { return mk(OpPseudo, strTyp, "pend", a) }
func dstCell(a *Term) *Term  { return mk(OpPseudo, nil, "dst", a) }
func srcCell(a *Term) *Term  { return mk(OpPseudo, strTyp, "src", a) }
func posCell(a *Term) *Term  { return mk(OpPseudo, intTyp, "pos", a) }

func (s *State) buf(a *Term) *Term {
	if v, ok := s.heap[bufCell(a)]; ok {
		return v
	}
	if v, ok := s.heap[a]; ok && v.Op == OpZeros {
		return mkStr("")
	}
	return s.raw(bufCell(a), strTyp)
}

// isCryptoReader: the system's random source, crypto/rand.Reader.
func isCryptoReader(t *Term) bool {
	return t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].Aux, "crypto/rand.Reader")
}

func dynPtr(w *Term) *Term {
	if w.Op == OpIface {
		return w.Args[0]
	}
	return w
}
func dynType(w *Term) string {
	if w.Op == OpIface {
		return typeKey(w.Typ)
	}
	return ""
}

// writeTo appends bytes to a writer; ok=false when the writer is not modelled.
func (c *callCtx) writeTo(t *Thread, w, b *Term) bool {
	st := t.st
	p := dynPtr(w)
	switch dynType(w) {
	case "*bytes.Buffer":
		st.setCell(bufCell(p), mkConcat(st.buf(p), b), c.sym("!", nil))
		return true
	case "*bufio.Writer":
		pc := pendCell(p)
		if cur, ok := st.heap[pc]; ok {
			st.heap[pc] = mkConcat(cur, b)
			return true
		}
		st.setCell(pc, mkConcat(st.raw(pc, strTyp), b), c.sym("!", nil))
		return true
	case "*strings.Builder":
		st.setCell(bufCell(p), mkConcat(st.buf(p), b), c.sym("!", nil))
		return true
	}
	return false
}

// neverFails: writers whose Write cannot return an error.
func (c *callCtx) neverFails(t *Thread, w *Term) bool {
	switch dynType(w) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	case "*bufio.Writer":
		if d, ok := t.st.heap[dstCell(dynPtr(w))]; ok {
			return c.neverFails(t, d)
		}
	}
	return false
}

func order(o *Term) string {
	k := ""
	if o.Op == OpIface {
		k = typeKey(o.Typ)
	} else if o.Typ != nil {
		k = typeKey(o.Typ)
	}
	switch {
	case strings.Contains(k, "bigEndian"):
		return "BE"
	case strings.Contains(k, "littleEndian"):
		return "LE"
	}
	return "?"
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// fail/ok fork on an error result.
func (c *callCtx) errFork(t *Thread, suffix string) (ok, bad *Thread, err *Term) {
	err = c.sym(suffix, errTyp)
	y, n := c.fork(t, mkEq(err, nilT))
	return y, n, err
}

func init() {
	models = map[string]model{}
	M := models
	reg := func(m model, names ...string) {
		for _, n := range names {
			M[n] = m
		}
	}

	// --- errors
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		e := c.newErr("")
		c.event(t, e)
		return c.done(t, e), true
	}, "errors.New", "github.com/pkg/errors.New", "fmt.Errorf", "github.com/pkg/errors.Errorf")
	// nil if every error joined is
	M["errors.Join"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		l, ok := sliceElems(t.st, c.args[0])
		if !ok {
			return nil, false
		}
		var out []*Thread
		cur := t
		for _, x := range l {
			var no *Thread
			cur, no = c.fork(cur, mkEq(x, nilT))
			if no != nil {
				c.ret(no, c.newErr(""))
				out = append(out, no)
			}
			if cur == nil {
				return out, true
			}
		}
		c.ret(cur, nilT)
		return append(out, cur), true
	}
	// a row's columns are written through the pointers given
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		l, ok := sliceElems(t.st, c.args[1])
		if !ok {
			return nil, false
		}
		y, n, err := c.errFork(t, ".err")
		var out []*Thread
		for _, u := range []*Thread{y, n} {
			if u == nil {
				continue
			}
			res := []*Term{err}
			for i, x := range l {
				p := dynPtr(x)
				if pt, ok := p.Typ.(*types.Pointer); ok && p.Op == OpAlloc || ok && p.Op == OpField {
					res = append(res, c.sym(".col"+strconv.Itoa(i), pt.Elem()))
				} else {
					res = append(res, nil)
				}
			}
			c.event(u, res...)
			for i, x := range l {
				p := dynPtr(x)
				if v := res[i+1]; v != nil {
					u.st.store(p, v, v.Typ, c.sym("!", nil))
				} else {
					c.havoc(u.st, x)
				}
			}
			c.ret(u, err)
			out = append(out, u)
		}
		return out, true
	}, "(*database/sql.Row).Scan", "(*database/sql.Rows).Scan")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		x := c.args[0]
		y, n := c.fork(t, mkEq(x, nilT))
		var r []*Thread
		if y != nil {
			c.ret(y, nilT)
			r = append(r, y)
		}
		if n != nil {
			c.ret(n, c.newErr(""))
			r = append(r, n)
		}
		return r, true
	}, "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessagef")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		x := c.args[0]
		r := mk(OpCall, errTyp, "unwrap", x)
		if x.Op == OpSym && strings.Contains(x.Aux, ".neterr") {
			r.NN = true
			t.st.assume(mkEq(r, nilT), false)
		}
		return c.done(t, r), true
	}, "errors.Unwrap", "github.com/pkg/errors.Unwrap")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		x, y := c.args[0], c.args[1]
		if x == y {
			return c.done(t, mkBool(true)), true
		}
		if x.isNil() {
			return c.done(t, mkBool(false)), true
		}
		if x.Op == OpLoad && y.Op == OpLoad && x.Args[0].Op == OpGlobal && y.Args[0].Op == OpGlobal {
			return c.done(t, mkBool(false)), true // distinct sentinel errors
		}
		if x.Op == OpAlloc && strings.Contains(x.Aux, ".err") && y.Op == OpLoad && !strings.Contains(x.Aux, "wrap") {
			// an error made here does not match a sentinel of another package (it may wrap one)
		}
		b := mk(OpCall, boolTyp, "errors.Is", x, y)
		if t.st.facts.eval(mkEq(x, nilT)) == True {
			b = mkBool(false)
		}
		yes, no := c.fork(t, b)
		var r []*Thread
		if yes != nil {
			if yes.st.assume(mkEq(x, nilT), false) {
				c.ret(yes, mkBool(true))
				r = append(r, yes)
			}
		}
		if no != nil {
			c.ret(no, mkBool(false))
			r = append(r, no)
		}
		return r, true
	}, "errors.Is", "github.com/pkg/errors.Is")

	// --- network reads
	readModel := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		if len(c.args) > 1 && isCryptoReader(c.args[0]) {
			d := *c
			d.name, d.args = "crypto/rand.Read", c.args[1:]
			return M["crypto/rand.Read"](&d, t)
		}
		var buf *Term
		for i, a := range c.args {
			if i < len(c.typs) && isSliceT(c.typs[i]) {
				buf = a
				break
			}
		}
		rs := c.sig.Results()
		if buf == nil || rs.Len() < 2 || !isInt(rs.At(0).Type()) {
			return nil, false
		}
		arr, off, ln, _ := sliceParts(buf)
		err := c.sym(".neterr", errTyp)
		n := c.sym(".n", intTyp)
		mkRes := func(u *Thread, ok bool) []*Term {
			r := []*Term{n}
			for i := 1; i < rs.Len()-1; i++ {
				s := c.sym(".r"+strconv.Itoa(i), rs.At(i).Type())
				if isPtrLike(rs.At(i).Type()) && ok {
					u.st.assume(mkEq(s, nilT), false)
				}
				r = append(r, s)
			}
			return append(r, err)
		}
		y, no := c.fork(t, mkEq(err, nilT))
		var out []*Thread
		if y != nil {
			st := y.st
			st.assume(mkGE(lin(n)), true)
			st.assume(mkGE(ln.sub(lin(n))), true)
			data := c.sym(".data", strTyp)
			l := lin(mk(OpLen, intTyp, "", data)).sub(lin(n))
			st.assume(mkEQZ(l), true)
			r := mkRes(y, true)
			c.event(y, append(r, data)...)
			st.setContent(arr, mkUpd(st.facts, st.content(arr), off, lin(n), data), c.sym("!", nil))
			c.ret(y, r...)
			out = append(out, y)
		}
		if no != nil {
			st := no.st
			st.assume(mkGE(lin(n)), true)
			st.assume(mkGE(ln.sub(lin(n))), true)
			r := mkRes(no, false)
			c.event(no, r...)
			c.havoc(st, buf)
			c.ret(no, r...)
			out = append(out, no)
		}
		return out, true
	}
	reg(readModel, "(*net.UDPConn).ReadFromUDP", "(*net.UDPConn).ReadFromUDPAddrPort", "(*net.UDPConn).ReadFrom", "(*net.UDPConn).Read", "net.Conn.Read", "net.PacketConn.ReadFrom", "(*net.TCPConn).Read", "(*net.UDPConn).ReadMsgUDP", "(*os.File).Read", "io.Reader.Read", "io.ReadAtLeast", "(*net.conn).Read", "(*net.IPConn).Read")
	M["net.Listener.Accept"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		err := c.sym(".neterr", errTyp)
		conn := c.sym(".conn", c.sig.Results().At(0).Type())
		y, n := c.fork(t, mkEq(err, nilT))
		var out []*Thread
		if y != nil {
			y.st.assume(mkEq(conn, nilT), false)
			c.event(y, conn, err)
			c.ret(y, conn, err)
			out = append(out, y)
		}
		if n != nil {
			c.event(n, conn, err)
			c.ret(n, conn, err)
			out = append(out, n)
		}
		return out, true
	}
	M["(*net.TCPListener).Accept"] = M["net.Listener.Accept"]

	// crypto/rand.Read
	M["crypto/rand.Read"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		y, n, err := c.errFork(t, ".err")
		var out []*Thread
		arr, off, ln, _ := sliceParts(c.args[0])
		if y != nil {
			s := c.sym(".csprng", strTyp)
			l := lin(mk(OpLen, intTyp, "", s)).sub(ln)
			y.st.assume(mkEQZ(l), true)
			c.event(y, mkLin(ln), err, s)
			y.st.setContent(arr, mkUpd(y.st.facts, y.st.content(arr), off, ln, s), c.sym("!", nil))
			c.ret(y, mkLin(ln), err)
			out = append(out, y)
		}
		if n != nil {
			c.event(n, c.sym(".n", intTyp), err)
			c.havoc(n.st, c.args[0])
			c.ret(n, c.sym(".n", intTyp), err)
			out = append(out, n)
		}
		return out, true
	}

	// --- encoding/binary
	for _, od := range []string{"bigEndian", "littleEndian"} {
		o := map[string]string{"bigEndian": "BE", "littleEndian": "LE"}[od]
		for _, bits := range []int{16, 32, 64} {
			sz := bits / 8
			ut := map[int]types.Type{16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32], 64: types.Typ[types.Uint64]}[bits]
			get := func(c *callCtx, t *Thread) ([]*Thread, bool) {
				b := c.args[len(c.args)-1]
				ln := lin(lenT(b))
				if !c.e.bounds(c.fr, t, c.in, linC(int64(sz-1)), ln) {
					return nil, true
				}
				return c.done(t, decodeVal(t.st.facts, o, t.st.bytesOf(b), Lin{}, ut)), true
			}
			put := func(c *callCtx, t *Thread) ([]*Thread, bool) {
				b, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
				if !c.e.bounds(c.fr, t, c.in, linC(int64(sz-1)), lin(lenT(b))) {
					return nil, true
				}
				arr, off, _, _ := sliceParts(b)
				c.e.elemStore(c, t, arr)
				t.st.event(&Event{Kind: "copy", Name: c.name, Instr: c.in, Fr: c.fr, Args: []*Term{b, v, mkInt(int64(sz))}})
				t.st.setContent(arr, mkUpd(t.st.facts, t.st.content(arr), off, linC(int64(sz)), mkEnc(o, sz, v, ut)), c.sym("!", nil))
				return one(t), true
			}
			M["(encoding/binary."+od+").Uint"+strconv.Itoa(bits)] = get
			M["(encoding/binary."+od+").AppendUint"+strconv.Itoa(bits)] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
				b, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
				c2 := *c
				c2.name, c2.args, c2.typs = "append", []*Term{b, mkEnc(o, sz, v, ut)}, []types.Type{c.sig.Results().At(0).Type(), strTyp}
				return c2.appendB(t), true
			}
			M["(encoding/binary."+od+").PutUint"+strconv.Itoa(bits)] = put
		}
	}
	M["encoding/binary.Write"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		w, o, v := c.args[0], order(c.args[1]), c.args[2]
		if v.Op != OpIface {
			return nil, false
		}
		enc, ok := encodeVal(t.st, o, v.Args[0], v.Typ)
		if !ok {
			e := c.newErr("")
			c.event(t, e)
			return c.done(t, e), true
		}
		good := func(u *Thread) {
			ev := c.event(u, nilT, enc)
			ev.Name = "encoding/binary.Write"
			if !c.writeTo(u, w, enc) {
				u.st.publish(w)
			}
			c.ret(u, nilT)
		}
		if c.neverFails(t, w) {
			good(t)
			return one(t), true
		}
		y, n, err := c.errFork(t, ".err")
		var out []*Thread
		if y != nil {
			good(y)
			out = append(out, y)
		}
		if n != nil {
			c.event(n, err)
			c.ret(n, err)
			out = append(out, n)
		}
		return out, true
	}
	M["encoding/binary.Read"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		r, o, v := c.args[0], order(c.args[1]), c.args[2]
		if v.Op != OpIface {
			return nil, false
		}
		return c.binaryRead(t, dynPtr(r), dynType(r), o, v.Args[0], v.Typ), true
	}
	// a number of bytes from a reader over bytes in memory
	M["io.ReadFull"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		r := dynPtr(c.args[0])
		src, pos := t.st.heap[srcCell(r)], t.st.heap[posCell(r)]
		if isCryptoReader(c.args[0]) {
			d := *c
			d.name, d.args = "crypto/rand.Read", c.args[1:]
			return M["crypto/rand.Read"](&d, t)
		}
		if src == nil || pos == nil {
			return readModel(c, t)
		}
		arr, off, cnt, _ := sliceParts(c.args[1])
		p := lin(pos)
		rem := lin(lenOfBytes(src)).sub(p)
		var out []*Thread
		y, no := c.fork(t, mkGE(rem.sub(cnt)))
		if y != nil {
			c.event(y, mkLin(cnt), nilT, src, pos)
			if !arr.isNil() {
				y.st.setContent(arr, mkUpd(y.st.facts, y.st.content(arr), off, cnt, mkSub(y.st.facts, src, p, cnt)), c.sym("!", nil))
			}
			y.st.heap[posCell(r)] = mkLin(p.add(cnt))
			c.ret(y, mkLin(cnt), nilT)
			out = append(out, y)
		}
		if no != nil {
			a, b := c.fork(no, mkEQZ(rem))
			for i, u := range []*Thread{a, b} {
				if u == nil {
					continue
				}
				err := c.e.sentinel(u, "io", []string{"EOF", "ErrUnexpectedEOF"}[i])
				c.event(u, mkLin(rem), err, src, pos)
				if i == 1 {
					c.havoc(u.st, c.args[1])
					u.st.heap[posCell(r)] = lenOfBytes(src)
				}
				c.ret(u, mkLin(rem), err)
				out = append(out, u)
			}
		}
		return out, true
	}
	readByte := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		r := c.args[0]
		src, pos := t.st.heap[srcCell(r)], t.st.heap[posCell(r)]
		if src == nil || pos == nil {
			return nil, false
		}
		p := lin(pos)
		rem := lin(lenOfBytes(src)).sub(p)
		var out []*Thread
		y, no := c.fork(t, mkGE(rem.addC(-1)))
		if y != nil {
			v := mkSel(y.st.facts, src, p, byteTyp)
			c.event(y, v, nilT, src, pos)
			y.st.heap[posCell(r)] = mkLin(p.addC(1))
			c.ret(y, v, nilT)
			out = append(out, y)
		}
		if no != nil {
			err := c.e.sentinel(no, "io", "EOF")
			c.event(no, mkInt(0), err, src, pos)
			c.ret(no, mkInt(0), err)
			out = append(out, no)
		}
		return out, true
	}
	reg(readByte, "(*bufio.Reader).ReadByte", "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte")
	M["encoding/binary.Size"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		if v := c.args[0]; v.Op == OpIface {
			if n := fixedSize(v.Typ); n >= 0 {
				return c.done(t, mkInt(int64(n))), true
			}
		}
		return nil, false
	}

	// --- bytes / bufio
	wr := func(typ string) model {
		return func(c *callCtx, t *Thread) ([]*Thread, bool) {
			w := mkIfaceName(c.args[0], typ)
			b := t.st.bytesOf(c.args[1])
			nf := c.neverFailsT(t, c.args[0], typ)
			good := func(u *Thread) {
				c.event(u, mkLin(lin(lenOfBytes(b))), nilT)
				c.writeTo(u, w, b)
				c.ret(u, lenOfBytes(b), nilT)
			}
			if nf {
				good(t)
				return one(t), true
			}
			y, n, err := c.errFork(t, ".err")
			var out []*Thread
			if y != nil {
				good(y)
				out = append(out, y)
			}
			if n != nil {
				c.event(n, c.sym(".n", intTyp), err)
				c.ret(n, c.sym(".n", intTyp), err)
				out = append(out, n)
			}
			return out, true
		}
	}
	for _, ty := range []string{"bytes.Buffer", "bufio.Writer", "strings.Builder"} {
		M["(*"+ty+").Write"] = wr("*" + ty)
		M["(*"+ty+").WriteString"] = wr("*" + ty)
		ty := ty
		M["(*"+ty+").WriteByte"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
			c.writeTo(t, mkIfaceName(c.args[0], "*"+ty), elemV(c.args[1], byteTyp))
			return c.done(t, nilT), true
		}
	}
	bytesM := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		b := t.st.buf(c.args[0])
		if isString(c.sig.Results().At(0).Type()) {
			return c.done(t, b), true
		}
		a := c.fr.newAlloc(c.in, "@", ptrTo(c.sig.Results().At(0).Type()))
		t.st.freshObj(a)
		n := lin(lenOfBytes(b))
		cp := c.sym(".cap", intTyp)
		t.st.assume(mkGE(lin(cp).sub(n)), true)
		t.st.heap[a] = mkConcat(b, mk(OpZeros, c.sig.Results().At(0).Type(), "spare", mkLin(lin(cp).sub(n))))
		return c.done(t, mkSlice(c.sig.Results().At(0).Type(), a, Lin{}, n, lin(cp))), true
	}
	reg(bytesM, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		return c.done(t, lenOfBytes(t.st.buf(c.args[0]))), true
	}, "(*bytes.Buffer).Len", "(*strings.Builder).Len")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		t.st.setCell(bufCell(c.args[0]), mkStr(""), c.sym("!", nil))
		return one(t), true
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) { return one(t), true }, "(*bytes.Buffer).Grow", "(*strings.Builder).Grow")
	newReader := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		a := c.fr.newAlloc(c.in, "", c.sig.Results().At(0).Type())
		t.st.freshObj(a)
		b := t.st.bytesOf(c.args[0])
		t.st.heap[bufCell(a)] = b
		t.st.heap[srcCell(a)] = b
		t.st.heap[posCell(a)] = mkInt(0)
		return c.done(t, a), true
	}
	reg(newReader, "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		a := c.fr.newAlloc(c.in, "", c.sig.Results().At(0).Type())
		t.st.freshObj(a)
		t.st.heap[pendCell(a)] = mkStr("")
		t.st.heap[dstCell(a)] = c.args[0]
		return c.done(t, a), true
	}, "bufio.NewWriter", "bufio.NewWriterSize")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		a := c.fr.newAlloc(c.in, "", c.sig.Results().At(0).Type())
		t.st.freshObj(a)
		p := dynPtr(c.args[0])
		if src, ok := t.st.heap[srcCell(p)]; ok {
			t.st.heap[srcCell(a)] = src
			t.st.heap[posCell(a)] = t.st.heap[posCell(p)]
		}
		return c.done(t, a), true
	}, "bufio.NewReader", "bufio.NewReaderSize")
	M["(*bufio.Writer).Flush"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		a := c.args[0]
		d, ok := t.st.heap[dstCell(a)]
		if !ok {
			return nil, false
		}
		pend := t.st.raw(pendCell(a), strTyp)
		good := func(u *Thread) {
			c.event(u, nilT, pend)
			c.writeTo(u, d, pend)
			u.st.heap[pendCell(a)] = mkStr("")
			c.ret(u, nilT)
		}
		if c.neverFails(t, d) {
			good(t)
			return one(t), true
		}
		y, n, err := c.errFork(t, ".err")
		var out []*Thread
		if y != nil {
			good(y)
			out = append(out, y)
		}
		if n != nil {
			c.event(n, err)
			c.ret(n, err)
			out = append(out, n)
		}
		return out, true
	}

	// searching
	idx := func(kind string, sepIsByte bool) model {
		return func(c *callCtx, t *Thread) ([]*Thread, bool) {
			v := c.byVal(t.st)
			s, sep := v[0], v[1]
			sl := linC(1)
			kind, sepIsByte := kind, sepIsByte
			if b, ok := sep.intConst(); ok && sepIsByte && b >= 0 && b < 128 && (kind == "indexbyte" || kind == "indexrune" || kind == "lastindexbyte") {
				kind, sep, sepIsByte = strings.TrimSuffix(strings.TrimSuffix(kind, "byte"), "rune"), mkStr(string([]byte{byte(b)})), false
			}
			if !sepIsByte {
				sl = lin(lenT(sep))
				if !isByteSeqTyped(sep) {
					sl = lin(lenOfBytes(sep))
				}
			}
			r := mk(OpCall, intTyp, kind, s, sep)
			u := t.fork()
			var out []*Thread
			if t.st.assume(mkGE(lin(r)), true) && t.st.assume(mkGE(lin(lenOfBytes(s)).sub(lin(r)).sub(sl)), true) {
				c.ret(t, r)
				out = append(out, t)
			}
			if u.st.assume(mkGE(lin(r).neg().addC(-1)), true) && u.st.assume(mkEQZ(lin(r).addC(1)), true) {
				c.ret(u, mkInt(-1))
				out = append(out, u)
			}
			return out, true
		}
	}
	for _, p := range []string{"bytes.", "strings."} {
		M[p+"Index"] = idx("index", false)
		M[p+"LastIndex"] = idx("lastindex", false)
		M[p+"IndexByte"] = idx("indexbyte", true)
		M[p+"LastIndexByte"] = idx("lastindexbyte", true)
		M[p+"IndexAny"] = idx("indexany", true)
		M[p+"LastIndexAny"] = idx("lastindexany", true)
		M[p+"IndexRune"] = idx("indexrune", true)
		pfx := func(kind string) model {
			return func(c *callCtx, t *Thread) ([]*Thread, bool) {
				v := c.byVal(t.st)
				b := mk(OpCall, boolTyp, kind, v[0], v[1])
				ln := lin(lenOfBytes(v[0])).sub(lin(lenOfBytes(v[1])))
				if t.st.facts.entails(ln.neg().addC(-1)) {
					return c.done(t, mkBool(false)), true
				}
				y, n := c.fork(t, b)
				var out []*Thread
				if y != nil && y.st.assume(mkGE(ln), true) {
					if kind == "hasprefix" {
						y.st.assume(mkEq(mkSub(y.st.facts, v[0], Lin{}, lin(lenOfBytes(v[1]))), v[1]), true)
					}
					c.ret(y, mkBool(true))
					out = append(out, y)
				}
				if n != nil {
					c.ret(n, mkBool(false))
					out = append(out, n)
				}
				return out, true
			}
		}
		M[p+"HasPrefix"] = pfx("hasprefix")
		M[p+"HasSuffix"] = pfx("hassuffix")
		M[p+"Contains"] = pfx("contains")
		M[p+"Cut"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
			v := c.byVal(t.st)
			s, sep := v[0], v[1]
			n, sl := lin(lenOfBytes(s)), lin(lenOfBytes(sep))
			r := mk(OpCall, intTyp, "index", s, sep)
			u := t.fork()
			var out []*Thread
			if t.st.assume(mkGE(lin(r)), true) && t.st.assume(mkGE(n.sub(lin(r)).sub(sl)), true) {
				c.ret(t, c.cutSlice(t.st, c.args[0], Lin{}, lin(r)), c.cutSlice(t.st, c.args[0], lin(r).add(sl), n.sub(lin(r)).sub(sl)), mkBool(true))
				out = append(out, t)
			}
			if u.st.assume(mkEQZ(lin(r).addC(1)), true) {
				var rest *Term = mkStr("")
				if isSliceT(c.sig.Results().At(1).Type()) {
					rest = zeroTerm(c.sig.Results().At(1).Type())
				}
				c.ret(u, c.args[0], rest, mkBool(false))
				out = append(out, u)
			}
			return out, true
		}
		trim := func(cut bool) model {
			return func(c *callCtx, t *Thread) ([]*Thread, bool) {
				v := c.byVal(t.st)
				b := mk(OpCall, boolTyp, "hasprefix", v[0], v[1])
				ln := lin(lenOfBytes(v[0])).sub(lin(lenOfBytes(v[1])))
				res := func(u *Thread, x *Term, ok bool) {
					if cut {
						c.ret(u, x, mkBool(ok))
					} else {
						c.ret(u, x)
					}
				}
				if t.st.facts.entails(ln.neg().addC(-1)) {
					res(t, c.args[0], false)
					return one(t), true
				}
				y, n := c.fork(t, b)
				var out []*Thread
				if y != nil && y.st.assume(mkGE(ln), true) {
					y.st.assume(mkEq(mkSub(y.st.facts, v[0], Lin{}, lin(lenOfBytes(v[1]))), v[1]), true)
					res(y, c.cutSlice(y.st, c.args[0], lin(lenOfBytes(v[1])), ln), true)
					out = append(out, y)
				}
				if n != nil {
					res(n, c.args[0], false)
					out = append(out, n)
				}
				return out, true
			}
		}
		M[p+"TrimPrefix"] = trim(false)
		M[p+"CutPrefix"] = trim(true)
	}
	M["bytes.Equal"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		v := c.byVal(t.st)
		return c.done(t, mkEq(v[0], v[1])), true
	}
	M["bytes.TrimSpace"] = subSlice
	M["bytes.Trim"] = subSlice
	M["bytes.TrimLeft"] = subSlice
	M["bytes.TrimRight"] = subSlice
	M["bytes.TrimSuffix"] = subSlice
	reg(pure, "strings.TrimSpace", "strings.Trim", "strings.ToLower", "strings.ToUpper", "strings.TrimSuffix", "strings.EqualFold", "net.JoinHostPort", "net.ParseIP", "os.IsNotExist", "os.IsExist", "strings.Repeat", "fmt.Sprintf", "fmt.Sprint", "path.Join", "path/filepath.Join", "path/filepath.Dir", "path/filepath.Base", "path.Base", "path.Dir")

	// --- numbers and text
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		if len(c.args) > 1 {
			if b, ok := c.args[1].intConst(); !ok || b != 10 {
				return nil, false
			}
		}
		x := c.args[0]
		if v, ok := x.intConst(); ok {
			return c.done(t, mkStr(strconv.FormatInt(v, 10))), true
		}
		r := mk(OpNumText, strTyp, "", x)
		t.st.assume(mkGE(lin(lenOfBytes(r)).addC(-1)), true)
		t.st.assume(mkGE(linC(20).sub(lin(lenOfBytes(r)))), true)
		return c.done(t, r), true
	}, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint")
	// append(dst, text...)
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		if b, ok := c.args[2].intConst(); !ok || b != 10 {
			return nil, false
		}
		x := c.args[1]
		r := mk(OpNumText, strTyp, "", x)
		if v, ok := x.intConst(); ok {
			r = mkStr(strconv.FormatInt(v, 10))
		} else {
			t.st.assume(mkGE(lin(lenOfBytes(r)).addC(-1)), true)
			t.st.assume(mkGE(linC(20).sub(lin(lenOfBytes(r)))), true)
		}
		c2 := *c
		c2.name, c2.args, c2.typs = "append", []*Term{c.args[0], r}, []types.Type{c.sig.Results().At(0).Type(), strTyp}
		return c2.appendB(t), true
	}, "strconv.AppendInt", "strconv.AppendUint")
	M["io.WriteString"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		w := c.args[0]
		if d := dynType(w); d != "" && models["("+d+").WriteString"] != nil {
			c2 := *c
			c2.name, c2.args = "("+d+").WriteString", []*Term{dynPtr(w), c.args[1]}
			return models[c2.name](&c2, t)
		} else if d != "" {
			return nil, false
		}
		r := c.results()
		c2 := *c
		c2.name = "net.Conn.Write"
		c2.event(t, append(r, t.st.bytesOf(c.args[1]))...)
		return c.done(t, r...), true
	}
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		x := c.args[0]
		rt := c.sig.Results().At(0).Type()
		nm := "atoi"
		if c.name != "strconv.Atoi" {
			nm = c.name
			for _, a := range c.args[1:] {
				nm += ":" + a.String()
			}
		}
		v := mk(OpCall, rt, nm, x)
		err := mk(OpSym, errTyp, "strconverr:"+nm+":"+strconv.Itoa(x.ID))
		y, n := c.fork(t, mkEq(err, nilT))
		var out []*Thread
		if y != nil {
			st := y.st
			st.assume(mkGE(lin(lenOfBytes(x)).addC(-1)), true)
			if len(c.args) > 2 {
				if b, ok := c.args[2].intConst(); ok && b > 0 && b < 63 {
					if c.name == "strconv.ParseUint" {
						st.assume(mkGE(lin(v)), true)
						st.assume(mkGE(linC(1<<uint(b)-1).sub(lin(v))), true)
					} else {
						st.assume(mkGE(lin(v).addC(1<<uint(b-1))), true)
						st.assume(mkGE(linC(1<<uint(b-1)-1).sub(lin(v))), true)
					}
				}
			}
			c.ret(y, v, nilT)
			out = append(out, y)
		}
		if n != nil {
			c.ret(n, c.sym(".bad", rt), c.newErr(""))
			out = append(out, n)
		}
		return out, true
	}, "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint")
	M["(*encoding/base64.Encoding).Decode"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		dst, src := c.args[1], c.args[2]
		ok := t.st.facts.entails(lin(lenT(dst)).sub(lin(lenT(src))))
		c.obl(t, "slice", ok, "base64 destination not provably large enough")
		n := c.sym(".n", intTyp)
		t.st.assume(mkGE(lin(n)), true)
		t.st.assume(mkGE(lin(lenT(dst)).sub(lin(n))), true)
		t.st.assume(mkGE(lin(lenT(src)).sub(lin(n))), true)
		srcB := t.st.bytesOf(src)
		y, no, err := c.errFork(t, ".err")
		var out []*Thread
		arr, off, _, _ := sliceParts(dst)
		for _, u := range []*Thread{y, no} {
			if u == nil {
				continue
			}
			d := mk(OpCall, strTyp, "base64dec", srcB)
			u.st.assume(mkEQZ(lin(lenOfBytes(d)).sub(lin(n))), true)
			u.st.setContent(arr, mkUpd(u.st.facts, u.st.content(arr), off, lin(n), d), c.sym("!", nil))
			c.ret(u, n, err)
			out = append(out, u)
		}
		return out, true
	}

	// --- time
	M["time.Now"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		r := mk(OpCall, c.sig.Results().At(0).Type(), "now", c.sym(".now", intTyp))
		c.event(t, r)
		return c.done(t, r), true
	}
	reg(pure, "(time.Time).Unix", "(time.Duration).Seconds", "(time.Time).Add", "(time.Time).Sub", "(time.Duration).String", "(time.Time).UnixNano", "(time.Time).IsZero", "(time.Duration).Milliseconds", "(time.Time).After", "(time.Time).Before", "time.Unix", "(time.Time).String", "(time.Time).Format", "(time.Time).UTC", "(time.Time).Truncate", "(time.Time).Round", "(time.Duration).Minutes", "(time.Duration).Hours")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		return c.done(t, mk(OpCall, c.sig.Results().At(0).Type(), "since", c.args[0], c.sym(".now", intTyp))), true
	}, "time.Since", "time.Until")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) { c.event(t); return one(t), true }, "(*net/http.Server).SetKeepAlivesEnabled")
	M["time.Sleep"] = func(c *callCtx, t *Thread) ([]*Thread, bool) { c.event(t); return one(t), true }

	// --- netip
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		return c.done(t, mk(OpCall, c.sig.Results().At(0).Type(), "addrport", c.args...)), true
	}, "net/netip.AddrPortFrom")
	proj := func(i int, nm string) model {
		return func(c *callCtx, t *Thread) ([]*Thread, bool) {
			if a := c.args[0]; a.Op == OpCall && a.Aux == "addrport" {
				return c.done(t, a.Args[i]), true
			}
			return c.done(t, mk(OpCall, c.sig.Results().At(0).Type(), nm, c.args[0])), true
		}
	}
	M["(net/netip.AddrPort).Addr"] = proj(0, "ap.addr")
	M["(net/netip.AddrPort).Port"] = proj(1, "ap.port")
	M["(net/netip.Addr).Unmap"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		a := c.args[0]
		if a.Op == OpCall && a.Aux == "unmap" {
			return c.done(t, a), true
		}
		return c.done(t, mk(OpCall, c.sig.Results().At(0).Type(), "unmap", a)), true
	}
	is := func(nm string, excl ...string) model {
		return func(c *callCtx, t *Thread) ([]*Thread, bool) {
			b := mk(OpCall, boolTyp, nm, c.args[0])
			y, n := c.fork(t, b)
			var out []*Thread
			if y != nil {
				ok := true
				for _, x := range excl {
					ok = ok && y.st.assume(mk(OpCall, boolTyp, x, c.args[0]), false)
				}
				if ok {
					c.ret(y, mkBool(true))
					out = append(out, y)
				}
			}
			if n != nil {
				c.ret(n, mkBool(false))
				out = append(out, n)
			}
			return out, true
		}
	}
	M["(net/netip.Addr).Is4"] = is("is4", "is6", "is4in6")
	M["(net/netip.Addr).Is6"] = is("is6", "is4")
	M["(net/netip.Addr).Is4In6"] = is("is4in6", "is4")
	M["(net/netip.Addr).IsValid"] = pure
	reg(pure, "(net/netip.Addr).String", "(net/netip.AddrPort).String", "(net/netip.AddrPort).IsValid", "(net/netip.Addr).Compare", "net/netip.AddrFrom4", "net/netip.AddrFrom16", "(net/netip.Addr).BitLen", "(net/netip.Addr).IsUnspecified", "(net/netip.Addr).WithZone", "(net/netip.Addr).Zone")
	as := func(n int64, nm string) model {
		return func(c *callCtx, t *Thread) ([]*Thread, bool) {
			b := addrBytes(c.args[0])
			if n == 16 {
				b = mk(OpCall, strTyp, "addr16", c.args[0])
				if t.st.facts.eval(mk(OpCall, boolTyp, "is6", c.args[0])) == True {
					b = addrBytes(c.args[0])
				}
			} else {
				ok := t.st.facts.eval(mk(OpCall, boolTyp, "is4", c.args[0])) == True || storedAddr(c.args[0]) && t.st.facts.eval(mk(OpCall, boolTyp, "is6", c.args[0])) == False
				c.obl(t, "panic", ok, "As4 of an address that may not be IPv4")
			}
			t.st.assume(mkEQZ(lin(lenOfBytes(b)).addC(-n)), true)
			return c.done(t, b), true
		}
	}
	M["(net/netip.Addr).As4"] = as(4, "addr4")
	M["(net/netip.Addr).As16"] = as(16, "addr16")
	M["(net/netip.Addr).AsSlice"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		ad := c.args[0]
		b := addrBytes(ad)
		st := t.st
		n := lin(lenOfBytes(b))
		is4, is6 := st.facts.eval(mk(OpCall, boolTyp, "is4", ad)), st.facts.eval(mk(OpCall, boolTyp, "is6", ad))
		if storedAddr(ad) { // a stored peer's address is a valid one (C17, C29)
			if is6 == False {
				is4 = True
			} else if is4 == False {
				is6 = True
			}
		}
		switch {
		case is4 == True:
			st.assume(mkEQZ(n.addC(-4)), true)
		case is6 == True:
			st.assume(mkEQZ(n.addC(-16)), true)
		case is6 == False: // IPv4 or the zero address
			st.assume(mkGE(linC(4).sub(n)), true)
		}
		st.assume(mkGE(linC(16).sub(n)), true)
		typ := c.sig.Results().At(0).Type()
		a := c.fr.newAlloc(c.in, "@", ptrTo(typ))
		st.freshObj(a)
		st.heap[a] = b
		return c.done(t, mkSlice(typ, a, Lin{}, n, n)), true
	}
	M["net/netip.AddrFromSlice"] = func(c *callCtx, t *Thread) ([]*Thread, bool) {
		b := t.st.bytesOf(c.args[0])
		at := c.sig.Results().At(0).Type()
		ad := mk(OpCall, at, "addrfrom", b)
		if b.Op == OpCall && b.Aux == "addrbytes" {
			ad = b.Args[0]
		}
		n := lin(lenT(c.args[0]))
		f := t.st.facts
		if f.entailsEq(n.addC(-4)) || f.entailsEq(n.addC(-16)) {
			return c.done(t, ad, mkBool(true)), true
		}
		// 4 or 16 bytes: three cases
		var out []*Thread
		for _, k := range []int64{4, 16} {
			u := t.fork()
			if u.st.assume(mkEQZ(n.addC(-k)), true) {
				c.ret(u, ad, mkBool(true))
				out = append(out, u)
			}
		}
		if t.st.assume(mkEQZ(n.addC(-4)), false) && t.st.assume(mkEQZ(n.addC(-16)), false) {
			c.ret(t, zeroTerm(at), mkBool(false))
			out = append(out, t)
		}
		return out, true
	}
	parse := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		v := c.byVal(t.st)
		at := c.sig.Results().At(0).Type()
		ad := mk(OpCall, at, c.name, v...)
		err := mk(OpSym, errTyp, "parseerr:"+strconv.Itoa(ad.ID))
		y, n := c.fork(t, mkEq(err, nilT))
		var out []*Thread
		if y != nil {
			c.ret(y, ad, nilT)
			out = append(out, y)
		}
		if n != nil {
			c.ret(n, zeroTerm(at), c.newErr(""))
			out = append(out, n)
		}
		return out, true
	}
	reg(parse, "net/netip.ParseAddr", "net/netip.ParseAddrPort", "net/netip.ParsePrefix")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		x := c.args[0]
		var r []*Term
		for i := 0; i < 2; i++ {
			r = append(r, mk(OpCall, strTyp, c.name+"#"+strconv.Itoa(i), x))
		}
		return c.done(t, r[0], r[1], mk(OpSym, errTyp, "splithostport:"+strconv.Itoa(x.ID))), true
	}, "net.SplitHostPort")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		r := mk(OpCall, c.sig.Results().At(0).Type(), c.name, c.args...)
		if isPtrLike(r.Typ) {
			t.st.assume(mkEq(r, nilT), false)
		}
		return c.done(t, r), true
	}, "net.Conn.RemoteAddr", "net.Conn.LocalAddr", "net.Addr.String", "net.Addr.Network", "(*net.UDPAddr).String", "(*net.UDPConn).LocalAddr", "net.Listener.Addr", "(*net.TCPAddr).String")
	// the address and port of an endpoint
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		p := c.args[0]
		st := derefStruct(p.Typ)
		if st == nil || st.NumFields() < 2 || st.Field(0).Name() != "IP" || st.Field(1).Name() != "Port" {
			return nil, false
		}
		ip := t.st.load(fieldAddr(p, 0, types.NewPointer(st.Field(0).Type())), st.Field(0).Type())
		port := t.st.load(fieldAddr(p, 1, types.NewPointer(st.Field(1).Type())), st.Field(1).Type())
		rt := c.sig.Results().At(0).Type()
		ad := mk(OpCall, addrTyp(rt), "addrfrom", t.st.bytesOf(ip))
		return c.done(t, mk(OpCall, rt, "addrport", ad, mk(OpConv, types.Typ[types.Uint16], "", port))), true
	}, "(*net.UDPAddr).AddrPort", "(*net.TCPAddr).AddrPort")
	reg(pure, "(net.IP).To4", "(net.IP).To16", "(net.IP).String")
	M["(net.IP).To4"], M["(net.IP).To16"] = nil, nil

	// --- random
	rnd := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		n := lin(c.args[len(c.args)-1])
		ok := t.st.facts.entails(n.addC(-1))
		c.obl(t, "randn", ok, c.name+" of "+n.String()+" which may not be positive panics")
		t.st.assume(mkGE(n.addC(-1)), true)
		r := c.sym(".rand", c.sig.Results().At(0).Type())
		t.st.assume(mkGE(lin(r)), true)
		t.st.assume(mkGE(n.sub(lin(r)).addC(-1)), true)
		return c.done(t, r), true
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2."} {
		for _, f := range []string{"Int31n", "Int63n", "Intn", "Int32N", "Int64N", "IntN", "Uint32N", "Uint64N"} {
			M[p+f] = rnd
		}
	}

	// --- sync
	lock := func(op string) model {
		return func(c *callCtx, t *Thread) ([]*Thread, bool) { return c.lockOp(t, op, c.args[0]), true }
	}
	for _, op := range []string{"Lock", "RLock", "Unlock", "RUnlock", "TryLock", "TryRLock"} {
		M["(*sync.Mutex)."+op] = lock(op)
		M["(*sync.RWMutex)."+op] = lock(op)
	}
	M["(*sync.Pool).Get"] = poolGet
	M["(*sync.Pool).Put"] = poolPut
	atomicOps := func(c *callCtx, t *Thread) ([]*Thread, bool) {
		ev := c.event(t)
		ev.Kind = "atomic"
		ev.Name = c.name[strings.LastIndex(c.name, ".")+1:]
		if c.sig.Results().Len() == 1 {
			r := c.sym("", c.sig.Results().At(0).Type())
			ev.Res = []*Term{r}
			return c.done(t, r), true
		}
		return one(t), true
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap", "And", "Or"} {
			M["(*sync/atomic."+ty+")."+op] = atomicOps
			M["sync/atomic."+op+ty] = atomicOps
		}
	}

	// --- process
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		c.event(t)
		t.st.event(&Event{Kind: "exit", Name: c.name, Instr: c.in, Fr: c.fr, Args: c.args})
		c.e.exit(c.fr, t)
		return nil, true
	}, "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf")

	// --- gob
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		a := c.fr.newAlloc(c.in, "", c.sig.Results().At(0).Type())
		t.st.freshObj(a)
		t.st.heap[dstCell(a)] = c.args[0]
		return c.done(t, a), true
	}, "encoding/gob.NewEncoder", "encoding/gob.NewDecoder", "encoding/json.NewEncoder", "encoding/json.NewDecoder")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		w := t.st.heap[dstCell(c.args[0])]
		y, n, err := c.errFork(t, ".err")
		var out []*Thread
		for _, u := range []*Thread{y, n} {
			if u == nil {
				continue
			}
			ev := c.event(u, err)
			if w != nil {
				ev.Args = []*Term{c.args[0], c.args[1], w}
				if u == y {
					c.writeTo(u, w, c.gobBytes(u, c.args[1]))
				} else {
					c.writeTo(u, w, c.sym(".partial", strTyp))
				}
			}
			c.ret(u, err)
			out = append(out, u)
		}
		return out, true
	}, "(*encoding/gob.Encoder).Encode")
	reg(func(c *callCtx, t *Thread) ([]*Thread, bool) {
		w := t.st.heap[dstCell(c.args[0])]
		y, n, err := c.errFork(t, ".err")
		var out []*Thread
		for _, u := range []*Thread{y, n} {
			if u == nil {
				continue
			}
			ev := c.event(u, err)
			if w != nil {
				ev.Args = []*Term{c.args[0], c.args[1], w}
			}
			c.havoc(u.st, c.args[1])
			c.ret(u, err)
			out = append(out, u)
		}
		return out, true
	}, "(*encoding/gob.Decoder).Decode")

	M["reflect.TypeOf"] = pure
	delete(M, "(net.IP).To4")
	delete(M, "(net.IP).To16")
}

// storedAddr: the address in a peer record.
func storedAddr(ad *Term) bool {
	if ad.Op != OpLoad || ad.Args[0].Op != OpField {
		return false
	}
	et, _ := structOfPtr(ad.Args[0].Args[0])
	return et != nil && isNamed(et, "/tracker/storage", "Peer")
}

func addrBytes(ad *Term) *Term {
	if ad.Op == OpCall && ad.Aux == "addrfrom" {
		return ad.Args[0]
	}
	return mk(OpCall, strTyp, "addrbytes", ad)
}

func isByteSeqTyped(t *Term) bool { return t.Typ != nil && isSliceT(t.Typ) && t.Op != OpConst }

func (c *callCtx) gobBytes(t *Thread, v *Term) *Term {
	return mk(OpCall, strTyp, "gob", v)
}

var namedIface = map[string]types.Type{}

// mkIfaceName views a pointer receiver as an interface of a known dynamic type.
func mkIfaceName(p *Term, key string) *Term {
	t := mk(OpIface, p.Typ, key, p)
	if p.Typ == nil || typeKey(p.Typ) != key {
		if ty := namedIface[key]; ty != nil {
			t = mk(OpIface, ty, key, p)
		}
	}
	return t
}

func (c *callCtx) neverFailsT(t *Thread, p *Term, key string) bool {
	return c.neverFails(t, mkIfaceName(p, key))
}

// cutSlice gives bytes lo..lo+ln of a string or byte slice.
func (c *callCtx) cutSlice(st *State, x *Term, lo, ln Lin) *Term {
	if isSliceT(x.Typ) {
		arr, off, _, cp := sliceParts(x)
		return mkSlice(x.Typ, arr, off.add(lo), ln, cp.sub(lo))
	}
	return mkSub(st.facts, x, lo, ln)
}

// subSlice: the result is some sub-slice of the first argument.
func subSlice(c *callCtx, t *Thread) ([]*Thread, bool) {
	x := c.args[0]
	if !isSliceT(c.sig.Results().At(0).Type()) {
		return pure(c, t)
	}
	arr, off, n, cp := sliceParts(x)
	lo, ln := c.sym(".lo", intTyp), c.sym(".ln", intTyp)
	st := t.st
	st.assume(mkGE(lin(lo)), true)
	st.assume(mkGE(lin(ln)), true)
	st.assume(mkGE(n.sub(lin(lo)).sub(lin(ln))), true)
	return c.done(t, mkSlice(c.sig.Results().At(0).Type(), arr, off.add(lin(lo)), lin(ln), cp.sub(lin(lo)))), true
}

// generic models by shape.
func (c *callCtx) generic(t *Thread, fn *ssa.Function) ([]*Thread, bool) {
	n := c.name
	// writes to network connections
	if strings.HasSuffix(n, ".Write") || strings.Contains(n, ".WriteTo") || strings.Contains(n, ".WriteMsg") {
		if strings.HasPrefix(n, "net.") || n == "http.ResponseWriter.Write" || strings.HasPrefix(n, "(*net.") || strings.HasPrefix(n, "io.Writer") {
			r := c.results()
			var data *Term
			for i, a := range c.args {
				if i < len(c.typs) && isSliceT(c.typs[i]) {
					data = t.st.bytesOf(a)
					break
				}
			}
			c.event(t, append(r, data)...)
			return c.done(t, r...), true
		}
	}
	return nil, false
}

func (c *callCtx) binaryRead(t *Thread, r *Term, dyn, o string, ptr *Term, typ types.Type) []*Thread {
	st := t.st
	var n Lin
	var elem types.Type
	isSlice := false
	bad := false
	tgt := ptr
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		elem = u.Elem()
		if s, ok := elem.Underlying().(*types.Slice); ok {
			isSlice = true
			tgt = st.load(ptr, elem)
			elem = s.Elem()
		}
	case *types.Slice:
		isSlice = true
		elem = u.Elem()
	default:
		bad = true
	}
	if !bad {
		sz := fixedSize(elem)
		if sz < 0 {
			bad = true
		} else if isSlice {
			n = lin(lenT(tgt)).scale(int64(sz))
		} else {
			n = linC(int64(sz))
		}
	}
	if bad {
		e := c.newErr("")
		c.event(t, e)
		return c.done(t, e)
	}
	src, ok := st.heap[srcCell(r)]
	pos := st.heap[posCell(r)]
	if !ok || pos == nil {
		y, no, err := c.errFork(t, ".err")
		var out []*Thread
		for _, u := range []*Thread{y, no} {
			if u == nil {
				continue
			}
			c.event(u, err)
			c.havoc(u.st, ptr)
			c.ret(u, err)
			out = append(out, u)
		}
		return out
	}
	p := lin(pos)
	rem := lin(lenOfBytes(src)).sub(p)
	y, no := c.fork(t, mkGE(rem.sub(n)))
	var out []*Thread
	if y != nil {
		c.event(y, nilT, src, pos, mkLin(n))
		s := y.st
		if isSlice {
			arr, off, cnt, _ := sliceParts(tgt)
			var v *Term
			if isByteElem(elem) {
				v = mkSub(s.facts, src, p, n)
			} else {
				v = mk(OpDec, types.NewSlice(elem), o, src, mkLin(p), mkLin(cnt))
			}
			if !arr.isNil() {
				s.setContent(arr, mkUpd(s.facts, s.content(arr), off, cnt, v), c.sym("!", nil))
			}
		} else {
			s.store(ptr, decodeVal(s.facts, o, src, p, elem), elem, c.sym("!", nil))
		}
		s.heap[posCell(r)] = mkLin(p.add(n))
		c.ret(y, nilT)
		out = append(out, y)
	}
	if no != nil {
		// nothing left: EOF; some but not enough: ErrUnexpectedEOF
		a, b := c.fork(no, mkEQZ(rem))
		if a != nil {
			err := c.e.sentinel(a, "io", "EOF")
			c.event(a, err, src, pos, mkLin(n))
			c.ret(a, err)
			out = append(out, a)
		}
		if b != nil {
			err := c.e.sentinel(b, "io", "ErrUnexpectedEOF")
			c.event(b, err, src, pos, mkLin(n))
			c.havoc(b.st, tgt)
			b.st.heap[posCell(r)] = lenOfBytes(src)
			c.ret(b, err)
			out = append(out, b)
		}
	}
	return out
}

// sentinel is the value of a package-level error variable.
func (e *Engine) sentinel(t *Thread, pkg, name string) *Term {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				v := t.st.load(mkGlobal(g), deref(g.Type()))
				t.st.assume(mkEq(v, nilT), false)
				return v
			}
		}
	}
	return mk(OpAlloc, errTyp, pkg+"."+name)
}

// ---- locks

func (c *callCtx) lockOp(t *Thread, op string, a *Term) []*Thread {
	st := t.st
	switch op {
	case "TryLock", "TryRLock":
		b := c.sym(".try", boolTyp)
		y, n := c.fork(t, b)
		var out []*Thread
		if y != nil {
			out = append(out, c.lockOp(y, strings.TrimPrefix(op, "Try"), a)...)
			c.ret(y, mkBool(true))
		}
		if n != nil {
			c.ret(n, mkBool(false))
			out = append(out, n)
		}
		return out
	case "Lock", "RLock":
		ev := st.event(&Event{Kind: "lock", Name: op, Instr: c.in, Fr: c.fr, Args: []*Term{a}, Pre: st.clone()})
		held := false
		for _, l := range st.locks {
			if l.Addr == a {
				held = true
			}
		}
		st.locks = append(st.locks[:len(st.locks):len(st.locks)], LockHeld{Addr: a, Write: op == "Lock", Ev: ev})
		if !held {
			c.e.acquire(c, st, a)
		}
		if guardsPeers(a) {
			ev.St = st.clone()
		}
	case "Unlock", "RUnlock":
		ev := &Event{Kind: "unlock", Name: op, Instr: c.in, Fr: c.fr, Args: []*Term{a}}
		for i := len(st.locks) - 1; i >= 0; i-- {
			if l := st.locks[i]; l.Addr == a && l.Write == (op == "Unlock") {
				st.event(ev)
				if guardsPeers(a) {
					ev.St = st.clone()
				}
				n := append([]LockHeld(nil), st.locks[:i]...)
				st.locks = append(n, st.locks[i+1:]...)
				return one(t)
			}
		}
		ev.Name = "bad" + op
		st.event(ev)
	}
	return one(t)
}

func isSyncType(t types.Type) bool {
	k := typeKey(t)
	return strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "sync/atomic.")
}
func isMutexType(t types.Type) bool {
	k := typeKey(t)
	return k == "sync.Mutex" || k == "sync.RWMutex"
}

func hasMutex(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// guarded lists the memory classes a mutex inside struct type t protects.
func guarded(t types.Type) map[string]bool {
	if g, ok := guardMemo[typeKey(t)]; ok {
		return g
	}
	g := map[string]bool{}
	guardMemo[typeKey(t)] = g
	var sub func(t types.Type, d int)
	sub = func(t types.Type, d int) {
		if d > 3 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			g["M:"+typeKey(t)] = true
			sub(u.Elem(), d+1)
		case *types.Slice:
			g["C:"+typeKey(u.Elem().Underlying())] = true
			sub(u.Elem(), d+1)
		case *types.Pointer:
			if s, ok := u.Elem().Underlying().(*types.Struct); ok && !hasMutex(u.Elem()) {
				if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) {
					for i := 0; i < s.NumFields(); i++ {
						g["F:"+typeKey(u.Elem())+"."+strconv.Itoa(i)] = true
					}
				}
			}
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return g
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isSyncType(ft) {
			continue
		}
		g["F:"+typeKey(t)+"."+strconv.Itoa(i)] = true
		sub(ft, 0)
	}
	return g
}

var guardMemo = map[string]map[string]bool{}

func (e *Engine) acquire(c *callCtx, st *State, a *Term) {
	if a.Op != OpField {
		return
	}
	et, _ := structOfPtr(a.Args[0])
	if et == nil {
		return
	}
	if st.private(root(a)) {
		return
	}
	g := guarded(et)
	for k := range st.heap {
		if g[class(k)] && !st.private(root(k)) && !e.keeps(st, k) {
			delete(st.heap, k)
		}
	}
	for cl := range g {
		st.epoch[cl] = c.sym("!lk:"+cl, nil)
	}
}

// ---- sync.Pool

type poolInfo struct {
	New *Term
	st  *State
}

// poolGet: a new object, or a recycled one.
func poolGet(c *callCtx, t *Thread) ([]*Thread, bool) {
	pool := c.args[0]
	var nw *Term
	if nf := fieldByName(pool, "New"); nf != nil {
		nw = t.st.load(nf, deref(nf.Typ))
	}
	ev := c.event(t)
	ev.Kind, ev.Name = "poolget", "get"
	if nw == nil || (nw.Op != OpClosure && nw.Op != OpFunc) {
		r := mk(OpCall, c.sig.Results().At(0).Type(), "poolget", c.sym("", intTyp))
		ev.Res = []*Term{r}
		return c.done(t, r), true
	}
	cc := *c
	cc.args = nil
	cc.sig = nw.Fn.Signature
	outs := cc.runClosure(t, nw)
	var res []*Thread
	for _, u := range outs {
		v := u.val
		pre := u.t.fork()
		held := "the constructor of the pool does not make it"
		if v.Op == OpIface {
			if m := memOf(v.Args[0]); m != nil && u.t.st.private(m) && u.t.st.held[m] == "" {
				held = ""
			}
		}
		ev2 := u.t.st.event(&Event{Kind: "poolget", Name: "got", Held: held, Instr: c.in, Fr: c.fr, Args: c.args, Res: []*Term{v}})
		// a recycled object: same shape, unknown contents
		inner := v
		if v.Op == OpIface {
			inner = v.Args[0]
		}
		w := u.t.fork()
		if inner.Op == OpSlice {
			ev2.Cap = inner.Args[3]
		}
		c.ret(u.t, v)
		res = append(res, u.t)
		switch inner.Op {
		case OpAlloc:
			shape := sliceShape(u.t.st, inner)
			w.st.forgetObj(inner, c.sym("!rec", nil))
			if shape != nil {
				// checked at every Put
				rs := c.sym(".recslice", shape.Typ)
				w.st.assume(mkEQZ(lin(lenT(rs)).sub(lin(lenT(shape)))), true)
				w.st.assume(mkGE(lin(capT(rs)).sub(lin(capT(shape)))), true)
				w.st.heap[inner] = rs
			}
			if reset := poolReset(c, w.st, pool); reset != nil {
				rc := *c
				rc.sig = reset.Fn.Signature
				rc.args = []*Term{inner}
				before := w.st.trace
				rs := rc.runClosure(w, reset)
				if len(rs) >= 1 {
					w = rs[0].t
					w.st.trace = before
				}
			}
			c.ret(w, v)
			res = append(res, w)
		case OpSlice:
			w = pre
			ln, cp := c.sym(".rlen", intTyp), c.sym(".rcap", intTyp)
			arr := c.fr.newAlloc(c.in, ".rec@", ptrTo(v.Typ))
			w.st.freshObj(arr)
			w.st.assume(mkGE(lin(ln)), true)
			w.st.assume(mkGE(lin(cp).sub(lin(ln))), true)
			w.st.assume(mkGE(lin(cp).sub(lin(inner.Args[3]))), true) // checked at every Put
			cont := c.sym(".rcont", v.Typ)
			w.st.heap[arr] = cont
			w.st.assume(mkEQZ(lin(mk(OpLen, intTyp, "", cont)).sub(lin(cp))), true)
			rv := mkSlice(inner.Typ, arr, Lin{}, lin(ln), lin(cp))
			rr := rv
			if v.Op == OpIface {
				rr = mkIface(rv, v.Typ)
			}
			w.st.event(&Event{Kind: "poolget", Name: "got", Instr: c.in, Fr: c.fr, Args: c.args, Res: []*Term{rr}, Cap: inner.Args[3]})
			c.ret(w, rr)
			res = append(res, w)
		}
	}
	if len(res) == 2 && sameRecycled(res[0].st, res[1].st) {
		res = res[:1]
	}
	return res, true
}

// sliceShape gives the slice an object that holds one slice contains.
func sliceShape(st *State, p *Term) *Term {
	if t := deref(p.Typ); t != nil && isSliceT(t) && isAllocVar(p) {
		return st.load(p, t)
	}
	return nil
}

// poolPut: what goes into a pool must be usable like what New makes, and after the
// reset hook of the pool it must look freshly reset.
func poolPut(c *callCtx, t *Thread) ([]*Thread, bool) {
	pool := c.args[0]
	var nw *Term
	if nf := fieldByName(pool, "New"); nf != nil {
		nw = t.st.load(nf, deref(nf.Typ))
	}
	v := c.args[1]
	x := v
	if v.Op == OpIface {
		x = v.Args[0]
	}
	if nw != nil && (nw.Op == OpClosure || nw.Op == OpFunc) {
		q := c.e.quiet
		c.e.quiet++
		cl := t.fork()
		base := cl.st.trace
		cc := *c
		cc.args = nil
		cc.sig = nw.Fn.Signature
		outs := cc.runClosure(cl, nw)
		_ = base
		type ob struct {
			ok  bool
			why string
		}
		var obs []ob
		for _, o := range outs {
			n := o.val
			if n.Op == OpIface {
				if v.Op == OpIface && !types.Identical(n.Typ, v.Typ) {
					obs = append(obs, ob{false, "object of type " + typeKey(v.Typ) + " put into a pool of " + typeKey(n.Typ)})
					continue
				}
				n = n.Args[0]
			}
			switch {
			case n.Op == OpSlice:
				l := lin(capT(x)).sub(lin(n.Args[3]))
				obs = append(obs, ob{t.st.facts.entails(l), "capacity of the slice put back is not provably that of a new one: " + capT(x).String() + " < " + n.Args[3].String()})
			case n.Op == OpAlloc:
				obs = append(obs, ob{nonNilTerm(x) || t.st.facts.eval(mkEq(x, mkNil(nil))) == False, "nil put into pool"})
				if sh := sliceShape(o.t.st, n); sh != nil {
					ps := t.st.load(x, sh.Typ)
					ok := t.st.facts.entailsEq(lin(lenT(ps)).sub(lin(lenT(sh)))) && t.st.facts.entails(lin(capT(ps)).sub(lin(capT(sh))))
					obs = append(obs, ob{ok, "the slice put back does not provably have the length of a new one: " + lenT(ps).String() + " vs " + lenT(sh).String()})
				}
				if reset := poolReset(c, t.st, pool); reset != nil && x.Op == OpAlloc {
					rt := t.fork()
					rc := *c
					rc.sig = reset.Fn.Signature
					rc.args = []*Term{x}
					for _, ro := range rc.runClosure(rt, reset) {
						same := true
						for k, w := range ro.t.st.heap {
							if root(k) == x && !sameContent(t.st, t.st.heap[k], ro.t.st, w) {
								same = false
							}
						}
						why := ""
						if !same {
							for k, w := range ro.t.st.heap {
								if root(k) == x && t.st.heap[k] != w {
									why += fmt.Sprint(" ", k, ": ", t.st.heap[k], " vs ", w)
								}
							}
						}
						obs = append(obs, ob{same, "object put back without being reset:" + why})
					}
				}
			}
		}
		c.e.quiet = q
		for _, o := range obs {
			c.obl(t, "poolinv", o.ok, o.why)
		}
	}
	mem := t.st.reaches(x)
	ev := c.event(t)
	ev.Kind, ev.Name = "poolput", "put"
	if t.st.dead == nil {
		t.st.dead = map[*Term]*Event{}
	}
	for _, m := range mem {
		if why, ok := t.st.held[m]; ok {
			ev.Held = why
		}
		if m == memOf(x) || m.Op == OpAlloc {
			t.st.dead[m] = ev
		}
	}
	if v.Op == OpIface {
		t.st.publish(x)
		// from now on anyone may write it
		if x.Op == OpAlloc {
			t.st.forgetObj(x, c.sym("!", nil))
		} else if x.Op == OpSlice {
			c.havoc(t.st, x)
		}
	}
	return one(t), true
}

// sameContent: equal values, or byte slices with equal contents.
func sameContent(sa *State, a *Term, sb *State, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Op != OpSlice || b.Op != OpSlice {
		return false
	}
	x, y := sa.bytesOf(a), sb.bytesOf(b)
	return x == y
}

func sameRecycled(a, b *State) bool {
	if a.trace != b.trace {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	return len(a.heap) == len(b.heap)
}

func fieldByName(base *Term, name string) *Term {
	st := derefStruct(base.Typ)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fieldAddr(base, i, types.NewPointer(st.Field(i).Type()))
		}
	}
	return nil
}

// poolReset finds the reset closure next to a pool field.
func poolReset(c *callCtx, st *State, pool *Term) *Term {
	if pool.Op != OpField {
		return nil
	}
	base := pool.Args[0]
	ss := derefStruct(base.Typ)
	if ss == nil {
		return nil
	}
	for i := 0; i < ss.NumFields(); i++ {
		if _, ok := ss.Field(i).Type().Underlying().(*types.Signature); ok {
			v := st.load(fieldAddr(base, i, types.NewPointer(ss.Field(i).Type())), ss.Field(i).Type())
			if v.Op == OpClosure || v.Op == OpFunc {
				return v
			}
		}
	}
	return nil
}

type closureOut struct {
	t   *Thread
	val *Term
}

func (c *callCtx) runClosure(t *Thread, f *Term) []closureOut {
	nfr := c.e.frame(c.fr, c.in, f.Fn, f.Args, "")
	outs := c.e.execFunc(nfr, c.args, t.st)
	var r []closureOut
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		nt := &Thread{st: o.st, env: append([]*Term(nil), t.env...), defers: t.defers[:len(t.defers):len(t.defers)], blk: t.blk, prev: t.prev, idx: t.idx}
		var v *Term
		if len(o.rets) > 0 {
			v = o.rets[0]
		}
		r = append(r, closureOut{nt, v})
	}
	return r
}

// ---- memory access events

func (e *Engine) elemStore(c *callCtx, t *Thread, arr *Term) {}

func (e *Engine) access(fr *Frame, st *State, in ssa.Instruction, a *Term, write bool, v *Term) {
	k := "load"
	if write {
		k = "store"
	}
	r := root(a)
	if len(st.dead) > 0 {
		e.deadUse(fr, st, in, k, a)
		if write && v != nil {
			e.deadUse(fr, st, in, "stored", v)
		}
	}
	if write && e.cfgMark != nil {
		if f := a; f.Op == OpField && isCfgType(f.Args[0].Typ) {
			if ss := derefStruct(f.Args[0].Typ); ss != nil && e.cfgMark[ss.Field(f.Idx).Name()] {
				st.event(&Event{Kind: "setflag", Instr: in, Fr: fr, Args: []*Term{a, v}})
			}
		}
	}
	if st.private(r) {
		return
	}
	// a whole struct at once
	if et := deref(a.Typ); et != nil && a.Op != OpElem && isAggregate(et) && e.watched(et) {
		ss := structOf(et)
		for i := 0; i < ss.NumFields(); i++ {
			ft := ss.Field(i).Type()
			if isSyncType(ft) {
				continue
			}
			var fv *Term
			if v != nil {
				fv = fieldOf(v, i, ss)
			}
			st.event(&Event{Kind: k, Instr: in, Fr: fr, Args: []*Term{fieldAddr(a, i, types.NewPointer(ft)), fv}})
		}
		return
	}
	switch a.Op {
	case OpGlobal:
		if !write && !e.watchGlobal[a] {
			return
		}
		if g := a; !strings.HasPrefix(g.Aux, modulePath) {
			return
		}
	case OpField:
		// nearest struct
		x := a
		ok := false
		for x.Op == OpField {
			et, _ := structOfPtr(x.Args[0])
			if et != nil && e.watched(et) {
				ok = true
				a = x
				break
			}
			x = x.Args[0]
		}
		if !ok && (!write || !e.watchStores) {
			return
		}
		if sf := derefStruct(a.Args[0].Typ); sf != nil && isSyncType(sf.Field(a.Idx).Type()) {
			return
		}
	case OpElem:
		if !write {
			return
		}
	default:
		if !write || !e.watchStores {
			return
		}
	}
	st.event(&Event{Kind: k, Instr: in, Fr: fr, Args: []*Term{a, v}})
}

// addrTyp is the type netip.Addr, given netip.AddrPort.
func addrTyp(ap types.Type) types.Type {
	if n, ok := ap.(*types.Named); ok && n.Obj().Pkg() != nil {
		if o := n.Obj().Pkg().Scope().Lookup("Addr"); o != nil {
			return o.Type()
		}
	}
	return ap
}
