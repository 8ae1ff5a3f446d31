package main

// Calls: context-sensitive inlining of module code, models of external functions.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	e    *Engine
	fr   *Frame
	in   ssa.Instruction
	cc   *ssa.CallCommon
	out  ssa.Value
	name string
	args []*Term
	typs []types.Type // static types of args
	sig  *types.Signature
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if p := fn.Parent(); p != nil {
		return fnPkgPath(p)
	}
	return ""
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && inModule(fnPkgPath(fn))
}

func calleeName(fv *Term, cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return ifaceMethod(cc)
	}
	if fv != nil && fv.Fn != nil {
		return fnName(fv.Fn)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dynamic:" + shortType(cc.Value.Type())
}

func ifaceMethod(cc *ssa.CallCommon) string {
	return shortType(cc.Value.Type()) + "." + cc.Method.Name()
}

// evalCall evaluates callee and arguments.
func (e *Engine) evalCall(fr *Frame, t *Thread, cc *ssa.CallCommon) (*Term, []*Term) {
	fv := fr.val(t, cc.Value)
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, fr.val(t, a))
	}
	return fv, args
}

func (e *Engine) call(fr *Frame, t *Thread, in ssa.Instruction, cc *ssa.CallCommon, out ssa.Value) []*Thread {
	fv, args := e.evalCall(fr, t, cc)
	return e.doCall(fr, t, in, cc, fv, args, out)
}

func (e *Engine) doCall(fr *Frame, t *Thread, in ssa.Instruction, cc *ssa.CallCommon, fv *Term, args []*Term, out ssa.Value) []*Thread {
	e.ncalls++
	if len(t.st.dead) > 0 {
		e.deadArgs(fr, t, in, cc, fv, args)
	}
	c := &callCtx{e: e, fr: fr, in: in, cc: cc, out: out, args: args, sig: cc.Signature()}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.name = b.Name()
		for _, a := range cc.Args {
			c.typs = append(c.typs, a.Type())
		}
		return c.builtin(t)
	}
	if cc.IsInvoke() {
		recv := fv
		c.name = ifaceMethod(cc)
		c.args = append([]*Term{recv}, args...)
		c.typs = append(c.typs, cc.Value.Type())
		for _, a := range cc.Args {
			c.typs = append(c.typs, a.Type())
		}
		if !c.recvCheck(t, recv) {
			return nil
		}
		if recv.Op == OpIface {
			if fn := e.prog.LookupMethod(recv.Typ, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				c.args[0] = recv.Args[0]
				c.typs[0] = recv.Typ
				return c.static(t, fn, nil)
			}
		}
		return c.external(t, nil)
	}
	for _, a := range cc.Args {
		c.typs = append(c.typs, a.Type())
	}
	switch {
	case fv.Op == OpFunc:
		return c.static(t, fv.Fn, nil)
	case fv.Op == OpClosure:
		return c.static(t, fv.Fn, fv.Args)
	case fv.isNil():
		e.obl(t.st, fr, in, "nil", false, func() string { return "call of a nil function" })
		return nil
	}
	c.name = "dynamic:" + shortType(cc.Value.Type())
	c.args = append([]*Term{fv}, args...)
	c.typs = append([]types.Type{cc.Value.Type()}, c.typs...)
	return c.unknownCode(t)
}

// unknownCode: calls into code that is not known may change all shared memory.
func (c *callCtx) unknownCode(t *Thread) []*Thread {
	st := t.st
	for _, a := range c.args {
		st.publish(a)
		st.hold(a, "given to "+c.name)
	}
	tok := c.fr.newSym(c.in, "!all", nil)
	for k := range st.heap {
		if c.e.keeps(st, k) {
			continue
		}
		if !st.private(root(k)) {
			delete(st.heap, k)
			st.epoch[class(k)] = tok
			if o := "O:" + strconv.Itoa(root(k).ID); st.epoch[o] != nil {
				st.epoch[o] = tok
			}
		}
	}
	return c.opaque(t)
}

func (c *callCtx) recvCheck(t *Thread, recv *Term) bool {
	e, st := c.e, t.st
	if recv.isNil() {
		e.obl(st, c.fr, c.in, "nil", false, func() string { return "method call on a nil interface" })
		return false
	}
	if nonNilTerm(recv) {
		e.obl(st, c.fr, c.in, "nil", true, nil)
		return true
	}
	k := st.facts.eval(mkEq(recv, mkNil(nil)))
	if k == True {
		e.obl(st, c.fr, c.in, "nil", false, func() string { return "method call on a nil interface" })
		return false
	}
	if k == False {
		e.obl(st, c.fr, c.in, "nil", true, nil)
		return true
	}
	isErr := typeKey(c.cc.Value.Type()) == "error"
	if isErr {
		e.obl(st, c.fr, c.in, "nil", false, func() string { return "method call on error " + recv.String() + " which may be nil" })
		return true
	}
	if recv.Pair != nil && !recv.NN {
		ok := st.facts.eval(mkEq(recv.Pair, mkNil(nil))) == True
		e.obl(st, c.fr, c.in, "nil", ok, func() string { return "result used although its error is not known to be nil" })
		return true
	}
	e.obl(st, c.fr, c.in, "nil", true, nil)
	return true
}

func (c *callCtx) static(t *Thread, fn *ssa.Function, bind []*Term) []*Thread {
	e := c.e
	if m, ok := fn.Object().(*types.Func); ok && len(bind) == 1 && strings.HasPrefix(fn.Synthetic, "bound method") {
		// a method value: the method, of what it is bound to
		if g := e.prog.FuncValue(m); g != nil {
			c.args = append([]*Term{bind[0]}, c.args...)
			c.typs = append([]types.Type{bind[0].Typ}, c.typs...)
			fn, bind = g, nil
		}
	}
	c.name = fnName(fn)
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Pkg != c.fr.fn.Pkg {
		return one(t)
	}
	if e.inlinable(fn) && !(e.opaqueFn != nil && e.opaqueFn(c.fr, fn)) {
		for f := c.fr; f != nil; f = f.parent {
			if f.fn == fn {
				e.warn["recursive call of "+fnName(fn)]++
				return c.unknownCode(t)
			}
		}
		return c.inline(t, fn, bind)
	}
	return c.external(t, fn)
}

func (c *callCtx) inline(t *Thread, fn *ssa.Function, bind []*Term) []*Thread {
	nfr := c.e.frame(c.fr, c.in, fn, bind, "")
	outs := c.e.execFunc(nfr, c.args, t.st)
	var r []*Thread
	for i, o := range outs {
		if o.kind != "return" {
			continue
		}
		nt := t
		if i < len(outs)-1 || true {
			nt = &Thread{st: o.st, env: append([]*Term(nil), t.env...), defers: t.defers[:len(t.defers):len(t.defers)], blk: t.blk, prev: t.prev, idx: t.idx}
		}
		c.ret(nt, o.rets...)
		r = append(r, nt)
	}
	return r
}

func (c *callCtx) ret(t *Thread, vals ...*Term) {
	if c.out == nil {
		return
	}
	switch n := c.sig.Results().Len(); {
	case n == 0:
		if len(vals) == 1 { // builtins
			c.fr.set(t, c.out, vals[0])
		}
	case n == 1:
		c.fr.set(t, c.out, vals[0])
	default:
		c.fr.set(t, c.out, mk(OpTuple, nil, "", vals...))
	}
}

func (c *callCtx) done(t *Thread, vals ...*Term) []*Thread {
	c.ret(t, vals...)
	return one(t)
}

func (c *callCtx) sym(s string, typ types.Type) *Term { return c.fr.newSym(c.in, s, typ) }

func (c *callCtx) event(t *Thread, res ...*Term) *Event {
	return t.st.event(&Event{Kind: "call", Name: c.name, Instr: c.in, Fr: c.fr, Args: c.args, Res: res, St: t.st.clone()})
}

// results makes opaque results.
func (c *callCtx) results() []*Term {
	var r []*Term
	rs := c.sig.Results()
	var errT *Term
	for i := 0; i < rs.Len(); i++ {
		s := c.sym(".r"+strconv.Itoa(i), rs.At(i).Type())
		r = append(r, s)
		if i == rs.Len()-1 && typeKey(rs.At(i).Type()) == "error" && rs.Len() > 1 {
			errT = s
		}
	}
	if errT != nil {
		for _, s := range r[:len(r)-1] {
			switch s.Typ.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				s.Pair = errT
			}
		}
	}
	return r
}

func (c *callCtx) opaque(t *Thread) []*Thread {
	r := c.results()
	for _, v := range r {
		if m := memOf(v); m != nil {
			t.st.revive(m)
		}
	}
	if c.cc != nil && c.cc.IsInvoke() && inModuleIface(c.cc) {
		for i, p := range c.e.poolResults(c.cc) {
			if p != nil && i < len(r) {
				// whatever implements the method takes this result from a pool of such buffers
				t.st.assume(mkGE(lin(capT(r[i])).sub(lin(p))), true)
			}
		}
	}
	c.event(t, r...)
	return c.done(t, r...)
}

// poolResults: for a method of a module interface, the least capacity of each slice
// result when every implementation takes it from a pool (nil entries otherwise).
func (e *Engine) poolResults(cc *ssa.CallCommon) []*Term {
	n := cc.Signature().Results().Len()
	any := false
	for i := 0; i < n; i++ {
		if isSliceT(cc.Signature().Results().At(i).Type()) {
			any = true
		}
	}
	nt, ok := cc.Value.Type().(*types.Named)
	if !any || !ok {
		return nil
	}
	key := ifaceMethod(cc)
	if r, ok := e.poolRes[key]; ok {
		return r
	}
	e.poolRes[key] = nil
	out := make([]*Term, n)
	first := true
	pkg := strings.TrimPrefix(nt.Obj().Pkg().Path(), modulePath)
	for _, it := range e.p.implementers(pkg, nt.Obj().Name()) {
		fn := e.p.method(it, cc.Method.Name())
		if fn == nil || fn.Blocks == nil {
			continue
		}
		e.quiet++
		over, why := e.over, e.overWhy
		run := e.runRoot(fn, nil, nil, nil)
		e.over, e.overWhy = over, why
		e.quiet--
		var caps []*Term // capacities of the pools' new buffers
		for _, o := range run.Outs {
			for _, ev := range o.st.trace.since(nil) {
				if ev.Kind == "poolget" && ev.Name == "got" && ev.Cap != nil && !hasTerm(caps, ev.Cap) {
					caps = append(caps, ev.Cap)
				}
			}
		}
		for i := range out {
			var c *Term
			for _, k := range caps {
				all := true
				for _, o := range run.Outs {
					if o.kind == "return" && (i >= len(o.rets) || !isSliceT(o.rets[i].Typ) || !o.st.facts.entails(lin(capT(o.rets[i])).sub(lin(k)))) {
						all = false
						break
					}
				}
				if all && (c == nil || run.Outs[0].st.facts.entails(lin(k).sub(lin(c)))) {
					c = k
				}
			}
			if first {
				out[i] = c
			} else if out[i] != c {
				out[i] = nil
			}
		}
		first = false
	}
	e.poolRes[key] = out
	return out
}

var quietPkgs = []string{"go.uber.org/zap", "fmt", "errors", "github.com/pkg/errors", "strings", "strconv", "bytes", "net/netip", "net", "os", "time", "expvar", "runtime", "path", "path/filepath", "log", "html", "unicode", "database/sql", "syscall", "context", "embed", "io/fs", "net/http", "net/url", "unicode/utf8", "math", "math/bits", "os/signal", "github.com/crimist", "crypto/sha1", "crypto/sha256", "hash", "encoding/hex", "os/exec", "flag", "sync", "sync/atomic", "hash/crc32", "runtime/debug"}

func quietPkg(p string) bool {
	for _, q := range quietPkgs {
		if p == q || strings.HasPrefix(p, q+"/") && (q == "go.uber.org/zap") {
			return true
		}
	}
	return false
}

// logOnly: calls that only produce log output or log fields.
func logOnly(name string) bool {
	return strings.HasPrefix(name, "(*go.uber.org/zap.Logger)") || strings.HasPrefix(name, "go.uber.org/zap") || strings.HasPrefix(name, "(go.uber.org/zap")
}

func (c *callCtx) external(t *Thread, fn *ssa.Function) []*Thread {
	if m := models[c.name]; m != nil {
		if r, ok := m(c, t); ok {
			return r
		}
	}
	if r, ok := c.generic(t, fn); ok {
		return r
	}
	if strings.HasPrefix(c.name, "error.") {
		return c.done(t, mk(OpCall, strTyp, c.name, c.args...))
	}
	if logOnly(c.name) {
		short := c.name[strings.LastIndex(c.name, ".")+1:]
		switch short {
		case "Fatal", "Panic", "Fatalf", "Panicf":
			c.event(t)
			t.st.event(&Event{Kind: "exit", Name: c.name, Instr: c.in, Fr: c.fr})
			c.e.exit(c.fr, t)
			return nil
		}
		if c.sig.Results().Len() == 1 {
			return c.done(t, mk(OpCall, c.sig.Results().At(0).Type(), c.name, c.args...))
		}
		c.event(t)
		return c.done(t, c.results()...)
	}
	// default: opaque, contents of reference arguments unknown unless read-only
	pkg := ""
	if fn != nil {
		pkg = fnPkgPath(fn)
	}
	if fn == nil || !quietPkg(pkg) {
		if fn != nil || !strings.HasPrefix(c.name, "net.") {
			for i, a := range c.args {
				if i == 0 && fn == nil {
					continue
				}
				if readsOnly(c.name) {
					c.e.readOnly++
				}
				c.havoc(t.st, a)
				if readsOnly(c.name) {
					c.e.readOnly--
				}
			}
		}
	}
	for _, a := range c.args {
		t.st.publish(a)
	}
	if fn == nil && inModuleIface(c.cc) {
		// module interfaces implemented elsewhere: storage.Backup works on the database
		if strings.HasPrefix(c.name, "storage.Backup.") {
			return c.unknownCode(t)
		}
	}
	return c.opaque(t)
}

func inModuleIface(cc *ssa.CallCommon) bool {
	if n, ok := cc.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		return inModule(n.Obj().Pkg().Path())
	}
	return false
}

// exit records a path that ends the process.
func (e *Engine) exit(fr *Frame, t *Thread) {
	if e.quiet == 0 {
		e.exitPaths = append(e.exitPaths, t.st)
	}
}

func (c *callCtx) havoc(st *State, a *Term) {
	switch a.Op {
	case OpIface:
		c.havoc(st, a.Args[0])
	case OpSlice:
		arr, off, n, _ := sliceParts(a)
		cont := st.content(arr)
		s := c.sym("!h"+strconv.Itoa(a.ID), strTyp)
		st.setContent(arr, mkUpd(st.facts, cont, off, n, s), c.sym("!", nil))
	case OpAlloc, OpField, OpGlobal:
		if a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Pointer); ok {
				st.forgetObj(a, c.sym("!", nil))
			}
		}
	case OpSym, OpLoad, OpFieldVal:
		if a.Typ != nil {
			switch a.Typ.Underlying().(type) {
			case *types.Slice:
				arr := mkBack(a)
				st.setContent(arr, c.sym("!h"+strconv.Itoa(a.ID), strTyp), c.sym("!", nil))
			}
		}
	}
}

// fork splits on a condition term; either thread may be nil.
func (c *callCtx) fork(t *Thread, cond *Term) (yes, no *Thread) {
	switch t.st.facts.eval(cond) {
	case True:
		return t, nil
	case False:
		return nil, t
	}
	u := t.fork()
	if t.st.assume(cond, true) {
		yes = t
	}
	if u.st.assume(cond, false) {
		no = u
	}
	return
}

func (c *callCtx) newErr(s string) *Term {
	return c.fr.newAlloc(c.in, ".err"+s, errTyp)
}

var errTyp = types.Universe.Lookup("error").Type()
var nilT = mkNil(nil)

func (c *callCtx) obl(t *Thread, kind string, ok bool, detail string) {
	c.e.obl(t.st, c.fr, c.in, kind, ok, func() string { return detail })
}

// ---- builtins

func (c *callCtx) builtin(t *Thread) []*Thread {
	st := t.st
	switch c.name {
	case "len":
		x := c.args[0]
		switch c.typs[0].Underlying().(type) {
		case *types.Map:
			st.event(&Event{Kind: "maplen", Instr: c.in, Fr: c.fr, Args: []*Term{x, st.mapLen(x)}})
			return c.done(t, st.mapLen(x))
		case *types.Chan:
			return c.done(t, mk(OpCall, intTyp, "nonneg", c.sym("chanlen", intTyp)))
		case *types.Pointer:
			return c.done(t, mkInt(arrayLen(deref(c.typs[0]))))
		case *types.Array:
			return c.done(t, mkInt(arrayLen(c.typs[0])))
		}
		return c.done(t, lenT(x))
	case "cap":
		if _, ok := c.typs[0].Underlying().(*types.Slice); ok {
			return c.done(t, capT(c.args[0]))
		}
		return c.done(t, c.sym("", intTyp))
	case "append":
		return c.appendB(t)
	case "copy":
		dst, src := c.args[0], c.args[1]
		arr, off, n, _ := sliceParts(dst)
		sc := st.bytesOf(src)
		sn := lin(lenT(src))
		n1, n2 := n, sn
		fin := func(u *Thread, k Lin, whole bool) {
			s := sc
			if !whole {
				s = mkSub(u.st.facts, sc, Lin{}, k)
			}
			cont := u.st.content(arr)
			u.st.event(&Event{Kind: "copy", Instr: c.in, Fr: c.fr, Args: []*Term{dst, src, mkLin(k)}})
			if !dst.isNil() {
				u.st.setContent(arr, mkUpd(u.st.facts, cont, off, k, s), c.sym("!", nil))
			}
			c.ret(u, mkLin(k))
		}
		yes, no := c.fork(t, mkGE(n1.sub(n2)))
		var r []*Thread
		if yes != nil {
			fin(yes, n2, true)
			r = append(r, yes)
		}
		if no != nil {
			fin(no, n1, false)
			r = append(r, no)
		}
		return r
	case "delete":
		m, k := c.args[0], c.args[1]
		has := st.mapHas(m, k)
		var old *Term
		if st.facts.eval(has) == True {
			old = st.mapVal(m, k, c.typs[0])
		}
		st.event(&Event{Kind: "mapdel", Instr: c.in, Fr: c.fr, Args: []*Term{m, k, nil, has, old}, St: st.clone()})
		if !m.isNil() {
			st.mapDel(c.fr, c.in, m, k)
		}
		return one(t)
	case "panic":
		c.obl(t, "panic", false, "explicit panic reachable")
		return nil
	case "close":
		st.event(&Event{Kind: "close", Instr: c.in, Fr: c.fr, Args: c.args})
		return one(t)
	case "min", "max":
		x := c.args[0]
		if intSize(x.Typ) > 0 && len(c.args) == 2 {
			y := c.args[1]
			if c.name == "max" {
				x, y = y, x
			}
			u := t.fork()
			var out []*Thread
			if t.st.assume(mkGE(lin(y).sub(lin(x))), true) {
				c.ret(t, c.args[0])
				out = append(out, t)
			}
			if u.st.assume(mkGE(lin(x).sub(lin(y)).addC(-1)), true) {
				c.ret(u, c.args[1])
				out = append(out, u)
			}
			return out
		}
		for _, y := range c.args[1:] {
			x = mk(OpCall, x.Typ, c.name, x, y)
		}
		return c.done(t, x)
	case "recover":
		return c.done(t, c.sym("", types.NewInterfaceType(nil, nil)))
	case "print", "println":
		return one(t)
	case "ssa:wrapnilchk":
		return c.done(t, c.args[0])
	case "clear":
		c.havoc(st, c.args[0])
		return one(t)
	}
	c.e.warn["builtin "+c.name]++
	if c.out != nil {
		c.fr.set(t, c.out, c.sym("", c.out.Type()))
	}
	return one(t)
}

func (c *callCtx) appendB(t *Thread) []*Thread {
	st := t.st
	base := c.args[0]
	var add *Term
	var addN Lin
	if len(c.args) > 1 {
		add = st.bytesOf(c.args[1])
		addN = lin(lenT(c.args[1]))
	} else {
		return c.done(t, base)
	}
	typ := c.typs[0]
	arr, off, n, cp := sliceParts(base)
	old := mkStr("")
	if !base.isNil() {
		old = st.bytesOf(base)
	}
	full := st.facts.entails(n.sub(cp)) // no spare capacity: always reallocates
	empty := addN.isConst() && addN.C == 0
	st.event(&Event{Kind: "append", Instr: c.in, Fr: c.fr, Args: []*Term{base, c.args[1], mkBool(full || empty), mkLin(n), mkLin(cp)}})
	if !full && !base.isNil() && !empty {
		// the new elements may be written into the old backing array
		cont := st.content(arr)
		ln := lin(lenOfBytes(cont))
		tailOff := off.add(n)
		junk := c.sym("!tail", strTyp)
		_ = ln
		nc := mkUpd(st.facts, cont, tailOff, cp.sub(n), junk)
		st.setContent(arr, nc, c.sym("!", nil))
	}
	a := c.fr.newAlloc(c.in, "@", types.NewPointer(typ))
	// a previous incarnation of this allocation may still be the base (loops)
	if arr == a {
		a = c.fr.newAlloc(c.in, "'@", types.NewPointer(typ))
	}
	st.freshObj(a)
	if !full && !base.isNil() && arr != a {
		c.e.alias(a, arr)
	}
	nn := n.add(addN)
	nc := c.sym(".cap", intTyp)
	st.assume(mkGE(lin(nc).sub(nn)), true)
	st.assume(mkGE(lin(nc).sub(cp)), true)
	content := mkConcat(old, add)
	spare := mk(OpZeros, typ, "spare", mkLin(lin(nc).sub(nn)))
	st.heap[a] = mkConcat(content, spare)
	if elemIsRef(typ) {
		st.leakElems(add)
	}
	return c.done(t, mkSlice(typ, a, Lin{}, nn, lin(nc)))
}

func elemIsRef(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return !isByteElem(s.Elem())
	}
	return false
}

func (s *State) leakElems(c *Term) {
	switch c.Op {
	case OpElemV:
		if c.Args[0].Op == OpSlice {
			s.leak[c.Args[0].Args[0]] = true
		}
	case OpConcat, OpUpd:
		for _, a := range c.Args {
			s.leakElems(a)
		}
	}
}

var _ = fmt.Sprint

func hasTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// deadArgs: a call of something that is not analysed in place uses what it is given.
func (e *Engine) deadArgs(fr *Frame, t *Thread, in ssa.Instruction, cc *ssa.CallCommon, fv *Term, args []*Term) {
	name := calleeName(fv, cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			return
		}
	} else if cc.IsInvoke() {
		if fv.Op == OpIface {
			if fn := e.prog.LookupMethod(fv.Typ, cc.Method.Pkg(), cc.Method.Name()); e.inlinable(fn) {
				return
			}
		}
		args = append([]*Term{fv}, args...)
	} else if fv != nil && e.inlinable(fv.Fn) {
		return
	}
	e.deadUse(fr, t.st, in, name, args...)
}

// readsOnly: methods whose contract is not to change what they are given.
func readsOnly(name string) bool {
	switch name[strings.LastIndex(name, ".")+1:] {
	case "Write", "WriteString", "WriteTo", "WriteToUDP", "WriteAt", "Error", "String", "Equal", "Compare", "Sum", "ServeHTTP":
		return true
	}
	return false
}
