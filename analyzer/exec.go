package main

// The abstract interpreter: transfer functions for SSA instructions,
// calls by context-sensitive inlining, loops by invariants (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	id    map[ssa.Instruction]string
}

type Frame struct {
	eng    *Engine
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	path   string
	depth  int
	info   *FnInfo
	bind   []*Term
	of     *Frame // the frame this is one unrolled iteration of
}

// is: the frame, or an unrolled iteration within it.
func (fr *Frame) is(x *Frame) bool {
	for f := fr; f != nil; f = f.of {
		if f == x {
			return true
		}
	}
	return false
}

func (fr *Frame) within(anc *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if f.is(anc) {
			return true
		}
	}
	return false
}

type deferred struct {
	call *ssa.CallCommon
	in   ssa.Instruction
	fn   *Term
	args []*Term
}

type Thread struct {
	st     *State
	env    []*Term
	defers []deferred
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
}

func (t *Thread) fork() *Thread {
	n := &Thread{st: t.st.clone(), env: append([]*Term(nil), t.env...), defers: t.defers[:len(t.defers):len(t.defers)], blk: t.blk, prev: t.prev, idx: t.idx}
	return n
}

type Outcome struct {
	st   *State
	rets []*Term
	kind string // return, panic
}

type Oblig struct {
	Kind, Fn, Pos, Detail string
	OK, Fail              int
	Why                   []string
	Instr                 ssa.Instruction
	fn                    *ssa.Function
}

type Engine struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	tags      string
	token0    *Term
	info      map[*ssa.Function]*FnInfo
	frames    map[string]*Frame
	frozenV   map[*Term]*Term
	obls      map[string]*Oblig
	quiet     int
	steps     int
	maxStep   int
	over      bool
	overWhy   string
	nfns      map[*ssa.Function]bool
	ncalls    int
	poolRes   map[string][]*Term
	loopSeeds map[string]*loopSeed
	nloops    map[string]bool
	poolNew   map[*Term]*poolInfo
	noInit    bool
	cfgFlags  map[string]bool // fields that say that the configuration is loaded
	cfgUses   map[ssa.Instruction]*cfgUse
	cfgMark   map[string]bool // record writes of these fields
	noJoin    bool            // keep paths apart that differ in what they know only
	// hooks
	opaqueFn func(fr *Frame, fn *ssa.Function) bool // treat as boundary
	loopRecs []*LoopRec
	pathsN   int
	funcRecs map[*ssa.Function][]FuncRec
	recFn    map[*ssa.Function]bool
	invokeTo func(recv *Term, m *types.Func) *ssa.Function
	warn     map[string]int

	p           *Program
	watchBytes  bool            // record writes to arrays the path does not own
	readOnly    int             // > 0: content changes are not writes by the current call
	curIn       ssa.Instruction // the instruction being executed
	curFr       *Frame
	watchT      map[string]bool
	aliases     map[*Term]map[*Term]bool // results of append -> what they may extend in place
	immut       map[string]bool
	watchGlobal map[*Term]bool
	watchStores bool // record every store to memory that may be shared
	exitPaths   []*State
	blocked     []*State
	gos         []goRec
}

type FuncRec struct {
	Fr   *Frame
	Args []*Term
	Pre  *State
	Outs []Outcome
}

func newEngine(prog *ssa.Program, pkgs []*ssa.Package, tags string) *Engine {
	e := &Engine{prog: prog, pkgs: pkgs, tags: tags, info: map[*ssa.Function]*FnInfo{}, frames: map[string]*Frame{}, frozenV: map[*Term]*Term{}, obls: map[string]*Oblig{}, maxStep: 20_000_000, nfns: map[*ssa.Function]bool{}, loopSeeds: map[string]*loopSeed{}, poolRes: map[string][]*Term{}, aliases: map[*Term]map[*Term]bool{}, nloops: map[string]bool{}, warn: map[string]int{}}
	e.token0 = sym("epoch0", nil)
	return e
}

func (e *Engine) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := e.info[fn]; ok {
		return fi
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}, id: map[ssa.Instruction]string{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			fi.id[in] = strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	e.info[fn] = fi
	return fi
}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, modulePath+"/", "")
}

func (e *Engine) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function, bind []*Term, tag string) *Frame {
	p := fnName(fn) + tag
	d := 0
	if parent != nil {
		p = parent.path + ">" + parent.info.id[site] + tag + ":" + fn.Name()
		d = parent.depth + 1
	}
	key := p + "|" + fn.String() + argKey(bind)
	if fr, ok := e.frames[key]; ok {
		return fr
	}
	fr := &Frame{eng: e, fn: fn, parent: parent, site: site, path: p, depth: d, info: e.fnInfo(fn), bind: bind}
	e.frames[key] = fr
	return fr
}

func (e *Engine) instrPosn(in ssa.Instruction) token.Position {
	p := in.Pos()
	if !p.IsValid() {
		// nearest positioned instruction in the block
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
				if x == in {
					break
				}
			}
		}
	}
	return e.prog.Fset.Position(p)
}

func instrPos(e *Engine, in ssa.Instruction) string {
	p := e.instrPosn(in)
	f := strings.TrimPrefix(p.Filename, "/repo/")
	return f + ":" + strconv.Itoa(p.Line)
}

// newSym creates the symbol for a value born at an instruction.
func (fr *Frame) newSym(in ssa.Instruction, suffix string, typ types.Type) *Term {
	t := mk(OpSym, typ, fr.path+"#"+fr.info.id[in]+suffix)
	if t.Org == nil {
		t.Org = &Origin{fr, in.Block()}
	}
	return t
}

func (fr *Frame) newAlloc(in ssa.Instruction, suffix string, ptr types.Type) *Term {
	t := mk(OpAlloc, ptr, fr.path+"#"+fr.info.id[in]+suffix)
	if t.Org == nil {
		t.Org = &Origin{fr, in.Block()}
	}
	return t
}

func mkGlobal(g *ssa.Global) *Term {
	return in.get("global|"+g.String(), func() *Term { return &Term{Op: OpGlobal, Typ: g.Type(), Aux: g.String()} })
}

func mkFunc(f *ssa.Function) *Term {
	return in.get(fmt.Sprintf("func|%p", f), func() *Term { return &Term{Op: OpFunc, Typ: f.Signature, Aux: fnName(f), Fn: f} })
}

func mkClosure(f *ssa.Function, bind []*Term) *Term {
	t := mk(OpClosure, f.Signature, fmt.Sprintf("%s@%p", fnName(f), f), bind...)
	t.Fn = f
	return t
}

func mkIface(v *Term, typ types.Type) *Term {
	return mk(OpIface, typ, typeKey(typ), v)
}

func (fr *Frame) val(t *Thread, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		if isInt(v.Type()) {
			if i, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
				return mkInt(i)
			}
			return mk(OpSym, v.Type(), "const:"+v.Value.ExactString())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Builtin:
		return mk(OpSym, nil, "builtin:"+v.Name())
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == v {
				if i < len(fr.bind) {
					return fr.bind[i]
				}
				return sym(fr.path+"#free:"+v.Name(), v.Type())
			}
		}
	}
	if i, ok := fr.info.idx[v]; ok && t.env[i] != nil {
		return t.env[i]
	}
	return mk(OpSym, v.Type(), fr.path+"#undef:"+v.Name())
}

func (fr *Frame) set(t *Thread, v ssa.Value, x *Term) { t.env[fr.info.idx[v]] = x }

func (e *Engine) obl(st *State, fr *Frame, in ssa.Instruction, kind string, ok bool, detail func() string) {
	if e.quiet > 0 {
		return
	}
	key := fr.fn.String() + "|" + fr.info.id[in] + "|" + kind
	o := e.obls[key]
	if o == nil {
		o = &Oblig{Kind: kind, Fn: fnName(fr.fn), Pos: instrPos(e, in), Instr: in, fn: fr.fn}
		e.obls[key] = o
	}
	if ok {
		o.OK++
		return
	}
	o.Fail++
	if os.Getenv("TL_WHY") == kind {
		fmt.Println("WHY", detail(), "\n", st.facts.dump())
	}
	if len(o.Why) < 3 {
		o.Why = append(o.Why, detail()+" in context "+fr.path)
	}
}

type scope struct {
	fr     *Frame
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// execFunc analyses a call; it returns one outcome per path class.
func (e *Engine) execFunc(fr *Frame, args []*Term, st *State) []Outcome {
	fn := fr.fn
	e.nfns[fn] = true
	base := st.trace
	var pre *State
	if e.recFn[fn] && e.quiet == 0 {
		pre = st.clone()
	}
	t := &Thread{st: st, env: make([]*Term, fr.info.n), blk: fn.Blocks[0]}
	for i := range fn.Params {
		if i < len(args) {
			t.env[i] = args[i]
		}
	}
	_, _, outs := e.run(fr, []*Thread{t}, nil)
	if !e.noJoin {
		outs = dedupe(outs, base)
	}
	if pre != nil {
		e.funcRecs[fn] = append(e.funcRecs[fn], FuncRec{fr, args, pre, outs})
	}
	return outs
}

func sameRets(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameState(a, b *State) bool {
	if a.trace != b.trace || len(a.locks) != len(b.locks) || len(a.epoch) != len(b.epoch) || len(a.pub) != len(b.pub) {
		return false
	}
	for i := range a.locks {
		if a.locks[i].Addr != b.locks[i].Addr || a.locks[i].Write != b.locks[i].Write {
			return false
		}
	}
	for k, v := range a.epoch {
		if b.epoch[k] != v {
			return false
		}
	}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok {
			if w != v {
				return false
			}
		} else if v.Op != OpLoad || v.Args[0] != k {
			return false
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok && (w.Op != OpLoad || w.Args[0] != k) {
			return false
		}
	}
	return true
}

// dedupe joins outcomes that differ in their facts only.
func dedupe(outs []Outcome, base *TNode) []Outcome {
	var r []Outcome
next:
	for _, o := range outs {
		for i := range r {
			if r[i].kind == o.kind && sameRets(r[i].rets, o.rets) && sameState(r[i].st, o.st) {
				r[i].st.facts = joinFacts(r[i].st.facts, o.st.facts)
				continue next
			}
		}
		r = append(r, o)
	}
	return r
}

func joinFacts(a, b *Facts) *Facts {
	n := newFacts()
	for _, l := range a.ges {
		if b.hasGE(l.hkey()) || b.entails(l) {
			n.addGE(l)
		}
	}
	for _, l := range b.ges {
		if !n.hasGE(l.hkey()) && a.entails(l) {
			n.addGE(l)
		}
	}
	for _, l := range a.neqs {
		if b.entailsNeq(l) {
			n.pushNEQ(l)
		}
	}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; ok && w == v {
			n.bools[k] = v
		}
	}
	joinNils(n, a, b)
	for k, v := range a.attrs {
		if b.attrs[k] == v {
			n.attrs[k] = v
		}
	}
	return n
}

// joinNils keeps "this is nil, or that is" of two joined paths.
func joinNils(n, a, b *Facts) {
	only := func(x, y *Facts) (r []*Term) {
		for t, v := range x.bools {
			if v && t.Op == OpEq && len(t.Args) == 2 && (t.Args[0].isNil() || t.Args[1].isNil()) && !y.bools[t] {
				r = append(r, t)
			}
		}
		return
	}
	for _, p := range [][2]*Facts{{a, b}, {b, a}} {
		for t, v := range p[0].bools {
			if _, ok := n.bools[t]; ok || !v || t.Op != OpCall || t.Aux != "or" {
				continue
			}
			for _, x := range t.Args {
				if p[1].bools[x] {
					n.bools[t] = true
					break
				}
			}
		}
	}
	l, r := only(a, b), only(b, a)
	if len(l) == 0 || len(r) == 0 || len(l) > 3 || len(r) > 3 {
		return
	}
	for _, x := range l {
		for _, y := range r {
			if x.ID < y.ID {
				n.bools[mk(OpCall, boolTyp, "or", x, y)] = true
			} else {
				n.bools[mk(OpCall, boolTyp, "or", y, x)] = true
			}
		}
	}
}

// run executes threads until they leave the scope.
func (e *Engine) run(fr *Frame, work []*Thread, sc *scope) (back, exits []*Thread, outs []Outcome) {
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if e.over {
			return
		}
		succ, o := e.block(fr, t)
		outs = append(outs, o...)
		// transitions
		for i := len(succ) - 1; i >= 0; i-- {
			s := succ[i]
			pend := []*Thread{s}
			for len(pend) > 0 {
				x := pend[0]
				pend = pend[1:]
				switch {
				case sc != nil && x.blk == sc.header:
					back = append(back, x)
				case sc != nil && !sc.blocks[x.blk]:
					exits = append(exits, x)
				case fr.info.loops[x.blk] != nil:
					ex, lo := e.execLoop(fr, x, x.blk)
					outs = append(outs, lo...)
					pend = append(pend, ex...)
				default:
					e.enterBlock(fr, x)
					work = append(work, x)
				}
			}
		}
	}
	return
}

// enterBlock evaluates the phis of the block a thread enters.
func (e *Engine) enterBlock(fr *Frame, t *Thread) {
	vals := phiVals(fr, t)
	i := 0
	for _, in := range t.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.set(t, p, vals[i])
		i++
	}
	t.idx = i
}

func phiVals(fr *Frame, t *Thread) []*Term {
	var vals []*Term
	pi := -1
	for i, p := range t.blk.Preds {
		if p == t.prev {
			pi = i
			break
		}
	}
	for _, in := range t.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			vals = append(vals, sym(fr.path+"#badphi", p.Type()))
			continue
		}
		vals = append(vals, fr.val(t, p.Edges[pi]))
	}
	return vals
}

// block executes instructions until the end of the block.
func (e *Engine) block(fr *Frame, t *Thread) (succ []*Thread, outs []Outcome) {
	work := []*Thread{t}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
	instrs:
		for t.idx < len(t.blk.Instrs) {
			in := t.blk.Instrs[t.idx]
			t.idx++
			e.steps++
			if e.steps > e.maxStep {
				e.over = true
				e.overWhy = "step budget exhausted in " + fr.path
				return
			}
			switch in := in.(type) {
			case *ssa.Jump:
				t.prev, t.blk, t.idx = t.blk, t.blk.Succs[0], 0
				succ = append(succ, t)
				break instrs
			case *ssa.If:
				c := fr.val(t, in.Cond)
				b := t.blk
				switch t.st.facts.eval(c) {
				case True:
					t.prev, t.blk, t.idx = b, b.Succs[0], 0
					succ = append(succ, t)
				case False:
					t.prev, t.blk, t.idx = b, b.Succs[1], 0
					succ = append(succ, t)
				default:
					u := t.fork()
					if t.st.assume(c, true) {
						t.prev, t.blk, t.idx = b, b.Succs[0], 0
						succ = append(succ, t)
					}
					if u.st.assume(c, false) {
						u.prev, u.blk, u.idx = b, b.Succs[1], 0
						succ = append(succ, u)
					}
				}
				break instrs
			case *ssa.Return:
				var rets []*Term
				for _, r := range in.Results {
					rets = append(rets, fr.val(t, r))
				}
				outs = append(outs, Outcome{st: t.st, rets: rets, kind: "return"})
				break instrs
			case *ssa.Panic:
				e.obl(t.st, fr, in, "panic", false, func() string { return "explicit panic reachable" })
				t.st.event(&Event{Kind: "panic", Instr: in, Fr: fr})
				if fr.depth == 0 {
					outs = append(outs, Outcome{st: t.st, kind: "panic"})
				} else {
					outs = append(outs, Outcome{st: t.st, kind: "panic"})
				}
				break instrs
			default:
				ts := e.instr(fr, t, in)
				if len(ts) == 0 {
					break instrs
				}
				// panicking outcomes of inlined calls
				for i := len(ts) - 1; i >= 1; i-- {
					work = append(work, ts[i])
				}
				t = ts[0]
			}
		}
	}
	return
}

func one(t *Thread) []*Thread { return []*Thread{t} }

// instr executes a non-control instruction; it returns the continuing threads.
func (e *Engine) instr(fr *Frame, t *Thread, in ssa.Instruction) []*Thread {
	st := t.st
	e.curIn, e.curFr = in, fr
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(t)
	case *ssa.Alloc:
		a := fr.newAlloc(in, "", in.Type())
		st.freshObj(a)
		st.zeroAt(a, deref(in.Type()))
		fr.set(t, in, a)
		return one(t)
	case *ssa.UnOp:
		return e.unop(fr, t, in)
	case *ssa.BinOp:
		fr.set(t, in, e.binop(fr, t, in))
		return one(t)
	case *ssa.Store:
		a := fr.val(t, in.Addr)
		v := fr.val(t, in.Val)
		if !e.nilCheck(fr, t, in, a) {
			return nil
		}
		e.access(fr, st, in, a, true, v)
		st.store(a, v, in.Val.Type(), fr.newSym(in, "!", nil))
		return one(t)
	case *ssa.FieldAddr:
		b := fr.val(t, in.X)
		if !e.nilCheck(fr, t, in, b) {
			return nil
		}
		if b.Op == OpSym || b.Op == OpLoad || b.Op == OpCall {
			// typed view of an opaque pointer
		}
		fr.set(t, in, fieldAddr(b, in.Field, in.Type()))
		return one(t)
	case *ssa.Field:
		sx, _ := in.X.Type().Underlying().(*types.Struct)
		fr.set(t, in, fieldOf(fr.val(t, in.X), in.Field, sx))
		return one(t)
	case *ssa.IndexAddr:
		x := fr.val(t, in.X)
		i := fr.val(t, in.Index)
		var arr *Term
		var off, n Lin
		if at, ok := deref(in.X.Type()).(interface{ Underlying() types.Type }); ok && in.X.Type().Underlying() != nil && isArrayPtr(in.X.Type()) {
			_ = at
			if !e.nilCheck(fr, t, in, x) {
				return nil
			}
			arr, off, n = x, Lin{}, linC(arrayLen(deref(in.X.Type())))
		} else {
			arr, off, n, _ = sliceParts(x)
		}
		if !e.bounds(fr, t, in, lin(i), n) {
			return nil
		}
		fr.set(t, in, mk(OpElem, in.Type(), "", arr, mkLin(off.add(lin(i)))))
		return one(t)
	case *ssa.Index:
		x := fr.val(t, in.X)
		i := fr.val(t, in.Index)
		var n Lin
		var elem types.Type
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			n, elem = linC(u.Len()), u.Elem()
		default:
			n, elem = lin(lenT(x)), byteTyp
		}
		if !e.bounds(fr, t, in, lin(i), n) {
			return nil
		}
		fr.set(t, in, mkSel(st.facts, x, lin(i), elem))
		return one(t)
	case *ssa.Slice:
		return e.slice(fr, t, in)
	case *ssa.Lookup:
		return e.lookup(fr, t, in)
	case *ssa.MapUpdate:
		m, k, v := fr.val(t, in.Map), fr.val(t, in.Key), fr.val(t, in.Value)
		if m.isNil() {
			e.obl(st, fr, in, "nilmap", false, func() string { return "write to a nil map" })
			return nil
		}
		e.obl(st, fr, in, "nilmap", true, nil)
		has := st.mapHas(m, k)
		var old *Term
		if st.facts.eval(has) == True {
			old = st.mapVal(m, k, in.Map.Type())
		}
		st.event(&Event{Kind: "mapset", Instr: in, Fr: fr, Args: []*Term{m, k, v, has, old}})
		st.mapSet(fr, in, m, k, v)
		return one(t)
	case *ssa.MakeMap:
		a := fr.newAlloc(in, "", types.NewPointer(in.Type()))
		m := a
		m.Typ = in.Type()
		st.freshObj(m)
		st.heap[mk(OpMapLen, intTyp, "", m)] = mkInt(0)
		st.heap[mk(OpPseudo, intTyp, "mapempty", m)] = mkInt(0)
		fr.set(t, in, m)
		if in.Reserve != nil {
			st.event(&Event{Kind: "makemap", Instr: in, Fr: fr, Args: []*Term{m, fr.val(t, in.Reserve)}})
		}
		return one(t)
	case *ssa.MakeSlice:
		n, c := lin(fr.val(t, in.Len)), lin(fr.val(t, in.Cap))
		e.obl(st, fr, in, "makeslice", st.facts.entails(n) && st.facts.entails(c.sub(n)), func() string { return "make([]T, " + n.String() + ", " + c.String() + ") may have a negative length" })
		st.assume(mkGE(n), true)
		st.assume(mkGE(c.sub(n)), true)
		elem := in.Type().Underlying().(*types.Slice).Elem()
		a := fr.newAlloc(in, "@", types.NewPointer(in.Type()))
		st.freshObj(a)
		st.heap[a] = mk(OpZeros, types.NewSlice(elem), "", mkLin(c))
		st.event(&Event{Kind: "make", Instr: in, Fr: fr, Args: []*Term{mkLin(n), mkLin(c), a}})
		fr.set(t, in, mkSlice(in.Type(), a, Lin{}, n, c))
		return one(t)
	case *ssa.MakeChan:
		a := fr.newSym(in, "", in.Type())
		a.NN = true
		fr.set(t, in, a)
		st.event(&Event{Kind: "makechan", Instr: in, Fr: fr, Args: []*Term{a, fr.val(t, in.Size)}})
		return one(t)
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, fr.val(t, x))
		}
		fr.set(t, in, mkClosure(in.Fn.(*ssa.Function), b))
		return one(t)
	case *ssa.MakeInterface:
		fr.set(t, in, mkIface(fr.val(t, in.X), in.X.Type()))
		return one(t)
	case *ssa.ChangeInterface:
		fr.set(t, in, fr.val(t, in.X))
		return one(t)
	case *ssa.ChangeType:
		fr.set(t, in, fr.val(t, in.X))
		return one(t)
	case *ssa.SliceToArrayPointer:
		fr.set(t, in, fr.newSym(in, "", in.Type()))
		return one(t)
	case *ssa.Convert:
		fr.set(t, in, e.convert(fr, t, in))
		return one(t)
	case *ssa.MultiConvert:
		fr.set(t, in, fr.newSym(in, "", in.Type()))
		return one(t)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, t, in)
	case *ssa.Extract:
		tu := fr.val(t, in.Tuple)
		if tu.Op == OpTuple {
			fr.set(t, in, tu.Args[in.Index])
		} else {
			fr.set(t, in, mkIdx(OpFieldVal, in.Type(), in.Index, tu))
		}
		return one(t)
	case *ssa.Range:
		x := fr.val(t, in.X)
		fr.set(t, in, mk(OpCall, in.Type(), "iter", x))
		return one(t)
	case *ssa.Next:
		return e.next(fr, t, in)
	case *ssa.Call:
		return e.call(fr, t, in, &in.Call, in)
	case *ssa.Go:
		fv, args := e.evalCall(fr, t, &in.Call)
		e.deadUse(fr, st, in, "go", append(args[:len(args):len(args)], fv)...)
		for _, a := range args {
			st.publish(a)
			st.hold(a, "used by another goroutine")
		}
		st.publish(fv)
		st.hold(fv, "used by another goroutine")
		gev := st.event(&Event{Kind: "go", Name: calleeName(fv, &in.Call), Instr: in, Fr: fr, Args: append([]*Term{fv}, args...)})
		if e.quiet == 0 {
			gev.St = st.clone()
			e.gos = append(e.gos, goRec{gev, gev.St})
		}
		return one(t)
	case *ssa.Defer:
		fv, args := e.evalCall(fr, t, &in.Call)
		t.defers = append(t.defers, deferred{&in.Call, in, fv, args})
		return one(t)
	case *ssa.RunDefers:
		ts := one(t)
		for n := len(t.defers); n > 0; n-- {
			var next []*Thread
			for _, x := range ts {
				d := x.defers[len(x.defers)-1]
				x.defers = x.defers[:len(x.defers)-1]
				next = append(next, e.doCall(fr, x, d.in, d.call, d.fn, d.args, nil)...)
			}
			ts = next
		}
		return ts
	case *ssa.Send:
		ch, v := fr.val(t, in.Chan), fr.val(t, in.X)
		st.publish(v)
		e.deadUse(fr, st, in, "send", v)
		st.hold(v, "sent to another goroutine")
		st.event(&Event{Kind: "send", Instr: in, Fr: fr, Args: []*Term{ch, v}})
		return one(t)
	case *ssa.Select:
		return e.selectI(fr, t, in)
	}
	e.warn["unsupported instruction "+fmt.Sprintf("%T", in)]++
	if v, ok := in.(ssa.Value); ok {
		fr.set(t, v, fr.newSym(in, "", v.Type()))
	}
	return one(t)
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}
func arrayLen(t types.Type) int64 {
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return 0
}

func (e *Engine) selectI(fr *Frame, t *Thread, in *ssa.Select) []*Thread {
	var out []*Thread
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	if in.Blocking && n == 0 {
		t.st.event(&Event{Kind: "block", Instr: in, Fr: fr})
		if e.quiet == 0 {
			e.blocked = append(e.blocked, t.st)
		}
		return nil
	}
	for i := lo; i < n; i++ {
		u := t.fork()
		res := []*Term{mkInt(int64(i)), fr.newSym(in, "ok"+strconv.Itoa(i), boolTyp)}
		var got []*Term
		for j, s := range in.States {
			if s.Dir == types.RecvOnly {
				ct := s.Chan.Type().Underlying().(*types.Chan)
				res = append(res, fr.newSym(in, "r"+strconv.Itoa(j), ct.Elem()))
				if j == i {
					got = []*Term{res[len(res)-1], res[1]}
				}
			}
			if j == i {
				k := "recv"
				args := []*Term{fr.val(u, s.Chan)}
				if s.Dir == types.SendOnly {
					k = "send"
					args = append(args, fr.val(u, s.Send))
				}
				u.st.event(&Event{Kind: k, Instr: in, Fr: fr, Args: args, Res: got})
			}
		}
		fr.set(u, in, mk(OpTuple, nil, "", res...))
		out = append(out, u)
	}
	return out
}

// nilCheck checks a dereferenced pointer; false = the path panics.
func (e *Engine) nilCheck(fr *Frame, t *Thread, in ssa.Instruction, p *Term) bool {
	e.useCfg(fr, t, in, p)
	if p.isNil() {
		e.obl(t.st, fr, in, "nil", false, func() string { return "nil pointer dereference" })
		return false
	}
	if p.Pair != nil && !p.NN {
		if t.st.facts.eval(mkEq(p, mkNil(nil))) == False {
			return true
		}
		ok := t.st.facts.eval(mkEq(p.Pair, mkNil(nil))) == True
		e.obl(t.st, fr, in, "nil", ok, func() string { return "result used although its error " + p.Pair.String() + " is not known to be nil" })
		return true
	}
	switch p.Op {
	case OpSym, OpLoad, OpSel:
		if t.st.facts.eval(mkEq(p, mkNil(nil))) == True {
			e.obl(t.st, fr, in, "nil", false, func() string { return "nil pointer dereference" })
			return false
		}
	}
	e.obl(t.st, fr, in, "nil", true, nil)
	return true
}

func (e *Engine) bounds(fr *Frame, t *Thread, in ssa.Instruction, i, n Lin) bool {
	st := t.st
	lo, hi := st.facts.entails(i), st.facts.entails(n.sub(i).addC(-1))
	e.obl(st, fr, in, "index", lo && hi, func() string { return "index " + i.String() + " not provably within length " + n.String() })
	if !lo && !st.assume(mkGE(i), true) {
		return false
	}
	if !hi && !st.assume(mkGE(n.sub(i).addC(-1)), true) {
		return false
	}
	return true
}

func (e *Engine) slice(fr *Frame, t *Thread, in *ssa.Slice) []*Thread {
	st := t.st
	x := fr.val(t, in.X)
	var arr *Term
	var off, n, c Lin
	isStr := false
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		if !e.nilCheck(fr, t, in, x) {
			return nil
		}
		l := u.Elem().Underlying().(*types.Array).Len()
		arr, off, n, c = x, Lin{}, linC(l), linC(l)
	case *types.Basic:
		isStr = true
		n = lin(lenT(x))
		c = n
	default:
		arr, off, n, c = sliceParts(x)
	}
	lo, hi, max := Lin{}, n, c
	if in.Low != nil {
		lo = lin(fr.val(t, in.Low))
	}
	if in.High != nil {
		hi = lin(fr.val(t, in.High))
	}
	if in.Max != nil {
		max = lin(fr.val(t, in.Max))
	}
	ok := st.facts.entails(lo) && st.facts.entails(hi.sub(lo)) && st.facts.entails(max.sub(hi)) && st.facts.entails(c.sub(max))
	e.obl(st, fr, in, "slice", ok, func() string {
		return fmt.Sprintf("slice bounds [%s:%s] not provably within capacity %s", lo, hi, c)
	})
	if !ok {
		for _, l := range []Lin{lo, hi.sub(lo), max.sub(hi), c.sub(max)} {
			if !st.assume(mkGE(l), true) {
				return nil
			}
		}
	}
	if in.High != nil {
		st.event(&Event{Kind: "slice", Instr: in, Fr: fr, Args: []*Term{x, mkLin(lo), mkLin(hi), mkBool(st.facts.entails(n.sub(hi)))}})
	}
	if isStr {
		fr.set(t, in, mkSub(st.facts, x, lo, hi.sub(lo)))
		return one(t)
	}
	if x.isNil() {
		fr.set(t, in, x)
		return one(t)
	}
	fr.set(t, in, mkSlice(in.Type(), arr, off.add(lo), hi.sub(lo), max.sub(lo)))
	return one(t)
}

func (s *State) mapHas(m, k *Term) *Term {
	if m.isNil() {
		return mkBool(false)
	}
	a := mk(OpMapHas, boolTyp, "", m, k)
	if v, ok := s.heap[a]; ok {
		return v
	}
	if e, ok := s.heap[mk(OpPseudo, intTyp, "mapempty", m)]; ok && e.Op == OpConst {
		all := true
		for x := range s.heap {
			if x.Op == OpMapHas && x.Args[0] == m && x != a && !s.distinct(x.Args[1], k) {
				all = false
				break
			}
		}
		if all {
			return mkBool(false)
		}
	}
	return s.raw(a, boolTyp)
}

func (s *State) mapVal(m, k *Term, mt types.Type) *Term {
	vt := mt.Underlying().(*types.Map).Elem()
	a := mk(OpMapVal, types.NewPointer(vt), "", m, k)
	if v, ok := s.heap[a]; ok {
		return v
	}
	v := s.unknown(a, vt)
	s.heap[a] = v
	return v
}

func (s *State) mapLen(m *Term) *Term {
	if m.isNil() {
		return mkInt(0)
	}
	a := mk(OpMapLen, intTyp, "", m)
	if v, ok := s.heap[a]; ok {
		return v
	}
	v := mk(OpCall, intTyp, "nonneg", mk(OpLoad, intTyp, "", a, s.token(a)))
	s.heap[a] = v
	return v
}

func (s *State) mapSet(fr *Frame, in ssa.Instruction, m, k, v *Term) {
	if mt, ok := m.Typ.Underlying().(*types.Map); ok && m.Typ != nil {
		if _, ok := mt.Elem().Underlying().(*types.Pointer); ok {
			nn := nonNilTerm(v) || s.facts.eval(mkEq(v, mkNil(nil))) == False
			s.eng.obl(s, fr, in, "mapnn", nn || v.Op == OpSym || v.Op == OpLoad, func() string { return "nil stored in a map of pointers: " + v.String() })
		}
	}
	has := s.mapHas(m, k)
	ln := s.mapLen(m)
	tok := fr.newSym(in, "!", nil)
	var nl *Term
	switch s.facts.eval(has) {
	case True:
		nl = ln
	case False:
		nl = mkLin(lin(ln).addC(1))
	default:
		nl = fr.newSym(in, "!len", intTyp)
		s.assume(mkGE(lin(nl).sub(lin(ln))), true)
		s.assume(mkGE(lin(ln).addC(1).sub(lin(nl))), true)
	}
	ha, va, la := mk(OpMapHas, boolTyp, "", m, k), mk(OpMapVal, nil, "", m, k), mk(OpMapLen, intTyp, "", m)
	s.kill(ha, tok)
	s.kill(va, tok)
	s.kill(la, tok)
	// how many keys were set since the map was made: all of them are among the known cells (a loop that sets any makes this unknown)
	me := mk(OpPseudo, intTyp, "mapempty", m)
	if e, ok := s.heap[me]; ok {
		s.heap[me] = mkLin(lin(e).addC(1))
	}
	s.heap[ha] = mkBool(true)
	s.heap[va] = v
	s.heap[la] = nl
	s.assume(mkGE(lin(nl).addC(-1)), true)
	if !s.private(m) {
		s.publish(v)
		s.hold(v, "stored in a table")
	}
}

func (s *State) mapDel(fr *Frame, in ssa.Instruction, m, k *Term) {
	has := s.mapHas(m, k)
	ln := s.mapLen(m)
	tok := fr.newSym(in, "!", nil)
	var nl *Term
	switch s.facts.eval(has) {
	case True:
		nl = mkLin(lin(ln).addC(-1))
		s.assume(mkGE(lin(ln).addC(-1)), true)
	case False:
		return
	default:
		nl = fr.newSym(in, "!len", intTyp)
		s.assume(mkGE(lin(nl)), true)
		s.assume(mkGE(lin(ln).sub(lin(nl))), true)
		s.assume(mkGE(lin(nl).addC(1).sub(lin(ln))), true)
	}
	if v := s.heap[mk(OpMapVal, nil, "", m, k)]; v != nil {
		if vm := memOf(v); vm != nil && s.facts.eval(has) == True {
			delete(s.held, vm)
		}
	}
	ha, va, la := mk(OpMapHas, boolTyp, "", m, k), mk(OpMapVal, nil, "", m, k), mk(OpMapLen, intTyp, "", m)
	s.kill(ha, tok)
	s.kill(va, tok)
	s.kill(la, tok)
	s.heap[ha] = mkBool(false)
	delete(s.heap, va)
	s.heap[la] = nl
}

// elemNonNil: maps to pointers hold no nil (checked at every store).
func (s *State) elemNonNil(v *Term, t types.Type) {
	if _, ok := t.Underlying().(*types.Pointer); ok && !nonNilTerm(v) {
		s.assume(mkEq(v, mkNil(nil)), false)
	}
}

func (e *Engine) lookup(fr *Frame, t *Thread, in *ssa.Lookup) []*Thread {
	x, k := fr.val(t, in.X), fr.val(t, in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok { // string index
		if !e.bounds(fr, t, in, lin(k), lin(lenT(x))) {
			return nil
		}
		fr.set(t, in, mkSel(t.st.facts, x, lin(k), byteTyp))
		return one(t)
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	has := t.st.mapHas(x, k)
	t.st.event(&Event{Kind: "mapget", Instr: in, Fr: fr, Args: []*Term{x, k, has}})
	var out []*Thread
	fin := func(u *Thread, ok bool) {
		v := zeroTerm(vt)
		if ok {
			v = u.st.mapVal(x, k, in.X.Type())
			u.st.elemNonNil(v, vt)
		}
		if in.CommaOk {
			fr.set(u, in, mk(OpTuple, nil, "", v, mkBool(ok)))
		} else {
			fr.set(u, in, v)
		}
		out = append(out, u)
	}
	switch t.st.facts.eval(has) {
	case True:
		fin(t, true)
	case False:
		fin(t, false)
	default:
		u := t.fork()
		if t.st.assume(has, true) {
			t.st.heap[mk(OpMapHas, boolTyp, "", x, k)] = mkBool(true)
			fin(t, true)
		}
		if u.st.assume(has, false) {
			u.st.heap[mk(OpMapHas, boolTyp, "", x, k)] = mkBool(false)
			fin(u, false)
		}
	}
	return out
}

func (e *Engine) next(fr *Frame, t *Thread, in *ssa.Next) []*Thread {
	it := fr.val(t, in.Iter)
	var x *Term
	if it.Op == OpCall && it.Aux == "iter" {
		x = it.Args[0]
	} else {
		x = it
	}
	if in.IsString {
		fr.set(t, in, mk(OpTuple, nil, "", fr.newSym(in, "ok", boolTyp), fr.newSym(in, "k", intTyp), fr.newSym(in, "v", types.Typ[types.Int32])))
		return one(t)
	}
	mt := in.Iter.(*ssa.Range).X.Type()
	m := mt.Underlying().(*types.Map)
	var out []*Thread
	u := t.fork()
	// an element
	ln := t.st.mapLen(x)
	if !x.isNil() && t.st.assume(mkGE(lin(ln).addC(-1)), true) {
		k := fr.newSym(in, "k", m.Key())
		t.st.heap[mk(OpMapHas, boolTyp, "", x, k)] = mkBool(true)
		delete(t.st.heap, mk(OpMapVal, nil, "", x, k))
		v := fr.newSym(in, "v", m.Elem())
		t.st.heap[mk(OpMapVal, nil, "", x, k)] = v
		t.st.elemNonNil(v, m.Elem())
		if pm := memOf(v); pm != nil {
			t.st.revive(pm)
		}
		t.st.event(&Event{Kind: "range", Instr: in, Fr: fr, Args: []*Term{x, k, v}})
		fr.set(t, in, mk(OpTuple, nil, "", mkBool(true), k, v))
		out = append(out, t)
	}
	u.st.event(&Event{Kind: "rangedone", Instr: in, Fr: fr, Args: []*Term{x}})
	fr.set(u, in, mk(OpTuple, nil, "", mkBool(false), zeroTerm(m.Key()), zeroTerm(m.Elem())))
	out = append(out, u)
	return out
}

func (e *Engine) typeAssert(fr *Frame, t *Thread, in *ssa.TypeAssert) []*Thread {
	x := fr.val(t, in.X)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	dec := Unknown
	var v *Term
	switch {
	case x.isNil():
		dec = False
	case x.Op == OpIface:
		if toIface {
			dec = tri(types.Implements(x.Typ, in.AssertedType.Underlying().(*types.Interface)))
			v = x
		} else {
			dec = tri(types.Identical(x.Typ, in.AssertedType))
			v = x.Args[0]
		}
	}
	if v == nil {
		if toIface {
			v = x
		} else {
			v = mk(OpCall, in.AssertedType, "assert", x)
		}
	}
	if !in.CommaOk {
		ok := dec == True
		if dec == Unknown && x.Op == OpCall && x.Aux == "poolget" {
			ok = true
		}
		e.obl(t.st, fr, in, "assert", ok, func() string { return "type assertion to " + shortType(in.AssertedType) + " may fail" })
		if dec == False {
			return nil
		}
		fr.set(t, in, v)
		return one(t)
	}
	zero := zeroTerm(in.AssertedType)
	switch dec {
	case True:
		fr.set(t, in, mk(OpTuple, nil, "", v, mkBool(true)))
		return one(t)
	case False:
		fr.set(t, in, mk(OpTuple, nil, "", zero, mkBool(false)))
		return one(t)
	}
	c := mk(OpCall, boolTyp, "istype:"+typeKey(in.AssertedType), x)
	u := t.fork()
	var out []*Thread
	if t.st.assume(c, true) {
		fr.set(t, in, mk(OpTuple, nil, "", v, mkBool(true)))
		out = append(out, t)
	}
	if u.st.assume(c, false) {
		fr.set(u, in, mk(OpTuple, nil, "", zero, mkBool(false)))
		out = append(out, u)
	}
	return out
}

func (e *Engine) unop(fr *Frame, t *Thread, in *ssa.UnOp) []*Thread {
	st := t.st
	x := fr.val(t, in.X)
	switch in.Op {
	case token.MUL:
		if !e.nilCheck(fr, t, in, x) {
			return nil
		}
		e.access(fr, st, in, x, false, nil)
		fr.set(t, in, st.load(x, in.Type()))
	case token.NOT:
		fr.set(t, in, mkNot(x))
	case token.SUB:
		if isInt(in.Type()) {
			fr.set(t, in, e.inRange(st, lin(x).neg(), in.Type()))
		} else {
			fr.set(t, in, mk(OpUn, in.Type(), "-", x))
		}
	case token.ARROW:
		ct := in.X.Type().Underlying().(*types.Chan)
		v := fr.newSym(in, "", ct.Elem())
		rs := []*Term{v}
		if in.CommaOk {
			rs = append(rs, fr.newSym(in, "ok", boolTyp))
			v = mk(OpTuple, nil, "", rs...)
		}
		st.event(&Event{Kind: "recv", Instr: in, Fr: fr, Args: []*Term{x}, Res: rs})
		fr.set(t, in, v)
	default:
		fr.set(t, in, mk(OpUn, in.Type(), in.Op.String(), x))
	}
	return one(t)
}

// inRange wraps an arithmetic result that is not provably representable.
func (e *Engine) inRange(st *State, l Lin, typ types.Type) *Term {
	lo, hi, hl, hh, ok := intRange(typ)
	if !ok {
		return mkLin(l)
	}
	good := true
	if hl && !st.facts.entails(l.addC(-lo)) {
		good = false
	}
	if good && hh && !st.facts.entails(linC(hi).sub(l)) {
		good = false
	}
	if !good && hl && !hh {
		// 64-bit unsigned: only underflow is possible
	}
	if good {
		return mkLin(l)
	}
	// wrap(wrap(x)+c) = wrap(x+c)
	r := Lin{C: l.C}
	for _, a := range l.T {
		if a.A.Op == OpWrap && types.Identical(a.A.Typ.Underlying(), typ.Underlying()) {
			r = r.addK(lin(a.A.Args[0]), a.K)
		} else {
			r = r.add(Lin{T: []LT{a}})
		}
	}
	if r.isConst() {
		if rr, ok := wrapConst(r.C, typ); ok {
			return mkInt(rr)
		}
	}
	if len(r.T) == 1 && r.C == 0 && r.T[0].K == 1 && r.T[0].A.Typ != nil && types.Identical(r.T[0].A.Typ.Underlying(), typ.Underlying()) {
		return r.T[0].A
	}
	return mk(OpWrap, typ, "", mkLin(r))
}

func wrapConst(c int64, typ types.Type) (int64, bool) {
	switch b := typ.Underlying().(*types.Basic); b.Kind() {
	case types.Uint8:
		return int64(uint8(c)), true
	case types.Uint16:
		return int64(uint16(c)), true
	case types.Uint32:
		return int64(uint32(c)), true
	case types.Int8:
		return int64(int8(c)), true
	case types.Int16:
		return int64(int16(c)), true
	case types.Int32:
		return int64(int32(c)), true
	case types.Int, types.Int64:
		return c, true
	}
	return 0, false
}

func (e *Engine) binop(fr *Frame, t *Thread, in *ssa.BinOp) *Term {
	st := t.st
	x, y := fr.val(t, in.X), fr.val(t, in.Y)
	typ := in.X.Type()
	ints := isInt(typ)
	switch in.Op {
	case token.EQL:
		return st.eqTerm(x, y, typ)
	case token.NEQ:
		return mkNot(st.eqTerm(x, y, typ))
	}
	if ints {
		lx, ly := lin(x), lin(y)
		switch in.Op {
		case token.LSS:
			return mkGE(ly.sub(lx).addC(-1))
		case token.LEQ:
			return mkGE(ly.sub(lx))
		case token.GTR:
			return mkGE(lx.sub(ly).addC(-1))
		case token.GEQ:
			return mkGE(lx.sub(ly))
		case token.ADD:
			return e.inRange(st, lx.add(ly), typ)
		case token.SUB:
			return e.inRange(st, lx.sub(ly), typ)
		case token.MUL:
			if ly.isConst() {
				return e.inRange(st, lx.scale(ly.C), typ)
			}
			if lx.isConst() {
				return e.inRange(st, ly.scale(lx.C), typ)
			}
		case token.SHL:
			if ly.isConst() && ly.C >= 0 && ly.C < 31 {
				if lx.isConst() {
					return e.inRange(st, linC(lx.C<<uint(ly.C)), typ)
				}
				return e.inRange(st, lx.scale(1<<uint(ly.C)), typ)
			}
		case token.QUO, token.REM:
			ok := st.facts.entailsNeq(ly)
			e.obl(st, fr, in, "div", ok, func() string { return "division by " + ly.String() + " which may be zero" })
			if lx.isConst() && ly.isConst() && ly.C != 0 {
				if in.Op == token.QUO {
					return mkInt(lx.C / ly.C)
				}
				return mkInt(lx.C % ly.C)
			}
			if ly.isConst() && ly.C > 0 {
				q := mk(OpBin, typ, "/", x, y)
				lq := lin(q)
				if st.facts.entails(lx) {
					st.assume(mkGE(lq), true)
					st.assume(mkGE(lx.addK(lq, -ly.C)), true)
					st.assume(mkGE(lq.scale(ly.C).sub(lx).addC(ly.C-1)), true)
				} else {
					// truncation towards zero
					st.assume(mkGE(lx.addK(lq, -ly.C).addC(ly.C-1)), true)
					st.assume(mkGE(lq.scale(ly.C).sub(lx).addC(ly.C-1)), true)
				}
				if in.Op == token.QUO {
					return q
				}
				return mkLin(lx.addK(lq, -ly.C))
			}
		case token.AND:
			if lx.isConst() && ly.isConst() {
				return mkInt(lx.C & ly.C)
			}
		}
		a, b := x, y
		switch in.Op {
		case token.MUL, token.AND, token.OR, token.XOR:
			if a.ID > b.ID {
				a, b = b, a
			}
		}
		return mk(OpBin, typ, in.Op.String(), a, b)
	}
	if isString(typ) && in.Op == token.ADD {
		return mkConcat(x, y)
	}
	return mk(OpBin, in.Type(), in.Op.String(), x, y)
}

func (s *State) eqTerm(x, y *Term, typ types.Type) *Term {
	if x.Op == OpIface && y.Op == OpIface {
		if !types.Identical(x.Typ, y.Typ) {
			return mkBool(false)
		}
		return s.eqTerm(x.Args[0], y.Args[0], x.Typ)
	}
	if isString(typ) {
		// equality of constant pieces
		if a, ok := x.strConst(); ok {
			if b, ok := y.strConst(); ok {
				return mkBool(a == b)
			}
		}
	}
	return mkEq(x, y)
}

func (e *Engine) convert(fr *Frame, t *Thread, in *ssa.Convert) *Term {
	st := t.st
	x := fr.val(t, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	switch {
	case isInt(from) && isInt(to):
		if _, ok := from.(*types.Basic); ok {
			return e.convInt(st, x, in.X.Type(), in.Type())
		}
	case isFloat(from) && isInt(to):
		return mk(OpCall, intTyp, "ftoi", x)
	case isInt(from) && isFloat(to):
		return mk(OpCall, in.Type(), "itof", x)
	case isString(to) && isSliceT(from):
		if isByteElem(from.(*types.Slice).Elem()) {
			e.deadUse(fr, st, in, "conversion to string", x)
			return st.bytesOf(x)
		}
	case isSliceT(to) && isString(from):
		if isByteElem(to.(*types.Slice).Elem()) {
			a := fr.newAlloc(in, "@", types.NewPointer(in.Type()))
			st.freshObj(a)
			st.heap[a] = x
			n := lin(lenT(x))
			c := lin(fr.newSym(in, "cap", intTyp))
			if n.isConst() {
				c = linC(sizeClass(n.C))
				st.heap[a] = mkConcat(x, mk(OpZeros, in.Type(), "", mkLin(c.sub(n))))
			} else {
				st.assume(mkGE(c.sub(n)), true)
			}
			return mk(OpSlice, in.Type(), "", a, mkInt(0), mkLin(n), mkLin(c))
		}
	}
	if _, ok := to.(*types.Pointer); ok {
		return x
	}
	if b, ok := to.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	return mk(OpConv, in.Type(), "", x)
}

// sizeClass rounds like the runtime's small allocation classes.
func sizeClass(n int64) int64 {
	if n == 0 {
		return 0
	}
	if n <= 32 {
		// []byte(string) of at most 32 bytes that escapes is rounded up to a class
	}
	for _, c := range []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024} {
		if n <= c {
			return c
		}
	}
	return n
}

func (e *Engine) convInt(st *State, x *Term, from, to types.Type) *Term {
	if c, ok := x.intConst(); ok {
		if r, ok := wrapConst(c, to); ok {
			return mkInt(r)
		}
		if c >= 0 {
			return x
		}
	}
	lo, hi, hl, hh, _ := intRange(to)
	_, _, fl, _, _ := intRange(from)
	l := lin(x)
	good := true
	if hl && !st.facts.entails(l.addC(-lo)) {
		good = false
	}
	if good && hh && !st.facts.entails(linC(hi).sub(l)) {
		good = false
	}
	if good && !hl && !hh && fl && intSize(from) == 8 {
		// uint64 -> int64: identity only for values known to be small
		if x.Op == OpDec || x.Op == OpConv || (x.Op == OpSym && intSize(x.Typ) == 8) || x.Op == OpLoad {
			good = intSize(x.Typ) < 8
			if x.Op == OpLoad || x.Op == OpSym {
				good = good || types.Identical(from.Underlying(), types.Typ[types.Uint])
			}
		}
	}
	if good {
		return x
	}
	// same-size reinterpretation of decoded bytes
	if x.Op == OpDec && len(x.Args) == 2 && intSize(x.Typ) == intSize(to) {
		return mk(OpDec, canonInt(to), x.Aux, x.Args...)
	}
	if x.Op == OpConv && intSize(x.Args[0].Typ) >= intSize(to) && intSize(x.Typ) >= intSize(to) {
		return e.convInt(st, x.Args[0], x.Args[0].Typ, to)
	}
	return mk(OpConv, canonInt(to), "", x)
}

// canonInt strips names so that conversions to named integer types agree.
func canonInt(t types.Type) types.Type { return t.Underlying() }

var _ = sort.Strings
