package main

// Abstract machine state: memory, facts, locks, trace.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/crimist/trakx"

func inModule(path string) bool {
	return path == modulePath || strings.HasPrefix(path, modulePath+"/")
}

type LockHeld struct {
	Addr  *Term
	Write bool
	Ev    *Event
}

type Event struct {
	Kind   string // call, load, store, lock, unlock, mapget, mapset, mapdel, range, rangedone, append, go, send, recv, loop, panic, defer, enter, leave
	Name   string
	Instr  ssa.Instruction
	Fr     *Frame
	Args   []*Term
	Res    []*Term
	Locks  []LockHeld
	Facts  *Facts
	St     *State // snapshot where needed (calls)
	Pre    *State // locks: before what other goroutines did
	Loop   *LoopRec
	Callee *ssa.Function
	Cap    *Term  // pool objects: capacity of a new one
	Held   string // poolput: what may still refer to the object
	Priv   bool   // table operations: on a table nothing else can reach
}

func (e *Event) Pos() string {
	if e.Instr == nil {
		return "-"
	}
	return instrPos(e.Fr.eng, e.Instr)
}

type TNode struct {
	prev *TNode
	ev   *Event
	n    int
}

func (t *TNode) since(base *TNode) []*Event {
	var r []*Event
	for x := t; x != nil && x != base; x = x.prev {
		r = append(r, x.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// after: the path goes through base.
func (t *TNode) after(base *TNode) bool {
	for x := t; x != nil; x = x.prev {
		if x == base {
			return true
		}
	}
	return base == nil
}

type State struct {
	eng    *Engine
	heap   map[*Term]*Term
	epoch  map[string]*Term
	facts  *Facts
	locks  []LockHeld
	pub    map[*Term]bool   // private objects that have been published
	leak   map[*Term]bool   // arrays whose slices have been stored in memory
	held   map[*Term]string // memory something outlasting the path refers to, and what
	dead   map[*Term]*Event // memory handed back to a pool, and where
	trace  *TNode
	shared bool
}

func newState(e *Engine) *State {
	return &State{eng: e, heap: map[*Term]*Term{}, epoch: map[string]*Term{}, facts: newFacts(), pub: map[*Term]bool{}, leak: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{eng: s.eng, heap: make(map[*Term]*Term, len(s.heap)+8), epoch: make(map[string]*Term, len(s.epoch)), facts: s.facts, locks: s.locks[:len(s.locks):len(s.locks)], pub: make(map[*Term]bool, len(s.pub)), leak: make(map[*Term]bool, len(s.leak)), trace: s.trace}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k := range s.pub {
		n.pub[k] = true
	}
	for k := range s.leak {
		n.leak[k] = true
	}
	if len(s.held) > 0 {
		n.held = make(map[*Term]string, len(s.held))
		for k, v := range s.held {
			n.held[k] = v
		}
	}
	if len(s.dead) > 0 {
		n.dead = make(map[*Term]*Event, len(s.dead))
		for k, v := range s.dead {
			n.dead[k] = v
		}
	}
	s.facts.share = true
	return n
}

// f gives the facts for modification.
func (s *State) f() *Facts {
	if s.facts.share {
		s.facts = s.facts.clone()
		s.facts.share = false
	}
	return s.facts
}

func (s *State) assume(c *Term, v bool) bool {
	switch s.facts.eval(c) {
	case True:
		return v
	case False:
		return !v
	}
	return s.f().assume(c, v)
}

func (s *State) event(ev *Event) *Event {
	ev.Locks = s.locks
	s.facts.share = true
	ev.Facts = s.facts
	switch ev.Kind {
	case "mapget", "mapset", "mapdel", "range", "rangedone", "maplen":
		ev.Priv = s.private(root(ev.Args[0]))
	}
	s.trace = &TNode{prev: s.trace, ev: ev}
	if s.trace.prev != nil {
		s.trace.n = s.trace.prev.n + 1
	}
	return ev
}

// ---- addresses

func root(a *Term) *Term {
	for {
		switch a.Op {
		case OpField, OpElem, OpMapVal, OpMapHas, OpMapLen, OpPseudo:
			if len(a.Args) == 0 {
				return a
			}
			a = a.Args[0]
		default:
			return a
		}
	}
}

func structOfPtr(t *Term) (types.Type, *types.Struct) {
	if t.Typ == nil {
		return nil, nil
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	st, _ := p.Elem().Underlying().(*types.Struct)
	return p.Elem(), st
}

func class(a *Term) string {
	switch a.Op {
	case OpField:
		et, _ := structOfPtr(a.Args[0])
		return "F:" + typeKey(et) + "." + strconv.Itoa(a.Idx)
	case OpBack:
		return "C:" + elemKey(a.Args[0].Typ)
	case OpMapVal, OpMapHas, OpMapLen:
		return "M:" + typeKey(a.Args[0].Typ)
	case OpGlobal:
		return "G:" + a.Aux
	case OpAlloc:
		return "A:" + a.Aux
	case OpPseudo:
		return "Z:" + a.Aux
	case OpStrData:
		return "S"
	}
	return "P:" + typeKey(a.Typ)
}

func elemKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return typeKey(u.Elem().Underlying())
	case *types.Array:
		return typeKey(u.Elem().Underlying())
	case *types.Pointer:
		return elemKey(u.Elem())
	}
	return typeKey(t)
}

func fieldAddr(base *Term, i int, ptrTyp types.Type) *Term {
	// ptrTyp: type of the field address (pointer to field type)
	t := mkIdx(OpField, ptrTyp, i, base)
	if t.Typ == nil {
		t.Typ = ptrTyp
	}
	return t
}

func (s *State) private(r *Term) bool {
	return r.Op == OpAlloc && !s.pub[r]
}

func (s *State) token(a *Term) *Term {
	if a.Op == OpField && s.eng.immut[class(a)] {
		return s.eng.token0
	}
	if t, ok := s.epoch["O:"+strconv.Itoa(root(a).ID)]; ok {
		return t
	}
	if t, ok := s.epoch[class(a)]; ok {
		return t
	}
	return s.eng.token0
}

func (s *State) unknown(a *Term, typ types.Type) *Term {
	if a.Op == OpStrData {
		return a.Args[0]
	}
	if g := s.eng.frozen(a); g != nil {
		return g
	}
	if a.Op == OpPseudo && a.Aux == "buf" && a.Args[0].Op == OpAlloc && s.token(a) == s.eng.token0 {
		if v := s.heap[a.Args[0]]; v != nil && v.Op == OpZeros {
			return mkStr("") // the zero buffer is empty
		}
	}
	return mk(OpLoad, typ, "", a, s.token(a))
}

// raw loads one cell.
func (s *State) raw(a *Term, typ types.Type) *Term {
	if v, ok := s.heap[a]; ok {
		return v
	}
	// part of an object stored as one opaque value
	if a.Op == OpField {
		if v, ok := s.heap[a.Args[0]]; ok {
			_, st := structOfPtr(a.Args[0])
			return fieldOf(v, a.Idx, st)
		}
		if b := a.Args[0]; b.Op == OpGlobal || b.Op == OpField {
			if g := s.eng.frozen(root(b)); g != nil && root(b) == b {
				_, st := structOfPtr(b)
				return fieldOf(g, a.Idx, st)
			}
		}
	}
	v := s.unknown(a, typ)
	if v.Op == OpLoad {
		s.heap[a] = v
	}
	return v
}

func isAggregate(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && transparent(t)
}

func (s *State) load(a *Term, typ types.Type) *Term {
	if a.Op == OpElem {
		c := s.content(a.Args[0])
		return mkSel(s.facts, c, lin(a.Args[1]), typ)
	}
	if a.Op == OpField {
		if r := a; true {
			// field of a slice element
			var path []*Term
			for r.Op == OpField {
				path = append(path, r)
				r = r.Args[0]
			}
			if r.Op == OpElem {
				v := s.load(r, deref(r.Typ))
				for i := len(path) - 1; i >= 0; i-- {
					_, st := structOfPtr(path[i].Args[0])
					v = fieldOf(v, path[i].Idx, st)
				}
				return v
			}
		}
	}
	if isAggregate(typ) {
		if v, ok := s.heap[a]; ok {
			return s.coerce(v, typ)
		}
		st := typ.Underlying().(*types.Struct)
		if at := deref(a.Typ); at != nil && !types.Identical(at.Underlying(), typ.Underlying()) {
			// reinterpretation through unsafe
			return s.coerce(s.load(a, at), typ)
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			ft := st.Field(i).Type()
			fs[i] = s.load(fieldAddr(a, i, types.NewPointer(ft)), ft)
		}
		return mk(OpStruct, typ, "", fs...)
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && a.Op == OpAlloc && s.heap[a] == nil {
		// a library struct made field by field
		fs := make([]*Term, st.NumFields())
		known := len(fs) > 0
		for i := range fs {
			if fs[i] = s.heap[fieldAddr(a, i, types.NewPointer(st.Field(i).Type()))]; fs[i] == nil {
				known = false
				break
			}
		}
		if known {
			return mk(OpStruct, typ, "", fs...)
		}
	}
	if at := deref(a.Typ); at != nil && a.Op != OpBack && !types.Identical(at.Underlying(), typ.Underlying()) && isAggregate(at) {
		return s.coerce(s.load(a, at), typ)
	}
	return s.coerce(s.raw(a, typ), typ)
}

// coerce handles the unsafe reinterpretations between strings, slices and their headers.
func (s *State) coerce(v *Term, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if v.Op == OpSlice || (v.Typ != nil && isSliceT(v.Typ)) {
				return s.bytesOf(v)
			}
			if v.Op == OpStruct && len(v.Args) == 2 { // StringHeader
				return s.bytesOf(mk(OpSlice, types.NewSlice(byteTyp), "", v.Args[0], mkInt(0), v.Args[1], v.Args[1]))
			}
		}
	case *types.Slice:
		if v.Op == OpStruct && len(v.Args) == 3 {
			return mk(OpSlice, typ, "", v.Args[0], mkInt(0), v.Args[1], v.Args[2])
		}
		if isStrTerm(v) {
			return mk(OpSlice, typ, "", mk(OpStrData, nil, "", v), mkInt(0), lenOfBytes(v), mk(OpCap, intTyp, "", v))
		}
	case *types.Struct:
		if n := typeKey(typ); n == "reflect.SliceHeader" || n == "reflect.StringHeader" {
			var a [3]*Term
			if isStrTerm(v) {
				a = [3]*Term{mk(OpStrData, nil, "", v), lenOfBytes(v), mk(OpCap, intTyp, "", v)}
			} else if v.Op == OpSlice && v.Args[1] == mkInt(0) {
				a = [3]*Term{v.Args[0], v.Args[2], v.Args[3]}
			} else if v.Op != OpStruct && v.Typ != nil && isSliceT(v.Typ) {
				a = [3]*Term{mk(OpBack, nil, "", v), lenT(v), capT(v)}
			} else {
				return v
			}
			return mk(OpStruct, typ, "", a[:u.NumFields()]...)
		}
	}
	return v
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isStrTerm(v *Term) bool {
	switch v.Op {
	case OpConst:
		_, ok := v.strConst()
		return ok
	case OpConcat, OpSub, OpNumText:
		return true
	case OpSym, OpLoad, OpCall, OpFieldVal, OpSel, OpMapVal:
		return v.Typ != nil && isString(v.Typ)
	}
	return false
}

func lenT(v *Term) *Term {
	switch v.Op {
	case OpSlice:
		return v.Args[2]
	case OpConst:
		if v.C == nil {
			return mkInt(0)
		}
		return lenOfBytes(v)
	}
	if v.Typ != nil && isSliceT(v.Typ) && v.Op != OpDec {
		return mk(OpLen, intTyp, "", v)
	}
	return lenOfBytes(v)
}
func capT(v *Term) *Term {
	switch v.Op {
	case OpSlice:
		return v.Args[3]
	case OpConst:
		return mkInt(0)
	}
	return mk(OpCap, intTyp, "", v)
}

// content is the sequence held by an array (given by its address / backing).
func (s *State) content(arr *Term) *Term {
	if arr.Op == OpStrData {
		return arr.Args[0]
	}
	if arr.Op == OpElem || arr.Op == OpField {
		return s.load(arr, deref(arr.Typ))
	}
	var typ types.Type
	if arr.Op != OpBack {
		typ = deref(arr.Typ)
	}
	return s.raw(arr, typ)
}

// bytesOf is the sequence value of a slice, string or array value.
func (s *State) bytesOf(v *Term) *Term {
	switch v.Op {
	case OpConst:
		if v.C == nil {
			return mkStr("")
		}
		return v
	case OpSlice:
		return mkSub(s.facts, s.content(v.Args[0]), lin(v.Args[1]), lin(v.Args[2]))
	}
	if v.Typ != nil && isSliceT(v.Typ) && v.Op != OpDec {
		return mkSub(s.facts, s.content(mkBack(v)), Lin{}, lin(lenT(v)))
	}
	return v
}

func mkBack(v *Term) *Term { return mk(OpBack, nil, "", v) }

func sliceParts(v *Term) (arr *Term, off, n, c Lin) {
	if v.Op == OpSlice {
		return v.Args[0], lin(v.Args[1]), lin(v.Args[2]), lin(v.Args[3])
	}
	if v.isNil() {
		return v, Lin{}, Lin{}, Lin{}
	}
	return mkBack(v), Lin{}, lin(lenT(v)), lin(capT(v))
}

func mkSlice(typ types.Type, arr *Term, off, n, c Lin) *Term {
	if arr.Op == OpBack && off.isConst() && off.C == 0 {
		s := arr.Args[0]
		if eqLin(nil, n, lin(lenT(s))) && eqLin(nil, c, lin(capT(s))) {
			return s
		}
	}
	return mk(OpSlice, typ, "", arr, mkLin(off), mkLin(n), mkLin(c))
}

// ---- stores

func (s *State) kill(a *Term, tok *Term) {
	// forget every cell that may alias a
	c := class(a)
	ra := root(a)
	if ra.Op == OpAlloc && (a.Op != OpMapVal && a.Op != OpMapHas && a.Op != OpMapLen) {
		return // exact cell
	}
	if a.Op == OpGlobal {
		return
	}
	for k := range s.heap {
		if k == a {
			continue
		}
		if class(k) == c {
			rk := root(k)
			if s.eng.keeps(s, k) {
				continue
			}
			if rk.Op == OpAlloc && rk != ra && (s.private(rk) || ra.Op == OpAlloc) {
				continue
			}
			if (a.Op == OpMapVal || a.Op == OpMapHas) && k.Op != a.Op {
				continue
			}
			if (k.Op == OpMapVal || k.Op == OpMapHas) && a.Op == k.Op && k.Args[0] == a.Args[0] && s.distinct(k.Args[1], a.Args[1]) {
				continue
			}
			if a.Op == OpMapLen || k.Op == OpMapLen {
				if a.Op != k.Op {
					continue
				}
			}
			delete(s.heap, k)
		}
	}
	if a.Op == OpBack {
		for l := range s.leak {
			if k := elemKey(l.Typ); k != "?" && "C:"+k != c && c != "C:?" {
				continue
			}
			delete(s.heap, l)
			s.epoch["O:"+strconv.Itoa(l.ID)] = tok
		}
	}
	s.epoch[c] = tok
}

func (s *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLinear(a) && isLinear(b) {
		return s.facts.entailsNeq(lin(a).sub(lin(b)))
	}
	return s.facts.eval(mkEq(a, b)) == False
}

func isLinear(t *Term) bool {
	return t.L != nil || (t.Typ != nil && isInt(t.Typ))
}

func (s *State) publish(v *Term) {
	switch v.Op {
	case OpAlloc:
		if !s.pub[v] {
			s.pub[v] = true
			for k, x := range s.heap {
				if root(k) == v {
					s.publish(x)
				}
			}
		}
	case OpSlice:
		s.leak[v.Args[0]] = true
		s.publish(v.Args[0])
	case OpIface, OpClosure, OpStruct, OpElemV, OpConcat, OpUpd, OpField, OpElem:
		for _, a := range v.Args {
			s.publish(a)
		}
	}
}

func (s *State) setCell(a, v *Term, tok *Term) {
	s.kill(a, tok)
	s.heap[a] = v
	switch v.Op {
	case OpAlloc, OpSlice, OpIface, OpClosure, OpElemV, OpUpd, OpConcat, OpField:
		if r := root(a); !s.private(r) {
			s.publish(v)
			s.hold(v, "stored in shared memory")
		} else if v.Op == OpSlice {
			s.leak[v.Args[0]] = true
		}
	}
}

func (s *State) store(a, v *Term, typ types.Type, tok *Term) {
	if a.Op == OpElem {
		arr := a.Args[0]
		c := s.content(arr)
		c = mkUpd(s.facts, c, lin(a.Args[1]), linC(1), elemV(v, typ))
		s.setContent(arr, c, tok)
		return
	}
	if a.Op == OpField {
		r := a
		for r.Op == OpField {
			r = r.Args[0]
		}
		if r.Op == OpElem {
			v2 := s.storeField(a, v)
			s.store(r, v2, deref(r.Typ), tok)
			return
		}
		if b, ok := s.heap[a.Args[0]]; ok { // object stored as a whole: open it
			delete(s.heap, a.Args[0])
			et, st := structOfPtr(a.Args[0])
			_ = et
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				s.heap[fieldAddr(a.Args[0], i, types.NewPointer(ft))] = fieldOf(b, i, st)
			}
		}
	}
	if isAggregate(typ) {
		if at := deref(a.Typ); at != nil && !types.Identical(at.Underlying(), typ.Underlying()) {
			s.setCell(a, v, tok)
			return
		}
		st := typ.Underlying().(*types.Struct)
		delete(s.heap, a)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.store(fieldAddr(a, i, types.NewPointer(ft)), fieldOf(v, i, st), ft, tok)
		}
		return
	}
	// a whole opaque struct replaces its fields
	if _, ok := typ.Underlying().(*types.Struct); ok {
		for k := range s.heap {
			if k != a && k.Op == OpField && underField(k, a) {
				delete(s.heap, k)
			}
		}
	}
	s.setCell(a, v, tok)
}

func underField(k, a *Term) bool {
	for k.Op == OpField {
		k = k.Args[0]
		if k == a {
			return true
		}
	}
	return false
}

// storeField rebuilds the struct value of the element a field address lies in.
func (s *State) storeField(a, v *Term) *Term {
	base := a.Args[0]
	et, st := structOfPtr(base)
	cur := s.load(base, et)
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = fieldOf(cur, i, st)
	}
	fs[a.Idx] = v
	nv := mk(OpStruct, et, "", fs...)
	if base.Op == OpElem {
		return nv
	}
	return s.storeField(base, nv)
}

func (s *State) setContent(arr, c *Term, tok *Term) {
	if e := s.eng; e.watchBytes && e.readOnly == 0 && s.notOwn(arr) {
		s.event(&Event{Kind: "bytewrite", Instr: e.curIn, Fr: e.curFr, Args: []*Term{arr}, St: s.clone()})
	}
	if arr.Op == OpElem || arr.Op == OpField {
		s.store(arr, c, deref(arr.Typ), tok)
		return
	}
	if arr.Op == OpStrData || arr.isNil() {
		return
	}
	s.setCell(arr, c, tok)
}

// forgetObj makes everything inside an object unknown.
func (s *State) forgetObj(a *Term, tok *Term) {
	r := root(a)
	for k := range s.heap {
		if root(k) == r && (k == a || a == r || underField(k, a) || (k.Op != OpField && a.Op == OpField && len(k.Args) > 0 && (k.Args[0] == a || underField(k.Args[0], a)))) {
			delete(s.heap, k)
		}
	}
	s.epoch["O:"+strconv.Itoa(r.ID)] = tok
	s.epoch[class(a)] = tok
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if isLinear(a) && isLinear(b) {
		return mkEQZ(lin(a).sub(lin(b)))
	}
	if a.Typ != nil && isBoolT(a.Typ) || b.Typ != nil && isBoolT(b.Typ) {
		if v, ok := b.boolConst(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
		if v, ok := a.boolConst(); ok {
			if v {
				return b
			}
			return mkNot(b)
		}
	}
	if a.Op == OpStruct && b.Op == OpStruct && len(a.Args) == 1 && len(b.Args) == 1 {
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpEq, boolTyp, "", a, b)
}

// zeroAt initialises a fresh object.
func (s *State) zeroAt(a *Term, typ types.Type) {
	if isAggregate(typ) {
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.zeroAt(fieldAddr(a, i, types.NewPointer(ft)), ft)
		}
		return
	}
	s.heap[a] = zeroTerm(typ)
}

// freshObj starts a new life of an allocation.
func (s *State) freshObj(a *Term) {
	for k := range s.heap {
		if root(k) == a {
			delete(s.heap, k)
		}
	}
	delete(s.pub, a)
	s.revive(a)
	delete(s.leak, a)
	delete(s.epoch, "O:"+strconv.Itoa(a.ID))
}

func (s *State) dump() string {
	var ks []*Term
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s = %s\n", k, s.heap[k])
	}
	b.WriteString("  facts:\n" + s.facts.dump())
	return b.String()
}

func (f *Facts) dump() string {
	var b strings.Builder
	for _, l := range f.ges {
		fmt.Fprintf(&b, "    %s >= 0\n", l)
	}
	for _, l := range f.neqs {
		fmt.Fprintf(&b, "    %s != 0\n", l)
	}
	var ks []*Term
	for k := range f.bools {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		fmt.Fprintf(&b, "    %s = %v\n", k, f.bools[k])
	}
	for k, v := range f.attrs {
		fmt.Fprintf(&b, "    attr %s: %s\n", k, v)
	}
	return b.String()
}

// ---- recycled memory

// memOf gives the memory a reference leads to.
func memOf(v *Term) *Term {
	switch {
	case v.Op == OpSlice:
		return root(v.Args[0])
	case v.Op == OpAlloc || v.Op == OpField || v.Op == OpElem:
		return root(v)
	case v.Typ == nil || v.isNil():
		return nil
	case isSliceT(v.Typ):
		return mkBack(v)
	}
	if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
		return root(v)
	}
	return nil
}

// reaches gives the memory reachable from a value, as far as it is known.
func (s *State) reaches(v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(v *Term, depth int)
	walk = func(v *Term, depth int) {
		if v == nil || depth > 40 {
			return
		}
		switch v.Op {
		case OpIface, OpClosure, OpStruct, OpElemV, OpConcat, OpUpd, OpTuple:
			for _, a := range v.Args {
				walk(a, depth+1)
			}
			return
		}
		m := memOf(v)
		if m == nil || seen[m] {
			return
		}
		seen[m] = true
		out = append(out, m)
		if m.Op != OpAlloc {
			return
		}
		for b := range s.eng.aliases[m] {
			if b := root(b); !seen[b] {
				seen[b] = true
				out = append(out, b)
			}
		}
		for k, x := range s.heap {
			if k.Op != OpPseudo && root(k) == m {
				walk(x, depth+1)
			}
		}
	}
	walk(v, 0)
	return out
}

func (s *State) hold(v *Term, why string) {
	for _, m := range s.reaches(v) {
		if _, ok := s.held[m]; !ok {
			if s.held == nil {
				s.held = map[*Term]string{}
			}
			s.held[m] = why
		}
	}
}

func (s *State) revive(m *Term) {
	delete(s.dead, m)
	delete(s.held, m)
}

// deadUse records a use of memory that was handed back to a pool.
func (e *Engine) deadUse(fr *Frame, st *State, in ssa.Instruction, what string, vs ...*Term) {
	if len(st.dead) == 0 {
		return
	}
	for _, v := range vs {
		if v == nil {
			continue
		}
		for _, m := range st.reaches(v) {
			if st.dead[m] != nil {
				st.event(&Event{Kind: "deaduse", Name: what, Instr: in, Fr: fr, Args: []*Term{v, m}})
				return
			}
		}
	}
}

// alias: the memory a, the result of an append, may be that of b, its operand.
func (e *Engine) alias(a, b *Term) {
	if e.aliases[a] == nil {
		e.aliases[a] = map[*Term]bool{}
	}
	e.aliases[a][b] = true
}

// notOwn: memory of array elements that was neither made on this path nor handed to it.
func (s *State) notOwn(arr *Term) bool {
	m := root(arr)
	switch m.Op {
	case OpStrData, OpGlobal:
		return true
	case OpAlloc:
		return s.eng.frozen(arr) != nil || s.eng.frozen(m) != nil
	case OpBack:
		if a := m.Args[0]; a.Op == OpLoad {
			return !s.private(root(a.Args[0]))
		}
	}
	return false
}
