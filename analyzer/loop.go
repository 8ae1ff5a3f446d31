package main

// Loops: the header state is abstracted (loop-carried values become header
// symbols), an inductive invariant is inferred by checking candidate facts
// until they are stable, and the body is then analysed once from the invariant.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopIter struct {
	Events []*Event
	St     *State
	Next   map[*Term]*Term // header symbol -> value at the back edge
	Thread *Thread
}

type LoopRec struct {
	ID     string
	Fr     *Frame
	Header *ssa.BasicBlock
	Init   map[*Term]*Term // header symbol -> value at loop entry
	Cell   map[*Term]*Term // header symbol -> heap cell (nil for SSA variables)
	Entry  *State
	HdrSt  *State
	Iters  []LoopIter
	Exits  []*Thread
	LockUB []string // lock imbalance
}

// bornIn reports whether an origin lies inside the loop body.
func bornIn(o *Origin, fr *Frame, body map[*ssa.BasicBlock]bool) bool {
	if o == nil {
		return false
	}
	f, b := o.fr, o.blk
	for f != nil {
		if f.is(fr) {
			return body[b]
		}
		if f.site == nil || f.parent == nil {
			return false
		}
		b = f.site.Block()
		f = f.parent
	}
	return false
}

type bornMemo struct {
	fr   *Frame
	body map[*ssa.BasicBlock]bool
	m    map[*Term]bool
}

func (b *bornMemo) term(t *Term) bool {
	if v, ok := b.m[t]; ok {
		return v
	}
	b.m[t] = false
	r := false
	if t.Org != nil {
		r = bornIn(t.Org, b.fr, b.body)
	}
	if !r {
		for _, a := range t.Args {
			if b.term(a) {
				r = true
				break
			}
		}
	}
	b.m[t] = r
	return r
}
func (b *bornMemo) lin(l Lin) bool {
	for _, t := range l.T {
		if b.term(t.A) {
			return true
		}
	}
	return false
}

type loopSeed struct {
	keepPhi                  []bool
	cells, gone, pubs, leaks map[*Term]bool
	held                     map[*Term]string
	dead                     map[*Term]*Event
	eps, dropped             map[string]bool
	extra                    []*cand
	harvests                 map[string]int
}

type cand struct {
	lin  *Lin
	eq   bool  // lin == 0 rather than >= 0
	cond *Term // boolean
	val  bool
	attr *Term
	av   string
	key  string
}

func (c *cand) check(f *Facts, m map[*Term]*Term, st *State) bool {
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		return subst(t, func(x *Term) *Term { return m[x] }, memo)
	}
	switch {
	case c.lin != nil:
		l := Lin{C: c.lin.C}
		for _, t := range c.lin.T {
			l = l.addK(lin(sub(t.A)), t.K)
		}
		if c.eq {
			return f.entailsEq(l)
		}
		return f.entails(l)
	case c.attr != nil:
		return attrHolds(st, f, sub(c.attr), c.av)
	default:
		return f.eval(sub(c.cond)) == tri(c.val)
	}
}
func (c *cand) assume(f *Facts) {
	switch {
	case c.lin != nil:
		f.addGE(*c.lin)
		if c.eq {
			f.addGE(c.lin.neg())
		}
	case c.attr != nil:
		f.attrs[c.attr] = c.av
	default:
		f.assume(c.cond, c.val)
	}
}

// attrHolds is set by the property domains that track byte contents.
var attrHolds = func(st *State, f *Facts, c *Term, v string) bool { return false }
var attrCands = func(st *State, sym, init *Term) []string { return nil }

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (e *Engine) execLoop(fr *Frame, t *Thread, header *ssa.BasicBlock) ([]*Thread, []Outcome) {
	n := e.tripCount(fr, t, header)
	if n == 0 {
		return e.summarize(fr, t, header)
	}
	// a loop of a few known iterations is followed one by one
	sc := &scope{fr, header, fr.info.loops[header]}
	var exits []*Thread
	var outs []Outcome
	work := []*Thread{t}
	for k := 0; k <= n && len(work) > 0; k++ {
		sub := e.iterFrame(fr, header, k)
		var next []*Thread
		for _, x := range work {
			if len(work) > 32 {
				ex, lo := e.summarize(fr, x, header)
				exits, outs = append(exits, ex...), append(outs, lo...)
				continue
			}
			e.enterBlock(sub, x)
			b, ex, lo := e.run(sub, []*Thread{x}, sc)
			next, exits, outs = append(next, b...), append(exits, ex...), append(outs, lo...)
		}
		work = dedupeThreads(next)
	}
	return exits, outs
}

func (e *Engine) summarize(fr *Frame, t *Thread, header *ssa.BasicBlock) ([]*Thread, []Outcome) {
	body := fr.info.loops[header]
	sc := &scope{fr, header, body}
	id := fr.path + "#L" + strconv.Itoa(header.Index)
	e.nloops[id] = true
	born := &bornMemo{fr, body, map[*Term]bool{}}
	init := phiVals(fr, t)
	ikey := argKey(init)
	for _, l := range t.st.facts.ges {
		ikey += "|" + l.key()
	}
	var phis []*ssa.Phi
	for _, in := range header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	// what earlier analyses of this loop (same call path) found to change; the
	// sets only grow, and starting from them is sound and saves rounds
	seed := e.loopSeeds[id]
	if seed == nil {
		seed = &loopSeed{
			keepPhi:  make([]bool, len(phis)),
			cells:    map[*Term]bool{},
			gone:     map[*Term]bool{},
			eps:      map[string]bool{},
			pubs:     map[*Term]bool{},
			leaks:    map[*Term]bool{},
			held:     map[*Term]string{},
			dead:     map[*Term]*Event{},
			dropped:  map[string]bool{},
			harvests: map[string]int{},
		}
		for i := range seed.keepPhi {
			seed.keepPhi[i] = true
		}
		e.loopSeeds[id] = seed
	}
	keepPhi, cells, gone, eps, pubs, leaks := seed.keepPhi, seed.cells, seed.gone, seed.eps, seed.pubs, seed.leaks
	dropped := map[string]bool{}
	for k := range seed.dropped {
		dropped[k] = true
	}
	extra := append([]*cand(nil), seed.extra...) // harvested candidates
	extraKeys := map[string]bool{}
	for _, c := range extra {
		extraKeys[c.key] = true
	}

	hsym := func(suffix string, typ types.Type) *Term {
		s := mk(OpSym, typ, id+suffix)
		if s.Org == nil {
			s.Org = &Origin{fr, header}
		}
		return s
	}
	build := func() (*Thread, map[*Term]*Term, map[*Term]*Term, []*cand) {
		h := t.fork()
		im := map[*Term]*Term{} // header sym -> init
		cm := map[*Term]*Term{} // header sym -> cell
		st := h.st
		for i, p := range phis {
			if keepPhi[i] {
				fr.set(h, p, init[i])
				continue
			}
			s := hsym(".phi"+strconv.Itoa(i), p.Type())
			im[s] = init[i]
			fr.set(h, p, s)
		}
		for c := range eps {
			st.epoch[c] = hsym("!"+c, nil)
		}
		for g := range gone {
			delete(st.heap, g)
		}
		for c := range pubs {
			st.pub[c] = true
		}
		for c := range leaks {
			st.leak[c] = true
		}
		for c, why := range seed.held {
			if st.held == nil {
				st.held = map[*Term]string{}
			}
			st.held[c] = why
		}
		for c, ev := range seed.dead {
			if st.dead == nil {
				st.dead = map[*Term]*Event{}
			}
			st.dead[c] = ev
		}
		cs := make([]*Term, 0, len(cells))
		for c := range cells {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
		for _, c := range cs {
			iv, ok := t.st.heap[c]
			if !ok {
				u := t.fork()
				iv = u.st.raw(c, cellType(c))
			}
			s := hsym(".c"+strconv.Itoa(c.ID), valType(iv, c))
			if iv.Op == OpCall && iv.Aux == "nonneg" || c.Op == OpMapLen {
				st.assume(mkGE(lin(s)), true)
			}
			im[s] = iv
			cm[s] = c
			st.heap[c] = s
		}
		// candidate invariants
		var cands []*cand
		add := func(c *cand) {
			if dropped[c.key] {
				return
			}
			cands = append(cands, c)
		}
		type iv struct{ s, v *Term } // integer views
		var views []iv
		var syms []*Term
		for s := range im {
			syms = append(syms, s)
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i].ID < syms[j].ID })
		for _, s := range syms {
			v := im[s]
			for _, a := range attrCands(t.st, s, v) {
				add(&cand{attr: s, av: a, key: "attr" + strconv.Itoa(s.ID) + a})
			}
			if s.Typ == nil {
				continue
			}
			if isInt(s.Typ) {
				views = append(views, iv{s, v})
			} else if isSliceT(s.Typ) && cm[s] != nil && isContentCell(cm[s]) {
				// sequence contents
			} else if isSliceT(s.Typ) {
				views = append(views, iv{mk(OpLen, intTyp, "", s), lenT(v)}, iv{mk(OpCap, intTyp, "", s), capT(v)})
			} else if isString(s.Typ) {
				views = append(views, iv{lenOfBytes(s), lenOfBytes(v)})
			}
			if isPtrLike(s.Typ) || isSliceT(s.Typ) {
				c := mkEq(s, mkNil(nil))
				add(&cand{cond: c, val: false, key: "nn" + strconv.Itoa(s.ID)})
			}
			if isErrorT(s.Typ) && t.st.facts.eval(mkEq(v, nilT)) == True {
				add(&cand{cond: mkEq(s, nilT), val: true, key: "nil" + strconv.Itoa(s.ID)})
			}
			if isBoolT(s.Typ) {
				if b, ok := v.boolConst(); ok {
					add(&cand{cond: s, val: b, key: "b" + strconv.Itoa(s.ID)})
				}
			}
		}
		for i, x := range views {
			l := lin(x.s).sub(lin(x.v))
			add(&cand{lin: &l, key: "lo" + l.key()})
			n := l.neg()
			add(&cand{lin: &n, key: "hi" + n.key()})
			z := lin(x.s)
			add(&cand{lin: &z, key: "nn" + z.key()})
			for _, y := range views[:i] {
				d := lin(x.v).sub(lin(y.v))
				if d.isConst() {
					l := lin(x.s).sub(lin(y.s)).addC(-d.C)
					k := "d" + l.key()
					add(&cand{lin: &l, eq: true, key: k})
					if dropped[k] {
						// not kept equally far apart, but maybe ordered
						n := l.neg()
						add(&cand{lin: &l, key: k + "+"})
						add(&cand{lin: &n, key: k + "-"})
					}
				}
			}
		}
		for _, c := range extra {
			add(c)
		}
		return h, im, cm, cands
	}
	nexts := func(b *Thread, im, cm map[*Term]*Term) map[*Term]*Term {
		m := map[*Term]*Term{}
		pv := phiVals(fr, b)
		for i := range phis {
			if !keepPhi[i] {
				m[hsym(".phi"+strconv.Itoa(i), phis[i].Type())] = pv[i]
			}
		}
		for s, c := range cm {
			v, ok := b.st.heap[c]
			if !ok {
				v = b.st.raw(c, cellType(c))
			}
			m[s] = v
		}
		return m
	}

	var h *Thread
	var im, cm map[*Term]*Term
	var cands []*cand
	var back, exits []*Thread
	var outs []Outcome
	var rec *LoopRec
	var base *TNode
	start := func() {
		rec = &LoopRec{ID: id, Fr: fr, Header: header, Init: im, Cell: cm, Entry: t.st.clone()}
		h.st.event(&Event{Kind: "loop", Instr: header.Instrs[len(header.Instrs)-1], Fr: fr, Loop: rec})
		rec.HdrSt = h.st.clone()
		base = h.st.trace
		h.idx = len(phis)
		back, exits, outs = e.run(fr, []*Thread{h}, sc)
	}
	e.quiet++
	harvests := 0
	stable := false
	for round := 0; round < 40 && !e.over; round++ {
		h, im, cm, cands = build()
		// candidates must hold at entry
		var good []*cand
		for _, c := range cands {
			if c.check(t.st.facts, im, t.st) {
				good = append(good, c)
			} else {
				dropped[c.key] = true
			}
		}
		f := h.st.f()
		for _, c := range good {
			c.assume(f)
		}
		hst := h.st.clone()
		idm := map[*Term]*Term{}
		for k := range im {
			idm[k] = k
		}
		start()
		back = dedupeThreads(back)
		ch := false
		for _, b := range back {
			// variables
			pv := phiVals(fr, b)
			for i := range phis {
				if keepPhi[i] && pv[i] != init[i] {
					keepPhi[i] = false
					ch = true
					dbgLoop(id, round, 1, phis[i].Comment, pv[i])
				}
			}
			// memory
			for k, bv := range b.st.heap {
				hv, ok := hst.heap[k]
				if ok && hv == bv {
					continue
				}
				if bv.Op == OpLoad && bv.Args[0] == k && len(bv.Args) > 1 && bv.Args[1] == hst.token(k) && !ok {
					continue
				}
				if bv.Op == OpCall && bv.Aux == "nonneg" && k.Op == OpMapLen && !ok && bv.Args[0].Op == OpLoad && bv.Args[0].Args[1] == hst.token(k) {
					continue
				}
				r := root(k)
				if r.Op == OpAlloc && born.term(r) {
					continue
				}
				if born.term(k) {
					// a cell named by values of one iteration: its class moves
					c := class(k)
					if r.Op == OpAlloc && b.st.private(r) {
						c = "O:" + strconv.Itoa(r.ID)
					}
					if !eps[c] {
						eps[c] = true
						ch = true
						dbgLoop(id, round, 2, c)
					}
					continue
				}
				if gone[k] {
					continue
				}
				if !cells[k] {
					cells[k] = true
					ch = true
					dbgLoop(id, round, 3, k, bv, hst.heap[k])
				}
			}
			for k := range hst.heap {
				if _, ok := b.st.heap[k]; !ok && !gone[k] {
					r := root(k)
					if r.Op == OpAlloc && born.term(r) {
						continue
					}
					delete(cells, k)
					gone[k] = true
					ch = true
					dbgLoop(id, round, 4, k)
				}
			}
			for c, tok := range b.st.epoch {
				if hst.epoch[c] != tok && !eps[c] {
					eps[c] = true
					ch = true
					dbgLoop(id, round, 5, c)
				}
			}
			for p := range b.st.pub {
				if !hst.pub[p] && !pubs[p] && !born.term(p) {
					pubs[p] = true
					ch = true
					dbgLoop(id, round, 6, p)
				}
			}
			for p := range b.st.leak {
				if !hst.leak[p] && !leaks[p] && !born.term(p) {
					leaks[p] = true
					ch = true
					dbgLoop(id, round, 7, p)
				}
			}
			for p, why := range b.st.held {
				if hst.held[p] == "" && seed.held[p] == "" && !born.term(p) {
					seed.held[p] = why
					ch = true
				}
			}
			for p, ev := range b.st.dead {
				if hst.dead[p] == nil && seed.dead[p] == nil && !born.term(p) {
					seed.dead[p] = ev
					ch = true
				}
			}
		}
		// a moved class invalidates its unprotected cells
		for k := range hst.heap {
			if eps[class(k)] && !gone[k] && !cells[k] {
				r := root(k)
				if r.Op == OpAlloc && (born.term(r) || hst.private(r)) {
					continue
				}
				stale := false
				for _, b := range back {
					if b.st.heap[k] == nil {
						stale = true
					}
				}
				if stale {
					gone[k] = true
					ch = true
					dbgLoop(id, round, 8, k)
				}
			}
		}
		if !ch {
			// inductiveness and harvest
			for _, b := range back {
				m := nexts(b, im, cm)
				for _, c := range good {
					if !dropped[c.key] && !c.check(b.st.facts, m, b.st) {
						dropped[c.key] = true
						if c.key[0] != 'h' && c.key[0] != 'r' || strings.HasPrefix(c.key, "hi") {
							seed.dropped[c.key] = true
						}
						ch = true
						dbgLoop(id, round, 9, c.key)
					}
				}
			}
			if !ch && harvests < 2 && seed.harvests[ikey] < 3 {
				// only from an inductive state, and not repeatedly: a fact that
				// shifts by one each round would never settle
				harvests++
				seed.harvests[ikey]++
				for _, b := range back {
					m := nexts(b, im, cm)
					for _, c := range harvest(b, m, im, born) {
						if !extraKeys[c.key] && !dropped[c.key] {
							extraKeys[c.key] = true
							if !c.check(hst.facts, idm, hst) && c.check(t.st.facts, im, t.st) {
								extra = append(extra, c)
								ch = true
								dbgLoop(id, round, 10, c.key)
							}
						}
					}
				}
			}
			for _, c := range incRelations(back, im, func(b *Thread) map[*Term]*Term { return nexts(b, im, cm) }) {
				if !extraKeys[c.key] && !dropped[c.key] && !c.check(hst.facts, idm, hst) {
					extraKeys[c.key] = true
					extra = append(extra, c)
					ch = true
					dbgLoop(id, round, 11, c.key)
				}
			}
		}
		if !ch {
			stable = true
			break
		}
	}
	e.quiet--
	if !stable && !e.over {
		e.over = true
		e.overWhy = "loop invariant did not stabilise: " + id
	}
	seed.extra = extra
	if e.quiet == 0 {
		// reporting pass
		var all []*cand
		h, im, cm, all = build()
		f := h.st.f()
		for _, c := range all {
			if !dropped[c.key] && c.check(t.st.facts, im, t.st) {
				c.assume(f)
			}
		}
		start()
	}
	for _, b := range back {
		rec.Iters = append(rec.Iters, LoopIter{Events: b.st.trace.since(base), St: b.st, Next: nexts(b, im, cm), Thread: b})
		if !sameLocks(b.st.locks, rec.HdrSt.locks) {
			rec.LockUB = append(rec.LockUB, lockStr(b.st.locks)+" at the end of an iteration that started with "+lockStr(rec.HdrSt.locks))
		}
	}
	// a cell no iteration changes still has its value from before the loop
	for s, c := range cm {
		if !im[s].isConst() {
			continue
		}
		same := true
		for _, it := range rec.Iters {
			same = same && it.Next[s] == s
		}
		for _, x := range exits {
			if same && x.st.heap[c] == s {
				x.st.heap[c] = im[s]
			}
		}
	}
	// an element-by-element copy of a sequence leaves a stretch of it
	for s, c := range cm {
		if !isContentCell(c) {
			continue
		}
		if fl := rec.fill(s); fl != nil {
			if x, k, ok := fl.copied(im); ok {
				for _, t := range exits {
					if v := t.st.heap[c]; v != nil && v.mentions(s) {
						f := t.st.f()
						n := fl.At.sub(fl.From)
						w := mkUpd(f, fl.Init, fl.From, n, mkSub(f, x, fl.From.addC(k), n))
						t.st.heap[c] = subst(v, func(t *Term) *Term {
							if t == s {
								return w
							}
							return nil
						}, map[*Term]*Term{})
					}
				}
			}
		}
	}
	// and a variable no iteration changes
	for s, v := range im {
		if cm[s] != nil || s.Typ == nil || !isInt(s.Typ) && !isBoolT(s.Typ) {
			continue
		}
		same := true
		for _, it := range rec.Iters {
			same = same && it.Next[s] == s
		}
		for _, x := range exits {
			if same {
				x.st.f().assume(mkEq(s, v), true)
			}
		}
	}
	exits = dedupeThreads(exits)
	rec.Exits = exits
	if e.quiet == 0 {
		// the exits go on from here
		rec.Exits = make([]*Thread, len(exits))
		for i, x := range exits {
			rec.Exits[i] = x.fork()
		}
		e.loopRecs = append(e.loopRecs, rec)
	}
	return exits, outs
}

func isContentCell(c *Term) bool {
	switch c.Op {
	case OpBack:
		return true
	case OpAlloc, OpField, OpElem:
		t := deref(c.Typ)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Array:
			return true
		case *types.Slice:
			return c.Op == OpAlloc && !isAllocVar(c)
		}
	case OpPseudo:
		return c.Aux == "buf" || c.Aux == "pend"
	}
	return false
}

// isAllocVar: an Alloc of a slice variable (as opposed to the backing array of a make).
func isAllocVar(c *Term) bool { return !strings.HasSuffix(c.Aux, "@") }

func sameLocks(a, b []LockHeld) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x.Addr == y.Addr && x.Write == y.Write {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
func lockStr(l []LockHeld) string {
	s := "{"
	for i, x := range l {
		if i > 0 {
			s += ", "
		}
		if x.Write {
			s += "W:"
		} else {
			s += "R:"
		}
		s += lockName(x.Addr)
	}
	return s + "}"
}

func lockName(a *Term) string {
	if a.Op == OpField {
		if et, _ := structOfPtr(a.Args[0]); et != nil {
			return shortType(et) + "." + fieldName(a)
		}
	}
	return a.String()
}

func cellType(c *Term) types.Type {
	if c.Op == OpMapHas {
		return boolTyp
	}
	if c.Op == OpMapLen {
		return intTyp
	}
	if c.Op == OpPseudo {
		return c.Typ
	}
	return deref(c.Typ)
}

func valType(v, c *Term) types.Type {
	if t := cellType(c); t != nil {
		return t
	}
	if v != nil {
		return v.Typ
	}
	return nil
}

func sameThread(a, b *Thread) bool {
	if a.blk != b.blk || len(a.defers) != len(b.defers) || a.st.trace != b.st.trace || !sameState(a.st, b.st) {
		return false
	}
	pa, pb := -1, -1
	for i, p := range a.blk.Preds {
		if p == a.prev {
			pa = i
		}
		if p == b.prev {
			pb = i
		}
	}
	_ = pa
	_ = pb
	if a.prev != b.prev {
		return false
	}
	for i := range a.env {
		if a.env[i] != b.env[i] {
			return false
		}
	}
	return true
}

func dedupeThreads(ts []*Thread) []*Thread {
	if len(ts) > 200 {
		return ts
	}
	var r []*Thread
next:
	for _, x := range ts {
		for _, y := range r {
			if sameThread(x, y) {
				y.st.facts = joinFacts(y.st.facts, x.st.facts)
				continue next
			}
		}
		r = append(r, x)
	}
	return r
}

// harvest turns facts known at a back edge into candidate invariants: with x' = x + c a
// fact about x is a fact about x' - c.
func harvest(b *Thread, m, im map[*Term]*Term, born *bornMemo) []*cand {
	var r []*cand
	// x -> x' - x when that is a constant (or an entry-available expression)
	shift := map[*Term]Lin{}
	for s, v := range m {
		for _, x := range intViews(s) {
			nv := subst(x, func(y *Term) *Term { return m[y] }, map[*Term]*Term{})
			_ = v
			d := resolveConsts(b.st.facts, lin(nv).sub(lin(x)), born)
			bad := false
			for _, t := range d.T {
				if born.term(t.A) {
					bad = true
				}
			}
			if !bad {
				shift[x] = d
			}
		}
	}
	isHdr := func(t *Term) bool {
		return t.contains(func(y *Term) bool { _, ok := im[y]; return ok }, map[*Term]bool{})
	}
	for _, l := range b.st.facts.ges {
		n := Lin{C: l.C}
		ok, any := true, false
		for _, t := range l.T {
			if isHdr(t.A) {
				d, has := shift[t.A]
				if !has {
					ok = false
					break
				}
				any = true
				n = n.add(Lin{T: []LT{t}}).addK(d, -t.K)
			} else if born.term(t.A) {
				ok = false
				break
			} else {
				n = n.add(Lin{T: []LT{t}})
			}
		}
		if !ok || !any {
			continue
		}
		n = normGE(n)
		if n.isConst() {
			continue
		}
		nn := n
		r = append(r, &cand{lin: &nn, key: "h" + n.key()})
	}
	return r
}

// resolveConsts replaces terms of l whose value the facts pin to a constant.
func resolveConsts(f *Facts, l Lin, born *bornMemo) Lin {
	for _, t := range l.T {
		if born != nil && !born.term(t.A) {
			continue
		}
		k, ok := f.constOf(t.A)
		if !ok {
			continue
		}
		l = l.addK(Lin{T: []LT{{A: t.A, K: 1}}}, -t.K).add(Lin{C: k * t.K})
	}
	return l
}

// constOf is the constant the facts pin t to.
func (f *Facts) constOf(t *Term) (int64, bool) {
	for _, g := range f.ges {
		if len(g.T) != 1 || g.T[0].A != t || (g.T[0].K != 1 && g.T[0].K != -1) {
			continue
		}
		// t*K + C >= 0
		k := -g.C * g.T[0].K
		if f.hasGE(normGE(g.neg()).hkey()) {
			return k, true
		}
	}
	return 0, false
}

func intViews(s *Term) []*Term {
	if s.Typ == nil {
		return nil
	}
	if isInt(s.Typ) {
		return []*Term{s}
	}
	if isSliceT(s.Typ) {
		return []*Term{mk(OpLen, intTyp, "", s), mk(OpCap, intTyp, "", s)}
	}
	if isString(s.Typ) {
		return []*Term{lenOfBytes(s)}
	}
	return nil
}

// incRelations proposes a*x - b*y = const for variables that advance by constants.
func incRelations(back []*Thread, im map[*Term]*Term, nx func(*Thread) map[*Term]*Term) []*cand {
	if len(back) == 0 {
		return nil
	}
	type v struct {
		x    *Term
		init *Term
		inc  []int64
	}
	var vs []*v
	var syms []*Term
	for s := range im {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].ID < syms[j].ID })
	for _, s := range syms {
		for _, x := range intViews(s) {
			if x.Op == OpCap {
				continue
			}
			iv := subst(x, func(y *Term) *Term { return im[y] }, map[*Term]*Term{})
			vs = append(vs, &v{x: x, init: iv})
		}
	}
	for _, b := range back {
		m := nx(b)
		for _, w := range vs {
			if w == nil {
				continue
			}
			nv := subst(w.x, func(y *Term) *Term { return m[y] }, map[*Term]*Term{})
			d := resolveConsts(b.st.facts, lin(nv).sub(lin(w.x)), nil)
			if !d.isConst() {
				w.x = nil
			} else {
				w.inc = append(w.inc, d.C)
			}
		}
		out := vs[:0]
		for _, w := range vs {
			if w.x != nil {
				out = append(out, w)
			}
		}
		vs = out
	}
	var r []*cand
	for i, a := range vs {
		for _, b := range vs[:i] {
			// find constants p,q with p*inc(a) == q*inc(b) on every back edge
			var p, q int64
			for k := range a.inc {
				if a.inc[k] != 0 && b.inc[k] != 0 {
					p, q = b.inc[k], a.inc[k]
					break
				}
			}
			if p == 0 {
				continue
			}
			g := gcd(p, q)
			p, q = p/g, q/g
			if p < 0 {
				p, q = -p, -q
			}
			ok := true
			for k := range a.inc {
				if p*a.inc[k] != q*b.inc[k] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			l := lin(a.x).sub(lin(a.init)).scale(p).sub(lin(b.x).sub(lin(b.init)).scale(q))
			if l.isConst() {
				continue
			}
			r = append(r, &cand{lin: &l, eq: true, key: "r" + l.key()})
		}
	}
	return r
}

var debugLoops = os.Getenv("TL_DEBUG")

func dbgLoop(id string, round, why int, xs ...any) {
	if debugLoops != "" && strings.Contains(id, debugLoops) {
		fmt.Fprintln(os.Stderr, "loop", id, "round", round, "why", why, fmt.Sprint(xs...))
	}
}

const maxUnroll = 8

// tripCount is the number of iterations of a loop that counts up to a small constant, or 0.
func (e *Engine) tripCount(fr *Frame, t *Thread, header *ssa.BasicBlock) int {
	iff, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return 0
	}
	body := fr.info.loops[header]
	if !body[header.Succs[0]] || body[header.Succs[1]] {
		return 0
	}
	// phi < n, or phi+1 < n
	x := cond.X
	off := int64(0)
	if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == header {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
			x, off = b.X, 1
		}
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != header {
		return 0
	}
	// the counter goes up by one on every way round
	for i, p := range header.Preds {
		if !body[p] {
			continue
		}
		b, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return 0
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
			return 0
		}
	}
	if in, ok := cond.Y.(ssa.Instruction); ok && body[in.Block()] {
		return 0
	}
	n, ok := fr.val(t, cond.Y).intConst()
	if !ok {
		return 0
	}
	i0 := int64(-1)
	for i, p := range header.Preds {
		if p == t.prev {
			v, ok := fr.val(t, phi.Edges[i]).intConst()
			if !ok {
				return 0
			}
			i0 = v
		}
	}
	if k := n - i0 - off; k > 0 && k <= maxUnroll {
		return int(k)
	}
	return 0
}

// iterFrame is the frame of one iteration.
func (e *Engine) iterFrame(fr *Frame, header *ssa.BasicBlock, k int) *Frame {
	p := fr.path + "~" + strconv.Itoa(header.Index) + "." + strconv.Itoa(k)
	key := p + "|" + fr.fn.String() + argKey(fr.bind)
	if x, ok := e.frames[key]; ok {
		return x
	}
	x := *fr
	x.path, x.of = p, fr
	e.frames[key] = &x
	return &x
}
