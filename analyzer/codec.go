package main

// Matching of encoders and decoders: the layout of what an encoder writes is read off its content
// term (pieces, and repetitions for loops); the decoder's paths are then evaluated on that content.

import (
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

// encNode is a piece of encoded bytes or a repetition.
type encNode struct {
	T   *Term
	Rep *encRep
}

type encRep struct {
	L       *LoopRec
	Sym     *Term
	M, K, V *Term // the table ranged over
	N       *Term // number of records
	Iters   []*encIter
	Exits   bool
}

type encIter struct {
	It    LoopIter
	Nodes []encNode
}

// layout reads the structure of an encoded content.
type layouter struct {
	loops map[*Term][2]any // content -> loop, symbol
	why   string
	depth int
}

func newLayouter(r *Run) *layouter {
	y := &layouter{loops: map[*Term][2]any{}}
	for _, l := range r.Loops {
		for s := range l.Init {
			h := l.headerContent(s)
			if s.Typ == nil || isString(s.Typ) || isSliceT(s.Typ) {
				y.loops[s] = [2]any{l, s}
				y.loops[h] = [2]any{l, s}
			}
		}
	}
	return y
}

func (y *layouter) expand(c, stop *Term) []encNode {
	var out []encNode
	y.depth++
	defer func() { y.depth-- }()
	if y.depth > 30 {
		y.why = "nesting"
		return nil
	}
	for _, p := range concatParts(c) {
		if p == stop {
			continue
		}
		if p.Op == OpZeros && p.Aux == "spare" {
			continue
		}
		if s, ok := p.strConst(); ok && s == "" {
			continue
		}
		q := p
		if p.Op == OpSub && isZero(p.Args[1]) {
			if _, ok := y.loops[p.Args[0]]; ok && lenOfBytes(p.Args[0]) == p.Args[2] {
				q = p.Args[0]
			}
		}
		if x, ok := y.loops[q]; ok {
			l, s := x[0].(*LoopRec), x[1].(*Term)
			iv := l.Init[s]
			if s.Typ != nil && isSliceT(s.Typ) {
				iv = l.Entry.bytesOf(iv)
			}
			if iv != stop {
				out = append(out, y.expand(iv, stop)...)
			}
			out = append(out, encNode{Rep: y.rep(l, s)})
			continue
		}
		out = append(out, encNode{T: p})
	}
	return out
}

func (y *layouter) rep(l *LoopRec, s *Term) *encRep {
	r := &encRep{L: l, Sym: s}
	h := l.headerContent(s)
	for _, it := range l.Iters {
		nv := it.Next[s]
		if nv == nil {
			y.why = "the content is not tracked through a loop"
			continue
		}
		nc := nv
		if s.Typ != nil && isSliceT(s.Typ) {
			nc = it.St.bytesOf(nv)
		}
		if nc != h && concatParts(y.lead(nc, h))[0] != h {
			y.why = "a loop does not append to what it has written"
		}
		r.Iters = append(r.Iters, &encIter{It: it, Nodes: y.expand(nc, h)})
		for _, ev := range it.Events {
			if ev.Kind == "range" {
				r.M, r.K, r.V = ev.Args[0], ev.Args[1], ev.Args[2]
				break
			}
			if ev.Kind == "loop" {
				break
			}
		}
	}
	if r.M != nil {
		if n := l.Entry.heap[mk(OpMapLen, intTyp, "", r.M)]; n != nil {
			r.N = n
		} else {
			r.N = l.Entry.load(mk(OpMapLen, intTyp, "", r.M), intTyp)
		}
	}
	return r
}

// lead follows the first part of a content through inner loops to where it starts.
func (y *layouter) lead(c, stop *Term) *Term {
	for i := 0; i < 20; i++ {
		p := concatParts(c)[0]
		if p == stop {
			return c
		}
		x, ok := y.loops[p]
		if !ok {
			return c
		}
		l, s := x[0].(*LoopRec), x[1].(*Term)
		iv := l.Init[s]
		if s.Typ != nil && isSliceT(s.Typ) {
			iv = l.Entry.bytesOf(iv)
		}
		c = iv
	}
	return c
}

// ---- evaluation of decoder terms on encoded content

type evalr struct {
	f    *Facts
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newEvalr(f *Facts, m map[*Term]*Term) *evalr {
	return &evalr{f, m, map[*Term]*Term{}}
}

func (e *evalr) lin(x Lin) Lin {
	r := Lin{C: x.C}
	for _, t := range x.T {
		r = r.addK(lin(e.ev(t.A)), t.K)
	}
	return r
}

func (e *evalr) ev(t *Term) *Term {
	if r, ok := e.m[t]; ok {
		return r
	}
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.ev1(t)
	e.memo[t] = r
	return r
}

func (e *evalr) ev1(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = e.ev(a)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case OpLin:
		return mkLin(e.lin(*t.L))
	case OpGE:
		return mkGE(lin(args[0]))
	case OpEQZ:
		return mkEQZ(lin(args[0]))
	case OpNot:
		return mkNot(args[0])
	case OpLen:
		return lenT(args[0])
	case OpCap:
		return capT(args[0])
	case OpEq:
		return mkEq(args[0], args[1])
	case OpConcat:
		return mkConcat(args...)
	case OpSub:
		return mkSub(e.f, args[0], lin(args[1]), lin(args[2]))
	case OpUpd:
		return mkUpd(e.f, args[0], lin(args[1]), lin(args[2]), args[3])
	case OpSel:
		if p := mkSub(e.f, args[0], lin(args[1]), linC(1)); p.Op == OpEnc && p.Idx == 1 && p.Aux != "bool:1" {
			if v := p.Args[0]; e.inRange(v, byteTyp) {
				return v
			}
			return mk(OpConv, byteTyp, "", p.Args[0])
		}
		return mkSel(e.f, args[0], lin(args[1]), t.Typ)
	case OpDec:
		if len(args) == 2 {
			return e.dec(t.Aux, args[0], lin(args[1]), t.Typ)
		}
	case OpConv:
		if isInt(t.Typ) && e.inRange(args[0], t.Typ) {
			return args[0]
		}
	case OpCall:
		switch t.Aux {
		case "addrfrom":
			if args[0].Op == OpCall && args[0].Aux == "addrbytes" {
				return args[0].Args[0]
			}
		case "addrport":
			a, p := args[0], args[1]
			if a.Op == OpCall && a.Aux == "ap.addr" && p.Op == OpCall && p.Aux == "ap.port" && a.Args[0] == p.Args[0] {
				return a.Args[0]
			}
		}
	}
	r := mk(t.Op, t.Typ, t.Aux, args...)
	if t.Op != OpLoad {
		r.Idx, r.Fn = t.Idx, t.Fn
	}
	return r
}

// inRange: a value keeps its value as an integer of the type.
func (e *evalr) inRange(v *Term, typ types.Type) bool {
	lo, hi, hasLo, hasHi, ok := intRange(typ)
	if !ok {
		return false
	}
	if v.Typ != nil && typeKey(v.Typ) == typeKey(typ) {
		return true
	}
	x := lin(v)
	if hasLo && !e.f.entails(x.addC(-lo)) {
		return false
	}
	if hasHi && !e.f.entails(linC(hi).sub(x)) {
		return false
	}
	return hasHi || v.Typ == nil || intSize(v.Typ) <= intSize(typ)
}

func (e *evalr) dec(order string, c *Term, pos Lin, typ types.Type) *Term {
	sz := fixedSize(typ)
	if isBoolT(typ) {
		sz = 1
	}
	if sz > 0 {
		p := mkSub(e.f, c, pos, linC(int64(sz)))
		if p.Op == OpEnc && len(p.Args) == 1 && p.Idx == sz {
			v := p.Args[0]
			if isBoolT(typ) {
				if p.Aux == "bool:1" {
					return v
				}
			} else if isInt(typ) && (sz == 1 || p.Aux == order+":"+strconv.Itoa(sz)) && p.Aux != "bool:1" {
				if e.inRange(v, typ) {
					return v
				}
				return mk(OpConv, typ, "", v)
			}
		}
	}
	return decodeVal(e.f, order, c, pos, typ)
}

// feasible evaluates a path's facts; nil if they contradict the substitution.
func (e *evalr) feasible(p *Facts) *Facts {
	if os.Getenv("TL_CODEC") != "" {
		for k, v := range e.m {
			println("   map", k.String(), "=>", v.String())
		}
		for _, l := range p.ges {
			println("   ge", mkLin(l).String(), "  =>  ", mkLin(e.lin(l)).String())
		}
		for _, l := range p.neqs {
			println("   ne", mkLin(l).String(), "  =>  ", mkLin(e.lin(l)).String())
		}
		println()
	}
	g := e.f.clone()
	for _, l := range p.ges {
		x := e.lin(l)
		if x.isConst() {
			if x.C < 0 {
				return nil
			}
			continue
		}
		if g.entails(x.neg().addC(-1)) {
			return nil
		}
		g.addGE(x)
	}
	for _, l := range p.neqs {
		x := e.lin(l)
		if x.isConst() {
			if x.C == 0 {
				return nil
			}
			continue
		}
		if g.entailsEq(x) {
			return nil
		}
		g.addNEQ(x)
	}
	ks := make([]*Term, 0, len(p.bools))
	for k := range p.bools {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		x := e.ev(k)
		switch g.eval(x) {
		case True:
			if !p.bools[k] {
				return nil
			}
		case False:
			if p.bools[k] {
				return nil
			}
		default:
			if !g.assume(x, p.bools[k]) {
				return nil
			}
		}
	}
	if g.infeasible(linC(0)) {
		return nil
	}
	return g
}

// ---- simulation

// pathOf is a path of the decoder: an iteration, or a way out.
type decPath struct {
	st   *State
	evs  []*Event
	it   *LoopIter
	d    *DPath
	what string
}

type recon struct {
	c     *Check
	label string
	rec   map[*Term]bool // addrbytes lengths assumed 4 or 16
	dec   *Run
	back  []*Term // contents the decoder reads
	sl    *Term   // the slice value
	bad   func(rule string, ev *Event, msg string, evs []*Event)
	nRep  int
	nIter int
	nPath int
	fresh int
	tab   []*recTable
	todo  []func()
	fail  bool
}

// recTable: a repetition and where the decoder put its records.
type recTable struct {
	rep   *encRep
	table *Term // the decoder's table
	value *Term // the value put into the outer table on the path around
}

func (rc *recon) sym(nm string) *Term {
	rc.fresh++
	return mk(OpSym, strTyp, "codec:"+rc.label+":"+nm+strconv.Itoa(rc.fresh))
}

func (rc *recon) with(m map[*Term]*Term, parts []*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	e := mkConcat(append([]*Term{mkStr("")}, parts...)...)
	for _, b := range rc.back {
		n[b] = e
	}
	n[lenT(rc.sl)] = lenOfBytes(e)
	if rc.sl.Typ != nil && isSliceT(rc.sl.Typ) {
		n[capT(rc.sl)] = lenOfBytes(e)
	}
	return n
}

func cat(a []*Term, b ...*Term) []*Term {
	return append(append([]*Term{}, a...), b...)
}

func total(ps []*Term) Lin {
	r := Lin{}
	for _, p := range ps {
		r = r.add(lin(lenOfBytes(p)))
	}
	return r
}

func copyMap(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m)+8)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// posOf finds the header symbol of a decoder loop that starts at the position.
func (rc *recon) posOf(l *LoopRec, e *evalr, at Lin) *Term {
	var r *Term
	for s, iv := range l.Init {
		if s.Typ == nil || !isInt(s.Typ) {
			continue
		}
		cell := l.Cell[s]
		isPos := cell != nil && cell.Op == OpPseudo && cell.Aux == "pos"
		if !isPos && cell != nil && cell.Op != OpAlloc {
			continue
		}
		if x := e.lin(lin(iv)).sub(at); x.isConst() && x.C == 0 || e.f.entailsEq(x) {
			if isPos {
				return s
			}
			if at.isConst() {
				continue // not enough to tell
			}
			r = s
		}
	}
	return r
}

// counters: header symbols that change by the same constant in every iteration.
func counters(l *LoopRec, pos *Term) map[*Term]int64 {
	out := map[*Term]int64{}
next:
	for s := range l.Init {
		if s == pos || s.Typ == nil || !isInt(s.Typ) {
			continue
		}
		var k *int64
		for _, it := range l.Iters {
			nv := it.Next[s]
			if nv == nil {
				continue next
			}
			d := lin(nv).sub(lin(s))
			if !d.isConst() || k != nil && *k != d.C {
				continue next
			}
			x := d.C
			k = &x
		}
		if k != nil {
			out[s] = *k
		}
	}
	return out
}

// region checks the paths of a piece of the decoder (an iteration, or the whole of it) against
// the pieces it is to read: prefix, nodes, suffix are what precedes, is and follows it.
func (rc *recon) region(nodes []encNode, prefix, suffix []*Term, m map[*Term]*Term, f *Facts, paths []decPath, in *encRep, good func(p decPath, e *evalr, next Lin) bool) {
	rc.nIter++
	body := []*Term{}
	type repAt struct {
		rep    *encRep
		before []*Term
		r      *Term
		idx    int
	}
	var reps []*repAt
	for _, n := range nodes {
		if n.Rep != nil {
			r := rc.sym("records")
			reps = append(reps, &repAt{n.Rep, append([]*Term{}, body...), r, len(body)})
			body = append(body, r)
			continue
		}
		body = append(body, n.T)
	}
	f = nonNeg(f, cat(cat(prefix, body...), suffix...))
	for _, ra := range reps {
		if ra.rep.N != nil {
			// a table has fewer than 2^32 entries
			f.addGE(lin(ra.rep.N))
			f.addGE(linC(1<<32 - 1).sub(lin(ra.rep.N)))
		}
	}
	full := rc.with(m, cat(cat(prefix, body...), suffix...))
	e := newEvalr(f, full)
	// the loops that read the repetitions
	type pair struct {
		ra  *repAt
		l   *LoopRec
		pos *Term
	}
	var pairs []*pair
	for _, ra := range reps {
		seen := map[*LoopRec]bool{}
		at := total(prefix).add(total(ra.before))
		for _, p := range paths {
			for _, ev := range p.evs {
				if l := ev.Loop; l != nil && !seen[l] {
					seen[l] = true
					if s := rc.posOf(l, e, at); s != nil && hasReads(l, rc.back) {
						pairs = append(pairs, &pair{ra, l, s})
					}
				}
			}
		}
	}
	exitMap := copyMap(full)
	for _, q := range pairs {
		exitMap[q.pos] = mkLin(total(prefix).add(total(q.ra.before)).add(lin(lenOfBytes(q.ra.r))))
		if q.ra.rep.N == nil {
			continue
		}
		for s, k := range counters(q.l, q.pos) {
			exitMap[s] = mkLin(e.lin(lin(q.l.Init[s])).add(lin(q.ra.rep.N).scale(k)))
		}
	}
	for i := range reps {
		n := 0
		for _, q := range pairs {
			if q.ra == reps[i] {
				n++
			}
		}
		if n == 0 {
			rc.bad("layout", nil, "no loop of the decoder starts where the records of "+trunc(reps[i].rep.M.String(), 80)+" begin", nil)
			rc.fail = true
			return
		}
	}
	// the paths
	e = newEvalr(f, exitMap)
	next := total(prefix).add(total(body))
	ok := 0
	for _, p := range paths {
		rc.nPath++
		g := e.feasible(p.st.facts)
		if g == nil {
			continue
		}
		if good(p, newEvalr(g, exitMap), next) {
			ok++
		}
	}
	if ok == 0 && !rc.fail {
		rc.bad("readable", nil, "no path of the decoder "+rc.dec.Name+" accepts what the encoder writes ("+describe(nodes)+")", nil)
		rc.fail = true
	}
	// the repetitions
	for _, q := range pairs {
		rc.repetition(q.l, q.pos, q.ra.rep, cat(prefix, q.ra.before...), cat(body[q.ra.idx+1:], suffix...), m, e, f, exitMap)
	}
}

func describe(ns []encNode) string {
	var s []string
	for _, n := range ns {
		if n.Rep != nil {
			s = append(s, "records")
		} else {
			s = append(s, trunc(n.T.String(), 60))
		}
	}
	return strings.Join(s, ", ")
}

func hasReads(l *LoopRec, backs []*Term) bool {
	back := map[*Term]bool{}
	for _, b := range backs {
		back[b] = true
	}
	if loopHas(l, isRead) {
		return true
	}
	for _, it := range l.Iters {
		for _, g := range it.St.facts.ges {
			for _, x := range g.T {
				if x.A.contains(func(t *Term) bool { return back[t] }, map[*Term]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

// addrLens: the lengths of addresses in the pieces of a record.
func addrLens(ns []encNode) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, n := range ns {
		if n.T != nil && n.T.Op == OpCall && n.T.Aux == "addrbytes" {
			if l := lenOfBytes(n.T); !l.isConst() && !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

func (rc *recon) repetition(l *LoopRec, pos *Term, rep *encRep, before, after []*Term, m map[*Term]*Term, outer *evalr, f *Facts, outerMap map[*Term]*Term) {
	rc.nRep++
	cs := counters(l, pos)
	t := mk(OpSym, intTyp, "codec:"+rc.label+":t"+strconv.Itoa(rc.nRep))
	at := func(parts []*Term, p Lin, count Lin) map[*Term]*Term {
		n := rc.with(m, parts)
		n[pos] = mkLin(p)
		for s, k := range cs {
			n[s] = mkLin(outer.lin(lin(l.Init[s])).add(count.scale(k)))
		}
		return n
	}
	// with a record left
	for _, it := range rep.Iters {
		if len(it.Nodes) == 0 {
			// a record that is not written
			if !emptyRecord(rep, it) {
				evs := it.It.Events
				rc.bad("nothing-dropped", lastEv(evs), "a record is not written", evs)
			}
			continue
		}
		base := it.It.St.facts.clone()
		for _, g := range f.ges {
			base.addGE(g)
		}
		if rep.N != nil {
			base.addGE(lin(t))
			base.addGE(lin(rep.N).sub(lin(t)).addC(-1))
			base.addGE(linC(1<<32 - 1).sub(lin(rep.N)))
		}
		lens := addrLens(it.Nodes)
		for cas := 0; cas < 1<<uint(len(lens)); cas++ {
			b := base.clone()
			for i, x := range lens {
				k := int64(4)
				if cas>>uint(i)&1 == 1 {
					k = 16
				}
				d := lin(x).addC(-k)
				b.addGE(d)
				b.addGE(d.neg())
			}
			if b.infeasible(linC(0)) {
				continue
			}
			r1, r2 := rc.sym("records"), rc.sym("records")
			prefix := cat(before, r1)
			suffix := cat([]*Term{r2}, after...)
			mm := rc.with(m, nil)
			mm[pos] = mkLin(total(prefix))
			for s, k := range cs {
				mm[s] = mkLin(outer.lin(lin(l.Init[s])).add(lin(t).scale(k)))
			}
			var paths []decPath
			for i := range l.Iters {
				x := &l.Iters[i]
				paths = append(paths, decPath{st: x.St, evs: x.Events, it: x, what: "iteration"})
			}
			for _, x := range l.Exits {
				paths = append(paths, decPath{st: x.st, evs: x.st.trace.since(l.HdrSt.trace), what: "exit"})
			}
			rc.region(it.Nodes, prefix, suffix, mm, b, paths, rep, func(p decPath, e *evalr, next Lin) bool {
				if p.it == nil {
					rc.bad("reads-all", lastEv(p.evs), "the decoder stops before the last record", p.evs)
					rc.fail = true
					return false
				}
				if np := p.it.Next[pos]; np == nil || !e.f.entailsEq(e.lin(lin(np)).sub(next)) {
					rc.bad("same-length", lastEv(p.evs), "the decoder does not read a record to its end ("+describe(it.Nodes)+")", p.evs)
					rc.fail = true
					return false
				}
				rc.restored(l, rep, p, e)
				return true
			})
			if rc.fail {
				return
			}
		}
	}
	// with none left
	r := rc.sym("records")
	prefix := cat(before, r)
	n := Lin{}
	if rep.N != nil {
		n = lin(rep.N)
	}
	mm := at(cat(prefix, after...), total(prefix), n)
	e := newEvalr(nonNeg(f, cat(prefix, after...)), mm)
	for i := range l.Iters {
		if e.feasible(l.Iters[i].St.facts) != nil {
			rc.bad("stops", lastEv(l.Iters[i].Events), "the decoder reads more records than were written", l.Iters[i].Events)
			rc.fail = true
			return
		}
	}
}

func lastEv(evs []*Event) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Instr != nil && evs[i].Instr.Pos().IsValid() {
			return evs[i]
		}
	}
	if len(evs) > 0 {
		return evs[len(evs)-1]
	}
	return nil
}

// emptyRecord: what is left out holds nothing.
func emptyRecord(rep *encRep, it *encIter) bool {
	f := it.It.St.facts
	for c, v := range it.It.St.heap {
		if c.Op == OpMapLen && c.Args[0].Op == OpLoad && c.Args[0].Args[0].Op == OpField && c.Args[0].Args[0].Args[0] == rep.V && f.entailsEq(lin(v)) {
			return true
		}
	}
	return false
}

// restored: the record read goes into one table under the key it was written with, field by field.
func (rc *recon) restored(l *LoopRec, rep *encRep, p decPath, e *evalr) {
	var sets []*Event
	for _, ev := range p.evs {
		if ev.Kind == "mapset" && types.Identical(ev.Args[0].Typ.Underlying(), rep.M.Typ.Underlying()) {
			sets = append(sets, ev)
		}
	}
	if len(sets) == 0 {
		rc.bad("restored", lastEv(p.evs), "a record that was read is not put into a table", p.evs)
		return
	}
	ev := sets[len(sets)-1]
	if len(sets) > 1 {
		rc.bad("restored", ev, "a record that was read is put into a table twice", p.evs)
	}
	if k := e.ev(ev.Args[1]); k != rep.K && !sameVal(e.f, k, rep.K) {
		rc.bad("same-key", ev, "a record is restored under "+trunc(k.String(), 100)+" instead of the key it was written with", p.evs)
	}
	rc.tab = append(rc.tab, &recTable{rep, ev.Args[0], ev.Args[2]})
	v := ev.Args[2]
	born := &bornMemo{l.Fr, l.Fr.info.loops[l.Header], map[*Term]bool{}}
	if pt, ok := rep.V.Typ.Underlying().(*types.Pointer); ok {
		su, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		if !born.term(v) {
			rc.bad("own-record", ev, "several records are restored into the same memory: "+trunc(v.String(), 100), p.evs)
		}
		for i := 0; i < su.NumFields(); i++ {
			fd := su.Field(i)
			if isMutexType(fd.Type()) || fd.Name() == "_" {
				continue
			}
			got := p.st.load(fieldAddr(v, i, types.NewPointer(fd.Type())), fd.Type())
			if mt, ok := fd.Type().Underlying().(*types.Map); ok {
				if !born.term(got) {
					rc.bad("own-record", ev, "several records share one table: "+trunc(got.String(), 100), p.evs)
				}
				// the table of the inner records
				found := false
				for _, x := range rc.tab {
					if x.rep != rep && types.Identical(x.rep.M.Typ.Underlying(), mt) {
						found = true
						if x.table != got {
							rc.bad("same-table", ev, "the inner records are not put into the table of the record they belong to", p.evs)
						}
					}
				}
				rc.later(func() {
					if found {
						return
					}
					for _, x := range rc.tab {
						if x.rep != rep && types.Identical(x.rep.M.Typ.Underlying(), mt) {
							found = true
							if x.table != got {
								rc.bad("same-table", ev, "the inner records are not put into the table of the record they belong to", p.evs)
							}
						}
					}
					if !found {
						rc.bad("same-table", ev, "the inner records are not restored", p.evs)
					}
				})
				continue
			}
			if isTorrentRec(pt.Elem()) {
				continue // the counters are derived
			}
			want := rep.Iters[0].It.St.load(fieldAddr(rep.V, i, types.NewPointer(fd.Type())), fd.Type())
			if x := e.ev(got); x != want && !sameVal(e.f, x, want) {
				rc.bad("same-field", ev, "field "+fd.Name()+" of a record is restored as "+trunc(x.String(), 120)+" instead of what was written", p.evs)
			}
			rc.c.inst("field", rc.label+":"+pt.Elem().String()+"."+fd.Name())
		}
		return
	}
	if su, ok := rep.V.Typ.Underlying().(*types.Struct); ok {
		for i := 0; i < su.NumFields(); i++ {
			got, want := e.ev(fieldOf(v, i, su)), fieldOf(rep.V, i, su)
			if got != want {
				rc.bad("same-field", ev, "field "+su.Field(i).Name()+" of a record is restored as "+trunc(got.String(), 120)+" instead of what was written", p.evs)
			}
			rc.c.inst("field", rc.label+":"+rep.V.Typ.String()+"."+su.Field(i).Name())
		}
		return
	}
	if x := e.ev(v); x != rep.V {
		rc.bad("same-field", ev, "a record is restored as "+trunc(x.String(), 120)+" instead of what was written", p.evs)
	}
}

func sameVal(f *Facts, a, b *Term) bool {
	return strip(a) == strip(b)
}

func (rc *recon) later(f func()) { rc.todo = append(rc.todo, f) }

func (rc *recon) finish() {
	for _, f := range rc.todo {
		f()
	}
	rc.todo = nil
}

func isZero(t *Term) bool {
	n, ok := t.intConst()
	return ok && n == 0
}

// nonNeg adds that no piece has a negative length.
func nonNeg(f *Facts, ps []*Term) *Facts {
	f = f.clone()
	for _, p := range ps {
		if n := lenOfBytes(p); n.Op == OpLen {
			f.addGE(lin(n))
		}
	}
	return f
}
