package main

// The torrent database as the rules see it: tables, records, critical sections
// and what a path does to the stored peers.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isNamed(t types.Type, pkgSuffix, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == name && strings.HasSuffix(n.Obj().Pkg().Path(), pkgSuffix)
}

func isPeerPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), "/tracker/storage", "Peer")
}

// isPeerTable: a map of peer records.
func isPeerTable(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isPeerPtr(m.Elem())
}

// isTorrentRec: the record of a torrent, a struct with a mutex and a table of peers.
func isTorrentRec(t types.Type) bool {
	st := structOf(t)
	if st == nil || !hasMutex(t) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isPeerTable(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// isTorrentTable: a map of torrent records.
func isTorrentTable(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	return ok && isTorrentRec(p.Elem())
}

// lockOwner gives the type of the struct a mutex lies in.
func lockOwner(a *Term) types.Type {
	for a.Op == OpField {
		et, _ := structOfPtr(a.Args[0])
		if et != nil && !isSyncType(et) {
			return et
		}
		a = a.Args[0]
	}
	return nil
}

func guardsPeers(a *Term) bool {
	t := lockOwner(a)
	return t != nil && isTorrentRec(t)
}

func guardsTorrents(a *Term) bool {
	t := lockOwner(a)
	if t == nil {
		return false
	}
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if isTorrentTable(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// lockBase is the struct a held mutex belongs to.
func lockBase(a *Term) *Term {
	for a.Op == OpField {
		et, _ := structOfPtr(a.Args[0])
		if et != nil && !isSyncType(et) {
			return a.Args[0]
		}
		a = a.Args[0]
	}
	return a
}

// tableOwner gives the struct whose field holds the map.
func tableOwner(m *Term, st *State) *Term {
	if m.Op == OpLoad && m.Args[0].Op == OpField {
		return m.Args[0].Args[0]
	}
	var r *Term
	if st != nil {
		for k, v := range st.heap {
			if v == m && k.Op == OpField && (r == nil || k.Args[0].ID < r.ID) {
				r = k.Args[0]
			}
		}
	}
	return r
}

func heldOn(locks []LockHeld, base *Term, write bool) *LockHeld {
	for i := len(locks) - 1; i >= 0; i-- {
		if lockBase(locks[i].Addr) == base && (!write || locks[i].Write) {
			return &locks[i]
		}
	}
	return nil
}

// peerField is the address of a field of a peer record.
func peerField(q *Term, name string) *Term { return fieldByName(q, name) }

func loadField(st *State, base *Term, name string) *Term {
	a := fieldByName(base, name)
	if a == nil {
		return nil
	}
	return st.load(a, deref(a.Typ))
}

// Seg is a stretch of a path that no loop and no torrent lock operation interrupts.
type Seg struct {
	Evs      []*Event
	From, To *State
	Locks    []LockHeld // held throughout
	Path     *DPath
}

// DPath is a path through a function, or one iteration of a loop.
type DPath struct {
	Name  string
	Evs   []*Event
	From  *State
	To    *State
	Loop  *LoopRec
	Out   *Outcome
	Segs  []*Seg
	Exit  bool // ends the process
	Stays bool // never ends
}

func (d *DPath) split() {
	cur := &Seg{From: d.From, Path: d}
	end := func(to, next *State) {
		cur.To = to
		if len(cur.Evs) > 0 {
			cur.Locks = cur.Evs[0].Locks
		}
		d.Segs = append(d.Segs, cur)
		cur = &Seg{From: next, Path: d}
	}
	for _, ev := range d.Evs {
		switch {
		case ev.Kind == "loop" && ev.Loop != nil:
			end(ev.Loop.Entry, ev.Loop.HdrSt)
			continue
		case (ev.Kind == "lock" || ev.Kind == "unlock") && ev.St != nil:
			end(ev.St, ev.St)
			continue
		}
		cur.Evs = append(cur.Evs, ev)
	}
	end(d.To, d.To)
}

// dpaths gives the paths of a run: from entry to return, and each loop iteration.
func dpaths(r *Run) []*DPath {
	var ps []*DPath
	for i := range r.Outs {
		o := &r.Outs[i]
		ps = append(ps, &DPath{Name: r.Name, Evs: o.st.trace.since(nil), From: r.Init, To: o.st, Out: o})
	}
	for _, l := range r.Loops {
		for _, it := range l.Iters {
			ps = append(ps, &DPath{Name: l.ID, Evs: it.Events, From: l.HdrSt, To: it.St, Loop: l})
		}
	}
	for _, p := range ps {
		p.split()
	}
	return ps
}

// effect is what a stretch of a path does to one slot of a peer table.
type effect struct {
	Owner, M, Key *Term
	Has           *Term // whether the slot was used before (nil: it was)
	Before        *Term // the record before
	BeforeSt      *State
	After         *Term // the record after (nil: slot empty)
	AfterSt       *State
	Ev            *Event
	Seg           *Seg
}

// effects gives what a segment does to stored peers.
func (g *Seg) effects() []*effect {
	var out []*effect
	find := func(m, k *Term) *effect {
		for _, e := range out {
			if e.M == m && e.Key == k {
				return e
			}
		}
		return nil
	}
	for _, ev := range g.Evs {
		if (ev.Kind != "mapset" && ev.Kind != "mapdel") || !isPeerTable(ev.Args[0].Typ) {
			continue
		}
		m, k := ev.Args[0], ev.Args[1]
		e := find(m, k)
		if e == nil {
			e = &effect{Owner: tableOwner(m, g.To), M: m, Key: k, Has: ev.Args[3], Before: ev.Args[4], BeforeSt: g.From, AfterSt: g.To, Seg: g}
			out = append(out, e)
		}
		e.Ev = ev
		e.After = nil
		if ev.Kind == "mapset" {
			e.After = ev.Args[2]
		}
	}
	// records changed in place
	for _, ev := range g.Evs {
		if ev.Kind != "store" || ev.Args[0].Op != OpField {
			continue
		}
		q := ev.Args[0].Args[0]
		et, _ := structOfPtr(q)
		if et == nil || !isNamed(et, "/tracker/storage", "Peer") {
			continue
		}
		known := false
		for _, e := range out {
			if e.Before == q || e.After == q {
				known = true
			}
		}
		if known {
			continue
		}
		out = append(out, &effect{Owner: nil, Before: q, BeforeSt: g.From, After: q, AfterSt: g.To, Ev: ev, Seg: g})
	}
	return out
}

// slotOf finds the table slot a record was found in on the path.
func slotOf(evs []*Event, q *Term) (owner, m, key *Term) {
	deep(evs, func(ev *Event, _ *LoopRec) {
		if m != nil {
			return
		}
		switch ev.Kind {
		case "range":
			if ev.Args[2] == q && isPeerTable(ev.Args[0].Typ) {
				m, key = ev.Args[0], ev.Args[1]
			}
		case "mapget", "mapset":
			if !isPeerTable(ev.Args[0].Typ) {
				return
			}
			if ev.Kind == "mapset" && ev.Args[2] == q {
				m, key = ev.Args[0], ev.Args[1]
			} else if q.Op == OpLoad && q.Args[0].Op == OpMapVal && q.Args[0].Args[0] == ev.Args[0] && q.Args[0].Args[1] == ev.Args[1] {
				m, key = ev.Args[0], ev.Args[1]
			}
		}
	})
	if m != nil {
		owner = tableOwner(m, nil)
	}
	return
}

// modSum is the value of an unsigned counter modulo 2^32 (wrapping and widening removed); nil if narrower arithmetic is involved.
func modSum(t *Term) *Lin {
	switch t.Op {
	case OpConv, OpWrap:
		if len(t.Args) == 1 && isInt2(t.Typ) && intSize(t.Typ) >= 4 {
			return modSum(t.Args[0])
		}
		if len(t.Args) == 1 {
			return nil
		}
	case OpLin:
		r := Lin{C: t.L.C}
		for _, x := range t.L.T {
			s := modSum(x.A)
			if s == nil {
				return nil
			}
			r = r.addK(*s, x.K)
		}
		return &r
	}
	l := lin(t)
	if t.Op != OpLin && t.L == nil {
		l = Lin{T: []LT{{t, 1}}}
	}
	return &l
}

// change gives to - from modulo 2^32 if it is a constant.
func change(from, to *Term) (int64, bool) {
	a, b := modSum(from), modSum(to)
	if a == nil || b == nil {
		return 0, false
	}
	d := b.sub(*a)
	for _, t := range []*Term{from, to} {
		if t.Typ != nil && isInt2(t.Typ) && intSize(t.Typ) == 4 {
			d.C = int64(int32(d.C))
			break
		}
	}
	return d.C, d.isConst()
}

// counterBefore: the value of a torrent's counter at the start of a segment (zero for one made in it).
func fieldBefore(st *State, base *Term, name string) *Term {
	a := fieldByName(base, name)
	if a == nil {
		return nil
	}
	if st.private(root(base)) { // not made yet, or not shared yet
		if _, ok := st.heap[a]; !ok {
			return mkInt(0)
		}
	}
	return st.load(a, deref(a.Typ))
}

// dbOps analyses the named operations of the database from arbitrary states.
func (c *Check) dbOps(names ...string) []*Run {
	var r []*Run
	for _, fn := range c.s.dbMethods(names...) {
		c.inst("operation", fnName(fn))
		r = append(r, c.s.run(fn))
	}
	return r
}

// backupMethods: the implementations of a method of storage.Backup.
func (s *Session) backupMethods(names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, t := range s.p.implementers("/tracker/storage", "Backup") {
		for _, n := range names {
			if f := s.p.method(t, n); f != nil && len(f.Blocks) > 0 {
				r = append(r, f)
			}
		}
	}
	return r
}

// eqTerms: equal on every execution of the path.
func eqTerms(f *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b || strip(a) == strip(b) {
		return true
	}
	if isLinear(a) && isLinear(b) {
		return f.entailsEq(lin(a).sub(lin(b)))
	}
	if isBoolT2(a.Typ) || isBoolT2(b.Typ) {
		ok := true
		forBool(f, a, func(g *Facts, x bool) {
			forBool(g, b, func(_ *Facts, y bool) {
				if x != y {
					ok = false
				}
			})
		})
		return ok
	}
	return f.eval(mkEq(a, b)) == True
}

func isBoolT2(t types.Type) bool { return t != nil && isBoolT(t) }
