package main

// The torrent database: stored records and counts (C18, C19, C21, C22).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "on every path of the database's Save: exactly one slot of one peer table is written, the table is that of the record stored under the announced hash, the slot's key is the announced peer ID, and when the torrent is released the record in it holds the announced address, port and completeness and the time of this call; no other record is written, whatever a recycled record held", func(c *Check) { c.saveStores() })
	register("C19", "on every path of the database's Drop: the only slot of a peer table removed is that of the given ID in the table stored under the given hash, a path on which both exist removes it, and a path that removes nothing changes nothing", func(c *Check) { c.dropRemoves() })
	register("C21", "in every stretch of a path between torrent lock operations and loop boundaries: the complete and incomplete counters of a torrent change (modulo 2^32, no narrower arithmetic) exactly as the number of its stored records of either class; a restored torrent's counters equal the number of its records of either class; the reported counts are both counters read under one hold of the torrent's lock", func(c *Check) {
		c.countsMatch()
		c.countsReported()
		c.countsRestored()
	})
	register("C22", "on every path: seeds, leeches and the per-address counts change exactly as the stored records of either class and their addresses do; an address whose count reaches zero is removed; after loading, every record of every torrent is visited and counted once in its class and for its address", func(c *Check) {
		c.metricsInStep()
		c.metricsSynced()
	})
}

const (
	dbMutators = "Save Drop Trim"
)

func argOf(r *Run, pred func(t types.Type) bool) *Term {
	for i, p := range r.Fn.Params {
		if i > 0 && pred(p.Type()) {
			return r.Args[i]
		}
	}
	return nil
}
func isHashT(t types.Type) bool { return isNamed(t, "/tracker/storage", "Hash") }
func isIDT(t types.Type) bool   { return isNamed(t, "/tracker/storage", "PeerID") }
func isAddrT(t types.Type) bool { return isNamed(t, "net/netip", "Addr") }

// under: the torrent record is the one stored under the hash (found or created there on the path).
func torrentUnder(evs []*Event, p, hash *Term) bool {
	if p == nil {
		return false
	}
	ok := false
	deep(evs, func(ev *Event, _ *LoopRec) {
		switch ev.Kind {
		case "mapget":
			if isTorrentTable(ev.Args[0].Typ) && ev.Args[1] == hash && p.Op == OpLoad && p.Args[0].Op == OpMapVal && p.Args[0].Args[0] == ev.Args[0] && p.Args[0].Args[1] == hash {
				ok = true
			}
		case "mapset":
			if isTorrentTable(ev.Args[0].Typ) && ev.Args[1] == hash && ev.Args[2] == p {
				ok = true
			}
		}
	})
	return ok
}

func (d *DPath) effects() []*effect {
	var r []*effect
	for _, g := range d.Segs {
		r = append(r, g.effects()...)
	}
	return r
}

// resolve finds the slot of an in-place change.
func (e *effect) resolve(d *DPath) bool {
	if e.M == nil {
		e.Owner, e.M, e.Key = slotOf(d.Evs, e.After)
	}
	if e.Owner == nil && e.M != nil {
		e.Owner = tableOwner(e.M, d.To)
	}
	return e.Owner != nil
}

func (c *Check) saveStores() {
	for _, r := range c.dbOps("Save") {
		hash, id := argOf(r, isHashT), argOf(r, isIDT)
		ip := argOf(r, isAddrT)
		port := argOf(r, func(t types.Type) bool { return isInt2(t) })
		complete := argOf(r, isBoolT)
		for _, d := range dpaths(r) {
			if d.Loop != nil {
				for _, e := range d.effects() {
					c.badEv("others-unchanged", e.Ev, "an announce writes peer records in a loop", d.Evs)
				}
				continue
			}
			if d.Out.kind != "return" {
				continue
			}
			es := d.effects()
			if len(es) == 0 {
				c.bad("stored", r.Name, fmt.Sprint("path ", pathEnd(d)), "an announce returns without storing a peer", d.Evs)
				continue
			}
			last := es[len(es)-1]
			f := d.To.facts
			for _, e := range es {
				if !e.resolve(d) {
					c.badEv("own-torrent", e.Ev, "a peer record is written that was not found in a torrent's table on this path", d.Evs)
					continue
				}
				if e.Key != id {
					c.badEv("own-slot", e.Ev, "the peer is stored under "+e.Key.String()+" instead of the announced peer ID", d.Evs)
				}
				if !torrentUnder(d.Evs, e.Owner, hash) {
					c.badEv("own-torrent", e.Ev, "the peer is stored in a torrent other than the one stored under the announced hash", d.Evs)
				}
				if e.M != last.M || e.After == nil && e == last {
					c.badEv("others-unchanged", e.Ev, "an announce changes more than one slot or removes a peer", d.Evs)
				}
			}
			q := last.After
			if q == nil {
				continue
			}
			c.inst("storing path", pathEnd(d))
			st := last.AfterSt
			for _, w := range []struct {
				name string
				want *Term
			}{{"IP", ip}, {"Port", port}, {"Complete", complete}} {
				v := loadField(st, q, w.name)
				if !eqTerms(f, v, w.want) {
					c.bad("stored-"+w.name, r.Name+":"+w.name, last.Ev.Pos(), fmt.Sprintf("when the torrent is released the stored %s is %v, not the announced one", w.name, v), d.Evs)
				}
			}
			ls := loadField(st, q, "LastSeen")
			if ls == nil || !isNow(ls, d.Evs) || !calledHere(ls, d.Evs) {
				c.bad("stored-LastSeen", r.Name+":LastSeen", last.Ev.Pos(), fmt.Sprintf("when the torrent is released the stored last-seen time is %v, not the time of this announce in seconds", ls), d.Evs)
			}
			c.otherTorrents(d, hash, false)
		}
	}
	c.need("operation", 1)
	c.need("storing path", 2)
}

// calledHere: the time was taken on this path.
func calledHere(t *Term, evs []*Event) bool {
	ok := false
	t = strip(t)
	deep(evs, func(ev *Event, _ *LoopRec) {
		if ev.Kind == "call" && ev.Name == "time.Now" && len(ev.Res) > 0 && len(t.Args) > 0 && ev.Res[0] == t.Args[0] {
			ok = true
		}
	})
	return ok
}

// otherTorrents: the torrent table is changed only under the given hash.
func (c *Check) otherTorrents(d *DPath, hash *Term, remove bool) {
	deep(d.Evs, func(ev *Event, _ *LoopRec) {
		if (ev.Kind == "mapset" || ev.Kind == "mapdel") && isTorrentTable(ev.Args[0].Typ) {
			if ev.Args[1] != hash {
				c.badEv("others-unchanged", ev, "a torrent other than the requested one is replaced or removed", d.Evs)
			}
			if ev.Kind == "mapdel" && !remove {
				c.badEv("others-unchanged", ev, "an announce removes a torrent", d.Evs)
			}
		}
		if ev.Kind == "store" && ev.Args[0].Op == OpField && isTorrentTable(deref(ev.Args[0].Typ)) {
			c.badEv("others-unchanged", ev, "the whole torrent table is replaced", d.Evs)
		}
		if ev.Kind == "store" && ev.Args[0].Op == OpField && isPeerTable(deref(ev.Args[0].Typ)) {
			c.badEv("others-unchanged", ev, "the whole peer table of a torrent is replaced", d.Evs)
		}
	})
}

func pathEnd(d *DPath) string {
	for i := len(d.Evs) - 1; i >= 0; i-- {
		return fmt.Sprintf("%s#%d@%s", d.Name, len(d.Evs), d.Evs[i].Pos())
	}
	return d.Name
}

func (c *Check) dropRemoves() {
	for _, r := range c.dbOps("Drop") {
		hash, id := argOf(r, isHashT), argOf(r, isIDT)
		for _, d := range dpaths(r) {
			if d.Loop != nil {
				for _, e := range d.effects() {
					c.badEv("others-unchanged", e.Ev, "a stop changes peer records in a loop", d.Evs)
				}
				continue
			}
			if d.Out.kind != "return" {
				continue
			}
			f := d.To.facts
			removed := false
			for _, e := range d.effects() {
				if e.After != nil && e.Before == e.After { // a record changed in place: only one no longer stored
					gone := false
					for _, x := range d.effects() {
						if x.After == nil && x.Before == e.Before {
							gone = true
						}
					}
					if gone {
						continue
					}
				}
				if !e.resolve(d) {
					c.badEv("others-unchanged", e.Ev, "a stop writes a peer record it did not find in the torrent", d.Evs)
					continue
				}
				if e.After != nil {
					c.badEv("others-unchanged", e.Ev, "a stop stores or changes a peer", d.Evs)
					continue
				}
				if e.Key != id || !torrentUnder(d.Evs, e.Owner, hash) {
					c.badEv("own-slot", e.Ev, "the slot removed is not that of the given peer ID in the torrent of the given hash", d.Evs)
					continue
				}
				removed = true
				if f.eval(e.Has) != False {
					c.inst("removing path", pathEnd(d))
				}
			}
			c.otherTorrents(d, hash, true)
			if removed {
				continue
			}
			// nothing to remove
			absent := false
			for _, ev := range d.Evs {
				if ev.Kind != "mapget" || f.eval(ev.Args[2]) != False {
					continue
				}
				if isTorrentTable(ev.Args[0].Typ) && ev.Args[1] == hash {
					absent = true
				}
				if isPeerTable(ev.Args[0].Typ) && ev.Args[1] == id && torrentUnder(d.Evs, tableOwner(ev.Args[0], d.To), hash) {
					absent = true
				}
			}
			c.inst("path without removal", pathEnd(d))
			if !absent {
				c.bad("removed", r.Name, pathEnd(d), "a stop returns without removing the peer although the path does not know that the torrent or the peer is unknown", d.Evs)
			}
			for _, ev := range d.Evs {
				switch {
				case ev.Kind == "store" && ev.Args[0].Op == OpField, ev.Kind == "atomic" && ev.Name != "Load", ev.Kind == "mapset" || ev.Kind == "mapdel":
					c.badEv("no-change", ev, "a stop of an unknown peer or torrent changes something", d.Evs)
				}
			}
		}
	}
	c.need("operation", 1)
	c.need("removing path", 1)
	c.need("path without removal", 2)
}

// countFields: the counters the database reports, as fields of the torrent record.
func (c *Check) countFields() (complete, incomplete string) {
	for _, fn := range c.s.dbMethods("HashStats") {
		r := c.s.run(fn)
		for _, o := range r.Outs {
			if o.kind != "return" || len(o.rets) < 2 {
				continue
			}
			a, b := modField(o.rets[0]), modField(o.rets[1])
			if a != nil && b != nil {
				return fieldName(a), fieldName(b)
			}
		}
	}
	return "", ""
}

// modField gives the field of a torrent record a value was loaded from.
func modField(t *Term) *Term {
	t = strip(t)
	if t.Op != OpLoad || t.Args[0].Op != OpField {
		return nil
	}
	et, _ := structOfPtr(t.Args[0].Args[0])
	if et == nil || !isTorrentRec(et) {
		return nil
	}
	return t.Args[0]
}

// classes calls g for every combination of what the path leaves open about an effect.
func (e *effect) classes(f *Facts, g func(f *Facts, had, wasC, hasNow, isC bool)) {
	after := func(f *Facts, had, was bool) {
		if e.After == nil {
			g(f, had, was, false, false)
			return
		}
		v := loadField(e.AfterSt, e.After, "Complete")
		forBool(f, v, func(f *Facts, is bool) { g(f, had, was, true, is) })
	}
	before := func(f *Facts) {
		if e.Before == nil { // unknown record: judged by the caller
			after(f, true, false)
			return
		}
		v := loadField(e.BeforeSt, e.Before, "Complete")
		forBool(f, v, func(f *Facts, was bool) { after(f, true, was) })
	}
	if e.Has == nil {
		before(f)
		return
	}
	forBool(f, e.Has, func(f *Facts, had bool) {
		if had {
			before(f)
		} else {
			after(f, false, false)
		}
	})
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// countsMatch: counters move with the records.
func (c *Check) countsMatch() {
	fc, fi := c.countFields()
	if fc == "" {
		c.bad("anchor", "HashStats", "-", "the reported counts are not two fields of the torrent's record", nil)
		return
	}
	for _, r := range c.dbOps(strings.Fields(dbMutators)...) {
		for _, d := range dpaths(r) {
			if d.Loop == nil && d.Out.kind != "return" {
				continue
			}
			for _, g := range d.Segs {
				c.segCounts(d, g, fc, fi)
			}
		}
	}
	c.need("operation", 3)
	c.need("balanced stretch", 6)
	c.countersElsewhere(fc, fi)
}

func (c *Check) segCounts(d *DPath, g *Seg, fc, fi string) {
	es := g.effects()
	owners := map[*Term]*Event{}
	var order []*Term
	note := func(p *Term, ev *Event) {
		if owners[p] == nil {
			owners[p] = ev
			order = append(order, p)
		}
	}
	for _, e := range es {
		if e.After == e.Before && goneBefore(d, e) {
			continue // a record no longer stored
		}
		if !e.resolve(d) {
			c.badEv("counted", e.Ev, "a peer record is changed that was not found in a torrent's table on this path", d.Evs)
			continue
		}
		note(e.Owner, e.Ev)
	}
	for _, ev := range g.Evs {
		if ev.Kind == "store" || ev.Kind == "atomic" && ev.Name != "Load" {
			if a := ev.Args[0]; a.Op == OpField {
				if et, _ := structOfPtr(a.Args[0]); et != nil && isTorrentRec(et) && (fieldName(a) == fc || fieldName(a) == fi) {
					note(a.Args[0], ev)
				}
			}
		}
	}
	for _, p := range order {
		ev := owners[p]
		c1, c0 := loadField(g.To, p, fc), fieldBefore(g.From, p, fc)
		i1, i0 := loadField(g.To, p, fi), fieldBefore(g.From, p, fi)
		dc, ok1 := change(c0, c1)
		di, ok2 := change(i0, i1)
		if !ok1 || !ok2 {
			c.badEv("count-kept", ev, fmt.Sprintf("the counters of the torrent do not change by a constant in 32-bit arithmetic: complete %v -> %v, incomplete %v -> %v", c0, c1, i0, i1), d.Evs)
			continue
		}
		var mine []*effect
		for _, e := range es {
			if e.Owner == p {
				mine = append(mine, e)
			}
		}
		var rec func(f *Facts, i int, xc, xi int64)
		bad := ""
		rec = func(f *Facts, i int, xc, xi int64) {
			if i == len(mine) {
				if xc != dc || xi != di {
					bad = fmt.Sprintf("the stored records change by %+d complete and %+d incomplete, the counters by %+d and %+d", xc, xi, dc, di)
				}
				return
			}
			mine[i].classes(f, func(f *Facts, had, was, now, is bool) {
				if had && mine[i].Before == nil {
					bad = "a record is replaced or removed without having been looked at"
					return
				}
				rec(f, i+1, xc+b2i(now && is)-b2i(had && was), xi+b2i(now && !is)-b2i(had && !was))
			})
		}
		rec(d.To.facts, 0, 0, 0)
		if bad != "" {
			c.badEv("count-match", ev, bad, d.Evs)
			continue
		}
		c.inst("balanced stretch", fmt.Sprintf("%s %+d/%+d", pathEnd(d), dc, di))
	}
}

// goneBefore: the record of an in-place change was removed from its table earlier on the path.
func goneBefore(d *DPath, e *effect) bool {
	for _, ev := range d.Evs {
		if ev == e.Ev {
			return false
		}
		if ev.Kind == "mapdel" && isPeerTable(ev.Args[0].Typ) && ev.Args[4] == e.Before {
			return true
		}
	}
	return false
}

// countersElsewhere: nothing outside the analysed operations and loading writes counters or tables.
func (c *Check) countersElsewhere(fc, fi string) {
	c.restoreRuns()
	live := c.s.p.live()
	for _, fn := range c.s.p.sorted() {
		if !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if what := c.writesTorrent(in, fc, fi); what != "" {
					c.inst("write site", fnName(fn)+" "+what)
					if !c.s.e.nfns[fn] {
						c.bad("write-site", fnName(fn), instrPos(c.s.e, in), what+" is written outside the analysed database operations", nil)
					}
				}
			}
		}
	}
}

func (c *Check) countsReported() {
	for _, r := range c.dbOps("HashStats") {
		hash := argOf(r, isHashT)
		for _, o := range r.Outs {
			if o.kind != "return" || len(o.rets) < 2 {
				continue
			}
			evs := o.st.trace.since(nil)
			a, b := modField(o.rets[0]), modField(o.rets[1])
			if a == nil || b == nil {
				z1, ok1 := o.rets[0].intConst()
				z2, ok2 := o.rets[1].intConst()
				unknown := false
				for _, ev := range evs {
					if ev.Kind == "mapget" && isTorrentTable(ev.Args[0].Typ) && ev.Args[1] == hash && o.st.facts.eval(ev.Args[2]) == False {
						unknown = true
					}
				}
				if ok1 && ok2 && z1 == 0 && z2 == 0 && unknown {
					c.inst("report of an unknown torrent", r.Name)
					continue
				}
				c.bad("reported", r.Name, "-", fmt.Sprintf("the reported counts are %v and %v, not the counters of the torrent", o.rets[0], o.rets[1]), evs)
				continue
			}
			p := a.Args[0]
			if p != b.Args[0] || !torrentUnder(evs, p, hash) {
				c.bad("reported", r.Name, "-", "the reported counts are not both those of the torrent stored under the requested hash", evs)
				continue
			}
			for _, x := range []*Term{o.rets[0], o.rets[1]} {
				if modSum(x) == nil {
					c.bad("reported", r.Name, "-", "a reported count is narrowed: "+x.String(), evs)
				}
			}
			// one hold
			var l1, l2 *Event
			for _, ev := range evs {
				if ev.Kind == "load" && ev.Args[0] == a {
					l1 = ev
				}
				if ev.Kind == "load" && ev.Args[0] == b {
					l2 = ev
				}
			}
			if l1 == nil || l2 == nil {
				c.bad("reported", r.Name, "-", "the counts are not read on this path", evs)
				continue
			}
			h1, h2 := heldOn(l1.Locks, p, false), heldOn(l2.Locks, p, false)
			if h1 == nil || h2 == nil || h1.Ev != h2.Ev {
				c.badEv("read-together", l2, "the two counts are not read under one hold of the torrent's lock", evs)
				continue
			}
			c.inst("report of a torrent", r.Name)
		}
	}
	c.need("report of a torrent", 1)
	c.need("report of an unknown torrent", 1)
}

// writesTorrent names the torrent state an instruction writes.
func (c *Check) writesTorrent(in ssa.Instruction, fc, fi string) string {
	switch in := in.(type) {
	case *ssa.MapUpdate:
		if isPeerTable(in.Map.Type()) {
			return "a peer table"
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			if t != nil && isTorrentRec(t) {
				if n := structOf(t).Field(fa.Field).Name(); n == fc || n == fi {
					return n
				}
			}
			if t != nil && isNamed(t, "/tracker/storage", "Peer") {
				return "a peer record"
			}
		}
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && isPeerTable(in.Call.Args[0].Type()) {
			return "a peer table"
		}
	}
	return ""
}

// restoreRuns: loading a backup.
func (c *Check) restoreRuns() []*Run {
	var r []*Run
	for _, fn := range c.s.backupMethods("Load") {
		c.inst("restore", fnName(fn))
		r = append(r, c.s.run(fn))
	}
	return r
}

// evalOver rewrites a value over header symbols with their values at entry or at a back edge.
func evalOver(l Lin, m map[*Term]*Term) *Lin {
	r := Lin{C: l.C}
	for _, x := range l.T {
		t := x.A
		if v, ok := m[t]; ok {
			t = v
		}
		s := modSum(t)
		if s == nil {
			return nil
		}
		r = r.addK(*s, x.K)
	}
	return &r
}

// countsRestored: after loading, the counters equal the numbers of records read.
func (c *Check) countsRestored() {
	fc, fi := c.countFields()
	for _, r := range c.restoreRuns() {
		var fill []*LoopRec
		for _, l := range r.Loops {
			for _, it := range l.Iters {
				for _, ev := range it.Events {
					if ev.Kind == "mapset" && isPeerTable(ev.Args[0].Typ) {
						fill = append(fill, l)
						break
					}
				}
				if len(fill) > 0 && fill[len(fill)-1] == l {
					break
				}
			}
		}
		inFill := map[*LoopRec]bool{}
		for _, l := range fill {
			inFill[l] = true
		}
		for _, d := range dpaths(r) {
			if d.Loop != nil && inFill[d.Loop] {
				continue
			}
			if d.Loop == nil && (d.Out.kind != "return" || !nilError(d)) {
				continue // loading failed
			}
			for _, ev := range d.Evs {
				if ev.Kind == "mapset" && isPeerTable(ev.Args[0].Typ) {
					c.badEv("restored-counts", ev, "a restored record is stored outside the loop over the records of its torrent", d.Evs)
				}
				if ev.Kind == "loop" && inFill[ev.Loop] {
					c.restoredBy(d, ev, fc, fi)
				}
			}
		}
	}
	c.need("restore", 1)
	c.need("restored torrent", 1)
	c.need("restored record", 1)
}

func nilError(d *DPath) bool {
	if d.Out == nil || len(d.Out.rets) == 0 {
		return true
	}
	e := d.Out.rets[len(d.Out.rets)-1]
	return e.isNil() || d.To.facts.eval(mkEq(e, nilT)) == True
}

func (c *Check) restoredBy(d *DPath, lev *Event, fc, fi string) {
	l := lev.Loop
	var p, m *Term
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			if ev.Kind == "mapset" && isPeerTable(ev.Args[0].Typ) {
				if m != nil && m != ev.Args[0] {
					c.badEv("restored-counts", ev, "the records of one torrent go into several tables", it.Events)
					return
				}
				m = ev.Args[0]
				p = tableOwner(m, it.St)
			}
		}
	}
	if p == nil {
		c.badEv("restored-counts", lev, "the torrent of the restored records is not known", d.Evs)
		return
	}
	vc, vi := modSum(loadField(d.To, p, fc)), modSum(loadField(d.To, p, fi))
	if vc == nil || vi == nil {
		c.badEv("restored-counts", lev, "a restored counter is narrower than 32 bits", d.Evs)
		return
	}
	init := map[*Term]*Term{}
	lens := map[*Term]bool{}
	for s, v := range l.Init {
		init[s] = v
		if cell := l.Cell[s]; cell != nil && cell.Op == OpMapLen && cell.Args[0] == m {
			lens[s] = true
		}
	}
	for _, x := range []struct {
		l *Lin
		n string
	}{{vc, fc}, {vi, fi}} {
		e := evalOver(*x.l, init)
		if e == nil || !e.isConst() || e.C != 0 {
			c.badEv("restored-counts", lev, fmt.Sprintf("the counter %s of a torrent is %v after its records were read, which is not zero for a torrent without records", x.n, x.l), d.Evs)
			return
		}
	}
	for _, it := range l.Iters {
		n := int64(0)
		var q *Term
		for _, ev := range it.Events {
			if ev.Kind == "mapset" && isPeerTable(ev.Args[0].Typ) {
				n++
				q = ev.Args[2]
			}
		}
		if n != 1 {
			c.bad("restored-counts", l.ID, lev.Pos(), fmt.Sprintf("one record read stores %d records", n), it.Events)
			continue
		}
		next := map[*Term]*Term{}
		for s, v := range it.Next {
			next[s] = v
			if lens[s] { // the records of a saved torrent have distinct IDs
				next[s] = mkLin(lin(s).addC(n))
			}
		}
		dc, di := evalOver(*vc, next), evalOver(*vi, next)
		if dc == nil || di == nil {
			c.bad("restored-counts", l.ID, lev.Pos(), "a restored counter is narrower than 32 bits", it.Events)
			continue
		}
		a, b := dc.sub(*vc), di.sub(*vi)
		cls := loadField(it.St, q, "Complete")
		forBool(it.St.facts, cls, func(_ *Facts, is bool) {
			if !a.isConst() || !b.isConst() || a.C != b2i(is) || b.C != 1-b2i(is) {
				c.bad("restored-counts", l.ID, lev.Pos(), fmt.Sprintf("a restored record with complete=%v changes the complete count by %v and the incomplete count by %v", is, a, b), it.Events)
				return
			}
			c.inst("restored record", fmt.Sprintf("%s complete=%v", l.ID, is))
		})
	}
	c.inst("restored torrent", pathEnd(d))
}

// ---- metrics

func isIPStats(m *Term) bool {
	if m.Typ == nil {
		return false
	}
	t, ok := m.Typ.Underlying().(*types.Map)
	return ok && isAddrT(t.Key()) && isInt(t.Elem())
}

type ipChange struct {
	ip *Term
	n  int64
	ev *Event
}

// metricOps gives what a stretch of events does to the metrics.
func (c *Check) metricOps(evs []*Event, f *Facts) (seeds, leeches int64, ips []ipChange, ok bool) {
	ok = true
	val := map[*Term]*Term{} // last value set per key
	last := map[*Term]*Event{}
	for _, ev := range evs {
		switch ev.Kind {
		case "atomic":
			n := counterName(ev.Args[0])
			if n != "Seeds" && n != "Leeches" || ev.Name == "Load" {
				continue
			}
			k, isC := int64(0), false
			if ev.Name == "Add" {
				k, isC = ev.Args[1].intConst()
			}
			if !isC {
				c.badEv("metric-step", ev, "the metric "+n+" is changed other than by adding a constant", evs)
				ok = false
				continue
			}
			if n == "Seeds" {
				seeds += k
			} else {
				leeches += k
			}
		case "mapset":
			if !isIPStats(ev.Args[0]) {
				continue
			}
			k := ev.Args[1]
			old := mkInt(0)
			switch f.eval(ev.Args[3]) {
			case True:
				old = ev.Args[4]
			case Unknown:
				old = nil
			}
			var ch int64
			good := old != nil
			if good {
				ch, good = change(old, ev.Args[2])
			}
			if !good {
				c.badEv("metric-step", ev, "the count of an address is changed other than by a constant", evs)
				ok = false
				continue
			}
			ips = append(ips, ipChange{k, ch, ev})
			val[k], last[k] = ev.Args[2], ev
		case "mapdel":
			if !isIPStats(ev.Args[0]) {
				continue
			}
			k := ev.Args[1]
			v := ev.Args[4]
			switch {
			case f.eval(ev.Args[3]) == False:
			case v != nil && f.entailsEq(lin(v)): // count zero
			case v != nil && val[k] == nil && f.entailsEq(lin(v).addC(-1)), v != nil && val[k] == nil && f.entails(lin(v).neg().addC(1)):
				ips = append(ips, ipChange{k, -1, ev})
			default:
				c.badEv("metric-step", ev, "an address is forgotten although its count is not known to be zero", evs)
				ok = false
			}
			delete(val, k)
		}
	}
	for k, v := range val {
		neg := int64(0)
		for _, x := range ips {
			if x.ip == k {
				neg += x.n
			}
		}
		if neg < 0 && !f.entailsNeq(lin(v)) {
			c.badEv("zero-forgotten", last[k], "the count of an address is lowered and may be zero, but the address is kept", evs)
			ok = false
		}
	}
	return
}

func (c *Check) metricsInStep() {
	for _, r := range c.dbOps(strings.Fields(dbMutators)...) {
		for _, d := range dpaths(r) {
			if d.Loop == nil && d.Out.kind != "return" {
				continue
			}
			f := d.To.facts
			var es []*effect
			for _, e := range d.effects() {
				if e.After == e.Before && goneBefore(d, e) {
					continue
				}
				es = append(es, e)
			}
			// several operations count addresses at a time: the lock of the counts is held from
			// reading one to writing it
			free := -1
			for i, ev := range d.Evs {
				m := mapArg(ev)
				if m == nil || !isIPStats(m) {
					continue
				}
				own := fieldBase(m)
				if own == nil {
					continue
				}
				if heldOn(ev.Locks, own, true) == nil {
					free = i
					c.badEv("metric-lock", ev, "the count of an address is read or written without the lock of the counts", d.Evs)
					break
				}
				c.inst("address count under its lock", ev.Pos())
			}
			if free >= 0 {
				continue
			}
			seeds, leeches, ips, ok := c.metricOps(d.Evs, f)
			if !ok {
				continue
			}
			if len(es) == 0 && len(ips) == 0 && seeds == 0 && leeches == 0 {
				continue
			}
			var ev *Event
			if len(es) > 0 {
				ev = es[0].Ev
			} else {
				ev = d.Evs[len(d.Evs)-1]
			}
			bad := ""
			var rec func(f *Facts, i int, xs, xl int64, want []ipChange)
			rec = func(f *Facts, i int, xs, xl int64, want []ipChange) {
				if i == len(es) {
					if xs != seeds || xl != leeches {
						bad = fmt.Sprintf("the stored records change by %+d seeds and %+d leeches, the metrics by %+d and %+d", xs, xl, seeds, leeches)
						return
					}
					if s := ipsDiffer(f, want, ips); s != "" {
						bad = s
					}
					return
				}
				e := es[i]
				e.classes(f, func(f *Facts, had, was, now, is bool) {
					if had && e.Before == nil {
						bad = "a record is replaced or removed without having been looked at"
						return
					}
					w := want[:len(want):len(want)]
					if had {
						w = append(w, ipChange{loadField(e.BeforeSt, e.Before, "IP"), -1, e.Ev})
					}
					if now {
						w = append(w, ipChange{loadField(e.AfterSt, e.After, "IP"), 1, e.Ev})
					}
					rec(f, i+1, xs+b2i(now && is)-b2i(had && was), xl+b2i(now && !is)-b2i(had && !was), w)
				})
			}
			rec(f, 0, 0, 0, nil)
			if bad != "" {
				c.badEv("metric-match", ev, bad, d.Evs)
				continue
			}
			c.inst("metric step", fmt.Sprintf("%s seeds%+d leeches%+d", pathEnd(d), seeds, leeches))
		}
	}
	c.need("operation", 3)
	c.need("metric step", 6)
	live := c.s.p.live()
	for _, fn := range c.s.p.sorted() {
		if !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isIPStats(&Term{Typ: mu.Map.Type()}) || c.s.e.nfns[fn] {
					continue
				}
				c.bad("write-site", fnName(fn), instrPos(c.s.e, in), "the per-address counts are written outside the analysed database operations", nil)
			}
		}
	}
}

// ipsDiffer compares two sets of changes to address counts.
func ipsDiffer(f *Facts, want, got []ipChange) string {
	type grp struct {
		ip *Term
		n  int64
	}
	var gs []grp
	add := func(ip *Term, n int64) {
		for i := range gs {
			if eqTerms(f, gs[i].ip, ip) {
				gs[i].n += n
				return
			}
		}
		gs = append(gs, grp{ip, n})
	}
	for _, x := range want {
		add(x.ip, -x.n)
	}
	for _, x := range got {
		add(x.ip, x.n)
	}
	for _, g := range gs {
		if g.n != 0 {
			return fmt.Sprintf("the count of address %v changes by %+d more than the stored records with it", g.ip, g.n)
		}
	}
	return ""
}

func mapArg(ev *Event) *Term {
	switch ev.Kind {
	case "mapget", "mapset", "mapdel", "range", "rangedone", "maplen":
		return ev.Args[0]
	}
	return nil
}

// fieldBase is the object a value was read from.
func fieldBase(m *Term) *Term {
	if m.Op == OpLoad && m.Args[0].Op == OpField {
		return m.Args[0].Args[0]
	}
	return nil
}

func (c *Check) metricsSynced() {
	fc, fi := c.countFields()
	for _, r := range c.dbOps("SyncExpvars") {
		for _, d := range dpaths(r) {
			if d.Loop != nil || d.Out.kind != "return" || !nilError(d) {
				continue
			}
			var outer *LoopRec
			var at *Event
			for _, ev := range d.Evs {
				if ev.Kind == "loop" && rangesOver(ev.Loop, isTorrentTable) {
					if outer != nil {
						c.badEv("synced", ev, "the torrents are counted twice", d.Evs)
					}
					outer, at = ev.Loop, ev
				}
			}
			if outer == nil {
				c.bad("synced", r.Name, pathEnd(d), "the metrics are synchronised without visiting the torrents", d.Evs)
				continue
			}
			c.seesAll(outer, isTorrentTable)
			// final values
			final := map[string]*Lin{}
			for _, ev := range d.Evs {
				if ev.Kind == "atomic" && ev.Name != "Load" {
					n := counterName(ev.Args[0])
					if n != "Seeds" && n != "Leeches" {
						continue
					}
					if ev.Name == "Store" || ev.Name == "Swap" || ev.Name == "Add" {
						final[n] = modSum64(ev.Args[1])
					}
				}
			}
			for _, it := range outer.Iters {
				var inner *LoopRec
				var rg *Event
				for _, ev := range it.Events {
					if ev.Kind == "loop" && rangesOver(ev.Loop, isPeerTable) {
						if inner != nil {
							c.badEv("synced", ev, "the peers of a torrent are counted twice", it.Events)
						}
						inner = ev.Loop
					}
					if ev.Kind == "range" && isTorrentTable(ev.Args[0].Typ) {
						rg = ev
					}
				}
				if inner == nil || rg == nil {
					c.badEv("synced", at, "the peers of a torrent are not visited", it.Events)
					continue
				}
				c.seesAll(inner, isPeerTable)
				p := rg.Args[2]
				for _, jt := range inner.Iters {
					c.syncedPeer(outer, it, inner, jt, p, final, fc, fi, at)
				}
				c.inst("synced torrent", outer.ID)
			}
		}
	}
	c.need("synced torrent", 1)
	c.need("synced peer", 2)
}

// modSum64 is modSum without wrapping (64-bit sums).
func modSum64(t *Term) *Lin { return modSum(t) }

func rangesOver(l *LoopRec, is func(types.Type) bool) bool {
	if l == nil {
		return false
	}
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			if ev.Kind == "range" && is(ev.Args[0].Typ) {
				return true
			}
		}
	}
	return false
}

// seesAll: the loop over a table ends only at its end.
func (c *Check) seesAll(l *LoopRec, is func(types.Type) bool) {
	for _, x := range l.Exits {
		evs := x.st.trace.since(l.HdrSt.trace)
		done := false
		for _, ev := range evs {
			if ev.Kind == "rangedone" && is(ev.Args[0].Typ) {
				done = true
			}
		}
		if !done {
			pos := l.ID
			if len(evs) > 0 {
				pos = evs[len(evs)-1].Pos()
			}
			c.bad("all-visited", l.ID, pos, "the iteration can stop before every entry was visited", evs)
		}
	}
}

func (c *Check) syncedPeer(outer *LoopRec, it LoopIter, inner *LoopRec, jt LoopIter, p *Term, final map[string]*Lin, fc, fi string, at *Event) {
	var q *Term
	for _, ev := range jt.Events {
		if ev.Kind == "range" && isPeerTable(ev.Args[0].Typ) {
			q = ev.Args[2]
			if o := tableOwner(ev.Args[0], jt.St); o != p {
				c.badEv("synced", ev, "the peers visited are not those of the visited torrent", jt.Events)
			}
		}
	}
	if q == nil {
		c.badEv("synced", at, "an iteration visits no peer", jt.Events)
		return
	}
	adds := map[string]int64{}
	var ips []ipChange
	for _, ev := range jt.Events {
		switch {
		case ev.Kind == "atomic" && ev.Name == "Add":
			if k, ok := ev.Args[1].intConst(); ok {
				adds[counterName(ev.Args[0])] += k
			}
		case ev.Kind == "mapset" && isIPStats(ev.Args[0]):
			old := mkInt(0)
			if jt.St.facts.eval(ev.Args[3]) != False {
				old = ev.Args[4]
			}
			n, ok := int64(99), false
			if old != nil {
				n, ok = change(old, ev.Args[2])
			}
			if !ok {
				n = 99
			}
			ips = append(ips, ipChange{ev.Args[1], n, ev})
		case ev.Kind == "mapdel" && isIPStats(ev.Args[0]):
			c.badEv("synced", ev, "synchronising forgets an address", jt.Events)
		}
	}
	if s := ipsDiffer(jt.St.facts, []ipChange{{loadField(inner.HdrSt, q, "IP"), 1, nil}}, ips); s != "" {
		c.badEv("synced", at, "for a restored peer: "+s, jt.Events)
	}
	cls := loadField(inner.HdrSt, q, "Complete")
	forBool(jt.St.facts, cls, func(_ *Facts, is bool) {
		for _, w := range []struct {
			n, f string
			want int64
		}{{"Seeds", fc, b2i(is)}, {"Leeches", fi, 1 - b2i(is)}} {
			v := final[w.n]
			if v == nil { // added one by one
				if adds[w.n] != w.want {
					c.badEv("synced", at, fmt.Sprintf("a restored peer with complete=%v adds %d to %s", is, adds[w.n], w.n), jt.Events)
					return
				}
				continue
			}
			msg := ""
			init := evalOver(*v, outer.Init)
			next := evalOver(*v, it.Next)
			switch {
			case adds[w.n] != 0:
				msg = "is both added to and stored"
			case init == nil || next == nil || !init.isConst() || init.C != 0:
				msg = "does not start at zero"
			default:
				d := next.sub(*v)
				if x := d; len(x.T) == 1 && x.C == 0 && x.T[0].K == 1 && modField(x.T[0].A) != nil && modField(x.T[0].A).Args[0] == p && fieldName(modField(x.T[0].A)) == w.f {
					break // the torrent's own counter (C21)
				}
				e := evalOver(*next, inner.Init)
				n := evalOver(*next, jt.Next)
				if e == nil || n == nil {
					msg = "is not a count"
					break
				}
				if z := e.sub(*v); !z.isConst() || z.C != 0 {
					msg = "changes by " + z.String() + " before the peers of a torrent are counted"
					break
				}
				if z := n.sub(*next); !z.isConst() || z.C != w.want {
					msg = fmt.Sprintf("changes by %v for a peer with complete=%v", z, is)
				}
			}
			if msg != "" {
				c.badEv("synced", at, "after loading, "+w.n+" "+msg, jt.Events)
				return
			}
		}
		c.inst("synced peer", fmt.Sprintf("%s complete=%v", inner.ID, is))
	})
}
