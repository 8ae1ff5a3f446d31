package main

// Expiry and concurrency of the torrent database (C20, C23).

import (
	"fmt"
	"go/types"
)

func init() {
	register("C20", "typestate over lock holds: a peer is written only while the torrent's write lock is held without interruption since a moment at which the database lock was held too and the torrent was in the table; a torrent is put into the table only under the database write lock where the table is known to hold none for its hash, and taken out only under the database write lock and its own lock while it is that hash's torrent and holds no peers", func(c *Check) { c.neverLost() })
	register("C23", "in the iteration over a torrent's peers in an expiry run: a path removes the visited peer exactly if it knows now - last seen > the configured peer expiry; every peer of every torrent is visited; a torrent is removed exactly on the paths that know it to hold no peers and to be the stored one", func(c *Check) { c.peerExpiry() })
}

// expirySeconds: a configured duration in whole seconds.
func expirySeconds(cfg string) []*Term {
	return termsOf(func(t *Term) bool {
		return isInt2(t.Typ) && secondsOf(t, cfg)
	})
}

// olderThan: whether the path knows that ts lies more than the expiry before now.
func olderThan(f *Facts, ts *Term, cfg string) Tri {
	v := Unknown
	for _, now := range nowTerms() {
		for _, ex := range expirySeconds(cfg) {
			e := lin(now).sub(lin(ts)).sub(lin(ex)).addC(-1)
			if f.entails(e) {
				v = True
			} else if f.entails(e.neg().addC(-1)) {
				v = False
			}
		}
	}
	return v
}

func (c *Check) peerExpiry() {
	for _, r := range c.dbOps("Trim") {
		for _, l := range r.Loops {
			switch {
			case rangesOver(l, isPeerTable):
				c.seesAll(l, isPeerTable)
			case rangesOver(l, isTorrentTable):
				c.seesAll(l, isTorrentTable)
			}
		}
		for _, d := range dpaths(r) {
			if d.Loop == nil {
				if d.Out.kind == "return" && !pathHas(d.Evs, func(ev *Event) bool { return ev.Kind == "loop" && rangesOver(ev.Loop, isTorrentTable) }) {
					c.bad("all-visited", r.Name, pathEnd(d), "an expiry run ends without visiting the torrents", d.Evs)
				}
				for _, e := range d.effects() {
					c.badEv("only-expired", e.Ev, "peers are removed outside the iteration over a torrent's peers", d.Evs)
				}
				continue
			}
			if rangesOver(d.Loop, isPeerTable) {
				c.expireOne(d)
			} else if rangesOver(d.Loop, isTorrentTable) {
				c.expireTorrent(d)
			} else {
				for _, e := range d.effects() {
					c.badEv("only-expired", e.Ev, "peers are removed outside the iteration over a torrent's peers", d.Evs)
				}
			}
		}
	}
	c.need("operation", 1)
	c.need("removing iteration", 1)
	c.need("keeping iteration", 1)
	c.need("visited torrent", 2)
	c.need("removed torrent", 1)
}

func pathHas(evs []*Event, f func(ev *Event) bool) bool {
	for _, ev := range evs {
		if f(ev) {
			return true
		}
	}
	return false
}

func (c *Check) expireOne(d *DPath) {
	var rg *Event
	for _, ev := range d.Evs {
		if ev.Kind == "range" && isPeerTable(ev.Args[0].Typ) {
			rg = ev
		}
	}
	if rg == nil {
		return
	}
	es := d.effects()
	old := olderThan(d.To.facts, loadField(d.From, rg.Args[2], "LastSeen"), "DB.Expiry")
	switch {
	case len(es) == 0:
		c.inst("keeping iteration", pathEnd(d))
		if old != False {
			c.badEv("all-expired", rg, "a peer is kept on a path that does not know now - last seen <= the configured peer expiry", d.Evs)
		}
	case len(es) == 1 && es[0].After == nil && es[0].M == rg.Args[0] && es[0].Key == rg.Args[1]:
		c.inst("removing iteration", pathEnd(d))
		if old != True {
			c.badEv("only-expired", es[0].Ev, "a peer is removed on a path that does not know now - last seen > the configured peer expiry", d.Evs)
		}
	default:
		c.badEv("only-expired", es[0].Ev, "an iteration changes something else than the visited peer", d.Evs)
	}
}

// emptyAt: whether the torrent's table is known to be empty (True) or not (False).
func emptyAt(st *State, f *Facts, p *Term) Tri {
	ss := derefStruct(p.Typ)
	if ss == nil {
		return Unknown
	}
	for i := 0; i < ss.NumFields(); i++ {
		if !isPeerTable(ss.Field(i).Type()) {
			continue
		}
		m := st.load(fieldAddr(p, i, types.NewPointer(ss.Field(i).Type())), ss.Field(i).Type())
		n := lin(st.clone().mapLen(m))
		if f.entailsEq(n) {
			return True
		}
		if f.entailsNeq(n) || f.entails(n.addC(-1)) {
			return False
		}
	}
	return Unknown
}

// otherStored: the path knows that another torrent or none is stored under the hash.
func otherStored(d *DPath, h, p *Term) bool {
	f := d.To.facts
	for _, ev := range d.Evs {
		if ev.Kind != "mapget" || !isTorrentTable(ev.Args[0].Typ) || ev.Args[1] != h {
			continue
		}
		if f.eval(ev.Args[2]) == False {
			return true
		}
		mv := mk(OpMapVal, nil, "", ev.Args[0], h)
		for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLoad && t.Args[0] == mv }) {
			if f.eval(mkEq(t, p)) == False {
				return true
			}
		}
	}
	return false
}

func (c *Check) expireTorrent(d *DPath) {
	var rg *Event
	var inner *Event
	for _, ev := range d.Evs {
		if ev.Kind == "range" && isTorrentTable(ev.Args[0].Typ) {
			rg = ev
		}
		if ev.Kind == "loop" && rangesOver(ev.Loop, isPeerTable) {
			inner = ev
		}
	}
	if rg == nil {
		return
	}
	h, p := rg.Args[1], rg.Args[2]
	f := d.To.facts
	for _, e := range d.effects() {
		c.badEv("only-expired", e.Ev, "peers are removed outside the iteration over a torrent's peers", d.Evs)
	}
	if inner != nil {
		for _, it := range inner.Loop.Iters {
			for _, ev := range it.Events {
				if ev.Kind == "range" && isPeerTable(ev.Args[0].Typ) {
					if o := tableOwner(ev.Args[0], it.St); o != p {
						c.badEv("all-visited", ev, "the peers visited are not those of the visited torrent", it.Events)
					}
				}
			}
		}
	}
	empty, filled := false, false
	for _, g := range d.Segs {
		for _, l := range g.locksAtEnd() {
			// the record by any of its names
			q := lockBase(l.Addr)
			if q == nil || q != p && (q.Typ == nil || f.eval(mkEq(q, p)) != True) {
				continue
			}
			switch emptyAt(g.To, f, q) {
			case True:
				empty = true
			case False:
				filled = true
			}
		}
	}
	if inner == nil && !empty {
		c.badEv("all-visited", rg, "the peers of a torrent are not visited", d.Evs)
	}
	var dels []*Event
	for _, ev := range d.Evs {
		if ev.Kind == "mapdel" && isTorrentTable(ev.Args[0].Typ) {
			dels = append(dels, ev)
		}
	}
	c.inst("visited torrent", pathEnd(d))
	for _, ev := range dels {
		if ev.Args[1] != h {
			c.badEv("only-empty", ev, "a torrent other than the visited one is removed", d.Evs)
			continue
		}
		c.inst("removed torrent", pathEnd(d))
		if why := torrentRemovable(ev); why != "" {
			c.badEv("only-empty", ev, "a torrent is removed "+why, d.Evs)
		}
	}
	if len(dels) == 0 && !filled && !otherStored(d, h, p) {
		c.badEv("empty-removed", rg, "a torrent is kept on a path that knows neither that it holds peers nor that it is no longer stored", d.Evs)
	}
}

// locksAtEnd: the locks held when the segment ends.
func (g *Seg) locksAtEnd() []LockHeld {
	if g.To != nil {
		return g.To.locks
	}
	return nil
}

// torrentRemovable judges the removal of a torrent record from the table.
func torrentRemovable(ev *Event) string {
	m, f := ev.Args[0], ev.Facts
	if f.eval(ev.Args[3]) == False {
		return ""
	}
	p := ev.Args[4]
	if p == nil {
		return "without having been looked up"
	}
	db := tableOwner(m, ev.St)
	if db == nil || heldOn(ev.Locks, db, true) == nil {
		return "without the database's write lock"
	}
	// the record by any of its names
	for _, l := range ev.Locks {
		q := lockBase(l.Addr)
		if q != p && f.eval(mkEq(q, p)) != True {
			continue
		}
		if emptyAt(ev.St, f, q) == True {
			return ""
		}
		return "while it is not known to hold no peers (seen under its lock, at that moment)"
	}
	return "without its lock being held, or while it is not known to be the one whose lock is held: a peer may be stored in it at this moment"
}

// neverLost: C20.
func (c *Check) neverLost() {
	runs := c.dbOps("Save", "Drop", "Trim", "HashStats", "PeerList", "PeerListBytes", "Hashes")
	for _, fn := range c.s.backupMethods("Save") {
		c.inst("operation", fnName(fn))
		runs = append(runs, c.s.run(fn))
	}
	for _, r := range runs {
		for _, d := range dpaths(r) {
			if d.Loop == nil && d.Out.kind != "return" {
				continue
			}
			for i, ev := range d.Evs {
				switch {
				case ev.Kind == "mapset" && isTorrentTable(ev.Args[0].Typ):
					c.created(d, ev)
				case ev.Kind == "mapdel" && isTorrentTable(ev.Args[0].Typ):
					c.inst("torrent removal", ev.Pos())
					if why := torrentRemovable(ev); why != "" {
						c.badEv("discard", ev, "a torrent is removed "+why, d.Evs)
					}
				case ev.Kind == "mapset" && isPeerTable(ev.Args[0].Typ):
					c.storedLive(d, i, ev, tableOwner(ev.Args[0], d.To))
				case ev.Kind == "store" && ev.Args[0].Op == OpField:
					a := ev.Args[0]
					if isTorrentTable(deref(a.Typ)) || isPeerTable(deref(a.Typ)) {
						c.badEv("replace", ev, "a table is replaced as a whole by a running operation", d.Evs)
						continue
					}
					et, _ := structOfPtr(a.Args[0])
					if et == nil || !isNamed(et, "/tracker/storage", "Peer") {
						continue
					}
					q := a.Args[0]
					if removedBefore(d.Evs, ev, q) {
						continue
					}
					own, m, key := slotOf(d.Evs, q)
					if m == nil {
						c.badEv("live-peer", ev, "a peer record is written that was not found in a torrent on this path", d.Evs)
						continue
					}
					if own == nil {
						own = tableOwner(m, d.To)
					}
					c.storedLive(d, i, ev, own)
					// the record was looked up (or stored) under the same hold
					h := heldOn(ev.Locks, own, true)
					ok := false
					for _, g := range d.Evs[:i] {
						if (g.Kind == "mapget" || g.Kind == "mapset" || g.Kind == "range") && g.Args[0] == m && g.Args[1] == key {
							if k := heldOn(g.Locks, own, true); h != nil && k != nil && k.Ev == h.Ev {
								ok = true
							}
						}
					}
					if !ok {
						c.badEv("live-peer", ev, "a peer record is written that was not looked up under this hold of the torrent's lock: it may have been removed and recycled", d.Evs)
					}
				}
			}
		}
	}
	c.need("operation", 6)
	c.need("stored under a live torrent", 2)
	c.need("torrent creation", 1)
	c.need("torrent removal", 1)
}

func removedBefore(evs []*Event, at *Event, q *Term) bool {
	for _, ev := range evs {
		if ev == at {
			return false
		}
		if ev.Kind == "mapdel" && isPeerTable(ev.Args[0].Typ) && ev.Args[4] == q {
			return true
		}
	}
	return false
}

func (c *Check) created(d *DPath, ev *Event) {
	m, p := ev.Args[0], ev.Args[2]
	db := tableOwner(m, d.To)
	c.inst("torrent creation", ev.Pos())
	if db == nil || heldOn(ev.Locks, db, true) == nil {
		c.badEv("create", ev, "a torrent is put into the table without the database's write lock", d.Evs)
		return
	}
	if ev.Facts.eval(ev.Args[3]) != False {
		c.badEv("create", ev, "a torrent is put into the table although the path does not know, under this hold of the database lock, that none is stored under its hash: peers of a torrent created meanwhile are lost", d.Evs)
	}
	if p.Op != OpAlloc {
		c.badEv("create", ev, "the torrent put into the table was not made by this operation", d.Evs)
	}
}

// storedLive: the torrent written to cannot have been discarded.
func (c *Check) storedLive(d *DPath, i int, ev *Event, p *Term) {
	if p == nil {
		c.badEv("live-torrent", ev, "a peer is written to a table of no known torrent", d.Evs)
		return
	}
	h := heldOn(ev.Locks, p, true)
	if h == nil {
		// a torrent made here and put into the table later
		for _, g := range d.Evs[i:] {
			if g.Kind == "mapset" && isTorrentTable(g.Args[0].Typ) && g.Args[2] == p && p.Op == OpAlloc {
				linkedBefore := false
				for _, x := range d.Evs[:i] {
					if x.Kind == "mapset" && isTorrentTable(x.Args[0].Typ) && x.Args[2] == p {
						linkedBefore = true
					}
				}
				if !linkedBefore {
					c.inst("stored under a live torrent", pathEnd(d))
					return
				}
			}
		}
		c.badEv("live-torrent", ev, "a peer is written without the torrent's write lock", d.Evs)
		return
	}
	for _, e := range d.Evs {
		if e == ev {
			break
		}
		is := false
		switch e.Kind {
		case "mapget":
			is = isTorrentTable(e.Args[0].Typ) && p.Op == OpLoad && p.Args[0].Op == OpMapVal && p.Args[0].Args[0] == e.Args[0] && p.Args[0].Args[1] == e.Args[1]
		case "mapset", "range":
			is = isTorrentTable(e.Args[0].Typ) && e.Args[2] == p
		}
		if !is {
			continue
		}
		db := tableOwner(e.Args[0], d.To)
		dl := heldOn(e.Locks, db, false)
		if db == nil || dl == nil {
			continue
		}
		// the database lock is still held when the torrent's is taken, or the torrent's already was held
		if k := heldOn(h.Ev.Locks, db, false); k != nil && k.Ev == dl.Ev {
			c.inst("stored under a live torrent", pathEnd(d))
			return
		}
		if k := heldOn(e.Locks, p, true); k != nil && k.Ev == h.Ev {
			c.inst("stored under a live torrent", pathEnd(d))
			return
		}
	}
	c.badEv("live-torrent", ev, fmt.Sprintf("a peer is written to a torrent that may have been discarded: its lock (taken at %s) was not taken while the database lock under which it was found was still held", h.Ev.Pos()), d.Evs)
}
