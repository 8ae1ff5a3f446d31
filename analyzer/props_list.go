package main

// The contents of peer lists (C24).

import "go/types"

func init() {
	register("C24", "content rule over the loop that fills a list: every iteration appends to a list at most one entry, that of the peer it visits in the table of the torrent under the requested hash (compact: 4 address bytes and the port to the first list, 16 and the port to the second, big-endian; otherwise a dictionary of its address, port and ID), leaves what the list held before unchanged, and lists are empty at the start; on every path to the return each list is exactly those entries and the path knows them to be no more than requested", func(c *Check) { c.peerLists() })
}

// grown is what a stretch of a path adds to a list.
type grown struct {
	sym  *Term // the header symbol that tells the length of the list (or the list itself)
	recs *Term // nil: nothing
}

// listGrowth splits a list as it is in st into what it was at the header of l and what was added.
func listGrowth(l *LoopRec, f *Facts, st *State, v *Term) *grown {
	if v.Typ != nil && isSliceT(v.Typ) && l.Init[v] != nil {
		return &grown{sym: v}
	}
	var parts []*Term
	if v.Op == OpSlice && len(v.Args) == 4 {
		parts = concatParts(mkSub(f, st.content(v.Args[0]), lin(v.Args[1]), lin(v.Args[2])))
	} else {
		parts = concatParts(st.bytesOf(v))
	}
	if len(parts) == 0 {
		return nil
	}
	p := parts[0]
	g := &grown{}
	if len(parts) > 1 {
		g.recs = mkConcat(parts[1:]...)
	}
	for s := range l.Init {
		if s.Typ != nil && isSliceT(s.Typ) && l.headerContent(s) == p {
			g.sym = s
			return g
		}
	}
	if p.Op == OpSub && l.Init[p.Args[0]] != nil {
		if off := lin(p.Args[1]); off.isConst() && off.C == 0 {
			n := lin(p.Args[2])
			if len(n.T) == 1 && n.C == 0 && n.T[0].K == 1 && l.Init[n.T[0].A] != nil {
				g.sym = n.T[0].A
				return g
			}
		}
	}
	return nil
}

// startsEmpty: the list is empty when the loop begins.
func (g *grown) startsEmpty(l *LoopRec) bool {
	iv := l.Init[g.sym]
	if isSliceT(g.sym.Typ) {
		iv = lenT(iv)
	}
	n := lin(iv)
	return l.Entry.facts.entailsEq(n)
}

// familyFacts: a stored address is a valid one, of one of the two families.
func familyFacts(f *Facts, ip *Term) *Facts {
	g := f.clone()
	is4, is6 := mk(OpCall, boolTyp, "is4", ip), mk(OpCall, boolTyp, "is6", ip)
	b := lin(lenOfBytes(addrBytes(ip)))
	switch {
	case g.eval(is4) == True || g.eval(is6) == False:
		g.assume(is4, true)
		g.assume(mkEQZ(b.addC(-4)), true)
	case g.eval(is6) == True || g.eval(is4) == False:
		g.assume(is6, true)
		g.assume(mkEQZ(b.addC(-16)), true)
	}
	return g
}

// rangedPeer is the peer visited in a stretch of events that belongs to one iteration.
func rangedPeer(evs []*Event) *Event {
	var rg *Event
	for _, ev := range evs {
		if ev.Kind == "range" && isPeerTable(ev.Args[0].Typ) {
			rg = ev
		}
	}
	return rg
}

func (c *Check) peerLists() {
	for _, r := range c.dbOps("PeerListBytes") {
		c.lists(r, true)
	}
	for _, r := range c.dbOps("PeerList") {
		c.lists(r, false)
	}
	c.need("operation", 2)
	c.need("IPv4 entry", 1)
	c.need("IPv6 entry", 1)
	c.need("dictionary entry", 1)
	c.need("filled list", 2)
	c.need("empty list", 2)
}

func (c *Check) lists(r *Run, compact bool) {
	hash, num := argOf(r, isHashT), argOf(r, isCountT)
	if hash == nil || num == nil {
		c.bad("peers-of", r.Name, r.Name, "the operation does not take a hash and a number", nil)
		return
	}
	type done struct {
		l *LoopRec
		s *Term
		k int
	}
	seen := map[done]bool{}
	for i := range r.Outs {
		o := &r.Outs[i]
		if o.kind != "return" {
			continue
		}
		evs := o.st.trace.since(nil)
		f := o.st.facts
		k := 0
		for _, v := range o.rets {
			if (v.Typ == nil || !isSliceT(v.Typ)) && !(v.Op == OpConst && v.C == nil) {
				continue
			}
			k++
			if f.entailsEq(lin(lenT(v))) {
				c.inst("empty list", r.Name+" "+itoa(int64(i)))
				continue
			}
			var l *LoopRec
			at := -1
			for j, ev := range evs {
				if ev.Kind == "loop" && rangesOver(ev.Loop, isPeerTable) {
					l, at = ev.Loop, j
				}
			}
			pos := pathEnd(&DPath{Evs: evs, Out: o, Name: r.Name})
			if l == nil {
				c.bad("peers-of", r.Name, pos, "a list that may hold entries is returned on a path that visits no peers", evs)
				continue
			}
			ff := f
			rg := rangedPeer(evs[at+1:])
			if rg != nil {
				ff = familyFacts(f, loadField(o.st, rg.Args[2], "IP"))
			}
			g := listGrowth(l, ff, o.st, v)
			if !compact {
				g = indexGrowth(l, ff, o.st, v, evs[at:])
			}
			if g == nil {
				c.bad("only-peers", r.Name, pos, "the returned list is not known to hold exactly what the visits of peers put into it", evs)
				continue
			}
			c.inst("filled list", pos)
			if !g.startsEmpty(l) {
				c.bad("only-peers", r.Name, pos, "the list is not empty when the first peer is visited", evs)
			}
			c.entry(r, hash, rg, o.st, ff, g, k, compact, evs)
			size := int64(1)
			if compact {
				size = 6
				if k == 2 {
					size = 18
				}
			}
			if !f.entails(lin(num).scale(size).sub(lin(lenT(v)))) {
				c.bad("at-most", r.Name, pos, "the returned list is not known to hold at most as many entries as requested", evs)
			}
			if seen[done{l, g.sym, k}] {
				continue
			}
			seen[done{l, g.sym, k}] = true
			for _, it := range l.Iters {
				rg := rangedPeer(it.Events)
				jf := it.St.facts
				if rg == nil {
					c.bad("peers-of", l.ID, l.ID, "an iteration visits no peer", it.Events)
					continue
				}
				jf = familyFacts(jf, loadField(it.St, rg.Args[2], "IP"))
				var h *grown
				if nv := it.Next[g.sym]; nv != nil {
					switch {
					case !compact:
						h = indexStep(l, jf, it.St, g, v, nv)
					case isSliceT(g.sym.Typ):
						h = listGrowth(l, jf, it.St, nv)
					default:
						h = listGrowth(l, jf, it.St, mkSlice(v.Typ, v.Args[0], lin(v.Args[1]), lin(nv), lin(nv)))
					}
				}
				if h == nil || h.sym != g.sym {
					c.badEv("only-peers", rg, "an iteration does not leave the list as it was, with the visited peer added or not", it.Events)
					continue
				}
				c.entry(r, hash, rg, it.St, jf, h, k, compact, it.Events)
			}
		}
		if compact && k != 2 || !compact && k != 1 {
			c.bad("peers-of", r.Name, r.Name, "the operation does not return its lists", evs)
		}
	}
}

// entry judges what was added to list k in a visit of a peer.
func (c *Check) entry(r *Run, hash *Term, rg *Event, st *State, f *Facts, g *grown, k int, compact bool, evs []*Event) {
	if g.recs == nil {
		return
	}
	if rg == nil {
		c.bad("only-peers", r.Name, r.Name, "an entry is added without a peer being visited", evs)
		return
	}
	own := tableOwner(rg.Args[0], st)
	found := evs
	for _, o := range r.Outs { // the lookup lies before the loop
		found = append(found[:len(found):len(found)], o.st.trace.since(nil)...)
		if torrentUnder(found, own, hash) {
			break
		}
		found = evs
	}
	if !torrentUnder(found, own, hash) {
		c.badEv("peers-of", rg, "the peer added is not one of the torrent stored under the requested hash", evs)
	}
	if heldOn(rg.Locks, own, false) == nil {
		c.badEv("peers-of", rg, "peers are visited without their torrent's lock", evs)
	}
	q := rg.Args[2]
	ip, port := loadField(st, q, "IP"), loadField(st, q, "Port")
	if !compact {
		ts, e := bencDict(f, g.recs, r.Loops)
		if e != "" {
			c.badEv("entry", rg, "an entry is not one dictionary: "+e, evs)
			return
		}
		c.inst("dictionary entry", rg.Pos())
		v := bencEntry(ts, "ip")
		if len(v) != 1 || v[0].k != 's' || !(v[0].t.Op == OpCall && v[0].t.Aux == "(net/netip.Addr).String" && v[0].t.Args[0] == ip) {
			c.badEv("entry", rg, "the ip of an entry is not the address of the visited peer", evs)
		}
		v = bencEntry(ts, "port")
		if len(v) != 1 || v[0].k != 'i' || strip(v[0].t) != strip(port) {
			c.badEv("entry", rg, "the port of an entry is not the port of the visited peer", evs)
		}
		v = bencEntry(ts, "peer id")
		omit := argOf(r, isBoolT2)
		if omit != nil && f.eval(omit) != True && (len(v) != 1 || v[0].k != 's' || !sameID(f, v[0].t, rg.Args[1], st)) {
			c.badEv("entry", rg, "the ID of an entry is not the ID of the visited peer", evs)
		}
		return
	}
	n, kind, is := int64(4), "IPv4 entry", "is4"
	if k == 2 {
		n, kind, is = 16, "IPv6 entry", "is6"
	}
	if f.eval(mk(OpCall, boolTyp, is, ip)) != True {
		c.badEv("entry", rg, "a peer is added to a list without being known to be of its address family", evs)
		return
	}
	if !f.entailsEq(lin(lenOfBytes(g.recs)).addC(-n - 2)) {
		c.badEv("entry", rg, "an entry is not known to be "+itoa(n+2)+" bytes long", evs)
		return
	}
	if a := mkSub(f, g.recs, Lin{}, linC(n)); a != addrBytes(ip) {
		c.badEv("entry", rg, "an entry does not begin with the address of the visited peer: "+trunc(a.String(), 200), evs)
		return
	}
	if p := mkSub(f, g.recs, linC(n), linC(2)); !encodes(p, port, 2) {
		c.badEv("entry", rg, "an entry does not end with the port of the visited peer in network byte order: "+trunc(p.String(), 200), evs)
		return
	}
	c.inst(kind, rg.Pos())
}

// sameID: the content is the bytes of the key.
func sameID(f *Facts, s, key *Term, st *State) bool {
	return s == key || s == st.bytesOf(key) || eqTerms(f, s, key)
}

func isCountT(t types.Type) bool { return isInt2(t) && !isBoolT2(t) }

// elemContent gives the bytes of the only element of a list of byte strings.
func elemContent(st *State, e *Term) *Term {
	if e == nil || e.Op != OpElemV {
		return nil
	}
	return st.bytesOf(e.Args[0])
}

// indexGrowth is listGrowth for a list of strings, appended to or filled by index.
func indexGrowth(l *LoopRec, f *Facts, st *State, v *Term, evs []*Event) *grown {
	if g := listGrowth(l, f, st, v); g != nil && isSliceT(g.sym.Typ) {
		if g.recs != nil {
			if g.recs = elemContent(st, g.recs); g.recs == nil {
				return nil
			}
		}
		return g
	}
	if v.Op != OpSlice || len(v.Args) != 4 {
		return nil
	}
	n := lin(v.Args[2])
	for s := range l.Init {
		if !isIntSym(s) || !l.Entry.facts.entailsEq(lin(l.Init[s])) {
			continue
		}
		g := &grown{sym: s}
		x, ok := l.indexed(st, v, s)
		if !ok {
			continue
		}
		k := lin(s)
		if x != nil {
			g.recs = x
			k = k.addC(1)
		}
		ff := f.clone()
		if l.countsVisits(s) {
			for _, ev := range evs {
				if ev.Kind == "rangedone" {
					m := ev.Args[0]
					if !ff.assume(mkEQZ(lin(l.HdrSt.clone().mapLen(m)).sub(lin(s))), true) {
						return g // impossible: the map holds at least as many peers as were to be visited
					}
				}
			}
		}
		if ff.entailsEq(n.sub(k)) || ff.entails(linC(-1)) {
			return g
		}
	}
	return nil
}

func isIntSym(s *Term) bool { return s.Typ != nil && isInt2(s.Typ) && !isBoolT2(s.Typ) }

// indexed: the content of the list is that of the header (nil, true), or that with element s set (its bytes, true).
func (l *LoopRec) indexed(st *State, v, s *Term) (*Term, bool) {
	c := st.content(v.Args[0])
	if l.Init[c] != nil && l.Cell[c] == v.Args[0] {
		return nil, true
	}
	if c.Op == OpUpd && l.Init[c.Args[0]] != nil && l.Cell[c.Args[0]] == v.Args[0] {
		if one, ok := c.Args[2].intConst(); ok && one == 1 && strip(c.Args[1]) == strip(s) {
			x := elemContent(st, c.Args[3])
			return x, x != nil
		}
	}
	return nil, false
}

// countsVisits: s begins at zero and every iteration adds one and visits one entry of a map.
func (l *LoopRec) countsVisits(s *Term) bool {
	for _, it := range l.Iters {
		nv := it.Next[s]
		if nv == nil || !it.St.facts.entailsEq(lin(nv).sub(lin(s)).addC(-1)) || rangedPeer(it.Events) == nil {
			return false
		}
	}
	return l.Entry.facts.entailsEq(lin(l.Init[s]))
}

// indexStep is what one iteration adds to the list.
func indexStep(l *LoopRec, f *Facts, st *State, g *grown, v, nv *Term) *grown {
	if isSliceT(g.sym.Typ) {
		h := listGrowth(l, f, st, nv)
		if h != nil && h.recs != nil {
			if h.recs = elemContent(st, h.recs); h.recs == nil {
				return nil
			}
		}
		return h
	}
	x, ok := l.indexed(st, v, g.sym)
	if !ok {
		return nil
	}
	d := lin(nv).sub(lin(g.sym))
	if x == nil && f.entailsEq(d) || x != nil && f.entailsEq(d.addC(-1)) {
		return &grown{sym: g.sym, recs: x}
	}
	return nil
}
