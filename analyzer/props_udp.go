package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	rule := "every index, slice, nil dereference, type assertion, division, allocation size, nil-map write and pool hand-back reached from the %s worker loop (and from the database operations it calls, with arbitrary arguments) is proved within bounds on every path; no path ends the process"
	register("C01", fmt.Sprintf(rule, "UDP"), func(c *Check) {
		c.serverCrash(c.s, "udp")
		for _, m := range c.s.dbMethods("Save", "Drop", "HashStats", "PeerListBytes") {
			r := c.s.run(m)
			c.inst("database operation", r.Name)
			c.exits(r)
		}
		c.need("database operation", 4)
		c.crash(c.s, crashKinds...)
	})
	register("C02", fmt.Sprintf(rule, "HTTP")+"; in the default and in the app-engine build", func(c *Check) {
		for _, tags := range []string{"", "heroku"} {
			s := c.variant(tags)
			c.serverCrash(s, "http")
			for _, m := range s.dbMethods("Save", "Drop", "HashStats", "PeerListBytes", "PeerList") {
				r := s.run(m)
				c.inst("database operation", tags+" "+r.Name)
				c.exits(r)
			}
			c.crash(s, crashKinds...)
		}
		c.need("database operation", 10)
		c.need("http worker loop", 2)
	})
}

func (c *Check) serverCrash(s *Session, kind string) {
	for _, sv := range s.serversOf(kind) {
		c.inst(kind+" worker loop", s.tags+" "+sv.Body.Name)
		c.add("paths", len(sv.Paths))
		for _, p := range sv.Paths {
			if p.End == "panic" || p.End == "osexit" {
				last := p.Evs[len(p.Evs)-1]
				c.badEv("no-"+p.End, last, "a path of the "+kind+" worker ends the process", p.Evs)
			}
		}
	}
	c.need(kind+" worker loop", 1)
}

func (c *Check) exits(r *Run) {
	for _, o := range r.Outs {
		if o.kind == "panic" {
			evs := o.st.trace.since(nil)
			c.badEv("no-panic", evs[len(evs)-1], "a path panics", evs)
		}
	}
	for _, x := range r.Exits {
		evs := x.trace.since(nil)
		c.badEv("no-exit", evs[len(evs)-1], "a path ends the process", evs)
	}
}

func init() {
	register("C08", "on every path of the UDP worker: a datagram known to have at least 16 bytes is answered by exactly one send, on the receiving socket, to the address received from; one known to be shorter, or a failed receive, by none; no send inside an inner loop", func(c *Check) {
		for _, r := range c.udpReqs() {
			short := r.f.entails(r.n.neg().addC(15))
			long := r.f.entails(r.n.addC(-16))
			switch {
			case r.okRecv() == False || short && r.okRecv() == True:
				c.inst("silent path", pathKey(r.p))
				for _, s := range r.sends {
					c.badEv("no-reply", s.Event, "a reply is sent although no datagram of the minimum size was received", r.p.Evs)
				}
			case long && r.okRecv() == True:
				c.inst("answered path", pathKey(r.p))
				if len(r.sends) != 1 {
					w := r.recv
					if len(r.sends) > 0 {
						w = r.sends[len(r.sends)-1].Event
					}
					c.badEv("one-reply", w, fmt.Sprintf("%d replies to one datagram", len(r.sends)), r.p.Evs)
					continue
				}
				s := r.sends[0]
				if s.Loop != nil {
					c.badEv("one-reply", s.Event, "reply sent inside a loop", r.p.Evs)
				}
				if !sameRecv(s.Args[0], r.recv.Args[0]) {
					c.badEv("reply-socket", s.Event, "reply sent on another socket", r.p.Evs)
				}
				if to := s.Args[len(s.Args)-1]; to != r.remote {
					u, ok := addrOf(to, r.remote)
					if !ok || !u["IP"] || !u["Port"] {
						c.badEv("reply-address", s.Event, "reply sent to "+to.String()+" instead of the sender", r.p.Evs)
					}
				}
			default:
				c.badEv("size-test", r.recv, "a path does not establish whether the datagram has the minimum size", r.p.Evs)
			}
			for _, g := range collect(r.p.Evs, func(ev *Event) bool { return ev.Kind == "go" }) {
				c.badEv("handled-in-worker", g.Event, "the datagram is handed to another goroutine", r.p.Evs)
			}
		}
		c.need("answered path", 5)
		c.need("silent path", 1)
	})

	register("C09", "the content of every reply is parsed symbolically: 0xFF only for heartbeats; otherwise the big-endian action, the request's own transaction ID bytes (offset 12), and the fields of that action in protocol order and width; the reply's action is the request's", func(c *Check) {
		for _, r := range c.udpReqs() {
			for _, s := range r.sends {
				r1 := *r
				r1.sends = []inLoop{s}
				c.wireFormat(&r1)
			}
		}
		for _, k := range []string{"heartbeat", "connect", "announce", "scrape", "error"} {
			c.need(k+" reply", 1)
		}
	})

	register("C10", "on every path that answers an announce: info hash, peer ID, left, event, numwant and port are the protocol's offsets; stopped drops exactly that peer, otherwise one save whose completeness is equivalent to (event completed or left zero) and whose port is known non-zero; counts and peers are those of that hash, in the requester's family, for the clamped number; every valid announce is accepted", func(c *Check) {
		for _, r := range c.udpReqs() {
			c.udpAnnounce(r)
		}
		c.need("announce stored", 1)
		c.need("announce stopped", 1)
	})

	register("C11", "scrape replies are built by a loop that takes the info hashes in order from offset 16 in steps of 20 up to the end of the datagram and appends one entry with that torrent's counts; more than 74 is refused; no path answering a scrape changes torrent state", func(c *Check) {
		for _, r := range c.udpReqs() {
			c.udpScrape(r)
		}
		c.need("scrape answered", 1)
		c.need("scrape refused", 1)
	})

	register("C05", "on every path that touches the torrent database or answers an announce or scrape: validation is known to be off, or a lookup under the sender's own address and port is known to have found exactly the ID carried at offset 0", func(c *Check) {
		c.connCheck()
	})
	register("C06", "on every path that answers a connect: the ID sent is 8 bytes drawn from crypto/rand on this path, stored under the sender's address and port before the send; no other path writes the table", func(c *Check) {
		c.connIssue()
	})
	register("C07", "in the connection expiry job, started with the configured expiry: for each entry, the path deletes it exactly if now-issued > expiry is known, and keeps it only if now-issued <= expiry is known; the whole table is visited; the issue time is the time of the connect", func(c *Check) {
		c.connExpiry()
	})
}

func pathKey(p Path) string {
	s := p.End
	for _, ev := range p.Evs {
		if ev.Kind == "call" || ev.Kind == "loop" {
			s += " " + ev.Pos()
		}
	}
	return s
}

// sameRecv: the same socket, however the field holding it was read.
func sameRecv(a, b *Term) bool {
	return a == b || a.Typ == b.Typ && a.Op == OpLoad && b.Op == OpLoad && a.Args[0] == b.Args[0]
}

func (c *Check) wireFormat(r *udpReq) {
	y := r.reply()
	bad := func(rule, msg string) { c.badEv(rule, y.ev, msg+": "+y.content.String(), r.p.Evs) }
	if y.action == -1 {
		c.inst("heartbeat reply", y.ev.Pos())
		if !r.isAction(4) {
			bad("reply-action", "heartbeat reply to a request not known to be a heartbeat")
		}
		return
	}
	if y.action < 0 {
		bad("action-field", "the reply does not begin with a big-endian action")
		return
	}
	f := r.f
	ln := lin(lenOfBytes(y.content))
	if !f.entails(ln.addC(-8)) {
		bad("length", "the reply is not known to hold action and transaction id")
		return
	}
	if tx := piece(f, y.content, 4, 4); tx != piece(f, r.data, 12, 4) {
		bad("transaction-id", "bytes 4-8 of the reply are "+tx.String()+" instead of the request's transaction id")
	}
	if y.action != 3 && !r.isAction(y.action) {
		bad("reply-action", fmt.Sprintf("reply has action %d but the request is not known to", y.action))
	}
	switch y.action {
	case 0:
		c.inst("connect reply", y.ev.Pos())
		if !f.entailsEq(ln.addC(-16)) {
			bad("length", "a connect reply has 16 bytes")
		}
	case 1:
		c.inst("announce reply", y.ev.Pos())
		if !f.entails(ln.addC(-20)) {
			bad("length", "an announce reply has at least 20 bytes")
			return
		}
		for _, ev := range r.db {
			if dbOp(ev.Event) == "HashStats" && ev.Loop == nil {
				if !encodes(piece(f, y.content, 12, 4), ev.Res[1], 4) || !encodes(piece(f, y.content, 16, 4), ev.Res[0], 4) {
					bad("field-order", "bytes 12-20 of an announce reply are leechers then seeders")
				}
			}
		}
		if iv := piece(f, y.content, 8, 4); len(r.db) > 1 {
			if mentionsRequest(iv, r.data) || anyRes(iv, r.db) {
				bad("field-order", "the interval field holds "+iv.String())
			}
		}
	case 2:
		c.inst("scrape reply", y.ev.Pos())
		if sc := c.scrapeBody(r, y); sc != nil {
			for i, e := range sc.entry {
				if e == nil || !f.entailsEq(lin(lenOfBytes(e)).addC(-12)) {
					bad("length", "a scrape entry has 12 bytes")
				} else if st := sc.stats[i]; st != nil {
					if !encodes(piece(f, e, 0, 4), st.Res[0], 4) || !encodes(piece(f, e, 8, 4), st.Res[1], 4) || anyRes(piece(f, e, 4, 4), r.db) {
						bad("field-order", "a scrape entry is seeders, completed, leechers; found "+e.String())
					}
				}
			}
		} else {
			bad("scrape-body", "the scrape entries are not understood")
		}
	case 3:
		c.inst("error reply", y.ev.Pos())
	default:
		bad("reply-action", "unknown reply action")
	}
}

func mentionsRequest(t, data *Term) bool { return t.mentions(data) }
func anyRes(t *Term, evs []inLoop) bool {
	for _, ev := range evs {
		for _, x := range ev.Res {
			if t.mentions(x) {
				return true
			}
		}
	}
	return false
}

type scrapeParts struct {
	loop  *LoopRec
	entry []*Term  // bytes appended by each iteration
	stats []*Event // its count lookup
	acc   *accum
}

// scrapeBody explains the bytes after the header of a scrape reply by the loop that built them.
func (c *Check) scrapeBody(r *udpReq, y *udpReply) *scrapeParts {
	f := r.f
	var body *Term
	ps := concatParts(y.content)
	// header: parts making up the first 8 bytes
	n := Lin{}
	i := 0
	for i < len(ps) && !f.entails(n.addC(-8)) {
		n = n.add(lin(lenOfBytes(ps[i])))
		i++
	}
	if !f.entailsEq(n.addC(-8)) {
		// the buffer that was filled in the loop may hold the header itself
		body = y.content
	} else {
		body = mkConcat(ps[i:]...)
	}
	for _, l := range loopsOf(r.p.Evs) {
		for s := range l.Init {
			if sp := c.filledBody(f, l, s, body); sp != nil {
				return sp
			}
			hc := l.headerContent(s)
			var enc types.Type
			match := body == hc
			if body.Op == OpEnc && len(body.Args) >= 1 && body.Args[0] == hc && strings.HasPrefix(body.Aux, "BE:seq:") {
				match = true
				if st, ok := s.Typ.Underlying().(*types.Slice); ok {
					enc = st.Elem()
				}
			}
			if !match {
				continue
			}
			a := l.accum(s)
			if a == nil {
				return nil
			}
			if init, ok := a.Init.strConst(); !(ok && init == "") {
				// the header is in the buffer already
				if body != y.content || !f.entailsEq(lin(lenOfBytes(a.Init)).addC(-8)) {
					return nil
				}
			}
			sp := &scrapeParts{loop: l, acc: a}
			for k, it := range l.Iters {
				e := a.PerIter[k]
				if e != nil && enc != nil {
					if e.Op == OpElemV {
						e, _ = encodeVal(it.St, "BE", e.Args[0], enc)
					} else {
						e = nil
					}
				}
				sp.entry = append(sp.entry, e)
				var st *Event
				for _, ev := range it.Events {
					if dbOp(ev) == "HashStats" {
						st = ev
					}
				}
				sp.stats = append(sp.stats, st)
			}
			return sp
		}
	}
	return nil
}

// filledBody: the loop wrote the body piece by piece into memory made for it.
func (c *Check) filledBody(f *Facts, l *LoopRec, s, body *Term) *scrapeParts {
	var enc types.Type
	src := body
	if body.Op == OpEnc && len(body.Args) >= 1 && strings.HasPrefix(body.Aux, "BE:seq:") {
		src = body.Args[0]
	}
	n := lin(lenOfBytes(src))
	if src.Op == OpSub && src.Args[0] == s {
		if !f.entailsEq(lin(src.Args[1])) {
			return nil
		}
		n = lin(src.Args[2])
	} else if src != s {
		return nil
	}
	fl := l.fill(s)
	if fl == nil || !l.Entry.facts.entailsEq(fl.From) || !f.entailsEq(n.sub(fl.At)) {
		return nil
	}
	if src != body {
		enc = body.Typ
	}
	sp := &scrapeParts{loop: l}
	for k, it := range l.Iters {
		e := fl.PerIter[k]
		if e != nil && enc != nil {
			if e.Op == OpElemV {
				e, _ = encodeVal(it.St, "BE", e.Args[0], enc)
			} else {
				e = nil
			}
		}
		sp.entry = append(sp.entry, e)
		var st *Event
		for _, ev := range it.Events {
			if dbOp(ev) == "HashStats" {
				st = ev
			}
		}
		sp.stats = append(sp.stats, st)
	}
	return sp
}

// loopsOf lists the loops a path went through, innermost included.
func loopsOf(evs []*Event) []*LoopRec {
	var r []*LoopRec
	deep(evs, func(ev *Event, _ *LoopRec) {
		if ev.Loop != nil {
			r = append(r, ev.Loop)
		}
	})
	return r
}

func (c *Check) udpScrape(r *udpReq) {
	y := r.reply()
	if y == nil {
		return
	}
	f := r.f
	bad := func(rule, msg string) { c.badEv(rule, y.ev, msg, r.p.Evs) }
	if r.isAction(2) || y.action == 2 {
		for _, ev := range r.db {
			if op := dbOp(ev.Event); op != "HashStats" {
				c.badEv("read-only", ev.Event, "a scrape calls "+op, r.p.Evs)
			}
		}
	}
	if y.action == 3 && r.isAction(2) {
		c.inst("scrape refused", y.ev.Pos())
		if !f.entails(r.n.addC(-16-20*75)) && !f.entails(r.n.neg().addC(35)) && !c.refusable(r) {
			bad("scrape-answered", "a scrape of at most 74 info hashes is refused")
		}
		return
	}
	if y.action != 2 {
		return
	}
	c.inst("scrape answered", y.ev.Pos())
	if !f.entails(r.n.neg().addC(16 + 20*75 - 1)) {
		bad("scrape-limit", "a scrape of more than 74 info hashes can be answered")
	}
	sp := c.scrapeBody(r, y)
	if sp == nil {
		bad("scrape-entries", "the entries are not built by a loop over the info hashes")
		return
	}
	l := sp.loop
	for i, it := range l.Iters {
		var hs []*Event
		for _, ev := range it.Events {
			if dbOp(ev) == "HashStats" {
				hs = append(hs, ev)
			}
		}
		if len(hs) != 1 || sp.entry[i] == nil {
			bad("one-entry", "an iteration does not look up and append exactly one torrent")
			continue
		}
		h := hs[0].Args[1]
		if h.Op != OpSub || h.Args[0] != r.data {
			c.badEv("hash-bytes", hs[0], "the counts are looked up for "+h.String(), it.Events)
			continue
		}
		if n, ok := h.Args[2].intConst(); !ok || n != 20 {
			c.badEv("hash-bytes", hs[0], "an info hash has 20 bytes", it.Events)
		}
		off := lin(h.Args[1])
		first := substLinMap(off, l.Init)
		if !l.Entry.facts.entailsEq(first.addC(-16)) {
			c.badEv("hash-order", hs[0], "the first info hash is taken from offset "+first.String(), it.Events)
		}
		next := substLinMap(off, it.Next)
		if !it.St.facts.entailsEq(next.sub(off).addC(-20)) {
			c.badEv("hash-order", hs[0], "successive info hashes are "+next.sub(off).String()+" bytes apart", it.Events)
		}
		// when the loop is left, everything was taken
		left := r.n.sub(off)
		if !f.entails(left.neg().addC(19)) || !f.entails(left) {
			bad("all-hashes", "the loop can end before or after the last whole info hash")
		}
		e := sp.entry[i]
		if !it.St.facts.entailsEq(lin(lenOfBytes(e)).addC(-12)) || !encodes(piece(it.St.facts, e, 0, 4), hs[0].Res[0], 4) || !encodes(piece(it.St.facts, e, 8, 4), hs[0].Res[1], 4) {
			c.badEv("entry-counts", hs[0], "the entry does not hold the torrent's complete and incomplete counts: "+e.String(), it.Events)
		}
	}
	// the only way on is through the loop's own end
	for _, ev := range r.db {
		if ev.Loop != l && dbOp(ev.Event) == "HashStats" {
			c.badEv("one-entry", ev.Event, "counts looked up outside the entry loop", r.p.Evs)
		}
	}
}

// refusable: a reason, other than its content, for which a request may be answered with an error.
func (c *Check) refusable(r *udpReq) bool {
	f := r.f
	// the sender's address was not understood
	for _, t := range termsOf(func(t *Term) bool {
		return t.Op == OpLen && t.Args[0].Op == OpLoad && t.Args[0].Args[0].Op == OpField && t.Args[0].Args[0].Args[0] == r.remote && fieldName(t.Args[0].Args[0]) == "IP"
	}) {
		if f.entailsNeq(lin(t).addC(-4)) && f.entailsNeq(lin(t).addC(-16)) {
			return true
		}
	}
	// the system's random source failed
	for _, ev := range r.p.Evs {
		if ev.Kind == "call" && strings.Contains(ev.Name, "rand.Read") && len(ev.Res) > 1 && f.eval(mkEq(ev.Res[1], nilT)) == False {
			return true
		}
	}
	return r.connBad()
}

// connBad: the path knows that the carried connection id is not the one on record, and validation is on.
func (r *udpReq) connBad() bool {
	if r.validateOff() != False {
		return false
	}
	for _, g := range r.maps {
		if g.Kind != "mapget" || g.Loop != nil {
			continue
		}
		if r.f.eval(g.Args[2]) == False {
			return true
		}
		for _, id := range mapFields(g.Event) {
			for _, d := range decs(r.data, 0, 8) {
				if r.f.entailsNeq(lin(id).sub(lin(d))) {
					return true
				}
			}
		}
	}
	return false
}

// validateOff: whether the path knows that connection validation is disabled.
func (r *udpReq) validateOff() Tri {
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLoad && cfgPath(t) == "UDP.ConnDB.Validate" }) {
		switch r.f.eval(t) {
		case True:
			return False
		case False:
			return True
		}
	}
	return Unknown
}

// mapFields: the 8-byte integers of the value a lookup found.
func mapFields(ev *Event) []*Term {
	var r []*Term
	m, k := ev.Args[0], ev.Args[1]
	for _, t := range termsOf(func(t *Term) bool {
		return t.Op == OpFieldVal && t.Args[0].Op == OpLoad && t.Args[0].Args[0].Op == OpMapVal && t.Args[0].Args[0].Args[0] == m && t.Args[0].Args[0].Args[1] == k
	}) {
		if intSize(t.Typ) == 8 {
			r = append(r, t)
		}
	}
	return r
}

func (c *Check) udpAnnounce(r *udpReq) {
	y := r.reply()
	if y == nil {
		return
	}
	f := r.f
	bad := func(ev *Event, rule, msg string) { c.badEv(rule, ev, msg, r.p.Evs) }
	port := append(decs(r.data, 96, 2), decs(r.data, 96, 2)...)
	event := decs(r.data, 80, 4)
	left := decs(r.data, 64, 8)
	numwant := decs(r.data, 92, 4)
	if y.action != 1 {
		for _, ev := range r.db {
			if op := dbOp(ev.Event); op == "Save" || op == "Drop" {
				bad(ev.Event, "refused-unchanged", "a request not answered as an announce calls "+op)
			}
		}
		// an announce is refused only for a reason
		if y.action == 3 && r.isAction(1) && !f.entails(r.n.neg().addC(97)) && !eqConst(f, port, 0) && !c.refusable(r) {
			bad(y.ev, "valid-accepted", "an announce is refused without a reason")
		}
		return
	}
	hash, peer := piece(f, r.data, 16, 20), piece(f, r.data, 36, 20)
	if !f.entails(r.n.addC(-98)) {
		bad(y.ev, "announce-size", "an announce shorter than 98 bytes is answered")
	}
	if !neqConst(f, port, 0) {
		bad(y.ev, "announce-port", "an announce with port zero is answered")
	}
	ops := map[string][]*Event{}
	for _, ev := range r.db {
		if ev.Loop != nil {
			bad(ev.Event, "once", "a database operation of an announce is repeated in a loop")
			return
		}
		ops[dbOp(ev.Event)] = append(ops[dbOp(ev.Event)], ev.Event)
	}
	if len(ops["Drop"]) > 0 {
		c.inst("announce stopped", y.ev.Pos())
		ev := ops["Drop"][0]
		if len(ops["Drop"]) != 1 || len(ops["Save"]) != 0 {
			bad(ev, "stopped", "stopped removes once and stores nothing")
		}
		if !eqConst(f, event, 3) {
			bad(ev, "stopped", "a peer is removed by an event not known to be stopped")
		}
		if ev.Args[1] != hash || ev.Args[2] != peer {
			bad(ev, "stopped-peer", "removes "+ev.Args[1].String()+", "+ev.Args[2].String()+" instead of the announced hash and peer id")
		}
		return
	}
	if len(ops["Save"]) != 1 {
		bad(y.ev, "stored-once", fmt.Sprintf("an accepted announce calls Save %d times", len(ops["Save"])))
		return
	}
	c.inst("announce stored", y.ev.Pos())
	ev := ops["Save"][0]
	if !neqConst(f, event, 3) {
		bad(ev, "stopped", "a peer is stored by an event that may be stopped")
	}
	if ev.Args[4] != hash || ev.Args[5] != peer {
		bad(ev, "stored-peer", "stores under "+ev.Args[4].String()+", "+ev.Args[5].String()+" instead of the announced hash and peer id")
	}
	if !anyOf(port, func(t *Term) bool { return strip(ev.Args[2]) == t }) {
		bad(ev, "stored-port", "stores port "+ev.Args[2].String())
	}
	forBool(f, ev.Args[3], func(f *Facts, v bool) {
		comp := eqConst(f, event, 1) || eqConst(f, left, 0)
		incomp := neqConst(f, event, 1) && neqConst(f, left, 0)
		if v && !comp || !v && !incomp {
			bad(ev, "completeness", fmt.Sprintf("stored complete=%v although the path does not know that this is (event completed or left zero)", v))
		}
	})
	// the reply
	hs, pl := ops["HashStats"], ops["PeerListBytes"]
	if len(hs) < 1 || len(pl) != 1 {
		bad(y.ev, "reply-counts", "the reply is not built from the torrent's counts and one peer list")
		return
	}
	h := hs[len(hs)-1]
	if h.Args[1] != hash {
		bad(h, "reply-counts", "counts of "+h.Args[1].String())
	}
	if index(r.p.Evs, h) < index(r.p.Evs, ev) {
		bad(h, "reply-counts", "counts are taken before the announce is stored")
	}
	if !encodes(piece(f, y.content, 12, 4), h.Res[1], 4) || !encodes(piece(f, y.content, 16, 4), h.Res[0], 4) {
		bad(y.ev, "reply-counts", "the reply's leechers and seeders are not the torrent's incomplete and complete counts")
	}
	p := pl[0]
	if p.Args[1] != hash {
		bad(p, "reply-peers", "peers of "+p.Args[1].String())
	}
	if index(r.p.Evs, p) < index(r.p.Evs, ev) {
		bad(p, "reply-peers", "peers are taken before the announce is stored")
	}
	want := strip(p.Args[2])
	switch {
	case leConst(f, numwant, 0):
		if !isCfg(want, "Numwant.Default") {
			bad(p, "numwant", "asks for "+want.String()+" peers when numwant is not positive")
		}
	case geConst(f, numwant, 1):
		lims := withConvs(termsOf(func(t *Term) bool { return t.Op == OpLoad && cfgPath(t) == "Numwant.Limit" }))
		nw := func(g func(a, b Lin) bool) bool {
			return anyOf(numwant, func(a *Term) bool { return anyOf(lims, func(b *Term) bool { return g(lin(a), lin(b)) }) })
		}
		isNW := anyOf(numwant, func(t *Term) bool { return want == t })
		switch {
		case isNW && nw(func(a, b Lin) bool { return f.entails(b.sub(a)) }):
		case isCfg(want, "Numwant.Limit") && nw(func(a, b Lin) bool { return f.entails(a.sub(b)) }):
		default:
			bad(p, "numwant", "asks for "+want.String()+" peers: not known to be the smaller of numwant and the limit")
		}
	default:
		bad(p, "numwant", "the number of peers is chosen without knowing whether numwant is positive")
	}
	// address family
	rest := lin(lenOfBytes(y.content)).addC(-20)
	body := mkSub(f, y.content, linC(20), rest)
	var is4 Tri
	for _, t := range termsOf(func(t *Term) bool {
		return t.Op == OpCall && (t.Aux == "is4" || t.Aux == "is6") && t.Args[0] == ev.Args[1]
	}) {
		if v := f.eval(t); v != Unknown {
			if t.Aux == "is6" {
				v = map[Tri]Tri{True: False, False: True}[v]
			}
			is4 = v
		}
	}
	var wantList *Term
	switch is4 {
	case True:
		wantList = p.Res[0]
	case False:
		wantList = p.Res[1]
	default:
		bad(y.ev, "reply-family", "the peers are chosen without knowing the requester's address family")
		return
	}
	if !wholeOf(body, wantList) {
		bad(y.ev, "reply-family", "the reply does not end with the peers of the requester's family: "+body.String())
	}
}

// wholeOf: the content is all of a slice's bytes.
func wholeOf(c, s *Term) bool {
	if c.Op == OpSub && c.Args[0].Op == OpLoad && c.Args[0].Args[0] == mkBack(s) {
		z, ok := c.Args[1].intConst()
		return ok && z == 0 && c.Args[2] == lenT(s)
	}
	return c.Op == OpLoad && c.Args[0] == mkBack(s)
}

// connKey checks that a table key is the sender's address and port, with nothing lost.
func (c *Check) connKey(r *udpReq, ev *Event, key *Term) bool {
	u, ok := addrOf(key, r.remote)
	if !ok || !u["IP"] || !u["Port"] {
		c.badEv("table-key", ev, "the table of connection ids is accessed under "+key.String()+", not under the sender's address and port", r.p.Evs)
		return false
	}
	return true
}

func (c *Check) connCheck() {
	var setKeys = map[*Term]bool{}
	rs := c.udpReqs()
	for _, r := range rs {
		for _, m := range r.maps {
			if m.Kind == "mapset" {
				setKeys[m.Args[1]] = true
			}
		}
	}
	for _, r := range rs {
		y := r.reply()
		first := (*Event)(nil)
		if len(r.db) > 0 {
			first = r.db[0].Event
		} else if y != nil && (y.action == 1 || y.action == 2) {
			first = y.ev
		}
		if y != nil && y.action == 3 && r.connBad() {
			c.inst("refused id", y.ev.Pos())
		}
		if first == nil {
			continue
		}
		c.inst("guarded request", first.Pos())
		c.add("guarded paths", 1)
		if r.validateOff() == True {
			continue
		}
		ok := false
		for _, g := range r.maps {
			if g.Kind != "mapget" || g.Loop != nil || r.f.eval(g.Args[2]) != True || index(r.p.Evs, g.Event) > index(r.p.Evs, first) && r.db != nil && r.db[0].Loop == nil {
				continue
			}
			if !c.connKey(r, g.Event, g.Args[1]) {
				continue
			}
			if len(setKeys) > 0 && !setKeys[g.Args[1]] {
				c.badEv("table-key", g.Event, "ids are looked up under another key than they are recorded under", r.p.Evs)
				continue
			}
			for _, id := range mapFields(g.Event) {
				if anyOf(decs(r.data, 0, 8), func(d *Term) bool { return r.f.entailsEq(lin(id).sub(lin(d))) }) && c.idField(rs, id) {
					ok = true
				}
			}
		}
		if !ok {
			c.badEv("id-checked", first, "reached without knowing that the carried connection id is the one recorded for the sender", r.p.Evs)
		}
	}
	c.need("guarded request", 2)
	c.need("refused id", 1)
}

// idField: the field compared is the one connect requests record the id in.
func (c *Check) idField(rs []*udpReq, id *Term) bool {
	for _, r := range rs {
		for _, m := range r.maps {
			if m.Kind == "mapset" {
				if v := m.Args[2]; v.Op == OpStruct && id.Idx < len(v.Args) {
					if y := r.reply(); y != nil && y.action == 0 {
						return encodes(piece(r.f, y.content, 8, 8), v.Args[id.Idx], 8)
					}
				}
			}
		}
	}
	return true
}

func (c *Check) connIssue() {
	for _, r := range c.udpReqs() {
		y := r.reply()
		connect := y != nil && y.action == 0
		var sets []*Event
		for _, m := range r.maps {
			switch m.Kind {
			case "mapset":
				if !connect {
					c.badEv("only-connect", m.Event, "a request that is not answered as a connect records an id", r.p.Evs)
				} else if m.Loop != nil {
					c.badEv("recorded-once", m.Event, "ids are recorded in a loop", r.p.Evs)
				} else {
					sets = append(sets, m.Event)
				}
			case "mapdel":
				c.badEv("only-connect", m.Event, "a request removes recorded ids", r.p.Evs)
			}
		}
		for _, st := range collect(r.p.Evs, func(ev *Event) bool {
			return ev.Kind == "store" && ev.Args[0].Typ != nil && typeKey(deref(ev.Args[0].Typ)) == c.connMapKey(r.sv)
		}) {
			c.badEv("only-connect", st.Event, "a request replaces the table of ids", r.p.Evs)
		}
		if y != nil && y.action == 3 && r.isAction(0) && !c.refusable(r) {
			c.badEv("connect-answered", y.ev, "a connect is refused without a reason", r.p.Evs)
		}
		if !connect {
			continue
		}
		c.inst("connect answered", y.ev.Pos())
		if len(sets) != 1 {
			c.badEv("recorded-once", y.ev, fmt.Sprintf("the id is recorded %d times", len(sets)), r.p.Evs)
			continue
		}
		s := sets[0]
		if index(r.p.Evs, s) > index(r.p.Evs, y.ev) {
			c.badEv("recorded-first", s, "the id is sent before it is recorded", r.p.Evs)
		}
		c.connKey(r, s, s.Args[1])
		sent := piece(r.f, y.content, 8, 8)
		if !fromCSPRNG(sent, r.p.Evs) {
			c.badEv("unguessable", y.ev, "the id sent is "+sent.String()+", not 8 bytes drawn from crypto/rand for this request", r.p.Evs)
		}
		v := s.Args[2]
		ok := false
		for _, fv := range structFields(v) {
			if encodes(sent, fv, 8) || fv == sent {
				ok = true
			}
		}
		if !ok {
			c.badEv("recorded-id", s, "the id recorded, "+v.String()+", is not the id sent, "+sent.String(), r.p.Evs)
		}
	}
	c.need("connect answered", 1)
}

func structFields(v *Term) []*Term {
	if v.Op == OpStruct {
		return v.Args
	}
	return []*Term{v}
}

// fromCSPRNG: eight whole bytes of what crypto/rand delivered on this path.
func fromCSPRNG(t *Term, evs []*Event) bool {
	if t.Op == OpEnc && len(t.Args) == 1 {
		if d := strip(t.Args[0]); d.Op == OpDec && len(d.Args) == 2 && intSize(d.Typ) == 8 {
			return isRandSym(d.Args[0], evs)
		}
	}
	if t.Op == OpSub {
		if n, ok := t.Args[2].intConst(); !ok || n != 8 {
			return false
		}
		return isRandSym(t.Args[0], evs)
	}
	return isRandSym(t, evs)
}

func isRandSym(t *Term, evs []*Event) bool {
	if t.Op != OpSym || !strings.Contains(t.Aux, "csprng") {
		return false
	}
	for _, ev := range evs {
		if ev.Kind == "call" && strings.Contains(ev.Name, "rand.Read") || ev.Kind == "call" && ev.Name == "io.ReadFull" {
			for _, x := range append(append([]*Term{}, ev.Res...), ev.Args...) {
				if x == t {
					return true
				}
			}
			if ev.St == nil {
				if strings.HasPrefix(t.Aux, evSym(ev)) {
					return true
				}
			}
		}
	}
	return false
}

func evSym(ev *Event) string { return ev.Fr.newSym(ev.Instr, "", nil).Aux }

func (c *Check) connExpiry() {
	var key string
	rs := c.udpReqs()
	if len(rs) == 0 {
		return
	}
	key = c.connMapKey(rs[0].sv)
	// which field of an entry holds the issue time
	idx := -1
	for _, r := range rs {
		y := r.reply()
		for _, m := range r.maps {
			if m.Kind == "mapset" && y != nil && y.action == 0 {
				for i, fv := range structFields(m.Args[2]) {
					if isNow(fv, r.p.Evs) {
						idx = i
					}
				}
				if idx < 0 {
					c.badEv("issue-time", m.Event, "the entry recorded for a connect does not hold the current time: "+m.Args[2].String(), r.p.Evs)
				}
			}
		}
	}
	if idx < 0 {
		c.bad("anchor", "issue time", "-", "no entry recorded by a connect request was found", nil)
		return
	}
	for _, j := range c.s.goRuns() {
		for _, l := range j.run.Loops {
			c.expiryLoop(l, key, idx)
		}
	}
	c.need("expiry loop", 1)
	c.need("deleting iteration", 1)
	c.need("keeping iteration", 1)
}

func (c *Check) expiryLoop(l *LoopRec, key string, idx int) {
	is := false
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			if ev.Kind == "mapdel" && mapClass(ev) == key {
				is = true
			}
		}
	}
	if !is {
		return
	}
	c.inst("expiry loop", l.ID)
	for _, it := range l.Iters {
		var rg *Event
		var dels []*Event
		for _, ev := range it.Events {
			if ev.Kind == "range" && mapClass(ev) == key {
				rg = ev
			}
		}
		for _, d := range collect(it.Events, func(ev *Event) bool { return ev.Kind == "mapdel" && mapClass(ev) == key }) {
			dels = append(dels, d.Event)
		}
		if rg == nil {
			// not the table loop itself (an enclosing loop)
			if len(dels) > 0 && !loopHas(l, func(ev *Event) bool { return ev.Loop != nil }) {
				c.badEv("expiry-range", dels[0], "entries are removed outside an iteration over the table", it.Events)
			}
			return
		}
		k, v := rg.Args[1], rg.Args[2]
		ts := fieldOf(v, idx, structOf(v.Typ))
		f := it.St.facts
		// expired: now - ts - expiry - 1 >= 0
		verdict := Unknown
		for _, now := range nowTerms() {
			for _, ex := range expiryTerms() {
				e := lin(now).sub(lin(ts)).sub(lin(ex)).addC(-1)
				if f.entails(e) {
					verdict = True
				} else if f.entails(e.neg().addC(-1)) {
					verdict = False
				}
			}
		}
		switch {
		case len(dels) == 1 && dels[0].Args[1] == k && dels[0].Args[0] == rg.Args[0]:
			c.inst("deleting iteration", l.ID+dels[0].Pos())
			if verdict != True {
				c.badEv("only-expired", dels[0], "an entry is removed on a path that does not know now - issued > the configured UDP connection expiry", it.Events)
			}
		case len(dels) == 0:
			c.inst("keeping iteration", l.ID)
			if verdict != False {
				c.badEv("all-expired", rg, "an entry is kept on a path that does not know now - issued <= the configured UDP connection expiry", it.Events)
			}
		default:
			c.badEv("only-expired", dels[0], "an iteration removes something else than the visited entry", it.Events)
		}
		for _, ev := range it.Events {
			if ev.Kind == "mapset" && mapClass(ev) == key {
				c.badEv("entries-kept", ev, "expiry rewrites entries", it.Events)
			}
		}
	}
	for _, x := range l.Exits {
		evs := x.st.trace.since(l.HdrSt.trace)
		done := false
		for _, ev := range evs {
			if ev.Kind == "rangedone" && mapClass(ev) == key {
				done = true
			}
		}
		if !done && len(evs) > 0 {
			c.badEv("all-visited", evs[len(evs)-1], "the iteration over the table can stop before its end", evs)
		}
	}
}

// nowTerms: the current time in seconds.
func nowTerms() []*Term {
	return termsOf(func(t *Term) bool {
		return t.Op == OpCall && strings.HasSuffix(t.Aux, "Unix") && len(t.Args) > 0 && t.Args[0].Op == OpCall && t.Args[0].Aux == "now"
	})
}

// expiryTerms: the configured connection expiry in seconds.
func expiryTerms() []*Term { return expirySeconds("UDP.ConnDB.Expiry") }

func isInt2(t types.Type) bool { return t != nil && isInt(t) }

// secondsOf: t is a configured duration in whole seconds.
func secondsOf(t *Term, cfg string) bool {
	t = strip(t)
	if t.Op == OpCall && len(t.Args) == 1 {
		x := strip(t.Args[0])
		if t.Aux == "ftoi" && x.Op == OpCall && strings.HasPrefix(x.Aux, "(time.Duration).Seconds") && len(x.Args) == 1 {
			return cfgPath(strip(x.Args[0])) == cfg
		}
		return false
	}
	for _, u := range []struct {
		of string
		by int64
	}{{"", 1_000_000_000}, {"(time.Duration).Microseconds", 1_000_000}, {"(time.Duration).Milliseconds", 1000}} {
		if t.Op != OpBin || t.Aux != "/" || len(t.Args) != 2 {
			continue
		}
		x := strip(t.Args[0])
		if k, ok := t.Args[1].intConst(); !ok || k != u.by {
			continue
		}
		if u.of == "" && cfgPath(x) == cfg || u.of != "" && x.Op == OpCall && strings.HasPrefix(x.Aux, u.of) && cfgPath(strip(x.Args[0])) == cfg {
			return true
		}
	}
	return false
}

// isNow: the value is the time of this very path.
func isNow(t *Term, evs []*Event) bool {
	t = strip(t)
	return t.Op == OpCall && strings.HasSuffix(t.Aux, "Unix") && len(t.Args) > 0 && t.Args[0].Op == OpCall && t.Args[0].Aux == "now"
}
