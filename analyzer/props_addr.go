package main

// Where the address of a stored peer comes from (C17).

import "strings"

func init() {
	register("C17", "on every path of the UDP and HTTP worker loops (default and heroku build) the address given to Save is the unmapped source address of that datagram or connection; in the heroku build it may instead be the trimmed piece between the last comma and the end of line of the X-Forwarded-For header, found at the start of a line of the header block, and the connection's address only where no such header was found", func(c *Check) {
		for _, tags := range []string{"", "heroku"} {
			s := c.variant(tags)
			c.udpAddress(s)
			c.httpAddress(s, tags)
		}
		c.need("UDP address", 1)
		c.need("HTTP address", 2)
	})
}

func (c *Check) udpAddress(s *Session) {
	old := c.s
	c.s = s
	defer func() { c.s = old }()
	for _, r := range c.udpReqs() {
		for _, d := range r.db {
			if dbOp(d.Event) != "Save" {
				continue
			}
			a := d.Args[1]
			used, ok := addrOf(a, r.remote)
			if !ok || len(used) == 0 || used["Port"] || !used["IP"] {
				c.badEv("source-address", d.Event, "the stored address is "+trunc(a.String(), 200)+", not the IP the datagram came from", r.p.Evs)
				continue
			}
			if !unmapped(r.f, a) {
				c.badEv("unmapped", d.Event, "an IPv4-mapped address may be stored as IPv6", r.p.Evs)
			}
			c.inst("UDP address", s.tags+" "+trunc(a.String(), 200))
		}
	}
}

func unmapped(f *Facts, a *Term) bool {
	if a.Op == OpCall && a.Aux == "unmap" {
		return true
	}
	for t, v := range f.bools {
		if t.Op == OpCall && len(t.Args) == 1 && t.Args[0] == a && (t.Aux == "is4" && v || t.Aux == "is4in6" && !v) {
			return true
		}
	}
	return false
}

// from: the term is computed from the root alone.
func from(t, root *Term) bool {
	found := false
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == root {
			found = true
			return true
		}
		switch t.Op {
		case OpSym:
			return false
		case OpLoad:
			return t.mentions(root) && walk(t.Args[0])
		}
		for _, a := range t.Args {
			if a != nil && !walk(a) {
				return false
			}
		}
		return true
	}
	return walk(t) && found
}

func (c *Check) httpAddress(s *Session, tags string) {
	for _, r := range c.httpReqs(s) {
		for _, d := range r.db {
			if dbOp(d.Event) != "Save" {
				continue
			}
			a := d.Args[1]
			if !unmapped(r.f, a) {
				c.badEv("unmapped", d.Event, "an IPv4-mapped address may be stored as IPv6", r.p.Evs)
			}
			ra := remoteAddrOf(a, r.conn)
			if ra != nil && from(a, ra) && rightPart(a) {
				if tags == "heroku" && !noHeader(r.f) {
					c.badEv("forwarded", d.Event, "the address of the connection is stored although the forwarding header may be present", r.p.Evs)
				}
				c.inst("HTTP address", tags+" "+trunc(a.String(), 160))
				continue
			}
			if tags != "heroku" {
				c.badEv("source-address", d.Event, "the stored address is "+trunc(a.String(), 200)+", not the address of the connection", r.p.Evs)
				continue
			}
			if why := lastForwarded(r, a); why != "" {
				c.badEv("forwarded", d.Event, "the stored address is not the last of the forwarding header: "+why+": "+trunc(a.String(), 300), r.p.Evs)
				continue
			}
			c.inst("HTTP address", tags+" "+trunc(a.String(), 300))
		}
	}
}

func remoteAddrOf(a, conn *Term) *Term {
	var r *Term
	a.contains(func(t *Term) bool {
		if t.Op == OpCall && strings.HasSuffix(t.Aux, ".RemoteAddr") && len(t.Args) > 0 && (t.Args[0] == conn || dynPtr(t.Args[0]) == conn) {
			r = t
			return true
		}
		return false
	}, map[*Term]bool{})
	return r
}

// rightPart: where the address is taken apart, the host is used.
func rightPart(a *Term) bool {
	return !a.contains(func(t *Term) bool {
		return t.Op == OpCall && strings.HasPrefix(t.Aux, "net.SplitHostPort#") && t.Aux != "net.SplitHostPort#0" || t.Op == OpCall && t.Aux == "ap.port" || t.Op == OpField && fieldName(t) == "Port"
	}, map[*Term]bool{})
}

const fwdKey = "X-Forwarded-For:"

func searchFor(key string) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op != OpCall || len(t.Args) < 2 || t.Aux != "index" {
			return false
		}
		s, ok := t.Args[1].strConst()
		return ok && (key == s || key == fwdKey && strings.Contains(s, key))
	}
}

func noHeader(f *Facts) bool {
	for _, t := range termsOf(searchFor(fwdKey)) {
		if f.entails(lin(t).neg().addC(-1)) {
			return true
		}
	}
	for t, v := range f.bools {
		if t.Op == OpCall && t.Aux == "contains" && !v {
			if s, ok := t.Args[1].strConst(); ok && strings.Contains(s, fwdKey) {
				return true
			}
		}
	}
	return false
}

// region of a content: base content, offset and length.
func region(x *Term) (*Term, Lin, Lin) {
	if x.Op == OpSub {
		return x.Args[0], lin(x.Args[1]), lin(x.Args[2])
	}
	return x, linC(0), lin(lenOfBytes(x))
}

func lastForwarded(r *httpReq, a *Term) string {
	f := r.f
	var piece *Term
	a.contains(func(t *Term) bool {
		if t.Op == OpCall && strings.HasPrefix(t.Aux, "net/netip.ParseAddr") {
			piece = t.Args[0]
			return true
		}
		return false
	}, map[*Term]bool{})
	if piece == nil {
		return "it is not parsed from the header"
	}
	base, off, n := region(piece)
	why := "no search for the header precedes it"
	for _, I := range termsOf(searchFor(fwdKey)) {
		if !f.entails(lin(I)) {
			continue
		}
		key, _ := I.Args[1].strConst()
		b, so, _ := region(I.Args[0])
		if b != base {
			continue
		}
		if !strings.HasPrefix(key, "\n") && !strings.HasPrefix(key, "\r\n") {
			why = "the end of another header's name or of a value may be taken for the header"
			continue
		}
		// the search starts in the header block, or in the request as it was received
		inBlock := b == r.data
		for _, u := range termsOf(func(t *Term) bool {
			if t.Op != OpCall || t.Aux != "index" || len(t.Args) < 2 || !t.mentions(r.data) {
				return false
			}
			s, ok := t.Args[1].strConst()
			return ok && (strings.HasPrefix(s, " HTTP/") || s == "\r\n" || s == "\n")
		}) {
			if f.entails(so.sub(lin(u))) && f.entails(lin(u)) {
				inBlock = true
			}
		}
		if !inBlock {
			why = "the query, which is unescaped in the buffer, may contain the header"
			continue
		}
		start := so.add(lin(I)).addC(int64(len(key)))
		if !f.entails(off.sub(start)) {
			why = "it may begin before the value of the header"
			continue
		}
		if r.read != nil && len(r.read.Args) > 1 && base != r.data {
			if _, bo, _, _ := sliceParts(r.read.Args[1]); !f.entails(bo.add(r.n).sub(off.add(n))) {
				why = "it may lie beyond the bytes received"
				continue
			}
		}
		ended := false
		for _, e := range termsOf(searchFor("\r\n")) {
			eb, eo, _ := region(e.Args[0])
			if eb != base || e == I {
				continue
			}
			if f.entails(lin(e)) && f.entails(eo.sub(start)) && f.entails(off.sub(eo)) && f.entails(eo.add(lin(e)).sub(off.add(n))) {
				ended = true
			}
		}
		if !ended {
			why = "it may extend beyond the line of the header"
			continue
		}
		last := false
		for _, t := range termsOf(func(t *Term) bool {
			if t.Op != OpCall || len(t.Args) < 2 || t.Aux != "lastindex" && t.Aux != "contains" && t.Aux != "index" {
				return false
			}
			s, ok := t.Args[1].strConst()
			return ok && s == ","
		}) {
			tb, to, tn := region(t.Args[0])
			if tb != base || !f.entails(off.sub(to)) || !f.entails(to.add(tn).sub(off.add(n))) {
				continue
			}
			if t.Aux == "contains" {
				last = last || f.bools[t] == false && hasBool(f, t)
				continue
			}
			if f.entails(lin(t).neg().addC(-1)) || t.Aux == "lastindex" && f.entails(off.sub(to.add(lin(t)).addC(1))) {
				last = true
			}
		}
		if !last {
			why = "it may hold or precede further addresses"
			continue
		}
		return ""
	}
	return why
}

func hasBool(f *Facts, t *Term) bool { _, ok := f.bools[t]; return ok }
