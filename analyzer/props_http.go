package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

const httpTech = "on every path of the HTTP worker loop: "

func init() {
	register("C13", httpTech+"after an accepted connection, both deadlines are set from the configuration, counted from a time taken after the accept, before the first read or write; exactly one close follows the last use; none on a failed accept; the connection is not handed to another goroutine", func(c *Check) {
		for _, r := range c.httpReqs(c.s) {
			c.connLife(r)
		}
		c.need("bounded connection", 3)
	})
	register("C14", httpTech+"what is written to the connection is one response head with one status; 200 only for a GET known to have a known route or an existing file, 404 only when every route and the file lookup are known not to match, 400 never for a request known to have a known route", func(c *Check) {
		c.httpStatus()
	})
}

func (c *Check) connLife(r *httpReq) {
	evs := r.p.Evs
	bad := func(ev *Event, rule, msg string) { c.badEv(rule, ev, msg, evs) }
	switch r.accepted() {
	case False:
		for _, w := range append(append([]inLoop{}, r.writes...), r.closes...) {
			bad(w.Event, "no-connection", "the connection of a failed accept is used")
		}
		return
	case Unknown:
		bad(r.accept, "accept-checked", "a path uses the result of accept without knowing whether it failed")
		return
	}
	c.inst("bounded connection", pathKey(r.p))
	ai := index(evs, r.accept)
	// the deadlines
	first := -1
	for i := ai + 1; i < len(evs) && first < 0; i++ {
		ev := evs[i]
		if ev.Kind == "loop" {
			if usesConn(r, ev) {
				first = i
			}
		} else if ev.Kind == "call" && (isConnRead(ev.Name) || isConnWrite(ev.Name)) && r.onConn(ev) || ev.Kind == "call" && !strings.HasPrefix(ev.Name, "net.Conn.") && r.givenConn(ev) {
			first = i
		}
	}
	if first >= 0 {
		var rd, wr bool
		for i := ai + 1; i < first; i++ {
			ev := evs[i]
			if ev.Kind != "call" || !r.onConn(ev) || len(ev.Args) < 2 {
				continue
			}
			switch m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]; m {
			case "SetReadDeadline":
				rd = c.deadline(r, ev, "Read", ai, i)
			case "SetWriteDeadline":
				wr = c.deadline(r, ev, "Write", ai, i)
			case "SetDeadline":
				// one deadline for both needs equal timeouts, which the configuration does not guarantee
				bad(ev, "deadline", "one deadline is set for reading and writing although they are configured separately")
				rd, wr = true, true
			}
		}
		if !rd {
			bad(evs[first], "read-deadline", "the connection is used before its read deadline is set")
		}
		if !wr {
			bad(evs[first], "write-deadline", "the connection is used before its write deadline is set")
		}
		for i := first; i < len(evs); i++ {
			ev := evs[i]
			if ev.Kind == "call" && r.onConn(ev) && strings.Contains(ev.Name, "Deadline") {
				bad(ev, "deadline-kept", "a deadline is changed after the connection was used")
			}
		}
	}
	// the close
	if len(r.closes) != 1 || r.closes[0].Loop != nil {
		ev := r.accept
		if len(r.closes) > 1 {
			ev = r.closes[len(r.closes)-1].Event
		}
		bad(ev, "closed-once", fmt.Sprintf("the connection is closed %d times", len(r.closes)))
		return
	}
	ci := index(evs, r.closes[0].Event)
	for i := ci + 1; i < len(evs); i++ {
		ev := evs[i]
		if ev.Kind == "call" && (r.onConn(ev) || r.givenConn(ev)) || ev.Kind == "loop" && usesConn(r, ev) {
			bad(ev, "used-after-close", "the connection is used after it was closed")
		}
	}
	for _, g := range collect(evs, func(ev *Event) bool { return ev.Kind == "go" }) {
		bad(g.Event, "handled-in-worker", "the connection is handed to another goroutine")
	}
}

func usesConn(r *httpReq, l *Event) bool {
	used := false
	deep([]*Event{l}, func(ev *Event, _ *LoopRec) {
		if ev.Kind == "call" && (r.onConn(ev) && !strings.Contains(ev.Name, "RemoteAddr") && !strings.Contains(ev.Name, "LocalAddr") || r.givenConn(ev)) {
			used = true
		}
	})
	return used
}

// deadline: the argument is a time taken after the accept plus the configured timeout of that direction.
func (c *Check) deadline(r *httpReq, ev *Event, dir string, ai, i int) bool {
	a := ev.Args[1]
	if a.Op != OpCall || a.Aux != "(time.Time).Add" || !isCfg(a.Args[1], "HTTP.Timeout."+dir) {
		c.badEv("deadline-configured", ev, "the deadline is "+a.String()+" instead of the configured "+dir+" timeout from now", r.p.Evs)
		return true
	}
	for j := ai + 1; j < i; j++ {
		e := r.p.Evs[j]
		if e.Kind == "call" && e.Name == "time.Now" && len(e.Res) > 0 && e.Res[0] == a.Args[0] {
			return true
		}
	}
	c.badEv("deadline-from-accept", ev, "the deadline is not counted from a time taken after this connection was accepted", r.p.Evs)
	return true
}

var statusRE = regexp.MustCompile(`^HTTP/1\.[01] ([0-9]{3})[^\r\n]*\r\n(?:[!-9;-~]+:[^\r\n]*\r\n)*\r\n`)

// httpHead gives the status of a response and what follows its head.
func httpHead(ps []*Term) (status string, body []*Term, ok bool) {
	if len(ps) == 0 {
		return
	}
	s, isC := ps[0].strConst()
	if !isC {
		return
	}
	m := statusRE.FindStringSubmatch(s)
	if m == nil {
		return
	}
	if rest := s[len(m[0]):]; rest != "" {
		body = append(body, mkStr(rest))
	}
	return m[1], append(body, ps[1:]...), true
}

func (c *Check) httpStatus() {
	reqs := c.httpReqs(c.s)
	type ans struct {
		status string
		ok     bool
	}
	routes := map[string]bool{}
	st := make([]ans, len(reqs))
	for i, r := range reqs {
		if r.handled() != True {
			continue
		}
		s, _, ok := httpHead(r.response())
		st[i] = ans{s, ok}
		if ok && s == "200" {
			if k := r.route(); k != "" {
				routes[k] = true
			}
		}
	}
	for i, r := range reqs {
		bad := func(ev *Event, rule, msg string) { c.badEv(rule, ev, msg, r.p.Evs) }
		switch r.handled() {
		case Unknown:
			bad(r.read, "read-checked", "a path does not establish whether the request was read")
			continue
		case False:
			for _, w := range r.writes {
				bad(w.Event, "no-response", "a response is sent although no request was read")
			}
			continue
		}
		if len(r.writes) == 0 {
			bad(r.read, "answered", "a request read from the connection is not answered")
			continue
		}
		last := r.writes[len(r.writes)-1].Event
		for _, w := range r.writes {
			if w.Loop != nil {
				bad(w.Event, "one-response", "a response is written inside a loop")
			}
		}
		if !st[i].ok {
			bad(r.writes[0].Event, "response-head", "what is written does not begin with a complete response head: "+trunc(mkConcat(r.response()...).String(), 200))
			continue
		}
		// a second head
		for j, w := range r.writes {
			if j > 0 && isConnWrite(w.Name) {
				if ps := concatParts(w.Res[len(w.Res)-1]); len(ps) > 0 {
					if s, ok := ps[0].strConst(); ok && strings.HasPrefix(s, "HTTP/") {
						bad(w.Event, "one-response", "a second response is written")
					}
				}
			}
		}
		rt := r.route()
		fev, found := r.file()
		c.inst("response "+st[i].status, last.Pos())
		switch st[i].status {
		case "200":
			if !r.isGet() {
				bad(last, "get-only", "status 200 for a request not known to be a GET")
			}
			if rt == "" && found != True {
				bad(last, "known-path", "status 200 for a path that is neither a known route nor an existing file")
			}
		case "404":
			if !r.isGet() {
				bad(last, "malformed-400", "a request not known to be a GET is answered with 404")
			}
			if rt != "" {
				bad(last, "route-answered", "the known route "+rt+" is answered with 404")
			}
			for k := range routes {
				known := false
				for _, e := range eqFacts(r.f) {
					if e.k == k && !e.val {
						known = true
					}
				}
				if !known && rt == "" && !r.pathExcludes(k) {
					bad(last, "route-answered", "the request may be for "+k+" and is answered with 404")
				}
			}
			if fev == nil || found != False {
				bad(last, "file-answered", "404 without a failed lookup of the file")
			}
		case "400":
			if rt != "" {
				bad(last, "route-answered", "the known route "+rt+" is answered with 400")
			}
		default:
			bad(last, "status", "status "+st[i].status+" is not one of 200, 400 and 404")
		}
	}
	var rs []string
	for k := range routes {
		rs = append(rs, k)
		c.inst("route", k)
	}
	sort.Strings(rs)
	c.need("route", 4)
	c.need("response 200", 4)
	c.need("response 404", 1)
	c.need("response 400", 1)
}

func (r *httpReq) pathExcludes(k string) bool {
	for _, e := range eqFacts(r.f) {
		if strings.HasPrefix(e.k, "/") && r.f.eval(mkEq(e.x, mkStr(k))) == False {
			return true
		}
	}
	return false
}
