package main

// One handled HTTP connection: what was accepted, read, done and answered.

import (
	"strings"
)

type httpReq struct {
	p      Path
	sv     *Server
	s      *Session
	f      *Facts
	accept *Event
	conn   *Term
	aerr   *Term
	reads  []inLoop
	writes []inLoop // writes and handlers given the connection
	closes []inLoop
	db     []inLoop
	read   *Event
	rerr   *Term
	data   *Term
	n      Lin
}

func isConnRead(n string) bool {
	return n == "net.Conn.Read" || n == "(*net.TCPConn).Read" || n == "(*net.conn).Read" || n == "io.Reader.Read"
}
func isConnWrite(n string) bool {
	return n == "net.Conn.Write" || n == "(*net.TCPConn).Write" || n == "(*net.conn).Write" || n == "io.Writer.Write"
}
func isConnClose(n string) bool {
	return n == "net.Conn.Close" || n == "(*net.TCPConn).Close" || n == "(*net.conn).Close" || n == "io.Closer.Close"
}

func (r *httpReq) accepted() Tri {
	if r.accept == nil {
		return False
	}
	return r.f.eval(mkEq(r.aerr, nilT))
}

// handled: a request was read.
func (r *httpReq) handled() Tri {
	if r.accepted() != True || r.read == nil {
		return False
	}
	return r.f.eval(mkEq(r.rerr, nilT))
}

func (c *Check) httpReqs(s *Session) []*httpReq {
	var out []*httpReq
	for _, sv := range s.serversOf("http") {
		c.inst("http worker loop", s.tags+" "+sv.Body.Name)
		for _, p := range sv.Paths {
			if p.End == "panic" || p.End == "osexit" {
				continue
			}
			r := &httpReq{p: p, sv: sv, s: s, f: p.facts()}
			as := collect(p.Evs, func(ev *Event) bool { return ev.Kind == "call" && isAccept(ev.Name) })
			if len(as) != 1 || as[0].Loop != nil {
				if len(as) == 0 && p.End == "exit" {
					continue
				}
				c.bad("one-accept", sv.Body.Name, "-", "a path of the worker loop does not accept exactly one connection", p.Evs)
				continue
			}
			r.accept = as[0].Event
			if len(r.accept.Res) < 2 {
				c.badEv("accept", r.accept, "the accept operation is not understood", p.Evs)
				continue
			}
			r.conn, r.aerr = r.accept.Res[0], r.accept.Res[1]
			r.reads = collect(p.Evs, func(ev *Event) bool { return ev.Kind == "call" && isConnRead(ev.Name) && r.onConn(ev) })
			r.closes = collect(p.Evs, func(ev *Event) bool { return ev.Kind == "call" && isConnClose(ev.Name) && r.onConn(ev) })
			r.writes = collect(p.Evs, func(ev *Event) bool {
				return ev.Kind == "call" && (isConnWrite(ev.Name) && r.onConn(ev) || !isConnRead(ev.Name) && !isConnClose(ev.Name) && !strings.HasPrefix(ev.Name, "net.Conn.") && r.givenConn(ev))
			})
			r.db = collect(p.Evs, func(ev *Event) bool { return dbOp(ev) != "" })
			if len(r.reads) > 0 {
				ev := r.reads[0].Event
				r.read = ev
				if len(ev.Res) > 1 {
					r.n, r.rerr = lin(ev.Res[0]), ev.Res[1]
				}
				r.data = mkStr("")
				if len(ev.Res) > 2 {
					r.data = ev.Res[2]
				}
			}
			out = append(out, r)
		}
	}
	c.add("request paths", len(out))
	c.need("http worker loop", 1)
	if len(out) < 10 {
		c.bad("anchor", "http request paths", "-", "fewer request paths than there are routes", nil)
	}
	return out
}

func (r *httpReq) onConn(ev *Event) bool {
	return len(ev.Args) > 0 && dynPtr(ev.Args[0]) == r.conn || len(ev.Args) > 0 && ev.Args[0] == r.conn
}

// givenConn: an opaque call that receives the connection.
func (r *httpReq) givenConn(ev *Event) bool {
	for _, a := range ev.Args {
		if a != nil && a.Op != OpCall && a.mentions(r.conn) {
			return true
		}
	}
	return false
}

// eqConsts lists the equalities with string constants the path knows, and their truth.
type eqFact struct {
	x   *Term
	k   string
	val bool
}

func eqFacts(f *Facts) []eqFact {
	var r []eqFact
	for t, v := range f.bools {
		if t.Op != OpEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if k, ok := t.Args[i].strConst(); ok {
				r = append(r, eqFact{t.Args[1-i], k, v})
			}
		}
	}
	return r
}

// route is the request path constant the path knows the request has.
func (r *httpReq) route() string {
	for _, e := range eqFacts(r.f) {
		if e.val && strings.HasPrefix(e.k, "/") {
			return e.k
		}
	}
	return ""
}

// isGet: the path knows the request begins with the method GET.
func (r *httpReq) isGet() bool {
	for _, e := range eqFacts(r.f) {
		if !e.val || e.x.Op != OpSub {
			continue
		}
		if z, ok := e.x.Args[1].intConst(); !ok || z != 0 {
			continue
		}
		if e.k == "GET" || strings.HasPrefix(e.k, "GET ") {
			return true
		}
	}
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpCall && t.Aux == "index" }) {
		if k, ok := t.Args[1].strConst(); ok && strings.HasPrefix(k, "GET ") && r.f.entailsEq(lin(t)) {
			return true
		}
	}
	return false
}

// fileHit: the last lookup of a file by the request path and its outcome.
func (r *httpReq) file() (ev *Event, found Tri) {
	for _, e := range r.p.Evs {
		if e.Kind == "mapget" && isStrMap(e) {
			ev, found = e, r.f.eval(e.Args[2])
		}
	}
	return
}

func isStrMap(ev *Event) bool {
	k := mapClass(ev)
	return strings.Contains(k, "EmbeddedCache") || k == "map[string]string"
}

// response gives the content of all writes of a path, in order; the content of a handler's own writes is opaque.
func (r *httpReq) response() []*Term {
	var ps []*Term
	for _, w := range r.writes {
		if isConnWrite(w.Name) {
			ps = append(ps, concatParts(w.Res[len(w.Res)-1])...)
		} else {
			ps = append(ps, mk(OpSym, strTyp, "handler"))
		}
	}
	return concatParts(mkConcat(ps...))
}
