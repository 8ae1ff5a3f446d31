package main

// One handled datagram: what was received, what was done, what was answered.

type udpReq struct {
	p      Path
	sv     *Server
	f      *Facts
	recv   *Event
	n      Lin
	remote *Term
	data   *Term
	err    *Term
	sends  []inLoop
	db     []inLoop
	maps   []inLoop // accesses to the table of issued connection ids
}

// recvParts finds size, sender, error and content among the results of a receive.
func (r *udpReq) parts() bool {
	ev := r.recv
	if len(ev.Res) < 3 {
		return false
	}
	r.n, r.remote, r.err = lin(ev.Res[0]), ev.Res[1], ev.Res[2]
	if len(ev.Res) > 3 {
		r.data = ev.Res[3]
	} else {
		r.data = mkStr("")
	}
	return true
}

func (r *udpReq) okRecv() Tri { return r.f.eval(mkEq(r.err, nilT)) }

// udpReqs gives every path of the UDP workers as a handled request.
func (c *Check) udpReqs() []*udpReq {
	var out []*udpReq
	for _, sv := range c.s.serversOf("udp") {
		c.inst("udp worker loop", sv.Body.Name)
		conn := c.connMapKey(sv)
		for _, p := range sv.Paths {
			if p.End == "panic" || p.End == "osexit" {
				continue
			}
			rs := collect(p.Evs, func(ev *Event) bool { return ev.Kind == "call" && isUDPRecv(ev.Name) })
			if len(rs) != 1 || rs[0].Loop != nil {
				if len(rs) == 0 && p.End == "exit" {
					continue
				}
				c.bad("one-receive", sv.Body.Name, "-", "a path of the worker loop does not receive exactly one datagram", p.Evs)
				continue
			}
			r := &udpReq{p: p, sv: sv, f: p.facts(), recv: rs[0].Event}
			if !r.parts() {
				c.badEv("receive", r.recv, "the receive operation is not understood", p.Evs)
				continue
			}
			r.sends = collect(p.Evs, func(ev *Event) bool { return ev.Kind == "call" && isUDPSend(ev.Name) })
			r.db = collect(p.Evs, func(ev *Event) bool { return dbOp(ev) != "" })
			r.maps = collect(p.Evs, func(ev *Event) bool {
				switch ev.Kind {
				case "mapget", "mapset", "mapdel", "range":
					return mapClass(ev) == conn
				}
				return false
			})
			out = append(out, r)
		}
		c.add("request paths", len(out))
	}
	c.need("udp worker loop", 1)
	if len(out) < 8 {
		c.bad("anchor", "udp request paths", "-", "fewer request paths than the protocol has request kinds", nil)
	}
	return out
}

func mapClass(ev *Event) string {
	if len(ev.Args) == 0 || ev.Args[0] == nil {
		return ""
	}
	return typeKey(ev.Args[0].Typ)
}

// connMapKey: the type of the table that connect requests write and others read.
func (c *Check) connMapKey(sv *Server) string {
	set, get := map[string]bool{}, map[string]bool{}
	for _, p := range sv.Paths {
		deep(p.Evs, func(ev *Event, _ *LoopRec) {
			if ev.Kind == "mapset" && ev.Args[0].Op != OpAlloc {
				set[mapClass(ev)] = true
			}
			if ev.Kind == "mapget" && ev.Args[0].Op != OpAlloc {
				get[mapClass(ev)] = true
			}
		})
	}
	r := ""
	for k := range set {
		if get[k] {
			r = k
		}
	}
	return r
}

// action of the request as far as the path knows it.
func (r *udpReq) isAction(k int64) bool {
	return eqConst(r.f, decs(r.data, 11, 1), k) || eqConst(r.f, decs(r.data, 8, 4), k)
}

// reply gives the single reply of a path and its parts.
type udpReply struct {
	ev      *Event
	content *Term
	action  int64 // -1: heartbeat, -2: unknown
}

func (r *udpReq) reply() *udpReply {
	if len(r.sends) != 1 {
		return nil
	}
	ev := r.sends[0].Event
	c := ev.Res[len(ev.Res)-1]
	y := &udpReply{ev: ev, content: c, action: -2}
	if s, ok := c.strConst(); ok && s == "\xff" {
		y.action = -1
		return y
	}
	a := piece(r.f, c, 0, 4)
	if s, ok := a.strConst(); ok && len(s) == 4 && s[:3] == "\x00\x00\x00" {
		y.action = int64(s[3])
	}
	return y
}
