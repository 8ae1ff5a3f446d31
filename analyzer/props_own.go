package main

// A request is interpreted from its own bytes only (C04).

import (
	"go/types"
	"strings"
)

func init() {
	register("C04", "on every path of the worker loops every value known, compared, passed on, logged or answered that is taken from the receive buffer lies within the bytes received for this request (linear arithmetic over offsets and the received size), no slice of the buffer reaching further is passed to anything but the receive operation and the pool, and nothing an earlier iteration of the worker loop computed from its request is used", func(c *Check) {
		c.ownRequests(c.variant(""))
		c.ownRequests(c.variant("heroku"))
		c.ownBuffers(c.variant(""), "own-bytes")
		c.ownBuffers(c.variant("heroku"), "own-bytes")
		c.need("buffer", 2)
		c.need("use of the buffer", 3)
	})
}

func (c *Check) ownRequests(s *Session) {
	old := c.s
	c.s = s
	defer func() { c.s = old }()
	for _, r := range c.udpReqs() {
		if r.okRecv() != True {
			continue
		}
		c.ownBytes(r.p, r.sv, r.recv, r.n, "udp")
	}
	for _, r := range c.httpReqs(s) {
		if r.handled() != True {
			continue
		}
		for _, rd := range r.reads[1:] {
			c.badEv("one-read", rd.Event, "a second read is not understood", r.p.Evs)
		}
		c.ownBytes(r.p, r.sv, r.read, r.n, "http")
	}
}

type ownView struct {
	c    *Check
	arr  *Term // backing of the receive buffer
	base Lin   // where the received bytes start in it
	n    Lin
	sym  map[*Term]bool // loop symbols standing for its content
	kind string
	old  map[*Term]bool // values from earlier iterations
	why  string
	memo map[*Term]bool
}

// content: the term is (a version of) the content of the whole buffer.
func (v *ownView) content(t *Term) bool {
	switch t.Op {
	case OpLoad:
		return t.Args[0] == v.arr
	case OpSym:
		return v.sym[t]
	case OpUpd:
		return v.content(t.Args[0])
	}
	return false
}

func (v *ownView) within(f *Facts, off, n Lin) bool {
	return f.entails(off.sub(v.base)) && f.entails(v.base.add(v.n).sub(off.add(n))) ||
		f.entails(n.neg())
}

// ok: every part of the buffer in t lies in the received bytes.
func (v *ownView) ok(f *Facts, t *Term, top bool) bool {
	if t == nil || v.memo[t] {
		return true
	}
	v.memo[t] = true
	if v.old[t] {
		v.why = "a value left by an earlier request: " + trunc(t.String(), 80)
		return false
	}
	switch t.Op {
	case OpSub:
		if v.content(t.Args[0]) {
			if !v.within(f, lin(t.Args[1]), lin(t.Args[2])) {
				v.why = "bytes beyond those received: " + trunc(t.String(), 200)
				return false
			}
			v.c.inst("use of the buffer", v.kind+" "+trunc(t.String(), 140))
			return v.updOK(f, t.Args[0]) && v.ok(f, t.Args[1], false) && v.ok(f, t.Args[2], false)
		}
	case OpSel, OpDec:
		if len(t.Args) >= 2 && v.content(t.Args[0]) {
			w := int64(1)
			if t.Op == OpDec {
				w = int64(intSize(t.Typ))
			}
			if !v.within(f, lin(t.Args[1]), linC(w)) {
				v.why = "a byte beyond those received: " + trunc(t.String(), 200)
				return false
			}
			v.c.inst("use of the buffer", v.kind+" "+trunc(t.String(), 140))
			return v.updOK(f, t.Args[0]) && v.ok(f, t.Args[1], false)
		}
	case OpSlice:
		if t.Args[0] == v.arr {
			if !v.within(f, lin(t.Args[1]), lin(t.Args[2])) {
				v.why = "a slice of the receive buffer that reaches beyond the bytes received: " + trunc(t.String(), 200)
				return false
			}
			v.c.inst("use of the buffer", v.kind+" "+trunc(t.String(), 140))
			return true
		}
	case OpLen, OpCap, OpAlloc, OpFunc, OpGlobal, OpConst, OpClosure:
		return true
	case OpLin:
		for _, x := range t.L.T {
			if !v.ok(f, x.A, false) {
				return false
			}
		}
		return true
	}
	if v.content(t) {
		v.why = "the whole receive buffer: " + trunc(t.String(), 120)
		return false
	}
	if v.isWhole(t) {
		v.why = "the whole receive buffer: " + trunc(t.String(), 120)
		return false
	}
	for _, a := range t.Args {
		if !v.ok(f, a, false) {
			return false
		}
	}
	return true
}

// isWhole: an opaque slice value that is the buffer itself.
func (v *ownView) isWhole(t *Term) bool { return v.arr.Op == OpBack && v.arr.Args[0] == t }

// updOK: what was written into the buffer is taken from the request too.
func (v *ownView) updOK(f *Facts, t *Term) bool {
	for t.Op == OpUpd {
		if len(t.Args) > 3 && !v.ok(f, t.Args[3], false) {
			return false
		}
		t = t.Args[0]
	}
	return true
}

func (v *ownView) facts(f *Facts) bool {
	for t := range f.bools {
		if !v.ok(f, t, true) {
			return false
		}
	}
	for _, g := range f.ges {
		for _, x := range g.T {
			if !v.ok(f, x.A, true) {
				return false
			}
		}
	}
	for _, g := range f.neqs {
		for _, x := range g.T {
			if !v.ok(f, x.A, true) {
				return false
			}
		}
	}
	return true
}

// bytesMem: a byte array, or a pointer to a slice of one.
func bytesMem(t *Term) bool {
	ty := t.Typ
	for ty != nil {
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			ty = u.Elem()
			continue
		case *types.Slice:
			ty = u.Elem()
			continue
		case *types.Array:
			ty = u.Elem()
			continue
		case *types.Basic:
			return u.Kind() == types.Uint8
		}
		return false
	}
	return false
}

// othersToo: the memory a worker receives into is used by other workers as well.
func (sv *Server) othersToo(arr *Term) bool {
	m := root(arr)
	for m.Op == OpBack && m.Args[0].Op == OpSlice {
		m = root(m.Args[0].Args[0])
	}
	if fromPool(m) {
		return false
	}
	org := m.Org
	if org == nil && m.Op == OpBack {
		org = m.Args[0].Org
	}
	top := func(f *Frame) *Frame {
		for f != nil && f.parent != nil {
			f = f.parent
		}
		return f
	}
	if org != nil {
		if t := top(org.fr); t != nil && t.fn == sv.Body.Fn {
			return false
		}
	}
	if m.Op != OpAlloc && m.Op != OpGlobal && m.Op != OpBack {
		return false
	}
	g := &Origin{sv.Go.ev.Fr, sv.Go.ev.Instr.Block()}
	many := false
	for _, l := range sv.Parent.Loops {
		body := l.Fr.info.loops[l.Header]
		if !bornIn(g, l.Fr, body) {
			continue
		}
		many = true
		if org != nil && bornIn(org, l.Fr, body) {
			return false
		}
	}
	return many
}

// ownBuffers: no two workers receive into the same memory.
func (c *Check) ownBuffers(s *Session, rule string) {
	old := c.s
	c.s = s
	defer func() { c.s = old }()
	once := map[string]bool{}
	look := func(sv *Server, recv *Event, evs []*Event) {
		if recv == nil || len(recv.Args) < 2 || once[recv.Pos()] {
			return
		}
		arr, _, _, _ := sliceParts(recv.Args[1])
		if arr == nil {
			return
		}
		if sv.othersToo(arr) {
			once[recv.Pos()] = true
			c.badEv(rule, recv, "several workers receive into the same memory: "+trunc(arr.String(), 120), evs)
		}
	}
	for _, r := range c.udpReqs() {
		look(r.sv, r.recv, r.p.Evs)
	}
	for _, r := range c.httpReqs(s) {
		look(r.sv, r.read, r.p.Evs)
	}
}

func (c *Check) ownBytes(p Path, sv *Server, recv *Event, n Lin, kind string) {
	if len(recv.Args) < 2 {
		c.badEv("receive", recv, "the receive operation is not understood", p.Evs)
		return
	}
	arr, base, _, _ := sliceParts(recv.Args[1])
	v := &ownView{c: c, arr: arr, base: base, n: n, sym: map[*Term]bool{}, kind: kind, old: map[*Term]bool{}, memo: map[*Term]bool{}}
	c.inst("buffer", kind+" "+trunc(arr.String(), 100))
	var loops []*LoopRec
	add := func(l *LoopRec) {
		loops = append(loops, l)
		for s, a := range l.Cell {
			if a == arr {
				v.sym[s] = true
			}
		}
	}
	add(sv.Loop)
	for _, l := range loopsOf(p.Evs) {
		add(l)
	}
	for _, s := range sortedTerms(sv.Loop.Init) {
		if v.sym[s] {
			continue
		}
		v.old[s] = true
	}
	start := index(p.Evs, recv)
	f := p.facts()
	fail := func(ev *Event, evs []*Event) {
		if ev == nil {
			ev = recv
		}
		c.badEv("own-bytes", ev, "the request is interpreted from more than the bytes received for it: "+v.why, evs)
	}
	if !v.facts(f) {
		fail(nil, p.Evs)
		return
	}
	check := func(f *Facts, evs []*Event) bool {
		for _, ev := range evs {
			switch ev.Kind {
			case "poolput", "poolget", "loop", "slice", "go", "defer", "enter", "leave":
				continue
			case "load", "store":
			case "mapget", "mapset", "mapdel", "range", "rangedone":
			}
			if ev == recv {
				continue
			}
			if ev.Kind == "deaduse" && len(ev.Args) > 1 && bytesMem(ev.Args[1]) {
				v.why = "the receive buffer, which was handed back for other requests"
				fail(ev, evs)
				return false
			}
			for _, a := range ev.Args {
				if !v.ok(f, a, true) {
					fail(ev, evs)
					return false
				}
			}
			for _, a := range ev.Res {
				if ev.Kind == "call" && isUDPSend(ev.Name) && !v.ok(f, a, true) {
					fail(ev, evs)
					return false
				}
			}
		}
		return true
	}
	if !check(f, p.Evs[start+1:]) {
		return
	}
	for _, l := range loopsOf(p.Evs) {
		for _, s := range sortedTerms(l.Init) {
			v.memo = map[*Term]bool{}
			if iv := l.Init[s]; iv != nil && !v.sym[s] && !v.ok(f, iv, true) {
				v.why += " (a loop in " + l.ID + " starts with it)"
				fail(nil, p.Evs)
				return
			}
		}
		for _, it := range l.Iters {
			v.memo = map[*Term]bool{}
			if !v.facts(it.St.facts) {
				fail(nil, it.Events)
				return
			}
			if !check(it.St.facts, it.Events) {
				return
			}
			for _, s := range sortedTerms(it.Next) {
				nv := it.Next[s]
				if nv == nil || nv == s {
					continue
				}
				if v.sym[s] {
					if !v.updOK(it.St.facts, nv) {
						fail(nil, it.Events)
						return
					}
					continue
				}
				if !v.ok(it.St.facts, nv, true) {
					v.why += " (kept by a loop in " + strings.TrimPrefix(l.ID, "") + ")"
					fail(nil, it.Events)
					return
				}
			}
		}
	}
}
