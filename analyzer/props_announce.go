package main

// HTTP announces (C12): where the announced values come from, what is validated and what is done with them.

import (
	"fmt"
	"strings"
)

func init() {
	register("C12", httpTech+"a torrent is changed only on a path that knows GET /announce, a 20 byte info hash and peer id, and for Save a port in 1..65535 and a missing or non-negative numwant; every stored value is the value part of the parameter of its name (summary of the parameter loop); Drop exactly when event is stopped; the reply's counts and peers are those of the same torrent, read after the change; boundary values are accepted", func(c *Check) {
		c.httpAnnounce()
	})
}

// keyVal describes a parameter "key=value" as a loop iteration sees it.
type keyVal struct {
	key   *Term
	val   *Term // nil: no "=", any constant stands for the value
	elem  *Term // the parameter
	whole *Term
}

// keyTerm recognises the key part of a parameter.
func keyTerm(f *Facts, x *Term) *keyVal {
	if x.Op != OpSub || x.Args[0].Op != OpLoad || x.Args[0].Args[0].Op != OpBack {
		return nil
	}
	e := x.Args[0].Args[0].Args[0]
	if z, ok := x.Args[1].intConst(); !ok || z != 0 {
		return nil
	}
	total := lin(lenT(e))
	l := lin(x.Args[2])
	isIdx := func(t *Term) bool {
		if t.Op != OpCall || t.Aux != "index" {
			return false
		}
		s, ok := t.Args[1].strConst()
		return ok && s == "="
	}
	if len(l.T) == 1 && l.C == 0 && l.T[0].K == 1 && isIdx(l.T[0].A) {
		off := l.addC(1)
		return &keyVal{key: x, elem: e, val: mkSub(f, x.Args[0], off, total.sub(off))}
	}
	if eqLin(f, l, total) {
		// the whole parameter: there is no "="
		for _, t := range termsOf(func(t *Term) bool { return isIdx(t) && t.mentions(e) }) {
			if f.entails(lin(t).neg().addC(-1)) {
				return &keyVal{key: x, elem: e}
			}
		}
	}
	return nil
}

// paramRole says which request parameter a loop-carried value holds.
type paramRole struct {
	name string
	val  string // for booleans: the value of the parameter that sets it
	loop *LoopRec
}

type roleKey struct {
	l *LoopRec
	t *Term
}

// roleOf finds the parameter whose value a symbol holds after the parameter loop; problems are reported.
func (c *Check) roleOf(loops []*LoopRec, t *Term, evs []*Event) *paramRole {
	var l *LoopRec
	for _, x := range loops {
		if _, ok := x.Init[t]; ok {
			l = x
		}
	}
	if l == nil {
		return nil
	}
	if v, ok := c.roles[roleKey{l, t}]; ok {
		return v
	}
	bad := func(rule, msg string) {
		c.bad(rule, l.ID, "-", msg, evs)
	}
	r := &paramRole{loop: l}
	if c.roles == nil {
		c.roles = map[roleKey]*paramRole{}
	}
	c.roles[roleKey{l, t}] = r
	isB := isBoolT(t.Typ)
	if iv := l.Init[t]; iv != nil {
		if s, ok := iv.strConst(); ok && s != "" {
			bad("parameter-default", "a parameter that is not given has the value "+s)
		}
		if b, ok := iv.boolConst(); ok && b {
			bad("parameter-default", "a flag is set although its parameter is not given")
		}
	}
	keys := func(it LoopIter) []*keyVal {
		var ks []*keyVal
		for _, e := range eqFacts(it.St.facts) {
			if _, old := l.HdrSt.facts.bools[mkEq(e.x, mkStr(e.k))]; old {
				continue
			}
			if k := keyTerm(it.St.facts, e.x); k != nil {
				ks = append(ks, k)
			}
		}
		return ks
	}
	// iterations that change the value
	for _, it := range l.Iters {
		nv := it.Next[t]
		if nv == nil || nv == t {
			continue
		}
		if isB {
			forBool(it.St.facts, nv, func(f *Facts, b bool) {
				if f.eval(t) == tri(b) {
					return // unchanged
				}
				name, val, other := "", "", false
				for _, e := range eqFacts(f) {
					k := keyTerm(f, e.x)
					if !e.val || k == nil {
						continue
					}
					other = other || k.val == nil && !b
					for _, e2 := range eqFacts(f) {
						if e2.val == b && k.val != nil && e2.x == k.val {
							name, val = e.k, e2.k
						}
					}
					if k.val == nil && b {
						name, val = e.k, "1"
					}
				}
				switch {
				case name == "" && !other:
					bad("parameter-value", "an iteration stores "+boolWord(b)+", which is not the value of the parameter it compared")
				case name == "":
				case r.name == "":
					r.name, r.val = name, val
				case r.name != name || r.val != val && val != "1" && r.val != "1":
					bad("parameter-value", fmt.Sprintf("one value holds the parameters %q and %q", r.name, name))
				}
			})
			continue
		}
		f := it.St.facts
		name := ""
		for _, e := range eqFacts(f) {
			k := keyTerm(f, e.x)
			if !e.val || k == nil {
				continue
			}
			if k.val != nil && holdsContent(it.St, nv, k.val) || k.val == nil && nv.isConst() {
				name = e.k
			}
		}
		if name == "" {
			bad("parameter-value", "an iteration stores "+trunc(nv.String(), 160)+", which is not the value of the parameter it compared")
			continue
		}
		if r.name == "" {
			r.name = name
		} else if r.name != name {
			bad("parameter-value", fmt.Sprintf("one value holds the parameters %q and %q", r.name, name))
		}
	}
	if r.name == "" {
		bad("parameter-value", "a value used by announce is never taken from a parameter")
		return r
	}
	for _, it := range l.Iters {
		if nv := it.Next[t]; nv != nil && nv != t {
			continue
		}
		f := it.St.facts
		ok := false
		for _, k := range keys(it) {
			v := f.eval(mkEq(k.key, mkStr(r.name)))
			if v == False || isB && (k.val == nil || f.eval(mkEq(k.val, mkStr(r.val))) == False || v == True && it.St.facts.eval(t) == True) {
				ok = true
			}
		}
		if !ok && len(keys(it)) == 0 && emptyElem(l, it) {
			ok = true
		}
		if !ok {
			bad("parameter-ignored", fmt.Sprintf("an iteration may ignore the parameter %q", r.name))
		}
	}
	for _, x := range l.Exits {
		for _, e := range eqFacts(x.st.facts) {
			if _, old := l.HdrSt.facts.bools[mkEq(e.x, mkStr(e.k))]; !old && e.val && keyTerm(x.st.facts, e.x) != nil {
				bad("parameter-ignored", "the parameter loop ends early at "+e.k)
			}
		}
	}
	c.inst("parameter", r.name)
	return r
}

// emptyElem: the iteration knows the parameter is absent.
func emptyElem(l *LoopRec, it LoopIter) bool {
	f := it.St.facts
	for t, v := range f.bools {
		if t.Op == OpEq && v && (t.Args[0].isNil() || t.Args[1].isNil()) {
			if _, old := l.HdrSt.facts.bools[t]; !old {
				return true
			}
		}
	}
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLen && t.Args[0].Op == OpSel }) {
		if f.entailsEq(lin(t)) && !l.HdrSt.facts.entailsEq(lin(t)) {
			return true
		}
	}
	return false
}

func holdsContent(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Typ != nil && isSliceT(a.Typ) {
		return st.bytesOf(a) == b
	}
	return false
}

// announce is what a path knows of an HTTP announce.
type announceView struct {
	r      *httpReq
	f      *Facts
	loops  []*LoopRec
	params map[string][]*Term // the values that hold a parameter
	flags  map[string]*Term   // "left=0" -> symbol
}

func (c *Check) announceOf(r *httpReq) *announceView {
	a := &announceView{r: r, f: r.f, loops: loopsOf(r.p.Evs), params: map[string][]*Term{}, flags: map[string]*Term{}}
	for _, l := range a.loops {
		// the parameter loop compares keys
		isP := false
		for _, it := range l.Iters {
			for _, e := range eqFacts(it.St.facts) {
				if _, old := l.HdrSt.facts.bools[mkEq(e.x, mkStr(e.k))]; !old && keyTerm(it.St.facts, e.x) != nil {
					isP = true
				}
			}
		}
		if !isP {
			continue
		}
		for _, s := range sortedTerms(l.Init) {
			if !isStrTerm(s) && !isBoolT(s.Typ) && !isSliceT(s.Typ) {
				continue
			}
			used := false
			for _, it := range l.Iters {
				if nv := it.Next[s]; nv != nil && nv != s {
					used = true
				}
			}
			if !used {
				continue
			}
			if ro := c.roleOf(a.loops, s, r.p.Evs); ro != nil && ro.name != "" {
				if isBoolT(s.Typ) {
					a.flags[ro.name+"="+ro.val] = s
				} else {
					a.params[ro.name] = append(a.params[ro.name], s)
				}
			}
		}
	}
	return a
}

func (a *announceView) is(param, val string) Tri {
	r := Unknown
	for _, s := range a.params[param] {
		if v := a.f.eval(mkEq(s, mkStr(val))); v != Unknown {
			return v
		}
		if val == "" {
			if a.f.entailsEq(lin(lenT(s))) {
				return True
			}
			if a.f.entails(lin(lenT(s)).addC(-1)) {
				return False
			}
		}
	}
	if s := a.flags[param+"="+val]; s != nil {
		return a.f.eval(s)
	}
	return r
}

// isParam: the term is the value of the parameter.
func (a *announceView) isParam(t *Term, name string) bool {
	for _, s := range a.params[name] {
		if t == s || a.contentOf(s) == t {
			return true
		}
		if t.Op == OpSub && t.Args[0] == s && t.Args[1] == mkInt(0) && eqLin(a.f, lin(t.Args[2]), lin(lenT(s))) {
			return true
		}
	}
	return false
}

func (a *announceView) contentOf(s *Term) *Term {
	for _, l := range a.loops {
		if _, ok := l.Init[s]; ok {
			return l.headerContent(s)
		}
	}
	return s
}

func (a *announceView) len20(name string) bool {
	for _, s := range a.params[name] {
		if a.f.entailsEq(lin(lenT(s)).addC(-20)) {
			return true
		}
	}
	return false
}

// atoi gives the terms for the number a parameter holds.
func (a *announceView) atoi(name string) []*Term {
	return termsOf(func(t *Term) bool {
		return t.Op == OpCall && (t.Aux == "atoi" || strings.HasPrefix(t.Aux, "parseint") || strings.HasPrefix(t.Aux, "parseuint")) && len(t.Args) > 0 && a.isParam(t.Args[0], name)
	})
}

func (c *Check) httpAnnounce() {
	type wit struct {
		name string
		f    func(a *announceView, f *Facts) bool
	}
	num := func(p string, v func(*announceView) (Lin, bool)) func(a *announceView, f *Facts) bool {
		return func(a *announceView, f *Facts) bool {
			k, ok := v(a)
			if !ok {
				return false
			}
			for _, t := range a.atoi(p) {
				n := f.clone()
				if n.assume(mkGE(lin(t).sub(k)), true) && n.assume(mkGE(k.sub(lin(t))), true) && !n.infeasible(linC(0)) {
					return true
				}
			}
			return false
		}
	}
	k := func(v int64) func(*announceView) (Lin, bool) {
		return func(*announceView) (Lin, bool) { return linC(v), true }
	}
	wits := []wit{
		{"port 1", num("port", k(1))}, {"port 65535", num("port", k(65535))},
		{"numwant 0", num("numwant", k(0))},
		{"numwant 1000000", num("numwant", k(1000000))},
		{"no numwant", func(a *announceView, f *Facts) bool { return a.is("numwant", "") != False }},
		{"no event", func(a *announceView, f *Facts) bool { return a.is("event", "") != False }},
		{"event started", func(a *announceView, f *Facts) bool { return a.is("event", "started") != False }},
		{"event completed", func(a *announceView, f *Facts) bool { return a.is("event", "completed") != False }},
		{"left 0", func(a *announceView, f *Facts) bool { return a.is("left", "0") != False }},
	}
	seen := map[string]bool{}
	for _, r := range c.httpReqs(c.s) {
		evs := r.p.Evs
		var ws []inLoop
		for _, d := range r.db {
			if op := dbOp(d.Event); op == "Save" || op == "Drop" {
				ws = append(ws, d)
			} else if op != "HashStats" && op != "PeerList" && op != "PeerListBytes" {
				c.badEv("only-announce-changes", d.Event, "an HTTP request calls "+op+" of the database", evs)
			}
		}
		if len(ws) == 0 {
			if r.route() == "/announce" && r.handled() == True && r.isGet() {
				// a refusal must say so: the reply is a failure
				c.refusal(r)
			}
			continue
		}
		bad := func(ev *Event, rule, msg string) { c.badEv(rule, ev, msg, evs) }
		w := ws[0]
		if len(ws) > 1 || w.Loop != nil {
			bad(ws[len(ws)-1].Event, "one-change", "one announce changes the database more than once")
			continue
		}
		if !(r.isGet() && r.route() == "/announce") {
			bad(w.Event, "only-announce-changes", "a request not known to be GET /announce changes the database")
			continue
		}
		a := c.announceOf(r)
		op := dbOp(w.Event)
		ha, pa := w.Args[len(w.Args)-2], w.Args[len(w.Args)-1]
		c.inst("announce "+op, pathKey(r.p))
		for _, x := range []struct {
			t    *Term
			name string
		}{{ha, "info_hash"}, {pa, "peer_id"}} {
			if !a.isParam(x.t, x.name) {
				bad(w.Event, "parameter-of-name", "the "+x.name+" passed to "+op+" is "+trunc(x.t.String(), 120)+", not the parameter of that name")
			}
			if !a.len20(x.name) {
				bad(w.Event, "length-20", op+" is reached without knowing that "+x.name+" has 20 bytes")
			}
		}
		if op == "Drop" {
			if a.is("event", "stopped") != True {
				bad(w.Event, "stopped-only", "a peer is removed on a path that does not know the event is stopped")
			}
			seen["stopped"] = true
			continue
		}
		if a.is("event", "stopped") != False {
			bad(w.Event, "stopped-removes", "a peer is stored on a path that may be a stopped event")
		}
		// port
		okPort := false
		for _, t := range a.atoi("port") {
			if strip(w.Args[2]) == t {
				okPort = true
				if !geConst(r.f, []*Term{t}, 1) || !leConst(r.f, []*Term{t}, 65535) {
					bad(w.Event, "port-range", "a peer is stored without knowing that the port is in 1..65535")
				}
			}
		}
		if !okPort {
			bad(w.Event, "parameter-of-name", "the port stored is "+trunc(w.Args[2].String(), 120)+", not the number in the parameter port")
		}
		// completeness
		forBool(r.f, w.Args[3], func(f *Facts, v bool) {
			b := *a
			b.f = f
			done, left := b.is("event", "completed"), b.is("left", "0")
			if v && done != True && left != True {
				bad(w.Event, "complete-exactly", "a peer is stored as complete although neither the event is completed nor left is zero")
			}
			if !v && (done != False || left != False) {
				bad(w.Event, "complete-exactly", "a peer is stored as incomplete although the event may be completed or left zero")
			}
		})
		// numwant
		var lists []*Event
		wi := index(evs, w.Event)
		for i, ev := range evs {
			switch dbOp(ev) {
			case "HashStats", "PeerList", "PeerListBytes":
				if i < wi {
					bad(ev, "after-change", "the reply is taken from the database before the announce is stored")
				}
				if ev.Args[1] != ha {
					bad(ev, "same-torrent", "the reply is taken from another torrent: "+trunc(ev.Args[1].String(), 100))
				}
				if dbOp(ev) != "HashStats" {
					lists = append(lists, ev)
				}
			}
		}
		none := a.is("numwant", "")
		nw := a.atoi("numwant")
		if none != True && !(len(nw) > 0 && geConst(r.f, nw, 0)) {
			bad(w.Event, "numwant-valid", "a peer is stored although numwant is given and not known to be a non-negative number")
		}
		for _, ev := range lists {
			n := strip(ev.Args[2])
			switch {
			case none == True:
				if !isCfg(n, "Numwant.Default") {
					bad(ev, "numwant-default", "without numwant the number of peers is "+n.String())
				}
			case isCfg(n, "Numwant.Limit"):
				if !anyOf(nw, func(t *Term) bool { return r.f.entails(lin(t).sub(lin(n))) }) {
					bad(ev, "numwant-used", "the limit is used although numwant may be lower")
				}
			case none == False && anyOf(nw, func(t *Term) bool { return t == n }):
				if !anyOf(termsOf(func(t *Term) bool { return isCfg(t, "Numwant.Limit") }), func(t *Term) bool { return r.f.entails(lin(t).sub(lin(n))) }) {
					bad(ev, "numwant-limit", "numwant is used without knowing that it is within the limit")
				}
			default:
				bad(ev, "numwant-used", "the number of peers is "+n.String())
			}
		}
		if len(lists) != 1 {
			bad(w.Event, "peers-returned", fmt.Sprintf("the reply is built from %d peer lists", len(lists)))
		}
		for _, x := range wits {
			if !seen[x.name] && x.f(a, r.f) {
				seen[x.name] = true
			}
		}
		c.announceReply(r, a, w.Event)
	}
	c.need("announce Save", 1)
	c.need("announce Drop", 1)
	for _, x := range append(wits, wit{name: "stopped"}) {
		if !seen[x.name] {
			c.bad("accepted", "announce", "-", "no path applies a valid announce with "+x.name, nil)
		} else {
			c.inst("accepted announce", x.name)
		}
	}
}

// refusal: an announce that changes nothing is answered with a failure.
func (c *Check) refusal(r *httpReq) {
	_, body, ok := httpHead(r.response())
	if !ok {
		return
	}
	ts, e := bencDict(r.f, mkConcat(body...), loopsOf(r.p.Evs))
	if e != "" || bencEntry(ts, "failure reason") == nil {
		ev := r.read
		if len(r.writes) > 0 {
			ev = r.writes[0].Event
		}
		c.badEv("refused-with-failure", ev, "an announce that changed nothing is not answered with a failure reason", r.p.Evs)
	}
}

// announceReply: counts and peers in the reply are the ones read for this torrent.
func (c *Check) announceReply(r *httpReq, a *announceView, w *Event) {
	_, body, ok := httpHead(r.response())
	if !ok || len(r.writes) == 0 {
		c.badEv("reply", w, "the reply to an announce is not understood", r.p.Evs)
		return
	}
	last := r.writes[len(r.writes)-1].Event
	ts, e := bencDict(r.f, mkConcat(body...), loopsOf(r.p.Evs))
	if e != "" {
		c.badEv("reply", last, "the reply to an announce is not a bencoded dictionary: "+e, r.p.Evs)
		return
	}
	var stats, list *Event
	for _, ev := range r.p.Evs {
		switch dbOp(ev) {
		case "HashStats":
			stats = ev
		case "PeerList", "PeerListBytes":
			list = ev
		}
	}
	for i, k := range []string{"complete", "incomplete"} {
		v := bencEntry(ts, k)
		if len(v) != 1 || v[0].k != 'i' || stats == nil || strip(v[0].t) != strip(stats.Res[i]) {
			c.badEv("reply-counts", last, "the reply's "+k+" is not the torrent's "+k+" count", r.p.Evs)
		}
	}
	if list == nil {
		return
	}
	if dbOp(list) == "PeerListBytes" {
		if a.is("compact", "1") != True {
			c.badEv("reply-format", list, "a compact list is returned on a path that does not know compact was requested", r.p.Evs)
		}
		for i, k := range []string{"peers", "peers6"} {
			v := bencEntry(ts, k)
			if len(v) != 1 || v[0].k != 's' || !isWholeOf(r.f, v[0].t, list.Res[i]) {
				c.badEv("reply-peers", last, "the reply's "+k+" is not the list of that address family", r.p.Evs)
			}
		}
		return
	}
	if a.is("compact", "1") == True {
		c.badEv("reply-format", list, "a list of dictionaries is returned although compact was requested", r.p.Evs)
	}
	if len(list.Args) > 3 {
		forBool(r.f, list.Args[3], func(f *Facts, v bool) {
			b := *a
			b.f = f
			if x := b.is("no_peer_id", "1"); v && x != True || !v && x != False {
				c.badEv("reply-format", list, "peer ids are left out exactly when no_peer_id is requested, not here", r.p.Evs)
			}
		})
	}
	v := bencEntry(ts, "peers")
	if !listOf(v, list.Res[0]) {
		c.badEv("reply-peers", last, "the reply's peers are not the elements of the torrent's peer list in order: "+fmt.Sprint(v), r.p.Evs)
	}
}

// isWholeOf: the content is all bytes of the slice.
func isWholeOf(f *Facts, c, s *Term) bool {
	if c.Op == OpSub && c.Args[0].Op == OpLoad && c.Args[0].Args[0].Op == OpBack && c.Args[0].Args[0].Args[0] == s {
		z, ok := c.Args[1].intConst()
		return ok && z == 0 && eqLin(f, lin(c.Args[2]), lin(lenT(s)))
	}
	return false
}

// listOf: tokens l, one element of the slice per iteration, e.
func listOf(v []bTok, s *Term) bool {
	if len(v) < 2 || v[0].k != 'l' || v[len(v)-1].k != 'e' {
		return false
	}
	if len(v) == 2 { // nothing appended: only right when the list is empty, which the caller's path knows
		return false
	}
	if len(v) != 3 || v[1].k != 'L' {
		return false
	}
	for _, it := range v[1].iters {
		if len(it) != 1 || it[0].k != 'r' && it[0].k != 's' || !it[0].t.mentions(s) {
			return false
		}
	}
	return len(v[1].iters) > 0
}

func boolWord(b bool) string {
	if b {
		return "true"
	}
	return "false"
}
