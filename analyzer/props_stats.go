package main

// Request metrics (C37).

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "on every path of the worker loops: one is added to the hit counter exactly if the request is answered, to the counter of its own kind exactly if it is answered with a result of that kind (at most once if with an error), to one error counter exactly if it is answered with an error; in the publication loop every request counter is read and reset by one atomic swap whose result is published under the counter's name, all other statistics are read atomically or under their lock; no other code writes the counters", func(c *Check) {
		c.udpCounts()
		c.httpCounts()
		c.publication()
		c.counterWrites()
	})
}

func counterName(a *Term) string {
	if a.Op != OpGlobal || !strings.Contains(a.Aux, "/stats.") {
		return ""
	}
	return a.Aux[strings.LastIndex(a.Aux, ".")+1:]
}

// counts gives what a path adds to each counter; in loops: -1000.
func (c *Check) counts(evs []*Event) map[string]int64 {
	m := map[string]int64{}
	for _, e := range collect(evs, func(ev *Event) bool { return ev.Kind == "atomic" }) {
		n := counterName(e.Args[0])
		if n == "" || n == "Seeds" || n == "Leeches" {
			continue
		}
		if e.Name != "Add" {
			if e.Name != "Load" {
				c.badEv("counter-write", e.Event, "a request "+e.Name+"s the counter "+n, evs)
			}
			continue
		}
		v, ok := e.Args[1].intConst()
		if e.Loop != nil || !ok {
			v = 1000
		}
		m[n] += v
	}
	return m
}

func (c *Check) wantCount(m map[string]int64, name string, min, max int64, ev *Event, what string, evs []*Event) {
	if v := m[name]; v < min || v > max {
		c.badEv("count-"+name, ev, fmt.Sprintf("%s adds %d to %s instead of %s", what, v, name, map[bool]string{true: itoa(min), false: itoa(min) + " to " + itoa(max)}[min == max]), evs)
	}
}

func (c *Check) kindCounts(m map[string]int64, kind string, answered bool, ev *Event, evs []*Event) {
	for _, k := range []string{"Connects", "Announces", "Scrapes"} {
		lo, hi := int64(0), int64(0)
		if k == kind {
			hi = 1
			if answered {
				lo = 1
			}
		}
		c.wantCount(m, k, lo, hi, ev, "a request of kind "+kind, evs)
	}
}

func (c *Check) udpCounts() {
	kinds := map[int64]string{0: "Connects", 1: "Announces", 2: "Scrapes"}
	for _, r := range c.udpReqs() {
		if r.okRecv() != True {
			continue
		}
		m := c.counts(r.p.Evs)
		evs := r.p.Evs
		if len(r.sends) == 0 {
			c.wantCount(m, "Hits", 0, 1, r.recv, "an unanswered datagram", evs)
			for _, k := range []string{"Connects", "Announces", "Scrapes"} {
				c.wantCount(m, k, 0, 0, r.recv, "an unanswered datagram", evs)
			}
			continue
		}
		c.wantCount(m, "Hits", 1, 1, r.sends[0].Event, "an answered datagram", evs)
		y := r.reply()
		if y == nil {
			continue
		}
		errs := m["ClientErrors"] + m["ServerErrors"]
		if y.action == 3 {
			if errs != 1 {
				c.badEv("count-errors", y.ev, fmt.Sprintf("an error reply adds %d to the error counters", errs), evs)
			}
		} else if y.action >= -1 && m["ClientErrors"] != 0 {
			c.badEv("count-errors", y.ev, "a successful reply counts as client error", evs)
		}
		kind := ""
		for a, k := range kinds {
			if r.isAction(a) {
				kind = k
			}
		}
		c.kindCounts(m, kind, y.action >= 0 && y.action <= 2, y.ev, evs)
		c.inst("udp accounting", fmt.Sprintf("action %q reply %d: %s", kind, y.action, countStr(m)))
	}
	c.need("udp accounting", 6)
}

func countStr(m map[string]int64) string {
	var r []string
	for k, v := range m {
		if v != 0 {
			r = append(r, fmt.Sprintf("%s+%d", k, v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (c *Check) httpCounts() {
	kinds := map[string]string{"/announce": "Announces", "/scrape": "Scrapes"}
	for _, r := range c.httpReqs(c.s) {
		if r.accept == nil {
			continue
		}
		m := c.counts(r.p.Evs)
		evs := r.p.Evs
		if r.handled() != True {
			for _, k := range []string{"Hits", "Connects", "Announces", "Scrapes"} {
				c.wantCount(m, k, 0, 0, r.accept, "a connection without request", evs)
			}
			continue
		}
		c.wantCount(m, "Hits", 1, 1, r.read, "a request", evs)
		st, body, ok := httpHead(r.response())
		failure := false
		if s, o := concatFirst(body); ok && o {
			failure = strings.Contains(s, "failure reason")
		}
		kind := ""
		rt := r.route()
		if rt == "/announce" || rt == "/scrape" {
			if r.isGet() && st == "200" {
				kind = kinds[rt]
			}
		}
		errs := m["ClientErrors"] + m["ServerErrors"]
		if failure && errs != 1 {
			c.badEv("count-errors", r.read, fmt.Sprintf("a failure adds %d to the error counters", errs), evs)
		}
		if st == "200" && !failure && m["ClientErrors"] != 0 {
			c.badEv("count-errors", r.read, "a successful request counts as client error", evs)
		}
		c.kindCounts(m, kind, kind != "" && !failure, r.read, evs)
		c.inst("http accounting", fmt.Sprintf("%s %s failure=%v: %s", rt, st, failure, countStr(m)))
	}
	c.need("http accounting", 6)
}

// publishers: the innermost functions that create and set published statistics.
func (c *Check) publishers() []*ssa.Function {
	isNew := func(n string) bool { return strings.HasPrefix(n, "expvar.New") }
	isSet := func(n string) bool { return n == "(*expvar.Int).Set" }
	var r []*ssa.Function
	for _, fn := range c.s.p.sorted() {
		if fn.Parent() != nil || !c.s.p.reaches(fn, isNew) || !c.s.p.reaches(fn, isSet) {
			continue
		}
		inner := false
		for _, g := range c.s.p.callees(fn) {
			if c.s.p.fns[g] && g != fn && c.s.p.reaches(g, isNew) && c.s.p.reaches(g, isSet) {
				inner = true
			}
		}
		if !inner {
			r = append(r, fn)
		}
	}
	return r
}

func (c *Check) publication() {
	swapped := map[string]string{"trakx.requests.hits": "Hits", "trakx.requests.connects": "Connects", "trakx.requests.announces": "Announces", "trakx.requests.scrapes": "Scrapes"}
	loaded := map[string]string{"trakx.database.seeds": "Seeds", "trakx.database.leeches": "Leeches", "trakx.errors.server": "ServerErrors", "trakx.errors.client": "ClientErrors"}
	for _, fn := range c.publishers() {
		run := c.s.run(fn)
		c.inst("publisher", fn.String())
		for _, l := range run.Loops {
			if !loopHas(l, func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "(*expvar.Int).Set" }) {
				continue
			}
			c.inst("publication loop", l.ID)
			names := map[*Term]string{}
			var pre []*Event
			if l.Entry != nil {
				pre = l.HdrSt.trace.since(nil)
			}
			deep(pre, func(ev *Event, _ *LoopRec) {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "expvar.New") && len(ev.Args) > 0 && len(ev.Res) > 0 {
					if s, ok := ev.Args[0].strConst(); ok {
						names[ev.Res[0]] = s
					}
				}
			})
			for _, it := range l.Iters {
				got := map[string]*Term{}
				at := map[string]*Event{}
				swaps := map[*Term]string{}
				loads := map[*Term]string{}
				taken := map[string]int{}
				deep(it.Events, func(ev *Event, in *LoopRec) {
					switch {
					case ev.Kind == "call" && ev.Name == "(*expvar.Int).Set":
						n := names[ev.Args[0]]
						if n == "" {
							c.badEv("own-name", ev, "a statistic is set that was not created under a known name", it.Events)
							return
						}
						got[n], at[n] = ev.Args[1], ev
					case ev.Kind == "atomic":
						n := counterName(ev.Args[0])
						if n == "" {
							return
						}
						switch ev.Name {
						case "Swap":
							if z, ok := ev.Args[1].intConst(); ok && z == 0 && len(ev.Res) > 0 {
								swaps[ev.Res[0]] = n
								taken[n]++
							} else {
								c.badEv("lost-counts", ev, "the counter "+n+" is replaced by a value other than zero", it.Events)
							}
						case "Load":
							if len(ev.Res) > 0 {
								loads[ev.Res[0]] = n
							}
						case "Store", "And", "Or", "CompareAndSwap":
							c.badEv("lost-counts", ev, "the counter "+n+" is overwritten by publication, requests counted since it was read are lost", it.Events)
						case "Add":
							c.badEv("lost-counts", ev, "the counter "+n+" is changed by publication", it.Events)
						}
					}
				})
				for n, k := range taken {
					pub := 0
					for _, v := range got {
						if swaps[v] == n {
							pub++
						}
					}
					if k != 1 || pub != 1 {
						c.bad("lost-counts", "publication of "+n, l.ID, fmt.Sprintf("the counter %s is reset %d times and its value published %d times", n, k, pub), it.Events)
					}
				}
				for n, want := range swapped {
					if v := got[n]; v == nil || swaps[v] != want {
						c.bad("own-name", "publication of "+n, l.ID, "the statistic "+n+" does not receive the value the counter "+want+" had when it was reset", it.Events)
						continue
					}
					c.inst("published", n+" = Swap("+want+")")
				}
				for n, want := range loaded {
					if v := got[n]; v == nil || loads[v] != want {
						c.bad("own-name", "publication of "+n, l.ID, "the statistic "+n+" does not receive the value of "+want, it.Events)
						continue
					}
					c.inst("published", n+" = Load("+want+")")
				}
				uses := func(n string, f func(*Term) bool) {
					v := got[n]
					if v == nil || !v.contains(f, map[*Term]bool{}) {
						c.bad("own-name", "publication of "+n, l.ID, "the statistic "+n+" does not receive the value of its name", it.Events)
						return
					}
					c.inst("published", n)
				}
				uses("trakx.database.ips", func(t *Term) bool { return t.Op == OpMapLen && strings.Contains(t.String(), "IPStats") })
				for _, x := range []string{"Seeds", "Leeches"} {
					uses("trakx.database.peers", func(t *Term) bool { return loads[t] == x })
				}
				hashes := map[*Term]bool{}
				deep(it.Events, func(ev *Event, _ *LoopRec) {
					if dbOp(ev) == "Hashes" && len(ev.Res) > 0 {
						hashes[ev.Res[0]] = true
					}
				})
				uses("trakx.database.hashes", func(t *Term) bool { return hashes[t] })
			}
		}
	}
	c.need("publisher", 1)
	c.need("publication loop", 1)
}

// counterWrites: the request counters are only added to, and swapped by the publisher.
func (c *Check) counterWrites() {
	pubs := map[*ssa.Function]bool{}
	for _, fn := range c.publishers() {
		pubs[fn] = true
	}
	for _, fn := range c.s.p.sorted() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for i, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "/tracker/stats") {
						continue
					}
					switch g.Name() {
					case "Hits", "Connects", "Announces", "Scrapes", "ServerErrors", "ClientErrors":
					default:
						continue
					}
					call, ok := in.(ssa.CallInstruction)
					nm := ""
					if ok && call.Common().StaticCallee() != nil {
						nm = call.Common().StaticCallee().Name()
					}
					root := fn
					for root.Parent() != nil {
						root = root.Parent()
					}
					if i == 0 || nm != "" {
						switch nm {
						case "Add", "Load", "AddInt64", "LoadInt64", "AddInt32", "LoadInt32":
							c.inst("counter use", fnName(fn)+" "+g.Name()+"."+nm)
							continue
						}
						if pubs[root] {
							continue // judged with the publication loop
						}
						if nm != "" && inModule(fnPkgPath(call.Common().StaticCallee())) {
							continue // a helper given the counter is analysed with its callers
						}
					}
					if fn.Name() == "init" || pubs[root] {
						continue
					}
					c.bad("counter-write", fnName(fn)+":"+g.Name(), instrPos(c.s.e, in), "the counter "+g.Name()+" is used other than by atomic additions", nil)
				}
			}
		}
	}
	c.need("counter use", 6)
}
