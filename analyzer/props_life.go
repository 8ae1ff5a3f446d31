package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the life of the tracker process: start, workers, periodic jobs and shutdown.

func init() {
	register("C35", "every path through one iteration of every worker loop (the goroutines that receive from the UDP socket or accept connections), and every path of the functions that start them: a path on which the receive failed goes on only if the error is known not to be that of a closed socket and leaves the loop only if it is known to be it, nothing else leaves the loop or ends the process; after the workers are started the server waits on a channel that the shutdown signals, then closes the socket, then returns", func(c *Check) { c.workers() })
	register("C39", "every endless loop that waits and then works (jobs, by what they do: save the database, drop expired peers, drop expired connections, publish metrics), analysed from where it is started: it waits for exactly the interval configured for that job, each iteration does the job and none leaves the loop, it is started only where that interval is known to be positive, and on every successful path of the function that starts it the job is started or its interval is known not to be positive", func(c *Check) { c.jobs() })
	register("C38", "every call that opens a listener, from the process entry points: the address is built from exactly the configured address and port of that server (an address that does not parse is refused, an empty one means all interfaces), or is a loopback address if the server serves the default handlers (profiling); the paths on which opening fails or the address is refused end the process with an error; every enabled server is started", func(c *Check) { c.listeners() })
}

func init() {
	register("C34", "every path of the function that receives the process's signals, the functions that serve and the function that starts the tracker: the interrupt, termination and save signals are delivered to a buffered channel; a path that ends the process is one on which the signal is known not to be the save signal, has told every server to stop (or knows it does not run), then attempted to save the peer database and the UDP connections (or knows there are none), and ends with success; a path that goes on knows that the signal is neither interrupt nor termination, and if it may be the save signal it attempted both saves; the handler runs on every path that starts the tracker, which never returns; a server that was told to stop does not end the process", func(c *Check) { c.signals() })
}

const closedText = "use of closed network connection"

// isClosedErr: the sentinel of a closed socket.
func isClosedErr(t *Term) bool {
	t = strip(t)
	return t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].String(), "net.ErrClosed")
}

func unwraps(t, err *Term) int {
	n := 0
	for t = strip(t); t.Op == OpCall && t.Aux == "unwrap"; t = strip(t.Args[0]) {
		n++
	}
	if t == strip(err) {
		return n
	}
	return -1
}

// closedTest: the condition holds exactly if the error of a socket operation says that the socket was closed.
func closedTest(t, err *Term) bool {
	isText := func(s *Term) bool {
		v, ok := s.strConst()
		return ok && v == closedText
	}
	text := func(s *Term, layers ...int) bool { // the message of the error, unwrapped that often
		s = strip(s)
		if s.Op != OpCall || !strings.HasSuffix(s.Aux, "error.Error") {
			return false
		}
		for _, l := range layers {
			if unwraps(s.Args[0], err) == l {
				return true
			}
		}
		return false
	}
	switch {
	case t.Op == OpEq && len(t.Args) == 2:
		for i := range t.Args {
			a, b := t.Args[i], t.Args[1-i]
			if isClosedErr(b) && unwraps(a, err) == 1 || isText(b) && text(a, 1) {
				return true
			}
			if isClosedErr(b) && a.Op == OpLoad && a.Args[0].Op == OpField && fieldName(a.Args[0]) == "Err" && a.contains(func(x *Term) bool { return x == strip(err) }, map[*Term]bool{}) {
				return true
			}
		}
	case t.Op == OpCall && t.Aux == "errors.Is" && len(t.Args) > 1:
		return isClosedErr(t.Args[1]) && (unwraps(t.Args[0], err) == 0 || unwraps(t.Args[0], err) == 1)
	case t.Op == OpCall && (t.Aux == "contains" || t.Aux == "strings.Contains" || t.Aux == "strings.HasSuffix") && len(t.Args) > 1:
		return isText(t.Args[1]) && text(t.Args[0], 0, 1)
	}
	return false
}

// closed: what the path knows about the socket having been closed.
func closed(f *Facts, err *Term) Tri {
	r := Unknown
	for t, v := range f.bools {
		if closedTest(t, err) {
			if v {
				return True
			}
			r = False
		}
	}
	return r
}

func (c *Check) workers() {
	signalled := map[string]bool{}
	for _, r := range c.lifeRuns() {
		for _, d := range wpaths(r) {
			for _, ev := range d.Evs {
				if ev.Kind == "send" || ev.Kind == "close" {
					signalled[chanName(ev.Args[0], d.To)] = true
				}
			}
		}
	}
	for _, kind := range []string{"udp", "http"} {
		parents := map[*Run]bool{}
		for _, sv := range c.s.serversOf(kind) {
			c.inst("worker", kind+" "+sv.Body.Name)
			for _, p := range sv.Paths {
				c.add("paths", 1)
				var rcv *Event
				for _, ev := range p.Evs {
					if ev.Kind == "call" && (isUDPRecv(ev.Name) || isAccept(ev.Name)) {
						rcv = ev
					}
				}
				var err *Term
				bad := Unknown
				if rcv != nil {
					if err = errOf(rcv); err != nil {
						bad = failed(p.St.facts, err)
					}
				}
				is := Unknown
				if bad == True {
					is = closed(p.St.facts, err)
				}
				at := lastEv(p.Evs)
				switch p.End {
				case "iter":
					if bad != True {
						continue
					}
					c.inst("goes on after a failed receive", kind)
					if is != False {
						c.badEv("ends-when-closed", rcv, "a worker goes on after "+rcv.Name+" failed without knowing that the socket was not closed", p.Evs)
					}
				case "exit":
					c.inst("leaves the loop", kind)
					if rcv == nil || bad != True || is != True {
						if rcv != nil {
							at = rcv
						}
						c.badEv("survives-errors", at, "a worker leaves its loop although the socket is not known to be closed", p.Evs)
					}
				case "panic", "osexit":
					c.badEv("survives-errors", at, "a worker may end the process", p.Evs)
				}
			}
			if !parents[sv.Parent] {
				parents[sv.Parent] = true
			}
		}
		c.need("goes on after a failed receive", 1)
		c.need("leaves the loop", 1)
	}
	// the functions that serve
	n := 0
	for _, g := range c.s.goRuns() {
		if !c.opensTracker(g.run) {
			continue
		}
		for _, d := range wpaths(g.run) {
			li := -1
			for i, ev := range d.Evs {
				if ev.Kind == "call" && isListen(ev.Name) && d.succeeded(ev) {
					li = i
				}
			}
			if li < 0 {
				continue
			}
			ln := strip(d.Evs[li].Res[0])
			started, waited, shut := false, false, false
			for _, ev := range d.Evs[li+1:] {
				switch {
				case ev.Kind == "go", ev.Kind == "loop" && loopHas(ev.Loop, func(g *Event) bool { return g.Kind == "go" }):
					started = true
				case ev.Kind == "recv" && signalled[chanName(ev.Args[0], d.To)]:
					waited = true
				case ev.Kind == "call" && isClose(ev, ln):
					if started && !waited {
						c.badEv("closes-on-shutdown", ev, "the socket is closed before the shutdown was requested", d.Evs)
					}
					shut = true
				}
			}
			if !started {
				continue
			}
			n++
			c.inst("serving path", g.run.Name)
			at := lastEv(d.Evs)
			switch {
			case d.Stays && !waited:
				c.badEv("closes-on-shutdown", at, "the server never waits for a shutdown request", d.Evs)
			case d.Stays:
				c.badEv("closes-on-shutdown", at, "the server does not return after the shutdown was requested", d.Evs)
			case !waited:
				c.badEv("closes-on-shutdown", at, "the server returns without having waited for a shutdown request", d.Evs)
			case !shut:
				c.badEv("closes-on-shutdown", at, "the server returns without closing its socket", d.Evs)
			}
		}
	}
	c.need("serving path", 2)
}

func isClose(ev *Event, sock *Term) bool {
	if !strings.HasSuffix(ev.Name, ".Close") || len(ev.Args) == 0 {
		return false
	}
	a := strip(ev.Args[0])
	for a != sock && a.Op == OpField || a != sock && a.Op == OpIface && len(a.Args) > 0 {
		a = strip(a.Args[0])
	}
	return a == sock
}

// chanName names the field a channel is kept in.
func chanName(t *Term, st *State) string {
	t = strip(t)
	if t.Op == OpLoad && t.Args[0].Op == OpField {
		return fieldOwner(t.Args[0]) + "." + fieldName(t.Args[0])
	}
	var names []string
	for a, v := range st.heap {
		if v == t && a.Op == OpField {
			names = append(names, fieldOwner(a)+"."+fieldName(a))
		}
	}
	if len(names) > 0 {
		sort.Strings(names)
		return names[0]
	}
	return t.String()
}

func fieldOwner(a *Term) string {
	if p, ok := a.Args[0].Typ.(*types.Pointer); ok {
		return types.TypeString(p.Elem(), nil)
	}
	return ""
}

func isListen(n string) bool {
	switch n {
	case "net.Listen", "net.ListenUDP", "net.ListenTCP", "net.ListenPacket", "(*net.ListenConfig).Listen", "(*net.ListenConfig).ListenPacket", "net.ListenMulticastUDP", "net.ListenUnix", "net.ListenIP", "crypto/tls.Listen", "net.FileListener", "net.FilePacketConn":
		return true
	}
	return false
}

// servesHTTP: the library's servers.
func servesHTTP(n string) bool {
	switch n {
	case "net/http.ListenAndServe", "net/http.ListenAndServeTLS", "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "net/http.Serve", "(*net/http.Server).Serve", "net/http.ServeTLS", "(*net/http.Server).ServeTLS":
		return true
	}
	return false
}

// opensTracker: the run opens a listener for the tracker's own protocol handling.
func (c *Check) opensTracker(r *Run) bool {
	for _, d := range wpaths(r) {
		for _, ev := range d.Evs {
			if ev.Kind == "call" && isListen(ev.Name) {
				return true
			}
		}
	}
	return false
}

// ---- periodic jobs

type jobKind struct {
	name, interval string
	needs          string // the server it belongs to
	does           func(ev *Event) bool
}

func nested(ev *Event, pred func(*Event) bool) bool {
	if pred(ev) {
		return true
	}
	if ev.Kind == "loop" {
		found := false
		deep([]*Event{ev}, func(g *Event, _ *LoopRec) { found = found || pred(g) })
		return found
	}
	return false
}

var jobKinds = []jobKind{
	{"database backup", "DB.Backup.Frequency", "", func(ev *Event) bool { return storageCall(ev, "Backup.Save") }},
	{"peer expiry", "DB.Trim", "", func(ev *Event) bool {
		return storageCall(ev, "Database.Trim") || (ev.Kind == "mapdel" || ev.Kind == "range") && isPeerTable(ev.Args[0].Typ)
	}},
	{"connection expiry", "UDP.ConnDB.Trim", udpOn, func(ev *Event) bool {
		return (ev.Kind == "mapdel" || ev.Kind == "range") && isConnTable(ev.Args[0].Typ)
	}},
	{"metric publication", "ExpvarInterval", "", func(ev *Event) bool {
		return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*expvar.") && (strings.HasSuffix(ev.Name, ".Set") || strings.HasSuffix(ev.Name, ".Add"))
	}},
}

// job is a loop that waits and works.
type job struct {
	kinds []*jobKind
	run   *Run
	loop  *LoopRec
	start *Event // the go statement, if the loop runs on its own
	at    *Facts // known where the loop is started
	par   *Run
}

// waits: the event waits for time to pass.
func isWait(ev *Event) bool {
	return ev.Kind == "call" && ev.Name == "time.Sleep" || ev.Kind == "recv" && isTimer(ev.Args[0])
}

// timer: a channel the library's clock sends on, and the call that made it.
func timer(ch *Term, evs []*Event) *Event {
	ch = strip(ch)
	if ch.Op == OpLoad && ch.Args[0].Op == OpField && fieldName(ch.Args[0]) == "C" {
		ch = strip(ch.Args[0].Args[0])
	}
	var found *Event
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Res) == 0 || strip(ev.Res[0]) != ch {
			continue
		}
		switch ev.Name {
		case "time.NewTicker", "time.Tick", "time.NewTimer", "time.After":
			found = ev
		}
	}
	return found
}

// isTimer: by its type, a channel the library's clock sends on.
func isTimer(ch *Term) bool {
	c, ok := types.Unalias(chanType(ch)).(*types.Chan)
	return ok && c.Dir() == types.RecvOnly && types.TypeString(c.Elem(), nil) == "time.Time"
}

func chanType(ch *Term) types.Type {
	if t := strip(ch).Typ; t != nil {
		return t.Underlying()
	}
	return types.Typ[types.Invalid]
}

// waitTerms: the loop waits for exactly d after the last time.
func (c *Check) interval(j *job, it LoopIter) (string, *Event, string) {
	var w *Event
	n := 0
	for _, ev := range it.Events {
		if isWait(ev) {
			if w != nil {
				return "", ev, "waits twice"
			}
			w = ev
			n++
		}
		if ev.Kind == "loop" && loopHas(ev.Loop, isWait) {
			return "", ev, "waits in a loop"
		}
	}
	if w == nil {
		return "", lastEv(it.Events), "does not wait"
	}
	if w.Kind == "recv" {
		before := j.loop.HdrSt.trace.since(nil)
		t := timer(w.Args[0], append(before, it.Events...))
		if t == nil {
			return "", w, "waits for an unknown clock"
		}
		if once := t.Name == "time.NewTimer" || t.Name == "time.After"; once && index(it.Events, t) < 0 {
			return "", w, "waits for a clock that only ticks once"
		}
		return cfgPath(t.Args[0]), w, ""
	}
	t := strip(w.Args[0])
	if p := cfgPath(t); p != "" {
		return p, w, ""
	}
	// until the next tick: the last one plus the interval
	if t.Op == OpCall && (t.Aux == "since" || t.Aux == "until" || strings.HasSuffix(t.Aux, "Time).Sub")) && len(t.Args) == 2 {
		next := strip(t.Args[0])
		if !nowTime(t.Args[1]) {
			return "", w, "the wait is not counted from now: " + trunc(t.String(), 120)
		}
		if next.Op == OpCall && strings.HasSuffix(next.Aux, "Time).Add") && len(next.Args) == 2 {
			last := strip(next.Args[0])
			p := cfgPath(next.Args[1])
			init, ok := j.loop.Init[last]
			switch {
			case p == "":
				return "", w, "the wait is not a configured interval: " + trunc(t.String(), 120)
			case nowTime(last):
				return p, w, ""
			case !ok:
				return "", w, "the wait is not counted from the last run: " + trunc(t.String(), 120)
			case strip(it.Next[last]) != next:
				return "", w, "the next run is not counted from this one: " + trunc(it.Next[last].String(), 120)
			case !startsAt(strip(init), p):
				return "", w, "the first run is not counted from the start: " + trunc(init.String(), 120)
			}
			return p, w, ""
		}
		// the next run is kept in the variable
		if init, ok := j.loop.Init[next]; ok {
			nx := strip(it.Next[next])
			in := strip(init)
			if nx.Op == OpCall && strings.HasSuffix(nx.Aux, "Time).Add") && strip(nx.Args[0]) == next && in.Op == OpCall && strings.HasSuffix(in.Aux, "Time).Add") && strip(in.Args[1]) == strip(nx.Args[1]) && startsAt(strip(in.Args[0]), cfgPath(nx.Args[1])) {
				return cfgPath(nx.Args[1]), w, ""
			}
		}
	}
	return "", w, "the wait could not be determined: " + trunc(t.String(), 120)
}

func nowTime(t *Term) bool {
	t = strip(t)
	return t.Op == OpCall && t.Aux == "now" || t.Op == OpSym && strings.HasSuffix(t.Aux, ".now")
}

// startsAt: now, possibly rounded down to the interval.
func startsAt(t *Term, interval string) bool {
	if nowTime(t) {
		return true
	}
	return t.Op == OpCall && (strings.HasSuffix(t.Aux, "Time).Truncate") || strings.HasSuffix(t.Aux, "Time).Round")) && nowTime(t.Args[0]) && cfgPath(t.Args[1]) == interval
}

// positive: what the facts say about a configured interval.
func positive(f *Facts, interval string) Tri {
	r := Unknown
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLoad && cfgPath(t) == interval }) {
		l := lin(t)
		if f.entails(l.addC(-1)) {
			return True
		}
		if f.entails(l.scale(-1)) {
			r = False
		}
	}
	return r
}

// stopped: the path knows that the channel of a clock was closed.
func stopped(st *State, ev *Event) bool {
	return ev.Kind == "recv" && isTimer(ev.Args[0]) && len(ev.Res) > 1 && st.facts.eval(ev.Res[1]) == False
}

func (c *Check) jobs() {
	x := newConc(c.s.p)
	var js []*job
	find := func(r, par *Run, start *Event) {
		for _, l := range r.Loops {
			if len(l.Iters) == 0 || !loopHas(l, isWait) {
				continue
			}
			j := &job{run: r, loop: l, start: start, par: par}
			for i := range jobKinds {
				k := &jobKinds[i]
				for _, it := range l.Iters {
					for _, ev := range it.Events {
						if nested(ev, k.does) {
							j.kinds = append(j.kinds, k)
							goto next
						}
					}
				}
			next:
			}
			if len(j.kinds) > 0 {
				js = append(js, j)
			}
		}
	}
	for _, g := range c.s.goRuns() {
		if par := g.parent.Fn; par != nil && !x.live[par] {
			continue
		}
		find(g.run, g.parent, g.ev)
	}
	for _, r := range c.mainRuns() {
		find(r, nil, nil)
	}
	started := map[string]int{}
	for _, j := range js {
		for _, k := range j.kinds {
			if len(j.kinds) > 1 {
				c.bad("own-interval", j.loop.ID, "-", "one loop does the jobs of "+j.kinds[0].name+" and "+j.kinds[1].name, nil)
				break
			}
			started[k.name]++
			c.inst("job", k.name+" "+j.loop.ID)
			if j.start != nil && len(j.run.Exits) > 0 {
				ex := j.run.Exits[0].trace.since(nil)
				c.badEv("periodic", lastEv(ex), "the "+k.name+" may end the process", ex)
			}
			for _, x := range j.loop.Exits {
				ex := x.st.trace.since(j.loop.HdrSt.trace)
				if len(ex) > 0 && stopped(x.st, ex[len(ex)-1]) {
					continue // a clock's channel is never closed
				}
				c.badEv("periodic", lastEv(ex), "the loop of the "+k.name+" can end", ex)
			}
			for _, it := range j.loop.Iters {
				c.add("iterations", 1)
				p, ev, why := c.interval(j, it)
				switch {
				case why != "":
					c.badEv("own-interval", ev, "the "+k.name+" "+why, it.Events)
				case p != k.interval:
					c.badEv("own-interval", ev, "the "+k.name+" runs at the interval "+p+", not "+k.interval, it.Events)
				}
				done := false
				for _, ev := range it.Events {
					done = done || nested(ev, k.does)
				}
				if !done {
					c.badEv("periodic", lastEv(it.Events), "an interval passes without the "+k.name, it.Events)
				}
			}
			// only if enabled
			ok := positive(j.loop.HdrSt.facts, k.interval) == True || j.start != nil && positive(j.start.Facts, k.interval) == True
			if !ok {
				at := j.start
				if at == nil && len(j.loop.Iters[0].Events) > 0 {
					at = j.loop.Iters[0].Events[0]
				}
				c.badEv("disabled", at, "the "+k.name+" is started without knowing that its interval is positive", nil)
			}
		}
	}
	for _, k := range jobKinds {
		if started[k.name] == 0 {
			c.bad("started", k.name, "-", "no loop that does the "+k.name+" was found", nil)
		}
	}
	// always if enabled
	for i := range jobKinds {
		k := &jobKinds[i]
		pars := map[*ssa.Function]*Run{}
		own := false
		for _, j := range js {
			if len(j.kinds) == 1 && j.kinds[0] == k {
				if j.par != nil {
					pars[j.par.Fn] = j.par
				} else {
					own = true
				}
			}
		}
		for _, par := range pars {
			for _, d := range wpaths(par) {
				if d.Exit || d.Loop != nil {
					continue
				}
				if er, ok := d.retErr(); ok && returnsError(par) && failed(d.To.facts, er) == True || d.Out != nil && d.Out.kind != "return" {
					continue
				}
				has := false
				for _, ev := range d.Evs {
					for _, j := range js {
						if ev.Kind == "go" && len(j.kinds) == 1 && j.kinds[0] == k && j.start != nil && sameGo(ev, j.start) {
							has = true
						}
					}
				}
				switch {
				case has:
					c.inst("started", k.name+" "+par.Name)
				case positive(d.To.facts, k.interval) == False, k.needs != "" && configured(d.To.facts, k.needs, nil) == False:
					c.inst("not started", k.name+" "+par.Name)
				default:
					c.badEv("enabled", lastEv(d.Evs), "the "+k.name+" is not started although its interval may be positive", d.Evs)
				}
			}
		}
		if own {
			for _, r := range c.mainRuns() {
				for _, d := range wpaths(r) {
					if !d.Stays {
						continue
					}
					in := false
					for _, j := range js {
						in = in || j.run == r && len(j.kinds) == 1 && j.kinds[0] == k && j.loop.HdrSt == d.To
					}
					switch {
					case in:
						c.inst("started", k.name+" "+r.Name)
					case positive(d.To.facts, k.interval) == False:
						c.inst("not started", k.name+" "+r.Name)
					default:
						c.badEv("enabled", lastEv(d.Evs), "the "+k.name+" is not started although its interval may be positive", d.Evs)
					}
				}
			}
		}
	}
}

// sameGo: the same go statement reached the same way.
func sameGo(a, b *Event) bool {
	return a == b || a.Instr == b.Instr && a.Args[0].Fn == b.Args[0].Fn
}

// mainRuns: the tracker from its start.
func (c *Check) mainRuns() []*Run {
	var out []*Run
	for _, fn := range c.s.p.sorted() {
		if fn.Name() == "Run" && (fnPkgPath(fn) == "tracker" || strings.HasSuffix(fnPkgPath(fn), "/tracker")) && fn.Signature.Recv() == nil {
			out = append(out, c.s.run(fn))
		}
	}
	if len(out) == 0 {
		c.bad("anchor", "tracker.Run", "-", "the function that runs the tracker was not found", nil)
	}
	return out
}

// ---- listeners

// mentions: the configured values a term is built from.
func mentions(t *Term) []string {
	seen := map[string]bool{}
	var out []string
	t.contains(func(x *Term) bool {
		if p := cfgPath(x); p != "" && x.Op != OpGlobal && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
		return false
	}, map[*Term]bool{})
	sort.Strings(out)
	return out
}

func isPort(t *Term, cfg string) bool {
	t = strip(t)
	if f, rest := "", t.Args; t.Op == OpCall && (t.Aux == "fmt.Sprint" || t.Aux == "fmt.Sprintf") && len(rest) > 0 {
		if t.Aux == "fmt.Sprintf" {
			f, _ = rest[0].strConst()
			rest = rest[1:]
		}
		if len(rest) == 1 && rest[0].Op == OpElemV && (f == "" && t.Aux == "fmt.Sprint" || f == "%d" || f == "%v") {
			t = strip(rest[0].Args[0])
			if t.Op == OpIface && len(t.Args) > 0 {
				t = strip(t.Args[0])
			}
			return cfgPath(t) == cfg
		}
	}
	if t.Op == OpNumText && len(t.Args) > 0 {
		t = strip(t.Args[0])
	}
	return cfgPath(t) == cfg
}

// hostPort: the address of a configured host and port.
func hostPort(t *Term, ip, port string) bool {
	t = strip(t)
	return t.Op == OpCall && t.Aux == "net.JoinHostPort" && len(t.Args) == 2 && cfgPath(t.Args[0]) == ip && isPort(t.Args[1], port)
}

var loopbacks = map[string]bool{"127.0.0.1": true, "localhost": true, "::1": true}

// loopback: an address on the loopback interface with the configured port.
func loopback(t *Term, port string) bool {
	t = strip(t)
	if t.Op == OpCall && t.Aux == "net.JoinHostPort" && len(t.Args) == 2 {
		h, ok := t.Args[0].strConst()
		return ok && loopbacks[h] && isPort(t.Args[1], port)
	}
	pre := func(s string) bool {
		for _, h := range []string{"127.0.0.1:", "localhost:", "[::1]:"} {
			if s == h {
				return true
			}
		}
		return false
	}
	if t.Op == OpCall && strings.HasPrefix(t.Aux, "fmt.Sprint") && len(t.Args) > 0 {
		f, ok := t.Args[0].strConst()
		ms := mentions(t)
		if !ok || len(ms) != 1 || ms[0] != port {
			return false
		}
		for _, v := range []string{"%d", "%v"} {
			if strings.HasSuffix(f, v) && pre(strings.TrimSuffix(f, v)) {
				return true
			}
		}
		return false
	}
	if t.Op == OpConcat && len(t.Args) == 2 {
		h, ok := t.Args[0].strConst()
		return ok && pre(h) && isPort(t.Args[1], port)
	}
	return false
}

func structField(st *State, p *Term, name string) *Term {
	p = strip(p)
	a := fieldByName(p, name)
	if a == nil || st == nil {
		return nil
	}
	return loadField(st, p, name)
}

const (
	profPort = "Debug.Pprof"
	udpOn    = "UDP.Enabled"
	httpMode = "HTTP.Mode"
)

// udpAddr: the address of the UDP socket is the configured one; what is wrong with it otherwise.
func udpAddr(d *DPath, ev *Event, a *Term) string {
	a = strip(a)
	if a.Op == OpConst {
		return "no address is given"
	}
	for _, g := range d.Evs {
		if g.Kind == "call" && g.Name == "net.ResolveUDPAddr" && len(g.Res) > 0 && strip(g.Res[0]) == a {
			switch {
			case !hostPort(g.Args[1], "UDP.IP", "UDP.Port"):
				return "the address is not built from the configured IP and port: " + trunc(g.Args[1].String(), 150)
			case failed(ev.Facts, errOf(g)) != False:
				return "the configured address may not have been understood"
			}
			return ""
		}
	}
	ip, port := structField(ev.St, a, "IP"), structField(ev.St, a, "Port")
	if ip == nil || port == nil {
		return "the address could not be determined: " + trunc(a.String(), 150)
	}
	if !isPort(port, "UDP.Port") {
		return "the port is not the configured one: " + trunc(port.String(), 150)
	}
	anyIP := Unknown
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLoad && cfgPath(t) == "UDP.IP" }) {
		if v := ev.Facts.eval(mkEq(t, mkStr(""))); v != Unknown {
			anyIP = v
		}
		if ev.Facts.entails(lin(lenOfBytes(t)).addC(-1)) {
			anyIP = False
		} else if ev.Facts.entails(lin(lenOfBytes(t)).scale(-1)) {
			anyIP = True
		}
	}
	ip = strip(ip)
	switch {
	case ip.Op == OpCall && ip.Aux == "net.ParseIP" && len(ip.Args) == 1 && cfgPath(ip.Args[0]) == "UDP.IP":
		if anyIP != True && ev.Facts.eval(mkEq(ip, nilT)) != False {
			return "an address that does not parse is taken for all interfaces"
		}
	case ip.isNil():
		if anyIP != True {
			return "the server listens on all interfaces although an address may be configured"
		}
	default:
		return "the address is not the configured one: " + trunc(ip.String(), 150)
	}
	return ""
}

// defaultMux: the handler is the library's default one, which serves the profiles.
func defaultMux(t *Term) bool {
	t = strip(t)
	return t.isNil() || t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].Aux, "net/http.DefaultServeMux") || t.Op == OpGlobal && strings.HasSuffix(t.Aux, "DefaultServeMux")
}

// listening describes a call that opens a listener (or serves one) on a path.
type listening struct {
	ev     *Event
	server string // udp, http, profiling
	why    string
}

func (c *Check) listens(d *DPath) []listening {
	var out []listening
	profiles := func(h *Term) bool {
		if h == nil || defaultMux(h) {
			return true
		}
		for _, g := range d.Evs {
			if g.Kind == "call" && (strings.HasSuffix(g.Name, "ServeMux).HandleFunc") || strings.HasSuffix(g.Name, "ServeMux).Handle")) && len(g.Args) > 2 && strip(g.Args[0]) == strip(h) {
				if f := strip(g.Args[2]); f.contains(func(x *Term) bool { return x.Fn != nil && fnPkgPath(x.Fn) == "net/http/pprof" }, map[*Term]bool{}) {
					return true
				}
			}
		}
		return false
	}
	tcp := func(ev *Event, addr, h *Term) {
		l := listening{ev: ev, server: "http"}
		switch {
		case loopback(addr, profPort):
			l.server = "profiling"
		case h != nil && profiles(h):
			l.server, l.why = "profiling", "the profiles are served on an address that is not known to be a loopback one: "+trunc(addr.String(), 150)
		case !hostPort(addr, "HTTP.IP", "HTTP.Port"):
			l.why = "the address is not built from the configured IP and port: " + trunc(addr.String(), 150)
		}
		out = append(out, l)
	}
	for _, ev := range d.Evs {
		if ev.Kind != "call" {
			continue
		}
		network := func(i int, want string) bool {
			n, ok := ev.Args[i].strConst()
			if !ok || n != want {
				out = append(out, listening{ev, "http", "the network is not " + want})
				return false
			}
			return true
		}
		switch ev.Name {
		case "net.ListenUDP":
			if network(0, "udp") {
				out = append(out, listening{ev, "udp", udpAddr(d, ev, ev.Args[1])})
			}
		case "net.ListenPacket", "(*net.ListenConfig).ListenPacket":
			i := len(ev.Args) - 2
			if network(i, "udp") {
				l := listening{ev: ev, server: "udp"}
				if !hostPort(ev.Args[i+1], "UDP.IP", "UDP.Port") {
					l.why = "the address is not built from the configured IP and port: " + trunc(ev.Args[i+1].String(), 150)
				}
				out = append(out, l)
			}
		case "net.Listen", "(*net.ListenConfig).Listen":
			i := len(ev.Args) - 2
			if network(i, "tcp") {
				var h *Term
				for _, g := range d.Evs { // served with
					if g.Kind == "call" && len(ev.Res) > 0 {
						switch {
						case g.Name == "net/http.Serve" && strip(g.Args[0]) == strip(ev.Res[0]):
							h = g.Args[1]
						case g.Name == "(*net/http.Server).Serve" && len(g.Args) > 1 && strip(g.Args[1]) == strip(ev.Res[0]):
							h = structField(g.St, g.Args[0], "Handler")
						}
					}
				}
				tcp(ev, ev.Args[i+1], h)
			}
		case "net/http.ListenAndServe", "net/http.ListenAndServeTLS":
			tcp(ev, ev.Args[0], ev.Args[len(ev.Args)-1])
		case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS":
			a, h := structField(ev.St, ev.Args[0], "Addr"), structField(ev.St, ev.Args[0], "Handler")
			if a == nil || h == nil {
				out = append(out, listening{ev, "http", "the server's address could not be determined"})
				continue
			}
			tcp(ev, a, h)
		case "net/http.Serve", "net/http.ServeTLS", "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS":
			ln := ev.Args[0]
			if strings.HasPrefix(ev.Name, "(*") {
				ln = ev.Args[1]
			}
			own := false
			for _, g := range d.Evs {
				own = own || g.Kind == "call" && isListen(g.Name) && len(g.Res) > 0 && strip(g.Res[0]) == strip(ln)
			}
			if !own {
				out = append(out, listening{ev, "http", "the listener that is served could not be determined"})
			}
		default:
			if isListen(ev.Name) {
				out = append(out, listening{ev, "http", "the address of this listener could not be determined"})
			}
		}
	}
	return out
}

// fatal: the path ends the process with an error.
func fatal(d *DPath) bool {
	if !d.Exit {
		return false
	}
	for _, ev := range d.Evs {
		if ev.Kind == "exit" {
			if strings.HasSuffix(ev.Name, "os.Exit") {
				return len(ev.Args) > 0 && d.To.facts.entailsNeq(lin(ev.Args[0]))
			}
			return true
		}
	}
	return false
}

// configured: what the facts say about a configured flag or choice.
func configured(f *Facts, cfg string, val *Term) Tri {
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLoad && cfgPath(t) == cfg }) {
		x := t
		if val != nil {
			x = mkEq(t, val)
		}
		if v := f.eval(x); v != Unknown {
			return v
		}
	}
	return Unknown
}

func (c *Check) listeners() {
	x := newConc(c.s.p)
	seen := map[ssa.Instruction]bool{}
	check := func(d *DPath) []listening {
		ls := c.listens(d)
		for _, l := range ls {
			seen[l.ev.Instr] = true
			c.inst("listener", l.server+" "+evConstruct(l.ev))
			if l.why != "" {
				c.badEv("address", l.ev, l.why, d.Evs)
			}
		}
		for _, ev := range d.Evs {
			if ev.Kind == "call" && servesHTTP(ev.Name) {
				seen[ev.Instr] = true
			}
		}
		return ls
	}
	// what each goroutine opens
	type opened struct {
		g    goRun
		serv map[string]bool
	}
	var gs []opened
	ends := func(d *DPath, ls []listening) {
		ok := false
		for _, l := range ls {
			if l.server == "profiling" {
				return
			}
			ok = true
			if e := errOf(l.ev); e != nil && failed(d.To.facts, e) != False && !fatal(d) {
				c.badEv("failure-ends", l.ev, "opening the listener may fail and the tracker goes on", d.Evs)
			}
		}
		if !ok && !fatal(d) {
			c.badEv("failure-ends", lastEv(d.Evs), "a server may end without having listened, and the tracker goes on", d.Evs)
		}
		c.add("paths", 1)
	}
	for _, g := range c.s.goRuns() {
		if g.parent.Fn != nil && !x.live[g.parent.Fn] {
			continue
		}
		o := opened{g, map[string]bool{}}
		ds := wpaths(g.run)
		var lss [][]listening
		for _, d := range ds {
			ls := check(d)
			lss = append(lss, ls)
			for _, l := range ls {
				o.serv[l.server] = true
			}
		}
		if len(o.serv) == 0 {
			continue
		}
		gs = append(gs, o)
		// the goroutine ends the process itself, unless only profiling is served
		if o.serv["udp"] || o.serv["http"] {
			for i, d := range ds {
				if d.Loop == nil {
					ends(d, lss[i])
				}
			}
		}
	}
	modes := []string{"enabled", "info"}
	for _, r := range c.mainRuns() {
		for _, d := range wpaths(r) {
			if d.Loop != nil {
				continue
			}
			ls := check(d)
			if len(ls) > 0 {
				ends(d, ls)
			}
			if d.Exit {
				continue
			}
			has := map[string]bool{}
			for _, l := range ls {
				has[l.server] = true
			}
			for _, ev := range d.Evs {
				if ev.Kind != "go" {
					continue
				}
				for _, o := range gs {
					if sameGo(ev, o.g.ev) {
						for k := range o.serv {
							has[k] = true
						}
					}
				}
			}
			c.inst("start", r.Name)
			if !has["udp"] && configured(d.To.facts, udpOn, nil) != False {
				c.badEv("enabled", lastEv(d.Evs), "the UDP server is not started although it may be enabled", d.Evs)
			}
			for _, m := range modes {
				if !has["http"] && configured(d.To.facts, httpMode, mkStr(m)) != False {
					c.badEv("enabled", lastEv(d.Evs), "the HTTP server is not started although its mode may be "+m, d.Evs)
				}
			}
		}
	}
	c.need("start", 1)
	c.need("listener", 3)
	// every listener in the program was looked at
	for _, fn := range c.s.p.sorted() {
		if !x.live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || seen[in] {
					continue
				}
				if f := ci.Common().StaticCallee(); f != nil && (isListen(fnName(f)) || servesHTTP(fnName(f))) {
					c.bad("address", fnName(fn)+":"+fnName(f), instrPos(c.s.e, in), "a listener is opened where its address is not followed", nil)
				}
			}
		}
	}
}

// ---- signals

var sigNames = map[string]string{"2": "interrupt", "15": "termination", "10": "save"}

// sigOf: the signal a term denotes.
func sigOf(t *Term) string {
	t = strip(t)
	if t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].String(), "os.Interrupt") {
		return "2"
	}
	for t.Op == OpIface && len(t.Args) > 0 {
		t = strip(t.Args[0])
	}
	if n, ok := t.intConst(); ok {
		return strconv.FormatInt(n, 10)
	}
	return ""
}

// sigIs: whether the path knows which signal was received.
func sigIs(f *Facts, s *Term, num string) Tri {
	r := Unknown
	for t, v := range f.bools {
		if t.Op != OpEq || len(t.Args) != 2 {
			continue
		}
		for i := range t.Args {
			if strip(t.Args[i]) != strip(s) {
				continue
			}
			o := sigOf(t.Args[1-i])
			switch {
			case o == num && v:
				return True
			case o == num:
				r = False
			case o != "" && v:
				r = False // it is another one
			}
		}
	}
	return r
}

// sigHandler: a run that receives signals.
type sigHandler struct {
	run    *Run
	start  *Event
	ch     *Term
	notify *Event
}

func notified(ds []*DPath) []*Event {
	var out []*Event
	has := map[*Event]bool{}
	for _, d := range ds {
		for _, ev := range d.Evs {
			if ev.Kind == "call" && ev.Name == "os/signal.Notify" && !has[ev] {
				has[ev] = true
				out = append(out, ev)
			}
		}
	}
	return out
}

// receives: the paths on which the run receives from a channel.
func receives(ds []*DPath, ch *Term) bool {
	for _, d := range ds {
		for _, ev := range d.Evs {
			if ev.Kind == "recv" && strip(ev.Args[0]) == strip(ch) {
				return true
			}
		}
	}
	return false
}

// pathNil: the path knows that what the channel or table belongs to is not there.
func pathNil(f *Facts, is func(t *Term) bool) bool {
	nilOf := func(t *Term) bool {
		if t.Op == OpEq && len(t.Args) == 2 {
			for i := range t.Args {
				if t.Args[i].isNil() && is(strip(t.Args[1-i])) {
					return true
				}
			}
		}
		return false
	}
	for t, v := range f.bools {
		switch {
		case !v:
		case nilOf(t):
			return true
		case t.Op == OpCall && t.Aux == "or":
			all := true
			for _, x := range t.Args {
				all = all && nilOf(x)
			}
			if all {
				return true
			}
		}
	}
	return false
}

// reachesTable: a pointer through which the table of connections is reached.
func reachesTable(t types.Type, d int) bool {
	if t == nil || d > 3 {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isConnTable(ft) || reachesTable(ft, d+1) {
			return true
		}
	}
	return false
}

func isConnSave(ev *Event) bool {
	switch {
	case ev.Kind == "call" && ev.Name == "(*encoding/gob.Encoder).Encode" && len(ev.Args) > 1:
		v := strip(ev.Args[1])
		for v.Op == OpIface && len(v.Args) > 0 {
			v = strip(v.Args[0])
		}
		if p, ok := v.Typ.(*types.Pointer); ok {
			return isConnTable(p.Elem())
		}
		return v.Typ != nil && isConnTable(v.Typ)
	case ev.Kind == "range" || ev.Kind == "rangedone":
		return isConnTable(ev.Args[0].Typ)
	}
	return false
}

func (c *Check) signals() {
	x := newConc(c.s.p)
	// the channels on which the servers wait for their shutdown
	waits := map[string]bool{}
	for _, g := range c.s.goRuns() {
		if g.parent.Fn != nil && !x.live[g.parent.Fn] {
			continue
		}
		for _, d := range wpaths(g.run) {
			if d.Loop != nil {
				continue
			}
			up := false
			var wait *Event
			for _, ev := range d.Evs {
				switch {
				case ev.Kind == "call" && isListen(ev.Name):
					up = true
				case ev.Kind == "recv" && up && wait == nil && !isTimer(ev.Args[0]):
					wait = ev
					waits[chanName(ev.Args[0], d.To)] = true
				}
			}
			if wait == nil {
				continue
			}
			c.inst("told to stop", g.run.Name)
			if d.Exit {
				clean := true
				for _, ev := range d.Evs[index(d.Evs, wait):] {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Close") {
						if e := errOf(ev); e != nil && failed(d.To.facts, e) == True {
							clean = false // closing failed
						}
					}
				}
				if clean {
					c.badEv("stop-is-clean", lastEv(d.Evs), "a server that was told to stop ends the process, before everything is saved", d.Evs)
				}
			}
		}
	}
	if len(waits) < 2 {
		c.bad("anchor", "servers", "-", "the channels on which the servers wait for their shutdown were not found", nil)
	}
	// the handlers
	var hs []sigHandler
	seen := map[string]bool{}
	add := func(r *Run, ds []*DPath, ns []*Event, start *Event) {
		for _, n := range ns {
			if receives(ds, n.Args[0]) && !seen[r.Name] {
				seen[r.Name] = true
				hs = append(hs, sigHandler{r, start, n.Args[0], n})
			}
		}
	}
	for _, r := range c.lifeRuns() {
		ds := wpaths(r)
		add(r, ds, notified(ds), nil)
		for _, d := range ds {
			for _, ev := range d.Evs {
				if ev.Kind == "call" && (ev.Name == "os/signal.Ignore" || ev.Name == "os/signal.Reset" || ev.Name == "os/signal.Stop") {
					c.badEv("delivered", ev, "signals may no longer be delivered", d.Evs)
				}
			}
		}
	}
	main := c.mainRuns()
	if len(hs) == 0 {
		for _, m := range main {
			ns := notified(wpaths(m))
			for _, g := range c.s.goRuns() {
				if g.parent == m {
					add(g.run, wpaths(g.run), ns, g.ev)
				}
			}
		}
	}
	if len(hs) == 0 {
		c.bad("anchor", "signals", "-", "no function that receives the signals was found", nil)
	}
	for _, h := range hs {
		c.handler(h, waits)
	}
	// it runs from the start
	for _, m := range main {
		for _, d := range wpaths(m) {
			if d.Loop != nil || d.Exit {
				continue
			}
			if !d.Stays {
				if d.Out.kind == "return" {
					c.badEv("running", lastEv(d.Evs), "the function that runs the tracker returns, which ends the process without saving", d.Evs)
				}
				continue
			}
			has := false
			for _, h := range hs {
				if receives([]*DPath{d}, h.ch) || h.run == m {
					has = true
				}
				for _, ev := range d.Evs {
					has = has || ev.Kind == "go" && ev.Args[0].Fn == h.run.Fn
				}
			}
			c.inst("running", m.Name)
			if !has {
				c.badEv("running", lastEv(d.Evs), "the tracker runs without handling signals", d.Evs)
			}
		}
	}
	c.need("running", 1)
}

func (c *Check) handler(h sigHandler, waits map[string]bool) {
	name := h.run.Name
	// what is delivered
	sigs, ok := sliceElems(h.notify.St, h.notify.Args[1])
	got := map[string]bool{}
	for _, s := range sigs {
		got[sigOf(s)] = true
	}
	for n, what := range sigNames {
		if !ok || !got[n] {
			c.badEv("delivered", h.notify, "the "+what+" signal is not delivered to the handler", nil)
		}
	}
	closes := false
	for _, d := range wpaths(h.run) {
		for i, ev := range d.Evs {
			closes = closes || ev.Kind == "close" && strip(ev.Args[0]) == strip(h.ch)
			if ev.Kind == "makechan" && strip(ev.Args[0]) == strip(h.ch) && !ev.Facts.entails(lin(ev.Args[1]).addC(-1)) {
				c.badEv("delivered", ev, "the channel of the signals is not buffered: a signal that arrives while it is not waited for is lost", d.Evs[:i+1])
			}
		}
	}
	for _, d := range wpaths(h.run) {
		ri := -1
		for i, ev := range d.Evs {
			if ev.Kind == "recv" && strip(ev.Args[0]) == strip(h.ch) {
				ri = i
			}
		}
		if ri >= 0 && !closes && len(d.Evs[ri].Res) > 1 && d.To.facts.eval(d.Evs[ri].Res[1]) == False {
			continue // nothing closes the channel
		}
		if d.Out != nil && d.Out.kind == "return" {
			c.badEv("keeps-handling", lastEv(d.Evs), "the handler of the signals ends", d.Evs)
			continue
		}
		if ri < 0 {
			if d.Exit {
				c.badEv("asked", lastEv(d.Evs), "the process ends without a signal", d.Evs)
			}
			continue
		}
		if d.Stays && d.Loop == nil {
			if ri < len(d.Evs)-1 {
				c.badEv("keeps-handling", lastEv(d.Evs), "the handler of the signals stops receiving", d.Evs)
			}
			continue
		}
		c.add("paths", 1)
		rcv := d.Evs[ri]
		if len(rcv.Res) == 0 {
			c.badEv("asked", rcv, "the received signal could not be determined", d.Evs)
			continue
		}
		f := d.To.facts
		is := func(n string) Tri { return sigIs(f, rcv.Res[0], n) }
		// what the path does
		sent := map[string]bool{}
		late := map[string]*Event{}
		var peers, conns *Event
		for _, ev := range d.Evs[ri+1:] {
			deep([]*Event{ev}, func(g *Event, _ *LoopRec) {
				switch {
				case g.Kind == "send" || g.Kind == "close":
					n := chanName(g.Args[0], d.To)
					if peers != nil || conns != nil {
						late[n] = g
					}
					sent[n] = true
				case storageCall(g, "Backup.Save"):
					peers = g
				case isConnSave(g):
					conns = g
				}
			})
		}
		noConns := conns == nil && pathNil(f, func(t *Term) bool { return t.Typ != nil && reachesTable(t.Typ, 0) })
		both := func(when string) {
			if peers == nil {
				c.badEv("saves", lastEv(d.Evs), "the peer database is not saved "+when, d.Evs)
			}
			if conns == nil && !noConns {
				c.badEv("saves", lastEv(d.Evs), "the UDP connections are not saved "+when, d.Evs)
			}
		}
		if d.Exit {
			c.inst("ends the process", name)
			if is("2") != True && is("15") != True && is("10") != False {
				c.badEv("asked", lastEv(d.Evs), "the process ends although the signal is not known to be the interrupt or the termination signal", d.Evs)
			}
			for n := range waits {
				stopped := sent[n] || pathNil(f, func(t *Term) bool {
					return t.Op == OpLoad && chanName(t, d.To) == n || t.Typ != nil && strings.TrimPrefix(types.TypeString(t.Typ, nil), "*") == n[:strings.LastIndex(n, ".")]
				})
				switch {
				case !stopped:
					c.badEv("stops-first", lastEv(d.Evs), "the process ends without telling the server that waits on "+n+" to stop", d.Evs)
				case late[n] != nil:
					c.badEv("stops-first", late[n], "a server is told to stop only after saving", d.Evs)
				}
			}
			both("before the process ends")
			if last := d.Evs[len(d.Evs)-1]; last.Kind != "exit" || !strings.HasSuffix(last.Name, "os.Exit") || len(last.Args) == 0 || !f.entailsEq(lin(last.Args[0])) {
				c.badEv("success", last, "the process does not end with success", d.Evs)
			}
			continue
		}
		if d.Loop != nil {
			c.inst("goes on", name)
			if is("2") != False || is("15") != False {
				c.badEv("ends", lastEv(d.Evs), "the handler goes on although the signal may be the interrupt or the termination signal", d.Evs)
			}
			if is("10") != False {
				both("on the save signal")
			}
			for n := range sent {
				if waits[n] {
					c.badEv("keeps-running", lastEv(d.Evs), "a server is stopped although the tracker goes on", d.Evs)
				}
			}
		}
	}
	c.need("ends the process", 1)
	c.need("goes on", 1)
}
