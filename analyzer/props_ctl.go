package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the program that starts, stops and examines the tracker process.

func init() {
	register("C40", "every path of every function of the controller: where a process is launched, the path knows that the process file holds no process and that neither enabled server answered a heartbeat, and a path that returns success afterwards has written that process's number to the file; a signal sent to a process is one the tracker stops on and goes to the process read from the file; a path that sent it and returns success, or clears the file, knows from an existence test of that process that it is gone, and returns success only with the file cleared; every loop on such a path ends after a constant number of iterations (or a constant time) in which nothing but a constant sleep waits; every read from a heartbeat connection has a constant deadline counted from now, every HTTP heartbeat a constant timeout, and every connection and response is closed", func(c *Check) { c.controller() })
}

// fileName names the field a file's path is kept in.
func fileName(t *Term) string {
	t = strip(t)
	if p := cfgPath(t); p != "" {
		return p
	}
	var names []string
	for t.Op == OpLoad && t.Args[0].Op == OpField {
		names = append([]string{fieldName(t.Args[0])}, names...)
		t = strip(t.Args[0].Args[0])
	}
	if len(names) > 0 {
		return strings.Join(names, ".")
	}
	return t.String()
}

// pidRead: the file a process number was read from, if the term is the number written there.
func pidRead(t *Term, evs []*Event) (string, *Event) {
	t = strip(t)
	if t.Op != OpCall || t.Aux != "atoi" && !strings.HasPrefix(t.Aux, "parseint") && !strings.HasPrefix(t.Aux, "parseuint") || len(t.Args) == 0 {
		return "", nil
	}
	for _, ev := range evs {
		if f, data, _ := fileRead(ev); f != nil && allOf(t.Args[0], data) {
			return fileName(f), ev
		}
	}
	return "", nil
}

// fileRead: the call reads a whole file.
func fileRead(ev *Event) (name, data, err *Term) {
	if ev.Kind == "call" && (ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile") && len(ev.Res) > 1 {
		return ev.Args[0], ev.Res[0], ev.Res[1]
	}
	return nil, nil, nil
}

// wholeOf: the text is all of the data.
func allOf(t, data *Term) bool {
	t, data = strip(t), strip(data)
	if t.Op == OpCall && (t.Aux == "strings.TrimSpace" || t.Aux == "bytes.TrimSpace") {
		return allOf(t.Args[0], data)
	}
	if t == data {
		return true
	}
	if t.Op == OpSub && len(t.Args) == 3 {
		n, ok := t.Args[1].intConst()
		return ok && n == 0 && lin(t.Args[2]).sub(lin(lenOfBytes(data))).key() == linC(0).key() && t.Args[0].contains(func(x *Term) bool { return x == data }, map[*Term]bool{})
	}
	return t.Op == OpCall && len(t.Args) == 1 && allOf(t.Args[0], data)
}

// numbers: every value that was parsed from the data.
func numbers(data *Term) []*Term {
	return termsOf(func(t *Term) bool {
		return t.Op == OpCall && (t.Aux == "atoi" || strings.HasPrefix(t.Aux, "parseint")) && len(t.Args) > 0 && allOf(t.Args[0], data)
	})
}

// noProcess: the path knows that the file holds no process.
func noProcess(f *Facts, evs []*Event, file string) bool {
	for _, ev := range evs {
		name, data, err := fileRead(ev)
		if name == nil || fileName(name) != file {
			continue
		}
		if failed(f, err) == True || f.entails(lin(lenOfBytes(data)).neg()) {
			return true
		}
		for _, n := range numbers(data) {
			if f.entails(lin(n).neg()) {
				return true
			}
		}
		for t, v := range f.bools {
			// the error of the conversion
			if !v && t.Op == OpEq && len(t.Args) == 2 {
				for i := range t.Args {
					if t.Args[i] == nilT && convErr(t.Args[1-i], data) {
						return true
					}
				}
			}
		}
	}
	return false
}

func convErr(t, data *Term) bool {
	t = strip(t)
	if t.Op != OpSym || !strings.HasPrefix(t.Aux, "strconverr:") {
		return false
	}
	for _, n := range numbers(data) {
		if strings.HasSuffix(t.Aux, ":"+strconv.Itoa(n.Args[0].ID)) {
			return true
		}
	}
	return false
}

type beat struct {
	kind string // "udp" or "http"
	ev   *Event
}

const heartbeatOK = "\xff"

func isHTTPDo(n string) bool {
	switch n {
	case "(*net/http.Client).Get", "(*net/http.Client).Do", "(*net/http.Client).Head", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "net/http.Get", "net/http.Head", "net/http.Post", "net/http.PostForm":
		return true
	}
	return false
}

func isDial(n string) bool {
	switch n {
	case "net.Dial", "net.DialTimeout", "net.DialUDP", "net.DialTCP", "net.DialUnix", "net.DialIP", "(*net.Dialer).Dial", "(*net.Dialer).DialContext":
		return true
	}
	return false
}

// refuted: the path knows that this server did not answer a heartbeat.
func refuted(f *Facts, evs []*Event, kind string) (bool, *Event) {
	var at *Event
	for i, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case kind == "udp" && isDial(ev.Name) && len(ev.Res) > 1:
			if !strings.Contains(strings.Join(mentions(dialled(ev)), " "), "UDP.Port") {
				continue
			}
			at = ev
			if failed(f, ev.Res[1]) == True {
				return true, ev
			}
			conn := strip(ev.Res[0])
			asked := false
			for _, g := range evs[i+1:] {
				if g.Kind != "call" || len(g.Args) == 0 || strip(g.Args[0]) != conn {
					continue
				}
				if strings.HasSuffix(g.Name, ".Write") {
					asked = true
				}
				if !strings.HasSuffix(g.Name, ".Read") || !asked || len(g.Res) < 2 {
					continue
				}
				if failed(f, g.Res[1]) == True {
					return true, ev
				}
				if n := lin(g.Res[0]); f.entailsNeq(n.addC(-int64(len(heartbeatOK)))) {
					return true, ev
				}
				if len(g.Res) > 2 {
					for t, v := range f.bools {
						if v || t.Op != OpEq || len(t.Args) != 2 {
							continue
						}
						for i := range t.Args {
							s, ok := t.Args[1-i].strConst()
							if ok && s == heartbeatOK && strip(t.Args[i]) == strip(g.Res[2]) {
								return true, ev
							}
						}
					}
				}
			}
		case kind == "http" && isHTTPDo(ev.Name) && len(ev.Res) > 1:
			at = ev
			if failed(f, ev.Res[1]) == True {
				return true, ev
			}
			for _, st := range termsOf(func(t *Term) bool {
				return t.Op == OpLoad && t.Args[0].Op == OpField && fieldName(t.Args[0]) == "StatusCode" && strip(t.Args[0].Args[0]) == strip(ev.Res[0])
			}) {
				if f.entailsNeq(lin(st).addC(-200)) {
					return true, ev
				}
			}
		}
	}
	return false, at
}

// addrOf is the address a connection is opened to.
func dialled(ev *Event) *Term {
	for i := len(ev.Args) - 1; i >= 0; i-- {
		if len(mentions(ev.Args[i])) > 0 {
			return ev.Args[i]
		}
	}
	return ev.Args[len(ev.Args)-1]
}

func isLaunch(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Name {
	case "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "os.StartProcess", "syscall.ForkExec", "syscall.StartProcess", "syscall.Exec":
		return true
	}
	return false
}

// signalSent: the call sends a signal to a process.
func signalSent(ev *Event, evs []*Event) (pid, sig *Term, ok bool) {
	if ev.Kind != "call" {
		return nil, nil, false
	}
	switch ev.Name {
	case "(*os.Process).Signal":
		return processID(ev.Args[0], evs), ev.Args[1], true
	case "(*os.Process).Kill":
		return processID(ev.Args[0], evs), mkInt(9), true
	case "syscall.Kill":
		return processID(ev.Args[0], evs), ev.Args[1], true
	}
	return nil, nil, false
}

// processID: the number of a process that was looked up.
func processID(p *Term, evs []*Event) *Term {
	p = strip(p)
	if p.Op == OpLoad && p.Args[0].Op == OpField && fieldName(p.Args[0]) == "Pid" {
		p = strip(p.Args[0].Args[0])
	}
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "os.FindProcess" && len(ev.Res) > 0 && strip(ev.Res[0]) == p {
			return ev.Args[0]
		}
	}
	return p
}

// signalOf: the signal, also through a variable that is only ever given one.
func (c *Check) signalOf(t *Term) string {
	if s := sigOf(t); s != "" {
		return s
	}
	t = strip(t)
	if t.Op == OpLoad && t.Args[0].Op == OpGlobal {
		if g, ok := c.globalOf(t.Args[0]); ok {
			if v := c.onlyValue(g); v != nil {
				for {
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					} else if ct, ok := v.(*ssa.ChangeInterface); ok {
						v = ct.X
					} else {
						break
					}
				}
				switch v := v.(type) {
				case *ssa.Const:
					if v.Value != nil {
						return v.Value.ExactString()
					}
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
						switch g.Name() {
						case "Interrupt":
							return "2"
						case "Kill":
							return "9"
						}
					}
				}
			}
		}
	}
	return ""
}

func (c *Check) globalOf(t *Term) (*ssa.Global, bool) {
	for _, p := range c.s.p.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && strings.HasSuffix(t.String(), g.Pkg.Pkg.Path()+"."+g.Name()) {
				return g, true
			}
		}
	}
	return nil, false
}

// onlyValue: what a package variable holds, if it is stored to once.
func (c *Check) onlyValue(g *ssa.Global) ssa.Value {
	var v ssa.Value
	n := 0
	fns := c.s.p.sorted()
	if g.Pkg != nil {
		if f := g.Pkg.Func("init"); f != nil {
			fns = append(append([]*ssa.Function{}, fns...), f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					v = st.Val
					n++
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return v
}

// existence: the call tests whether a process exists.
func (c *Check) existence(ev *Event, evs []*Event) (pid *Term) {
	p, sig, ok := signalSent(ev, evs)
	if !ok || c.signalOf(sig) != "0" {
		return nil
	}
	return p
}

// sources: the values an error may have come from, where it is set.
func sources(err *Term, loops []*LoopRec, seen map[*Term]bool) []*Term {
	err = strip(err)
	if seen[err] {
		return nil
	}
	seen[err] = true
	for _, l := range loops {
		init, ok := l.Init[err]
		if !ok {
			continue
		}
		var out []*Term
		if failed(l.Entry.facts, init) != False {
			out = append(out, sources(init, loops, seen)...)
		}
		for _, it := range l.Iters {
			n := it.Next[err]
			if n == nil {
				continue
			}
			if failed(it.St.facts, n) != False {
				out = append(out, sources(n, loops, seen)...)
			}
		}
		return out
	}
	return []*Term{err}
}

// goneTest: the condition holds only if the error says that there is no such process.
func goneTest(t *Term) *Term {
	esrch := func(x *Term) bool {
		x = strip(x)
		for x.Op == OpIface && len(x.Args) > 0 {
			x = strip(x.Args[0])
		}
		if n, ok := x.intConst(); ok && n == 3 {
			return true
		}
		return x.Op == OpLoad && x.Args[0].Op == OpGlobal && strings.HasSuffix(x.Args[0].String(), "os.ErrProcessDone")
	}
	switch {
	case t.Op == OpEq && len(t.Args) == 2:
		for i := range t.Args {
			a, b := strip(t.Args[i]), t.Args[1-i]
			if s, ok := b.strConst(); ok && (s == "no such process" || s == "os: process already finished") && a.Op == OpCall && strings.HasSuffix(a.Aux, "error.Error") {
				return strip(a.Args[0])
			}
			if esrch(b) {
				return a
			}
		}
	case t.Op == OpCall && t.Aux == "errors.Is" && len(t.Args) > 1 && esrch(t.Args[1]):
		return strip(t.Args[0])
	}
	return nil
}

// gone: the process numbers the path knows not to exist.
func (c *Check) gone(f *Facts, evs []*Event) []*Term {
	var loops []*LoopRec
	var all []*Event
	deep(evs, func(ev *Event, l *LoopRec) {
		all = append(all, ev)
		if ev.Kind == "loop" && ev.Loop != nil {
			loops = append(loops, ev.Loop)
		}
	})
	var out []*Term
	for t, v := range f.bools {
		if !v {
			continue
		}
		err := goneTest(t)
		if err == nil {
			continue
		}
		src := sources(err, loops, map[*Term]bool{})
		var pid *Term
		good := len(src) > 0
		for _, s := range src {
			found := false
			for _, ev := range all {
				if ev.Kind != "call" || len(ev.Res) == 0 || strip(ev.Res[len(ev.Res)-1]) != s {
					continue
				}
				if p := c.existence(ev, all); p != nil && (pid == nil || pid == strip(p)) {
					pid, found = strip(p), true
				} else if p, _, ok := signalSent(ev, all); ok && (pid == nil || pid == strip(p)) { // the signal itself found no process
					pid, found = strip(p), true
				}
			}
			good = good && found
		}
		if good {
			out = append(out, pid)
		}
	}
	return out
}

// clears: the call empties or removes a file.
func clears(ev *Event) (file *Term, ok bool) {
	if ev.Kind != "call" {
		return nil, false
	}
	switch ev.Name {
	case "os.Truncate":
		n, k := ev.Args[1].intConst()
		return ev.Args[0], k && n == 0
	case "os.Remove", "os.RemoveAll", "os.Create":
		return ev.Args[0], true
	case "os.WriteFile", "io/ioutil.WriteFile":
		return ev.Args[0], true
	}
	return nil, false
}

// recorded: the call writes exactly the process's number to a file.
func recorded(ev *Event, cmd *Term) (file *Term, ok bool) {
	if ev.Kind != "call" || ev.Name != "os.WriteFile" && ev.Name != "io/ioutil.WriteFile" {
		return nil, false
	}
	is := false
	if ev.St != nil {
		t := ev.St.bytesOf(ev.Args[1])
		is = t != nil && pidOf(strip(t), cmd)
	}
	return ev.Args[0], is
}

// pidOf: the decimal text of the number of the process the command started.
func pidOf(t, cmd *Term) bool {
	var x *Term
	switch {
	case t.Op == OpNumText:
		x = strip(t.Args[0])
	case t.Op == OpCall && (t.Aux == "fmt.Sprint" || t.Aux == "fmt.Sprintf"):
		args := t.Args
		if t.Aux == "fmt.Sprintf" {
			if f, ok := args[0].strConst(); !ok || f != "%d" && f != "%v" {
				return false
			}
			args = args[1:]
		}
		if len(args) != 1 || args[0].Op != OpElemV {
			return false
		}
		for x = strip(args[0].Args[0]); x.Op == OpIface && len(x.Args) > 0; {
			x = strip(x.Args[0])
		}
	default:
		return false
	}
	if x.Op != OpLoad || x.Args[0].Op != OpField || fieldName(x.Args[0]) != "Pid" {
		return false
	}
	p := strip(x.Args[0].Args[0])
	return p == strip(cmd) || p.Op == OpLoad && p.Args[0].Op == OpField && fieldName(p.Args[0]) == "Process" && strip(p.Args[0].Args[0]) == strip(cmd)
}

func (c *Check) controllerRuns() []*Run {
	var out []*Run
	for _, fn := range c.s.p.sorted() {
		if fn.Object() == nil || !fn.Object().Exported() || !strings.HasSuffix(fnPkgPath(fn), "controller") || fn.Parent() != nil {
			continue
		}
		if c.s.p.reaches(fn, func(n string) bool { return n == "os/signal.Notify" }) { // the tracker itself
			continue
		}
		out = append(out, c.s.runApart(fn))
	}
	return out
}

func (c *Check) controller() {
	runs := c.controllerRuns()
	files := map[string]*Event{}
	// the file the process is recorded in
	for _, r := range runs {
		for _, d := range wpaths(r) {
			for i, ev := range d.Evs {
				if !isLaunch(ev) {
					continue
				}
				for _, g := range d.Evs[i+1:] {
					if f, ok := recorded(g, launched(ev)); ok {
						files[fileName(f)] = g
					}
				}
			}
		}
	}
	file := ""
	for f, ev := range files {
		c.inst("process file", f)
		if file == "" {
			file = f
		} else if file != f {
			c.badEv("records", ev, "processes are recorded in different files", nil)
		}
	}
	c.need("process file", 1)
	for _, r := range runs {
		c.add("functions", 1)
		for _, d := range wpaths(r) {
			c.add("paths", 1)
			c.launches(r, d, file)
			c.stops(r, d, file)
			c.beats(r, d)
		}
	}
	c.executes()
	c.need("launch", 1)
	c.need("stop signal", 1)
	c.need("success path of stop", 1)
	c.need("failure path of stop", 1)
	c.need("bounded loop", 1)
	c.need("heartbeat read", 1)
	c.need("HTTP heartbeat", 1)
	c.need("connection closed", 1)
	c.need("response closed", 1)
}

func launched(ev *Event) *Term {
	if strings.HasPrefix(ev.Name, "(*os/exec.Cmd)") {
		return ev.Args[0]
	}
	if len(ev.Res) > 0 {
		return ev.Res[0]
	}
	return ev.Args[0]
}

func (c *Check) launches(r *Run, d *DPath, file string) {
	for i, ev := range d.Evs {
		if ev.Kind == "loop" && loopHas(ev.Loop, isLaunch) {
			c.badEv("starts-one", ev, "a process is launched in a loop", d.Evs)
		}
		if !isLaunch(ev) {
			continue
		}
		c.inst("launch", evConstruct(ev))
		f, before := ev.Facts, d.Evs[:i]
		if !noProcess(f, before, file) {
			c.badEv("starts-one", ev, "a process is launched although the process file may hold one", d.Evs)
		}
		for _, k := range [][3]string{{"udp", udpOn, ""}, {"http", httpMode, "enabled"}} {
			var val *Term
			if k[2] != "" {
				val = mkStr(k[2])
			}
			if configured(f, k[1], val) == False {
				continue
			}
			if ok, _ := refuted(f, before, k[0]); !ok {
				c.badEv("starts-one", ev, "a process is launched although a tracker may have answered a heartbeat over "+k[0], d.Evs)
			}
		}
		for _, g := range d.Evs[i+1:] {
			if isLaunch(g) {
				c.badEv("starts-one", g, "two processes are launched", d.Evs)
			}
		}
		if ev.Name != "(*os/exec.Cmd).Start" && ev.Name != "os.StartProcess" {
			c.badEv("starts-one", ev, ev.Name+" does not leave the launched process running on its own", d.Evs)
		}
		if d.Exit || d.Stays {
			c.badEv("records", ev, "the path that launched a process does not return", d.Evs)
			continue
		}
		er, ok := d.retErr()
		if ok && returnsError(r) && failed(d.To.facts, er) == True {
			continue
		}
		if e := errOf(ev); e != nil && failed(d.To.facts, e) != False {
			c.badEv("records", ev, "success is reported although launching may have failed", d.Evs)
			continue
		}
		rec := false
		for _, g := range d.Evs[i+1:] {
			if f, ok := recorded(g, launched(ev)); ok && fileName(f) == file {
				rec = d.succeeded(g)
			} else if f, ok := clears(g); ok && fileName(f) == file {
				rec = false
			}
		}
		c.inst("recorded", r.Name)
		if !rec {
			c.badEv("records", ev, "success is reported although the process may not have been recorded", d.Evs)
		}
	}
}

func (c *Check) stops(r *Run, d *DPath, file string) {
	sent := -1
	var target *Term
	var all []*Event
	deep(d.Evs, func(ev *Event, l *LoopRec) {
		all = append(all, ev)
		if _, sig, ok := signalSent(ev, all); ok && l != nil && c.signalOf(sig) != "0" {
			c.badEv("signals", ev, "a signal is sent in a loop", d.Evs)
		}
	})
	for i, ev := range d.Evs {
		pid, sig, ok := signalSent(ev, d.Evs)
		if !ok || c.signalOf(sig) == "0" {
			continue
		}
		if sent < 0 {
			sent, target = i, strip(pid)
		}
		c.inst("stop signal", evConstruct(ev))
		if s := sigNames[c.signalOf(sig)]; s != "interrupt" && s != "termination" {
			c.badEv("signals", ev, "the signal is not one the tracker stops on: "+trunc(sig.String(), 80), d.Evs)
		}
		if f, _ := pidRead(pid, d.Evs[:i]); f != file {
			c.badEv("signals", ev, "the signal does not go to the recorded process", d.Evs)
		}
	}
	if sent < 0 {
		return
	}
	for _, ev := range d.Evs {
		if ev.Kind == "loop" {
			if why := c.bounded(ev.Loop); why != "" {
				c.badEv("bounded", ev, why, d.Evs)
			} else {
				c.inst("bounded loop", ev.Pos())
			}
		} else if why := waits(ev); why != "" {
			c.badEv("bounded", ev, why, d.Evs)
		}
	}
	isGone := func(f *Facts) bool {
		for _, p := range c.gone(f, d.Evs) {
			if p == target {
				return true
			}
			if f, _ := pidRead(p, d.Evs); f == file {
				return true
			}
		}
		return false
	}
	cleared := false
	for _, ev := range d.Evs[sent+1:] {
		if f, ok := clears(ev); ok && fileName(f) == file {
			if !isGone(ev.Facts) {
				c.badEv("clears-when-gone", ev, "the process file is cleared although the process may still run", d.Evs)
			}
			cleared = d.succeeded(ev)
			if strings.HasSuffix(ev.Name, "WriteFile") && !(ev.St != nil && ev.St.facts.entails(lin(lenOfBytes(ev.Args[1])).neg())) {
				cleared = false
			}
		}
	}
	for _, ev := range d.Evs {
		if ev.Kind == "loop" && loopHas(ev.Loop, func(g *Event) bool { f, ok := clears(g); return ok && fileName(f) == file }) {
			c.badEv("clears-when-gone", ev, "the process file is cleared while waiting", d.Evs)
		}
	}
	at := d.Evs[sent]
	if d.Stays {
		c.badEv("bounded", at, "the path never ends", d.Evs)
		return
	}
	if d.Exit {
		return
	}
	if er, ok := d.retErr(); ok && returnsError(r) && failed(d.To.facts, er) == True {
		c.inst("failure path of stop", r.Name)
		return
	}
	c.inst("success path of stop", r.Name)
	if !isGone(d.To.facts) {
		c.badEv("reports-when-gone", at, "success is reported although the process may still run", d.Evs)
	} else if !cleared {
		c.badEv("clears-when-gone", at, "success is reported although the process file may not have been cleared", d.Evs)
	}
}

// waits: the event may wait for an unbounded time.
func waits(ev *Event) string {
	switch ev.Kind {
	case "recv", "send", "block", "lock":
		return "the path may wait for ever (" + ev.Kind + ")"
	case "call":
		switch ev.Name {
		case "time.Sleep":
			if _, ok := ev.Args[0].intConst(); !ok {
				return "sleeps for a time that is not constant"
			}
		case "(*os.Process).Wait", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "syscall.Wait4", "(*sync.WaitGroup).Wait", "os/signal.Wait":
			return ev.Name + " may wait for ever"
		}
	}
	return ""
}

// bounded: why the loop may not end in bounded time.
func (c *Check) bounded(l *LoopRec) string {
	if len(l.Iters) == 0 {
		return ""
	}
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			if ev.Kind == "loop" {
				if why := c.bounded(ev.Loop); why != "" {
					return why
				}
			} else if why := waits(ev); why != "" && !fromTimer(ev, l) {
				return why
			}
		}
	}
	// a counter
	for h, init := range l.Init {
		if init == nil || !isInt(h.Typ) {
			continue
		}
		if _, ok := init.intConst(); !ok {
			continue
		}
		up, down := true, true
		for _, it := range l.Iters {
			n := it.Next[h]
			if n == nil {
				up, down = false, false
				break
			}
			step := lin(n).sub(lin(h))
			f := it.St.facts
			up = up && f.entails(step.addC(-1)) && f.entails(lin(h).neg().addC(1<<31))
			down = down && f.entails(step.neg().addC(-1)) && f.entails(lin(h).addC(1<<31))
		}
		if up || down {
			return ""
		}
	}
	// a deadline: every iteration that goes on knows that a constant time from a moment before the loop has not passed
	ok := true
	for _, it := range l.Iters {
		ok = ok && c.inTime(l, it)
	}
	if ok {
		return ""
	}
	return "the loop has no constant bound"
}

// fromTimer: the wait is for a tick of the library's clock with a constant period.
func fromTimer(ev *Event, l *LoopRec) bool {
	if ev.Kind != "recv" || !isTimer(ev.Args[0]) {
		return false
	}
	evs := l.HdrSt.trace.since(nil)
	for _, it := range l.Iters {
		evs = append(evs, it.Events...)
	}
	t := timer(ev.Args[0], evs)
	if t == nil {
		return false
	}
	_, ok := t.Args[0].intConst()
	return ok
}

func (c *Check) inTime(l *LoopRec, it LoopIter) bool {
	inLoop := map[*Term]bool{}
	for _, ev := range it.Events {
		for _, r := range ev.Res {
			inLoop[strip(r)] = true
		}
	}
	// both: the condition compares the present time with an earlier one
	both := func(t *Term) bool {
		now, then := false, false
		t.contains(func(x *Term) bool {
			if x.Op == OpCall && x.Aux == "now" {
				if inLoop[x] {
					now = true
				} else {
					then = true
				}
			}
			return false
		}, map[*Term]bool{})
		return now && then
	}
	for t, v := range it.St.facts.bools {
		if t.Op == OpCall && len(t.Args) == 2 && both(t) {
			after := strings.HasSuffix(t.Aux, "Time).After")
			before := strings.HasSuffix(t.Aux, "Time).Before")
			nowFirst := inLoop[strip(t.Args[0])]
			if after && !v && nowFirst || before && v && nowFirst || after && v && !nowFirst || before && !v && !nowFirst {
				return true
			}
		}
	}
	for _, g := range it.St.facts.ges {
		for _, lt := range g.T {
			t, k := lt.A, lt.K
			if both(t) && k < 0 && t.Op == OpCall && (t.Aux == "since" || strings.HasSuffix(t.Aux, "Time).Sub")) && inLoop[strip(t.Args[0])] {
				return true
			}
		}
	}
	// a clock that ticks once, started before the loop: the iteration did not take that alternative of a wait it made
	for _, ev := range it.Events {
		if ev.Kind == "recv" && fromTimer(ev, l) && len(l.Exits) > 0 {
			for _, x := range l.Exits {
				for _, g := range x.st.trace.since(nil) {
					if g.Kind == "recv" && g.Instr == ev.Instr && g.Args[0] != ev.Args[0] {
						if t := timer(g.Args[0], l.HdrSt.trace.since(nil)); t != nil {
							if _, ok := t.Args[0].intConst(); ok {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// beats: the paths that look for a running tracker.
func (c *Check) beats(r *Run, d *DPath) {
	asks := false
	for i, ev := range d.Evs {
		if ev.Kind == "loop" && loopHas(ev.Loop, func(g *Event) bool { return g.Kind == "call" && (isDial(g.Name) || isHTTPDo(g.Name)) }) {
			c.badEv("bounded", ev, "heartbeats are sent in a loop", d.Evs)
		}
		if ev.Kind != "call" {
			continue
		}
		switch {
		case isDial(ev.Name) && len(ev.Res) > 1:
			asks = true
			if n, ok := ev.Args[0].strConst(); ev.Name != "net.DialUDP" && (!ok || !strings.HasPrefix(n, "udp")) && ev.Name != "net.DialTimeout" {
				c.badEv("bounded", ev, ev.Name+" may wait for a long time", d.Evs)
			}
			conn := strip(ev.Res[0])
			closed := failed(d.To.facts, ev.Res[1]) == True
			var dl *Event
			for _, g := range d.Evs[i+1:] {
				if g.Kind == "loop" && loopHas(g.Loop, func(h *Event) bool {
					return h.Kind == "call" && len(h.Args) > 0 && strip(h.Args[0]) == conn && strings.HasSuffix(h.Name, ".Read")
				}) {
					c.badEv("bounded", g, "a heartbeat is read in a loop", d.Evs)
				}
				if g.Kind != "call" || len(g.Args) == 0 || strip(g.Args[0]) != conn {
					continue
				}
				switch {
				case strings.HasSuffix(g.Name, ".SetDeadline"), strings.HasSuffix(g.Name, ".SetReadDeadline"):
					dl = g
				case strings.HasSuffix(g.Name, ".Close"):
					closed = true
				case strings.HasSuffix(g.Name, ".Read"), strings.HasSuffix(g.Name, ".ReadFrom"), strings.HasSuffix(g.Name, ".ReadFromUDP"):
					c.inst("heartbeat read", g.Pos())
					if dl == nil {
						c.badEv("bounded", g, "the heartbeat is read without a deadline", d.Evs)
					} else if !soon(dl.Args[1]) {
						c.badEv("bounded", dl, "the deadline is not a constant time from now: "+trunc(dl.Args[1].String(), 120), d.Evs)
					}
				}
			}
			if !closed {
				c.badEv("releases", ev, "the connection may stay open", d.Evs)
			} else {
				c.inst("connection closed", evConstruct(ev))
			}
		case isHTTPDo(ev.Name) && len(ev.Res) > 1:
			asks = true
			c.inst("HTTP heartbeat", evConstruct(ev))
			if strings.HasPrefix(ev.Name, "net/http.") {
				c.badEv("bounded", ev, ev.Name+" has no timeout", d.Evs)
			} else if t := structField(ev.St, ev.Args[0], "Timeout"); (t == nil || !posConst(t)) && !c.setOnce(ev.Args[0], "Timeout") {
				c.badEv("bounded", ev, "the HTTP client has no constant timeout", d.Evs)
			}
			closed := failed(d.To.facts, ev.Res[1]) == True
			for _, g := range d.Evs[i+1:] {
				if g.Kind == "call" && strings.HasSuffix(g.Name, ".Close") && len(g.Args) > 0 && bodyOf(g.Args[0], ev.Res[0]) {
					closed = true
				}
			}
			if !closed {
				c.badEv("releases", ev, "the response may stay open", d.Evs)
			} else {
				c.inst("response closed", evConstruct(ev))
			}
		}
	}
	if !asks {
		return
	}
	if d.Stays {
		c.badEv("bounded", lastEv(d.Evs), "the path never ends", d.Evs)
	}
	for _, ev := range d.Evs {
		if ev.Kind == "loop" {
			if why := c.bounded(ev.Loop); why != "" {
				c.badEv("bounded", ev, why, d.Evs)
			}
		} else if why := waits(ev); why != "" {
			c.badEv("bounded", ev, why, d.Evs)
		}
	}
}

func bodyOf(t, resp *Term) bool {
	t = strip(t)
	return t.Op == OpLoad && t.Args[0].Op == OpField && fieldName(t.Args[0]) == "Body" && strip(t.Args[0].Args[0]) == strip(resp)
}

func posConst(t *Term) bool {
	n, ok := strip(t).intConst()
	return ok && n > 0
}

// setOnce: a package variable whose field is given one positive constant, and not copied over.
func (c *Check) setOnce(t *Term, field string) bool {
	t = strip(t)
	if t.Op == OpLoad && t.Args[0].Op == OpGlobal { // a pointer to it
		g, ok := c.globalOf(t.Args[0])
		if !ok {
			return false
		}
		a, ok := c.onlyValue(g).(*ssa.Alloc)
		return ok && c.fieldSet(a, field, a.Parent())
	}
	if t.Op != OpGlobal {
		return false
	}
	g, ok := c.globalOf(t)
	return ok && c.fieldSet(g, field, nil)
}

func (c *Check) fieldSet(base ssa.Value, field string, only *ssa.Function) bool {
	n, good := 0, true
	fns := append([]*ssa.Function{}, c.s.p.sorted()...)
	for _, p := range c.s.p.prog.AllPackages() {
		if f := p.Func("init"); f != nil && strings.HasPrefix(p.Pkg.Path(), modulePath) {
			fns = append(fns, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] || only != nil && fn != only {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); st.Addr == base && ok && k.Value == nil {
					continue // zeroed first
				}
				if st.Addr == base {
					n++
					ld, ok := st.Val.(*ssa.UnOp)
					if !ok {
						return false
					}
					a, ok := ld.X.(*ssa.Alloc)
					good = good && ok && c.fieldSet(a, field, fn)
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == base && fieldNameOf(fa) == field {
					n++
					k, ok := st.Val.(*ssa.Const)
					good = good && ok && k.Value != nil && k.Int64() > 0
				}
			}
		}
	}
	return n == 1 && good
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return s.Field(fa.Field).Name()
}

// soon: a constant time from now.
func soon(t *Term) bool {
	t = strip(t)
	return t.Op == OpCall && strings.HasSuffix(t.Aux, "Time).Add") && len(t.Args) == 2 && nowTime(t.Args[0]) && posConst(t.Args[1])
}

// executes: the command line the process is launched with runs the tracker.
func (c *Check) executes() {
	words := map[string]bool{}
	runs := map[*ssa.Function]bool{}
	for _, r := range c.mainRuns() {
		runs[r.Fn] = true
	}
	known := 0
	for _, fn := range c.s.p.sorted() {
		if fn.Name() != "main" || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" || fn.Parent() != nil {
			continue
		}
		known++
		for _, d := range wpaths(c.s.run(fn)) {
			for _, ev := range d.Evs {
				in := false
				for fr := ev.Fr; fr != nil; fr = fr.parent {
					in = in || runs[fr.fn]
				}
				if !in {
					continue
				}
				for t, v := range ev.Facts.bools {
					if !v || t.Op != OpEq || len(t.Args) != 2 {
						continue
					}
					for i := range t.Args {
						if w, ok := t.Args[i].strConst(); ok && argument(t.Args[1-i], 1) {
							words[w] = true
						}
					}
				}
				break
			}
		}
	}
	if known == 0 {
		c.bad("anchor", "main", "-", "the program's entry point was not found", nil)
	}
	for _, r := range c.controllerRuns() {
		for _, d := range wpaths(r) {
			for _, ev := range d.Evs {
				if ev.Kind != "call" || ev.Name != "os/exec.Command" || len(ev.Args) < 2 {
					continue
				}
				c.inst("command line", evConstruct(ev))
				own := argument(ev.Args[0], 0)
				for _, g := range d.Evs {
					if g.Kind == "call" && g.Name == "os.Executable" && strip(g.Res[0]) == strip(ev.Args[0]) {
						own = true
					}
				}
				if !own {
					c.badEv("starts-one", ev, "the program launched is not this one: "+trunc(ev.Args[0].String(), 100), d.Evs)
				}
				args, ok := sliceElems(ev.St, ev.Args[1])
				if !ok || len(args) == 0 {
					c.badEv("starts-one", ev, "the arguments of the launched process could not be determined", d.Evs)
					continue
				}
				if w, ok := args[0].strConst(); !ok || !words[w] {
					c.badEv("starts-one", ev, "the launched process does not run the tracker: its argument is "+trunc(args[0].String(), 60), d.Evs)
				}
			}
		}
	}
	c.need("command line", 1)
}

// argument: the program's argument of that number.
func argument(t *Term, n int64) bool {
	t = strip(t)
	if t.Op == OpLoad && t.Args[0].Op == OpElem {
		t = t.Args[0]
	} else if t.Op != OpSel {
		return false
	}
	k, ok := t.Args[1].intConst()
	return ok && k == n && t.contains(func(x *Term) bool { return x.Op == OpGlobal && strings.HasSuffix(x.String(), "os.Args") }, map[*Term]bool{})
}
