package main

// Locks: released, never re-acquired, one order, nothing slow under them (C26).

import (
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "typestate over the mutexes on every path of every goroutine and database operation: no path returns, no loop iteration ends and no goroutine blocks for good with a lock it took still held, none unlocks what it does not hold, none takes a lock of a kind it already holds; the relation 'taken while holding', including what operations called through interfaces take, has no cycle; no network, file, database-server, sleep or channel operation happens while a lock is held", func(c *Check) { c.lockDiscipline() })
}

// lockClass names the kind of a mutex: the struct type it lies in.
func lockClass(a *Term) string {
	n := class(a)
	if t := lockOwner(a); t != nil {
		n = typeKey(t) + n[strings.LastIndex(n, "."):]
	}
	return strings.ReplaceAll(n, modulePath+"/", "")
}

// slowCall: operations that wait for something outside the process or another goroutine.
func slowCall(name string) bool {
	for _, p := range []string{"(*os.File).", "(*net.", "(net.Conn", "net.Conn.", "net.Listener.", "net.PacketConn.", "net.Dial", "net.Listen", "net.Lookup", "net.Resolve", "(*database/sql.", "database/sql.Open", "net/http.", "(*net/http.", "os/exec.", "(*os/exec.", "time.Sleep", "io/ioutil.", "io.Copy", "io.ReadAll", "io.WriteString", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "storage.Backup.", "(*os.Process)", "syscall."} {
		if strings.HasPrefix(name, p) {
			switch name {
			case "net/http.Header.Set", "net/http.StatusText", "net/http.CanonicalHeaderKey", "(*net.UDPAddr).AddrPort", "(*net.UDPAddr).String", "(*net.IPNet).Contains":
				return false
			}
			return true
		}
	}
	if strings.HasPrefix(name, "os.") {
		switch name {
		case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout", "os.Getenv", "os.LookupEnv", "os.Getpid", "os.Exit", "os.Expand", "os.ExpandEnv", "os.TempDir", "os.Environ":
			return false
		}
		return true
	}
	return false
}

// memoryWriter: what is written to w stays in memory.
func memoryWriter(st *State, w *Term) bool {
	for i := 0; i < 8; i++ {
		switch dynType(w) {
		case "*bytes.Buffer", "*strings.Builder":
			return true
		case "*bufio.Writer", "*encoding/gob.Encoder":
			d, ok := st.heap[dstCell(dynPtr(w))]
			if !ok {
				return false
			}
			w = d
		default:
			return false
		}
	}
	return false
}

type lockEdge struct{ from, to string }

func (c *Check) lockDiscipline() {
	x := newConc(c.s.p)
	for _, r := range x.Roots {
		c.inst("goroutine", r.Name)
	}
	runs := c.sharedRuns(x)
	edges := map[lockEdge]*Event{}
	traces := map[lockEdge][]*Event{}
	takes := map[*ssa.Function]map[string]*Event{} // operation -> lock kinds it takes
	type under struct {
		held []LockHeld
		ev   *Event
		evs  []*Event
	}
	var calls []under
	seenLock := map[ssa.Instruction]bool{}
	badOnce := map[string]bool{}
	once := func(k string) bool {
		if badOnce[k] {
			return false
		}
		badOnce[k] = true
		return true
	}
	// code no root reaches as such
	done := map[*ssa.Function]bool{}
	for _, r := range runs {
		done[r.Fn] = true
	}
	scan := func(r *Run) {
		got := map[string]*Event{}
		takes[r.Fn] = got
		base := 0
		if r.Init != nil {
			base = len(r.Init.locks)
		}
		for i := range r.Outs {
			o := &r.Outs[i]
			if o.kind == "return" {
				c.inst("path to a return", r.Name+" path "+strconv.Itoa(i))
				if len(o.st.locks) > base {
					l := o.st.locks[len(o.st.locks)-1]
					if once("ret" + l.Ev.Pos()) {
						c.badEv("released", l.Ev, "the lock taken here is still held when "+r.Name+" returns", o.st.trace.since(nil))
					}
				}
			}
		}
		for _, l := range r.Loops {
			for _, u := range l.LockUB {
				if once("loop" + l.ID) {
					c.bad("released", l.ID, l.ID, "a loop iteration changes what is locked: "+u, nil)
				}
			}
		}
		visit := func(d *DPath, ev *Event) {
			switch {
			case ev.Kind == "lock":
				seenLock[ev.Instr] = true
				k := lockClass(ev.Args[0])
				c.inst("lock taken", ev.Pos())
				got[k] = ev
				for _, h := range ev.Locks {
					hk := lockClass(h.Addr)
					if hk == k {
						if once("re" + ev.Pos()) {
							what := "a lock of the same kind, taken at " + h.Ev.Pos() + ", is held"
							if h.Addr == ev.Args[0] {
								what = "the lock is already held, since " + h.Ev.Pos()
							}
							c.badEv("re-acquired", ev, "a lock is taken while "+what, d.Evs)
						}
						continue
					}
					e := lockEdge{hk, k}
					if edges[e] == nil {
						edges[e], traces[e] = ev, d.Evs
					}
				}
			case ev.Kind == "unlock":
				if strings.HasPrefix(ev.Name, "bad") && once("un"+ev.Pos()) {
					c.badEv("released", ev, "a lock is released that is not held in this way", d.Evs)
				}
			case len(ev.Locks) > 0:
				h := ev.Locks[len(ev.Locks)-1]
				slow := ""
				switch ev.Kind {
				case "call", "net", "udp":
					if ci, ok := ev.Instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && inModuleIface(ci.Common()) {
						calls = append(calls, under{ev.Locks, ev, d.Evs})
					}
					if slowCall(ev.Name) {
						slow = ev.Name
					} else if logOnly(ev.Name) {
					} else if st := d.To; st != nil {
						for _, a := range ev.Args {
							if a != nil && a.Typ != nil && (typeKey(a.Typ) == "io.Writer" || a.Op == OpIface && writerTyp(dynType(a))) && !memoryWriter(st, a) {
								slow = ev.Name + " on a writer that may be a file or a connection"
							}
						}
					}
				case "recv", "send", "select":
					slow = "a channel operation"
				default:
					if slowCall(ev.Name) {
						slow = ev.Name
					}
				}
				c.inst("operation under a lock", ev.Pos())
				if slow != "" && once("slow"+ev.Pos()) {
					c.badEv("held-across-io", ev, slow+" happens while the lock taken at "+h.Ev.Pos()+" is held", d.Evs)
				}
			}
		}
		for _, d := range dpaths(r) {
			c.add("paths", 1)
			for _, ev := range d.Evs {
				visit(d, ev)
			}
		}
		for _, st := range r.Exits {
			d := &DPath{Name: r.Name, Evs: st.trace.since(nil), To: st}
			for _, ev := range d.Evs {
				visit(d, ev)
			}
		}
	}
	for _, r := range runs {
		scan(r)
	}
	// locks taken in code that none of these paths went through
	for again := true; again; {
		again = false
		for _, fn := range x.sorted() {
			if done[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if lockInstr(in) && !seenLock[in] && !done[fn] {
						reached := false
						for _, r := range x.Roots {
							reached = reached || r.reach[fn]
						}
						if reached {
							done[fn] = true
							again = true
							scan(c.s.run(fn))
						}
					}
				}
			}
		}
	}
	// what is taken inside operations called while holding something
	for _, u := range calls {
		ci := u.ev.Instr.(ssa.CallInstruction)
		for _, fn := range x.invoked(ci.Common()) {
			ks := map[string]bool{}
			for k := range takes[fn] {
				ks[k] = true
			}
			for k := range ks {
				for _, h := range u.held {
					hk := lockClass(h.Addr)
					if hk == k {
						if once("re" + u.ev.Pos()) {
							c.badEv("re-acquired", u.ev, "an operation is called that takes a lock of a kind already held, since "+h.Ev.Pos(), u.evs)
						}
						continue
					}
					e := lockEdge{hk, k}
					if edges[e] == nil {
						edges[e], traces[e] = u.ev, u.evs
					}
				}
			}
		}
	}
	c.lockCycles(edges, traces)
	c.need("goroutine", 8)
	c.need("lock taken", 20)
	c.need("path to a return", 20)
}

func lockInstr(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	if f == nil {
		return false
	}
	switch fnName(f) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return true
	}
	return false
}

func (c *Check) lockCycles(edges map[lockEdge]*Event, traces map[lockEdge][]*Event) {
	next := map[string][]string{}
	for e := range edges {
		c.inst("order", e.from+" before "+e.to)
		next[e.from] = append(next[e.from], e.to)
	}
	var names []string
	for n := range next {
		sort.Strings(next[n])
		names = append(names, n)
	}
	sort.Strings(names)
	reaches := func(a, b string) bool {
		seen := map[string]bool{}
		stack := []string{a}
		for len(stack) > 0 {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for _, m := range next[n] {
				if m == b {
					return true
				}
				if !seen[m] {
					seen[m] = true
					stack = append(stack, m)
				}
			}
		}
		return false
	}
	for _, n := range names {
		for _, m := range next[n] {
			if reaches(m, n) {
				e := lockEdge{n, m}
				back := edges[lockEdge{m, n}]
				at := ""
				if back != nil {
					at = " (there: " + back.Pos() + ")"
				}
				c.badEv("order", edges[e], "a lock of "+m+" is taken while one of "+n+" is held, but elsewhere they are taken in the opposite order"+at, traces[e])
			}
		}
	}
}

func writerTyp(k string) bool {
	switch k {
	case "*os.File", "*net.UDPConn", "*net.TCPConn", "*bufio.Writer", "*bytes.Buffer", "*strings.Builder", "*encoding/gob.Encoder":
		return true
	}
	return false
}
