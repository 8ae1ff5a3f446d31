package main

// Session: the roots of one build variant, found by role and analysed on demand.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Session struct {
	p       *Program
	e       *Engine
	tags    string
	runs    map[string]*Run
	servers map[string][]*Server
	gos     []goRun
	started map[*ssa.Function][]*Run

	terms    map[string]*Term // the terms of this program
	typeKeys map[types.Type]string
}

// run analyses a function as a root with arbitrary arguments.
func (s *Session) run(fn *ssa.Function) *Run {
	k := fn.String()
	if r := s.runs[k]; r != nil {
		return r
	}
	r := s.e.runRoot(fn, nil, nil, nil)
	s.runs[k] = r
	return r
}

// runApart analyses the function without joining paths that differ in what they know only.
func (s *Session) runApart(fn *ssa.Function) *Run {
	k := "apart " + fn.String()
	if r := s.runs[k]; r != nil {
		return r
	}
	s.e.noJoin = true
	r := s.e.runRoot(fn, nil, nil, nil)
	s.e.noJoin = false
	s.runs[k] = r
	return r
}

// runGo analyses the target of a go statement from the state in which it is started.
func (s *Session) runGo(g goRec) *Run {
	fv := g.ev.Args[0]
	var bind []*Term
	if fv.Op == OpClosure {
		bind = fv.Args
	}
	st := g.st.clone()
	st.trace = nil
	st.locks = nil
	return s.e.runRoot(fv.Fn, g.ev.Args[1:], bind, st)
}

type Path struct {
	Evs []*Event
	St  *State
	End string // iter, exit, return, panic, osexit
}

func (p Path) facts() *Facts { return p.St.facts }

// Server is a worker loop that receives requests.
type Server struct {
	Kind   string
	Parent *Run
	Body   *Run
	Go     goRec
	Loop   *LoopRec
	Paths  []Path
	Recv   string
}

func isUDPRecv(n string) bool {
	return strings.HasPrefix(n, "(*net.UDPConn).Read") || n == "net.PacketConn.ReadFrom"
}
func isAccept(n string) bool {
	return n == "net.Listener.Accept" || strings.HasPrefix(n, "(*net.TCPListener).Accept")
}
func isUDPSend(n string) bool {
	return strings.HasPrefix(n, "(*net.UDPConn).Write") || n == "net.PacketConn.WriteTo"
}

// serversOf finds and analyses the worker loops of a kind ("udp" or "http").
func (s *Session) serversOf(kind string) []*Server {
	if s.servers == nil {
		s.servers = map[string][]*Server{}
	}
	if r, ok := s.servers[kind]; ok {
		return r
	}
	pred := isUDPRecv
	if kind == "http" {
		pred = isAccept
	}
	var out []*Server
	seen := map[*ssa.Function]bool{}
	for _, g := range s.p.goSites() {
		if seen[g.fn] {
			continue
		}
		target := goTarget(g.in)
		if target == nil || !s.p.reaches(target, pred) {
			continue
		}
		// the function that serves also blocks on or returns from the loop itself
		seen[g.fn] = true
		par := s.run(g.fn)
		done := map[string]bool{}
		for _, gr := range par.Gos {
			fv := gr.ev.Args[0]
			if fv.Fn == nil || !s.e.inlinable(fv.Fn) || !s.p.reaches(fv.Fn, pred) || done[fv.String()] {
				continue
			}
			done[fv.String()] = true
			body := s.runGo(gr)
			sv := &Server{Kind: kind, Parent: par, Body: body, Go: gr}
			for _, l := range body.Loops {
				if loopHas(l, func(ev *Event) bool { return ev.Kind == "call" && pred(ev.Name) }) {
					sv.Loop = l
				}
			}
			if sv.Loop == nil {
				continue
			}
			for _, it := range sv.Loop.Iters {
				sv.Paths = append(sv.Paths, Path{it.Events, it.St, "iter"})
			}
			for _, o := range body.Outs {
				end := "exit"
				if o.kind == "panic" {
					end = "panic"
				} else if !o.st.trace.after(sv.Loop.HdrSt.trace) {
					continue
				}
				sv.Paths = append(sv.Paths, Path{o.st.trace.since(sv.Loop.HdrSt.trace), o.st, end})
			}
			for _, x := range body.Exits {
				sv.Paths = append(sv.Paths, Path{x.trace.since(sv.Loop.HdrSt.trace), x, "osexit"})
			}
			out = append(out, sv)
		}
	}
	s.servers[kind] = out
	return out
}

func goTarget(g *ssa.Go) *ssa.Function {
	if f := g.Call.StaticCallee(); f != nil {
		return f
	}
	return nil
}

func loopHas(l *LoopRec, pred func(*Event) bool) bool {
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			if pred(ev) {
				return true
			}
		}
	}
	for _, x := range l.Exits {
		for _, ev := range x.st.trace.since(l.HdrSt.trace) {
			if pred(ev) {
				return true
			}
		}
	}
	return false
}

// deep calls f for every event of a path including those inside loops on it.
func deep(evs []*Event, f func(ev *Event, inLoop *LoopRec)) {
	seen := map[*LoopRec]bool{}
	var walk func(evs []*Event, in *LoopRec)
	walk = func(evs []*Event, in *LoopRec) {
		for _, ev := range evs {
			f(ev, in)
			if l := ev.Loop; l != nil && !seen[l] {
				seen[l] = true
				for _, it := range l.Iters {
					walk(it.Events, l)
				}
			}
		}
	}
	walk(evs, nil)
}

// dbMethods: the implementations of the torrent database.
func (s *Session) dbMethods(names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, t := range s.p.implementers("/tracker/storage", "Database") {
		for _, n := range names {
			if f := s.p.method(t, n); f != nil && len(f.Blocks) > 0 {
				r = append(r, f)
			}
		}
	}
	return r
}

// crash reports every obligation that is not met.
func (c *Check) crash(s *Session, kinds ...string) {
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	for _, o := range s.e.obls {
		if !want[o.Kind] {
			continue
		}
		c.add("obligations:"+o.Kind, 1)
		c.add("obligation_contexts", o.OK+o.Fail)
		if o.Fail > 0 {
			c.bad("no-"+o.Kind+"-panic", o.Fn+":"+o.Kind, o.Pos, strings.Join(o.Why, "; "), nil)
		}
	}
}

var crashKinds = []string{"index", "slice", "nil", "assert", "div", "makeslice", "nilmap", "panic", "randn", "poolinv", "mapnn"}

type goRun struct {
	parent *Run
	run    *Run
	ev     *Event
}

// goRuns analyses every goroutine of the program from the state it is started in.
func (s *Session) goRuns() []goRun {
	if s.gos != nil {
		return s.gos
	}
	seen := map[*ssa.Function]bool{}
	for _, g := range s.p.goSites() {
		if seen[g.fn] || g.fn.Parent() != nil {
			continue
		}
		seen[g.fn] = true
		par := s.run(g.fn)
		done := map[*Event]bool{}
		for _, gr := range par.Gos {
			fv := gr.ev.Args[0]
			if fv.Fn == nil || !s.e.inlinable(fv.Fn) || done[gr.ev] {
				continue
			}
			done[gr.ev] = true
			s.gos = append(s.gos, goRun{par, s.runGo(gr), gr.ev})
		}
	}
	return s.gos
}

// startedRuns: closures and functions that are only ever started as goroutines, analysed from the
// states in which they are started.
func (s *Session) startedRuns() map[*ssa.Function][]*Run {
	if s.started != nil {
		return s.started
	}
	other := map[*ssa.Function]bool{} // used otherwise
	for _, fn := range s.p.sorted() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				_, isGo := in.(*ssa.Go)
				for i, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && !(isGo && i == 0) {
						other[f] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function][]*Run{}
	for _, g := range s.goRuns() {
		if f := g.ev.Args[0].Fn; f.Parent() != nil || !other[f] && !token.IsExported(f.Name()) {
			out[f] = append(out[f], g.run)
		}
	}
	s.started = out
	return out
}
