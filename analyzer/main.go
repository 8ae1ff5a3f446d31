package main

import (
	"regexp"
	"strings"

	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	if pf := os.Getenv("TL_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	var id, tier string
	for i, a := range os.Args {
		if a == "-prop" && i+1 < len(os.Args) {
			id = os.Args[i+1]
		}
		if a == "-tier" && i+1 < len(os.Args) {
			tier = os.Args[i+1]
		}
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("REPO_DIR"); d != "" {
		repoDir = d
	}
	if tier == "" {
		tier = "quick"
	}
	if id == "" {
		debugMain()
		return
	}
	code := runCheck(id, tier)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func debugMain() {
	t := time.Now()
	p, err := loadProgram(os.Getenv("TL_TAGS"))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t))
	e := p.engine()
	fmt.Println("freeze", time.Since(t), len(e.frozenV))
	if os.Getenv("TL_FROZEN") != "" {
		for k, v := range e.frozenV {
			fmt.Println("  ", k, "=", v)
		}
	}
	for _, want := range os.Args[1:] {
		debugRoot(p, e, want)
	}
	for _, o := range e.obls {
		if o.Fail > 0 {
			fmt.Println("OBL", o.Kind, o.Fn, o.Pos, o.OK, o.Fail, trunc(fmt.Sprint(o.Why), 600))
		}
	}
	for w, n := range e.warn {
		fmt.Println("warn", w, n)
	}
}

func debugRoot(p *Program, e *Engine, want string) {
	for _, fn := range p.sorted() {
		if fnName(fn) != want {
			continue
		}
		t := time.Now()
		e.steps = 0
		r := e.runRoot(fn, nil, nil, nil)
		fmt.Println("root", r.Name, "outs", len(r.Outs), "gos", len(r.Gos), "exits", len(r.Exits), "steps", e.steps, e.overWhy, time.Since(t))
		debugRun(r)
		seen := map[string]bool{}
		for _, gr := range r.Gos {
			fv := gr.ev.Args[0]
			if fv.Fn == nil || seen[fv.Aux] || !e.inlinable(fv.Fn) {
				continue
			}
			seen[fv.Aux] = true
			t := time.Now()
			e.steps = 0
			var bind []*Term
			if fv.Op == OpClosure {
				bind = fv.Args
			}
			gr.st.trace = nil
			r2 := e.runRoot(fv.Fn, gr.ev.Args[1:], bind, gr.st)
			fmt.Println("  go", r2.Name, "outs", len(r2.Outs), "loops", len(r2.Loops), "steps", e.steps, e.overWhy, time.Since(t))
			debugRun(r2)
		}
	}
}

func debugRun(r *Run) {
	ls := map[string]string{}
	for _, l := range r.Loops {
		ls[l.ID] += fmt.Sprintf(" %d/%d", len(l.Iters), len(l.Exits))
	}
	for id, s := range ls {
		fmt.Println("    loop", id, trunc(s, 60))
	}
	if q := os.Getenv("TL_PATH"); q != "" {
		debugPaths(r, q)
		return
	}
	if os.Getenv("TL_TRACE") == "" {
		return
	}
	for _, l := range r.Loops {
		for i, it := range l.Iters {
			fmt.Println("    iter", l.ID, i)
			dumpTrace(it.Events, it.St)
		}
	}
	for i, o := range r.Outs {
		fmt.Println("    out", i, o.kind, o.rets, "locks", lockStr(o.st.locks))
		dumpTrace(o.st.trace.since(nil), o.st)
	}
}

func dumpTrace(evs []*Event, st *State) {
	for _, ev := range evs {
		s := ev.Kind + " " + ev.Name
		for _, a := range ev.Args {
			if a == nil {
				s += " <nil>"
				continue
			}
			s += " " + trunc(a.String(), 100)
		}
		if len(ev.Res) > 0 {
			s += " ->"
			for _, a := range ev.Res {
				s += " " + trunc(a.String(), 60)
			}
		}
		if ev.Loop != nil {
			s += " " + ev.Loop.ID
		}
		fmt.Println("       ", ev.Pos(), s, lockStr(ev.Locks))
	}
	if os.Getenv("TL_TRACE") == "2" {
		fmt.Println(st.dump())
		fmt.Println(st.facts.dump())
	}
}

var wide = os.Getenv("TL_WIDE") != ""

func trunc(s string, n int) string {
	if len(s) > n && !wide {
		return s[:n] + "…"
	}
	return s
}

// debugPaths prints the paths of the outermost loop (or the returns) whose events match every part of a query "a&b&!c".
func debugPaths(r *Run, q string) {
	n := 1
	fmt.Sscan(os.Getenv("TL_N"), &n)
	re := regexp.MustCompile(`\(\*?tracker/[a-z/]+\.[A-Za-z]+\)\.([A-Za-z$0-9]+)((>[^#\s]*)?#)`)
	short := func(s string) string { return re.ReplaceAllString(s, "$1#") }
	show := func(what string, evs []*Event, st *State) {
		if n <= 0 {
			return
		}
		var b strings.Builder
		for _, ev := range evs {
			b.WriteString(ev.Kind + " " + ev.Name + " " + ev.Pos() + "\n")
		}
		for _, p := range strings.Split(q, "&") {
			if strings.HasPrefix(p, "!") == strings.Contains(b.String(), strings.TrimPrefix(p, "!")) {
				return
			}
		}
		n--
		fmt.Println("  ==", what)
		for _, ev := range evs {
			s := ev.Kind + " " + ev.Name
			for _, a := range ev.Args {
				if a == nil {
					s += " <nil>"
					continue
				}
				s += " ~ " + trunc(short(a.String()), 400)
			}
			if len(ev.Res) > 0 {
				s += " ->"
				for _, a := range ev.Res {
					s += " ~ " + trunc(short(a.String()), 1500)
				}
			}
			if ev.Loop != nil {
				s += " " + ev.Loop.ID
			}
			fmt.Println("    ", ev.Pos(), s, short(lockStr(ev.Locks)))
		}
		if os.Getenv("TL_FACTS") != "" {
			fmt.Println(short(st.facts.dump()))
		}
		if os.Getenv("TL_HEAP") != "" {
			fmt.Println(short(st.dump()))
		}
	}
	sel := os.Getenv("TL_LOOP")
	for _, l := range r.Loops {
		if sel == "" && strings.Contains(l.ID, ">") || sel != "" && !strings.Contains(l.ID, sel) {
			continue
		}
		for i, it := range l.Iters {
			nx := ""
			for _, s := range sortedTerms(it.Next) {
				if os.Getenv("TL_FACTS") != "" && it.Next[s] != s {
					nx += "\n      next " + short(s.String()) + " = " + trunc(short(it.Next[s].String()), 600)
				}
			}
			show(fmt.Sprintf("iter %s %d%s", short(l.ID), i, nx), it.Events, it.St)
		}
	}
	for i, o := range r.Outs {
		show(fmt.Sprintf("out %d %s %v", i, o.kind, o.rets), o.st.trace.since(nil), o.st)
	}
	for i, x := range r.Exits {
		show(fmt.Sprintf("exit %d", i), x.trace.since(nil), x)
	}
}

func init() {
	if os.Getenv("TL_RESP") != "" {
		register("RESP", "debug", func(c *Check) {
			seen := map[string]bool{}
			for _, r := range c.httpReqs(c.s) {
				s := trunc(mkConcat(r.response()...).String(), 700)
				k := r.route() + " " + s
				if !seen[k] {
					seen[k] = true
					fmt.Println(r.route(), len(r.db), s)
				}
			}
		})
	}
}
