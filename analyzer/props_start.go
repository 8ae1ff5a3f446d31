package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about start-up: what must be ready before what.

func init() {
	register("C36", "every path from the program's entry points (default and heroku build), and every goroutine started on them: each use of the configuration happens where it is known to be loaded (its flag is true), the flag is tested only where the configuration is known to exist, and the flag is set only on the paths of the loader on which reading and parsing succeeded; where it is known not to be loaded the process ends with an error after a message; the database is initialised, a controller command executed and a listener started only where it is known to be loaded; when the database is initialised every object pool exists; when a listener is started initialising the database is known to have succeeded, and what serves holds a database; every successful path of the database's initialisation has loaded the backup and then synchronised the metrics", func(c *Check) {
		for _, tags := range []string{"", "heroku"} {
			old := c.s
			c.s = c.variant(tags)
			c.startup(tags)
			c.s = old
		}
		c.need("configuration use", 20)
		c.need("not loaded", 1)
		c.need("database initialised", 2)
		c.need("listener started", 6)
		c.need("pool", 4)
		c.need("path of the loader", 2)
		c.need("initialisation", 2)
	})
}

type cfgUse struct {
	in   ssa.Instruction
	fr   *Frame
	what string
	evs  []*Event
	n    int
	bad  bool
}

func isCfgPtr(p *Term) bool {
	return p.Op == OpLoad && p.Args[0].Op == OpGlobal && strings.HasSuffix(p.Args[0].Aux, "/config.Config")
}

// useCfg records a use of the configuration.
func (e *Engine) useCfg(fr *Frame, t *Thread, in ssa.Instruction, p *Term) {
	if e.cfgFlags == nil || e.quiet > 0 || !isCfgPtr(p) {
		return
	}
	u := e.cfgUses[in]
	if u == nil {
		u = &cfgUse{in: in, fr: fr}
		e.cfgUses[in] = u
	}
	u.n++
	ok := false
	if fa, k := in.(*ssa.FieldAddr); k && e.cfgFlags[fieldNameOf(fa)] {
		ok = t.st.facts.eval(mkEq(p, nilT)) == False
		if !ok {
			u.what = "the configuration is examined although it may not exist"
		}
	} else {
		ok = cfgLoaded(t.st.facts, e.cfgFlags) == True
		if !ok {
			u.what = "the configuration is used although it may not be loaded"
		}
	}
	if !ok && !u.bad {
		u.bad, u.evs, u.fr = true, t.st.trace.since(nil), fr
	}
}

// cfgLoaded: what the path knows about the configuration being loaded.
func cfgLoaded(f *Facts, flags map[string]bool) Tri {
	for t, v := range f.bools {
		if p := cfgPath(t); p != "" && flags[p] {
			if v {
				return True
			}
			return False
		}
		if v && t.Op == OpEq && len(t.Args) == 2 && (isCfgPtr(t.Args[0]) && t.Args[1].isNil() || isCfgPtr(t.Args[1]) && t.Args[0].isNil()) {
			return False
		}
	}
	return Unknown
}

func isCfgType(t types.Type) bool {
	return strings.HasSuffix(strings.TrimPrefix(types.TypeString(t, nil), "*"), "/config.Configuration")
}

// cfgFlags: the fields of the configuration that say that it is loaded.
func (c *Check) cfgFlags() map[string]bool {
	flags := map[string]bool{}
	for _, fn := range c.s.p.sorted() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isCfgType(fa.X.Type()) {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && isBoolT(k.Type()) {
					flags[fieldNameOf(fa)] = true
				}
			}
		}
	}
	return flags
}

func (c *Check) startup(tags string) {
	e := c.s.e
	flags := c.cfgFlags()
	if len(flags) == 0 {
		c.bad("anchor", "config", "-", "no field of the configuration says that it is loaded", nil)
		return
	}
	e.cfgMark = flags
	c.loader(flags)
	e.cfgMark = nil
	e.cfgFlags, e.cfgUses = flags, map[ssa.Instruction]*cfgUse{}
	defer func() { e.cfgFlags = nil }()
	mains := 0
	for _, fn := range c.s.p.sorted() {
		if fn.Name() != "main" || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" || fn.Parent() != nil {
			continue
		}
		mains++
		r := c.s.e.runRoot(fn, nil, nil, nil)
		c.startPaths(r, flags, tags)
		seen := map[ssa.Instruction]bool{}
		var walk func(r *Run, depth int)
		walk = func(r *Run, depth int) {
			for _, g := range r.Gos {
				fv := g.ev.Args[0]
				if seen[g.ev.Instr] || fv.Fn == nil || !e.inlinable(fv.Fn) || depth > 4 {
					continue
				}
				seen[g.ev.Instr] = true
				c.add("goroutines", 1)
				walk(c.s.runGo(g), depth+1)
			}
		}
		walk(r, 0)
	}
	if mains == 0 {
		c.bad("anchor", "main", "-", "the program's entry point was not found", nil)
	}
	for in, u := range e.cfgUses {
		c.inst("configuration use", instrPos(e, in))
		c.add("uses", u.n)
		if u.bad {
			c.bad("loaded-before-use", fnName(in.Parent())+":"+instrPos(e, in), instrPos(e, in), u.what, u.evs)
		}
	}
	c.initialisers()
}

// serving: the event makes a listener accept requests.
func (c *Check) serving(ev *Event) bool {
	opens := func(n string) bool { return isListen(n) || servesHTTP(n) }
	switch ev.Kind {
	case "call":
		return opens(ev.Name)
	case "go":
		fv := ev.Args[0]
		return fv.Fn != nil && (opens(fnName(fv.Fn)) || c.s.p.reaches(fv.Fn, opens))
	}
	return false
}

func (c *Check) startPaths(r *Run, flags map[string]bool, tags string) {
	pools := c.poolVars()
	holds := map[*ssa.Function]bool{}
	for _, d := range wpaths(r) {
		c.add("paths", 1)
		var open *Event // the last attempt to initialise the database
		for i, ev := range d.Evs {
			switch {
			case storageCall(ev, "Database.Init"):
				open = ev
				c.inst("database initialised", tags+" "+r.Name)
				if cfgLoaded(ev.Facts, flags) != True {
					c.badEv("loaded-before-use", ev, "the database is initialised although the configuration may not be loaded", d.Evs[:i])
				}
				for _, p := range pools {
					c.inst("pool", p.String())
					if c.poolNil(ev.St, p) {
						c.badEv("pools-before-database", ev, "the database is initialised before "+p.Name()+" exists", d.Evs[:i])
					}
				}
			case isLaunch(ev):
				if cfgLoaded(ev.Facts, flags) != True {
					c.badEv("loaded-before-use", ev, "a process is launched although the configuration may not be loaded", d.Evs[:i])
				}
			case c.serving(ev):
				c.inst("listener started", tags+" "+instrPos(c.s.e, ev.Instr))
				if cfgLoaded(ev.Facts, flags) != True {
					c.badEv("loaded-before-use", ev, "a listener is started although the configuration may not be loaded", d.Evs[:i])
				}
				if open == nil || failed(ev.Facts, errOf(open)) != False {
					c.badEv("database-before-listener", ev, "a listener is started although the database may not be loaded", d.Evs[:i])
				}
				for _, p := range pools {
					if c.poolNil(ev.St, p) {
						c.badEv("pools-before-listener", ev, "a listener is started before "+p.Name()+" exists", d.Evs[:i])
					}
				}
				if ev.Kind == "go" {
					c.holdsDatabase(ev, d.Evs[:i], holds)
				}
			case ev.Kind == "loop" && loopHas(ev.Loop, func(g *Event) bool { return c.serving(g) || storageCall(g, "Database.Init") }):
				c.badEv("database-before-listener", ev, "listeners are started in a loop", d.Evs[:i])
			}
		}
		if cfgLoaded(d.To.facts, flags) == False {
			c.inst("not loaded", tags+" "+r.Name+" "+lastEv(d.Evs).Pos()+d.To.factsKey(flags))
			at := lastEv(d.Evs)
			switch {
			case !fatal(d):
				c.badEv("ends-with-error", at, "the program goes on, or ends with success, although the configuration is not loaded", d.Evs)
			case !says(d):
				c.badEv("ends-with-error", at, "the program ends without a message although the configuration is not loaded", d.Evs)
			}
		}
	}
}

// factsKey tells the two ways of not being loaded apart.
func (s *State) factsKey(flags map[string]bool) string {
	for t := range s.facts.bools {
		if flags[cfgPath(t)] {
			return " (incomplete)"
		}
	}
	return " (missing)"
}

// says: the path prints or logs something before it ends the process.
func says(d *DPath) bool {
	for _, ev := range d.Evs {
		if ev.Kind == "exit" && !strings.HasSuffix(ev.Name, "os.Exit") {
			return true
		}
		if l, _, ok := isLog(ev); ok && l != "Debug" && l != "Info" {
			return true
		}
		if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "fmt.Print") || strings.HasPrefix(ev.Name, "fmt.Fprint") || strings.HasPrefix(ev.Name, "log.")) {
			return true
		}
	}
	return false
}

// poolVars: the program's object pools.
func (c *Check) poolVars() []*ssa.Global {
	var out []*ssa.Global
	for _, p := range c.s.p.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modulePath) {
			continue
		}
		for _, m := range sortedMembers(p) {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if pt, ok := t.(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "Pool" {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []ssa.Member
	for _, n := range names {
		out = append(out, p.Members[n])
	}
	return out
}

func (c *Check) poolNil(st *State, g *ssa.Global) bool {
	if st == nil {
		return true
	}
	for a, v := range st.heap {
		if a.Op == OpGlobal && strings.HasSuffix(a.Aux, g.Pkg.Pkg.Path()+"."+g.Name()) {
			return st.facts.eval(mkEq(v, nilT)) != False && v.Op != OpAlloc
		}
	}
	return true
}

// holdsDatabase: every tracker the goroutine is given holds a database.
func (c *Check) holdsDatabase(ev *Event, evs []*Event, seen map[*ssa.Function]bool) {
	fv := ev.Args[0]
	objs := append([]*Term{}, ev.Args[1:]...)
	if fv.Op == OpClosure {
		objs = append(objs, fv.Args...)
	}
	for _, o := range objs {
		o = strip(o)
		ss := derefStruct(o.Typ)
		if ss == nil {
			continue
		}
		for i := 0; i < ss.NumFields(); i++ {
			if !strings.HasSuffix(types.TypeString(ss.Field(i).Type(), nil), "/storage.Database") {
				continue
			}
			c.inst("holds a database", evConstruct(ev))
			v := loadField(ev.St, o, ss.Field(i).Name())
			if v == nil || v.isNil() || ev.St.facts.eval(mkEq(v, nilT)) == True || v.Op == OpLoad && root(v.Args[0]).Op == OpAlloc {
				c.badEv("database-before-listener", ev, "a tracker is served before it was given the database", evs)
			}
		}
	}
}

// loader: the flag says that reading and parsing succeeded.
func (c *Check) loader(flags map[string]bool) {
	for _, fn := range c.s.p.sorted() {
		sets := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == "Config" && isCfgType(g.Type().(*types.Pointer).Elem()) {
						sets = true
					}
				}
			}
		}
		if !sets {
			continue
		}
		for _, d := range wpaths(c.s.run(fn)) {
			if d.Out == nil || d.Out.kind != "return" {
				continue
			}
			var v *Term
			for a, w := range d.To.heap {
				if a.Op == OpGlobal && strings.HasSuffix(a.Aux, "/config.Config") {
					v = strip(w)
				}
			}
			if v == nil || v.isNil() {
				c.inst("path of the loader", "missing")
				continue
			}
			var fill *Event
			bad := ""
			for _, ev := range d.Evs {
				if fill == nil {
					if ev.Kind == "call" && errOf(ev) != nil && given(ev, v) {
						fill = ev
					}
				}
			}
			if fill == nil || failed(d.To.facts, errOf(fill)) != False {
				bad = "reading the configuration may have failed"
			} else {
				for t, k := range d.To.facts.bools {
					if t.Op != OpEq || len(t.Args) != 2 || k {
						continue
					}
					for i := range t.Args {
						e := strip(t.Args[1-i])
						if !t.Args[i].isNil() || !isErrorT(e.Typ) || !after(d.Evs, fill, e) {
							continue
						}
						bad = "a step of the loader failed: " + trunc(e.String(), 80)
					}
				}
			}
			for f := range flags {
				x := flagOf(d, v, f)
				is, no := x == True, x == False
				c.inst("path of the loader", f+" "+boolStr(is)+" "+bad)
				at := lastEv(d.Evs)
				switch {
				case bad != "" && is, bad != "" && !no:
					c.badEv("flag-means-loaded", at, "the configuration counts as loaded although "+bad, d.Evs)
				case bad == "" && !is:
					c.badEv("flag-means-loaded", at, "the configuration does not count as loaded although it was read and parsed", d.Evs)
				}
			}
		}
	}
}

func boolStr(b bool) string {
	if b {
		return "loaded"
	}
	return "not loaded"
}

// flagOf: the value of the flag at the end of the path; library code cannot write it.
func flagOf(d *DPath, v *Term, f string) Tri {
	a := fieldByName(v, f)
	x := structField(d.To, v, f)
	if a == nil || x == nil {
		return Unknown
	}
	if r := d.To.facts.eval(x); r != Unknown {
		return r
	}
	if x.Op != OpLoad || x.Args[0] != a {
		return Unknown
	}
	for i := len(d.Evs) - 1; i >= 0; i-- {
		if ev := d.Evs[i]; ev.Kind == "setflag" && ev.Args[0] == a {
			return d.To.facts.eval(ev.Args[1])
		}
	}
	return False
}

// given: the object is an argument of the call.
func given(ev *Event, o *Term) bool {
	for _, a := range ev.Args {
		a = strip(a)
		for a.Op == OpIface && len(a.Args) > 0 {
			a = strip(a.Args[0])
		}
		if a == o {
			return true
		}
	}
	return false
}

// after: the error is not one of a call made before the event.
func after(evs []*Event, at *Event, err *Term) bool {
	for _, ev := range evs {
		if ev == at {
			return true
		}
		for _, r := range ev.Res {
			if strip(r) == err {
				return false
			}
		}
	}
	return true
}

// initialisers: the database's initialisation loads the backup, then synchronises the metrics.
func (c *Check) initialisers() {
	for _, t := range c.s.p.implementers("/tracker/storage", "Database") {
		fn, sync := c.s.p.method(t, "Init"), c.s.p.method(t, "SyncExpvars")
		if fn == nil || sync == nil || len(fn.Blocks) == 0 {
			continue
		}
		r := c.s.run(fn)
		for _, d := range wpaths(r) {
			if d.Exit || d.Loop != nil {
				continue
			}
			if er, ok := d.retErr(); ok && returnsError(r) && failed(d.To.facts, er) == True || d.Out != nil && d.Out.kind != "return" {
				c.inst("initialisation", r.Name+" fails")
				continue
			}
			c.inst("initialisation", r.Name)
			load, synced := -1, false
			for i, ev := range d.Evs {
				if storageCall(ev, "Backup.Load") {
					load = i
					synced = false
				}
				in := ev.Kind == "call" && ev.Name == "storage.Database.SyncExpvars" && d.succeeded(ev)
				for fr := ev.Fr; fr != nil; fr = fr.parent {
					in = in || fr.fn == sync
				}
				if in && load >= 0 {
					synced = true
				}
			}
			at := lastEv(d.Evs)
			switch {
			case load < 0:
				c.badEv("initialises", at, "initialising the database succeeds without loading the backup", d.Evs)
			case !d.succeeded(d.Evs[load]):
				c.badEv("initialises", d.Evs[load], "initialising the database succeeds although loading the backup may have failed", d.Evs)
			case !synced:
				c.badEv("initialises", d.Evs[load], "initialising the database succeeds without synchronising the metrics after the backup was loaded", d.Evs)
			}
		}
	}
}
