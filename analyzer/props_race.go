package main

// Data races (C25).

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "lockset analysis with start-up ordering: every access on every path of every goroutine to a field or table of a struct that has a mutex, or to a peer record, holds that struct's (for a peer: its torrent's) mutex, for a write exclusively, unless the object is not shared yet, was taken out of its table on the path, or the access is ordered before the start of every goroutine that accesses the same field; every other write to shared memory is ordered before the start of every other goroutine that accesses that field or variable", func(c *Check) { c.races() })
}

// access to shared memory that no lock protects.
type unguarded struct {
	ev     *Event
	class  []string
	write  bool
	run    *ssa.Function
	trace  []*Event
	why    string
	byLock bool // a mutex is expected
	cell   *ssa.Alloc
}

// fieldClasses: the classes a load or store of the address touches.
func fieldClasses(a *Term) []string {
	var r []string
	add := func(t types.Type, i int) { r = append(r, "F:"+typeKey(t)+"."+strconv.Itoa(i)) }
	var nested func(t types.Type)
	nested = func(t types.Type) {
		if st := structOf(t); st != nil && !isSyncType(t) {
			for i := 0; i < st.NumFields(); i++ {
				add(t, i)
				nested(st.Field(i).Type())
			}
		}
	}
	switch a.Op {
	case OpField:
		for x := a; x.Op == OpField; x = x.Args[0] {
			et, _ := structOfPtr(x.Args[0])
			if et != nil {
				add(et, x.Idx)
			}
		}
	default:
		r = append(r, class(a))
	}
	if t := deref(a.Typ); t != nil {
		nested(t)
	}
	return r
}

// sharedRuns: the analyses of all code that runs in goroutines.
func (c *Check) sharedRuns(x *conc) []*Run { return c.concRuns(x, nil) }

// concRuns is sharedRuns with the functions for which runs are given analysed in these.
func (c *Check) concRuns(x *conc, instead map[*ssa.Function][]*Run) []*Run {
	var runs []*Run
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !x.live[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		if rs := instead[fn]; len(rs) > 0 {
			runs = append(runs, rs...)
			return
		}
		runs = append(runs, c.s.run(fn))
	}
	for _, r := range x.Roots {
		for _, f := range r.Fns {
			add(f)
		}
	}
	for _, i := range [][2]string{{"/tracker/storage", "Database"}, {"/tracker/storage", "Backup"}} {
		for _, t := range c.s.p.implementers(i[0], i[1]) {
			ms := c.s.p.prog.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Exported() {
					add(c.s.p.method(t, ms.At(k).Obj().Name()))
				}
			}
		}
	}
	return runs
}

// slotBase finds the torrent a peer record lies in.
func (d *DPath) slotBase(q *Term) (own *Term, m, key *Term) {
	own, m, key = slotOf(d.Evs, q)
	if m == nil && d.To != nil {
		own, m, key = slotOf(d.To.trace.since(nil), q)
	}
	if m != nil && own == nil {
		own = tableOwner(m, d.To)
	}
	return
}

// ownedPeer: the record is in no table at this event: taken from a pool or made on the path and
// not stored yet, or taken out of its table on the path under its torrent's lock.
func (d *DPath) ownedPeer(at *Event, q *Term) bool {
	evs := d.Evs
	if d.To != nil {
		evs = d.To.trace.since(nil)
	}
	owned := false
	deep(evs, func(ev *Event, _ *LoopRec) {})
	for _, ev := range evs {
		if ev == at {
			break
		}
		switch ev.Kind {
		case "poolget":
			for _, r := range ev.Res {
				if r == q || r.Op == OpIface && r.Args[0] == q {
					owned = true
				}
			}
		case "mapset":
			if ev.Args[2] == q {
				owned = false
			}
		case "mapdel":
			if isPeerTable(ev.Args[0].Typ) && ev.Args[4] == q {
				owned = true
			}
		}
	}
	return owned
}

func (c *Check) races() {
	c.s.e.watchStores = true
	c.s.e.watchBytes = true
	x := newConc(c.s.p)
	for _, in := range x.Unknown {
		c.bad("goroutine", in.Parent().String(), c.s.p.prog.Fset.Position(in.Pos()).String(), "a goroutine is started on a function that cannot be determined", nil)
	}
	for _, r := range x.Roots {
		c.inst("goroutine", r.Name)
	}
	var un []*unguarded
	once := map[string]bool{}
	visit := func(d *DPath, run *Run, ev *Event) {
		var u *unguarded
		switch ev.Kind {
		case "bytewrite":
			// the bytes of a slice or array others can reach as well
			m := root(ev.Args[0])
			if writeLocked(ev.Locks) || !x.shared(run.Fn) || fromPool(m) || !global(m) {
				return
			}
			if k := "bytes" + ev.Pos() + run.Name; !once[k] {
				once[k] = true
				c.badEv("race", ev, "several goroutines may write, without a lock, the memory "+trunc(m.String(), 120), d.Evs)
			}
			return
		case "load", "store":
			u = c.fieldAccess(d, ev)
		case "mapget", "mapset", "mapdel", "range", "rangedone", "maplen":
			u = c.mapAccess(d, ev)
		case "call":
			u = c.handedOver(d, ev)
		}
		if u == nil {
			return
		}
		u.run = run.Fn
		u.ev = ev
		u.trace = d.Evs
		k := ev.Kind + ev.Pos() + u.why + run.Name
		if !once[k] {
			once[k] = true
			un = append(un, u)
		}
	}
	for _, r := range c.sharedRuns(x) {
		c.add("runs", 1)
		for _, d := range dpaths(r) {
			c.add("paths", 1)
			for _, ev := range d.Evs {
				visit(d, r, ev)
			}
		}
		for _, st := range r.Exits {
			d := &DPath{Name: r.Name, Evs: st.trace.since(nil), To: st}
			for _, ev := range d.Evs {
				visit(d, r, ev)
			}
		}
	}
	c.ownBuffers(c.s, "race")
	readers := x.accessors()
	for _, u := range un {
		c.judge(x, readers, u)
	}
	c.need("goroutine", 8)
	c.need("access under lock", 20)
	c.need("ordered by start-up", 3)
}

// global: the memory is a global's, or what one refers to.
func global(t *Term) bool {
	for {
		switch t.Op {
		case OpGlobal:
			return true
		case OpBack, OpLoad, OpField, OpElem, OpSlice:
			t = t.Args[0]
		default:
			return t.Op == OpAlloc // frozen: a global's content
		}
	}
}

// fromPool: the memory is (part of) what a pool gave; who uses it after handing it back is C27's.
func fromPool(t *Term) bool {
	if t.Op == OpCall && t.Aux == "poolget" {
		return true
	}
	for _, a := range t.Args {
		if fromPool(a) {
			return true
		}
	}
	return false
}

// shared: the function may run in several goroutines at a time.
func (x *conc) shared(f *ssa.Function) bool {
	n := 0
	for _, r := range x.Roots {
		if r.reach[f] && r.Name != "main" {
			n++
			if r.Multi {
				return true
			}
		}
	}
	return n > 1
}

// fieldAccess judges an access to a field; nil if a lock protects it or the object is not shared.
func (c *Check) fieldAccess(d *DPath, ev *Event) *unguarded {
	a := ev.Args[0]
	write := ev.Kind == "store"
	if a.Op == OpField {
		base := a.Args[0]
		et, _ := structOfPtr(base)
		if et == nil {
			return nil
		}
		if hasMutex(et) {
			if heldOn(ev.Locks, base, write) != nil {
				c.inst("access under lock", ev.Pos())
				return nil
			}
			why := "without its lock"
			if heldOn(ev.Locks, base, false) != nil {
				why = "under a read lock only"
			}
			return &unguarded{class: fieldClasses(a), write: write, why: why, byLock: true}
		}
		if isNamed(et, "/tracker/storage", "Peer") {
			if d.ownedPeer(ev, base) {
				c.inst("record in no table", ev.Pos())
				return nil
			}
			own, m, _ := d.slotBase(base)
			if m == nil {
				return &unguarded{class: fieldClasses(a), write: write, why: "of a peer record not known to be in any torrent's table", byLock: true}
			}
			if own == nil || heldOn(ev.Locks, own, write) == nil {
				return &unguarded{class: fieldClasses(a), write: write, why: "of a stored peer without its torrent's lock", byLock: true}
			}
			c.inst("access under lock", ev.Pos())
			return nil
		}
	}
	if !write {
		return nil
	}
	if s, ok := ev.Instr.(*ssa.Store); ok {
		if v := cellOf(s.Addr); v != nil {
			if !captured(v) {
				return nil
			}
			return &unguarded{class: []string{cellClass(v)}, cell: v, write: true, why: "(a variable captured by another function)"}
		}
	}
	return &unguarded{class: fieldClasses(a), write: true, why: "without a lock"}
}

// handedOver judges tables and records given to code outside the module.
func (c *Check) handedOver(d *DPath, ev *Event) *unguarded {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok || logOnly(ev.Name) {
		return nil
	}
	if f := ci.Common().StaticCallee(); f != nil && c.s.p.fns[f] || ci.Common().IsInvoke() && inModuleIface(ci.Common()) {
		return nil
	}
	if _, ok := ci.(*ssa.Call); !ok {
		return nil
	}
	for _, a := range ev.Args {
		if a == nil {
			continue
		}
		if a.Op == OpIface {
			a = a.Args[0]
		}
		if a.Typ == nil {
			continue
		}
		if _, ok := a.Typ.Underlying().(*types.Map); ok {
			if d.To != nil && d.To.private(root(a)) {
				continue
			}
			g := *ev
			g.Kind, g.Args = "mapget", []*Term{a}
			if u := c.mapAccess(d, &g); u != nil {
				return u
			}
		}
		if a.Op == OpField && !isSyncType(deref(a.Typ)) {
			if d.To != nil && d.To.private(root(a)) {
				continue
			}
			g := *ev
			g.Kind, g.Args = "store", []*Term{a}
			if u := c.fieldAccess(d, &g); u != nil {
				return u
			}
			if _, ok := deref(a.Typ).Underlying().(*types.Map); ok {
				g.Kind, g.Args = "mapset", []*Term{d.To.load(a, deref(a.Typ))}
				if u := c.mapAccess(d, &g); u != nil {
					return u
				}
			}
		}
	}
	return nil
}

// cellOf resolves the address of a captured variable to the variable.
func cellOf(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 20; i++ {
		switch y := v.(type) {
		case *ssa.Alloc:
			if !y.Heap {
				return nil
			}
			return y
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.FreeVar:
			n := v
			for i, q := range y.Parent().FreeVars {
				if q != y {
					continue
				}
				for _, mc := range closuresOf(y.Parent()) {
					v = mc.Bindings[i]
				}
			}
			if n == v {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// captured: some function other than the variable's own uses it.
func captured(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if _, ok := u.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func cellClass(a *ssa.Alloc) string { return "V:" + a.Parent().String() + ":" + a.Name() + a.Comment }

func (c *Check) mapAccess(d *DPath, ev *Event) *unguarded {
	m := ev.Args[0]
	if ev.Priv || m.isNil() {
		return nil
	}
	write := ev.Kind == "mapset" || ev.Kind == "mapdel"
	own := tableOwner(m, ev.St)
	if own == nil {
		own = tableOwner(m, d.To)
	}
	cl := []string{class(mk(OpMapLen, nil, "", m))}
	if own != nil {
		et, _ := structOfPtr(own)
		if et == nil {
			et = deref(own.Typ)
		}
		if et != nil && hasMutex(et) {
			if heldOn(ev.Locks, own, write) != nil {
				c.inst("access under lock", ev.Pos())
				return nil
			}
			why := "without its lock"
			if heldOn(ev.Locks, own, false) != nil {
				why = "under a read lock only"
			}
			return &unguarded{class: cl, write: write, why: why, byLock: true}
		}
	}
	if !write && !isPeerTable(m.Typ) && !isTorrentTable(m.Typ) {
		return nil
	}
	return &unguarded{class: cl, write: write, why: "without a lock"}
}

// sharedUse is an instruction that accesses a class of memory.
type sharedUse struct {
	in    ssa.Instruction
	write bool
}

// accessors lists the instructions that access each class.
func (x *conc) accessors() map[string]map[*ssa.Function][]sharedUse {
	r := map[string]map[*ssa.Function][]sharedUse{}
	add := func(k string, in ssa.Instruction, write bool) {
		if r[k] == nil {
			r[k] = map[*ssa.Function][]sharedUse{}
		}
		r[k][in.Parent()] = append(r[k][in.Parent()], sharedUse{in, write})
	}
	var nested func(t types.Type, in ssa.Instruction, write bool)
	nested = func(t types.Type, in ssa.Instruction, write bool) {
		if t == nil {
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok && !isSyncType(t) {
			for i := 0; i < st.NumFields(); i++ {
				add("F:"+typeKey(t)+"."+strconv.Itoa(i), in, write)
				nested(st.Field(i).Type(), in, write)
			}
		}
	}
	for fn := range x.live {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.UnOp:
					if v := cellOf(y.X); y.Op == token.MUL && v != nil && captured(v) {
						add(cellClass(v), in, false)
					}
				case *ssa.Store:
					if v := cellOf(y.Addr); v != nil && captured(v) {
						add(cellClass(v), in, true)
					}
				}
				switch y := in.(type) {
				case *ssa.FieldAddr:
					if ft := deref(y.Type()); ft != nil && isSyncType(ft) {
						continue
					}
					k := "F:" + typeKey(deref(y.X.Type())) + "." + strconv.Itoa(y.Field)
					if y.Referrers() == nil {
						add(k, in, true)
						continue
					}
					for _, u := range *y.Referrers() {
						switch z := u.(type) {
						case *ssa.FieldAddr, *ssa.DebugRef:
						case *ssa.UnOp:
							add(k, z, false)
						case *ssa.Store:
							add(k, z, true)
						case ssa.CallInstruction:
							if f := z.Common().StaticCallee(); f != nil && x.p.fns[f] {
								continue
							}
							add(k, z, true)
							nested(deref(y.Type()), z, true)
						default:
							add(k, u, true)
							nested(deref(y.Type()), u, true)
						}
					}
				case *ssa.UnOp:
					if g, ok := y.X.(*ssa.Global); ok {
						add("G:"+g.String(), in, false)
					}
					if y.Op == token.MUL {
						nested(deref(y.X.Type()), in, false)
					}
				case *ssa.Store:
					if g, ok := y.Addr.(*ssa.Global); ok {
						add("G:"+g.String(), in, true)
					}
					nested(y.Val.Type(), in, true)
				case *ssa.MapUpdate:
					add("M:"+typeKey(y.Map.Type()), in, true)
				case *ssa.Lookup:
					add("M:"+typeKey(y.X.Type()), in, false)
				case *ssa.Range:
					add("M:"+typeKey(y.X.Type()), in, false)
				case ssa.CallInstruction:
					for _, a := range y.Common().Args {
						if _, ok := a.Type().Underlying().(*types.Map); ok {
							bi, isB := y.Common().Value.(*ssa.Builtin)
							add("M:"+typeKey(a.Type()), in, !isB || bi.Name() != "len")
						}
					}
				}
			}
		}
	}
	return r
}

// judge reports an unguarded access that is not ordered against other goroutines' accesses.
func (c *Check) judge(x *conc, uses map[string]map[*ssa.Function][]sharedUse, u *unguarded) {
	for _, g := range x.Roots {
		if !g.reach[u.run] {
			continue
		}
		for _, r := range x.Roots {
			if r == g && (!r.Multi || u.cell != nil && g.reach[u.cell.Parent()]) {
				continue
			}
			var others []sharedUse
			for _, k := range u.class {
				for f, is := range uses[k] {
					if !r.reach[f] {
						continue
					}
					for _, i := range is {
						if i.write || u.write {
							others = append(others, i)
						}
					}
				}
			}
			if len(others) == 0 {
				continue
			}
			if r != g && x.before(g, point{u.ev.Instr, u.run}, r) {
				c.inst("ordered by start-up", u.ev.Pos())
				continue
			}
			var other *sharedUse
			for i := range others {
				o := &others[i]
				if r != g && g.Site != nil && x.before(r, point{in: o.in}, g) {
					continue
				}
				if other == nil || o.in.Pos() < other.in.Pos() {
					other = o
				}
			}
			if other == nil {
				c.inst("ordered by start-up", u.ev.Pos())
				continue
			}
			verb, verb2 := "reads", "access"
			if u.write {
				verb = "writes"
			} else {
				verb2 = "write"
			}
			c.badEv("race", u.ev, "goroutine "+g.Name+" "+verb+" shared memory "+u.why+" while goroutine "+r.Name+" may "+verb2+" it at "+instrPos(c.s.e, other.in), u.trace)
			return
		}
	}
}
