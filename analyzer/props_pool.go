package main

// Recycled objects are never used or recycled twice after release (C27).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "typestate of pooled memory on every path of every goroutine and database method, with loop invariants by fixpoint: whatever is put into a pool was taken from a pool, made, received from the database or removed from its table on the same path; nothing that outlasts the path (shared memory, a table, another goroutine) refers to it when it is put; no load, store, call or other put uses it, or memory reachable through it, afterwards; constructors of pools make a new object at every call; buffers the database hands out are new or taken from a pool, distinct and not put back", func(c *Check) {
		c.recycling()
	})
}

func (c *Check) recycling() {
	x := newConc(c.s.p)
	started := c.s.startedRuns()
	runs := c.concRuns(x, started)
	type given struct {
		name string
		i    int
	}
	passed := map[given]bool{} // results of interface methods that are put back by their caller
	once := map[string]bool{}
	bad := func(rule string, ev *Event, msg string, evs []*Event) {
		k := rule + ev.Pos() + msg
		if !once[k] {
			once[k] = true
			c.badEv(rule, ev, msg, evs)
		}
	}
	visit := func(r *Run, d *DPath) {
		var all []*Event
		for _, ev := range d.Evs {
			switch ev.Kind {
			case "deaduse":
				what := "of what was handed back to a pool"
				if p := d.To.dead[ev.Args[1]]; p != nil {
					what += " at " + p.Pos()
				}
				bad("use-after-release", ev, ev.Name+" "+what+": "+trunc(ev.Args[0].String(), 120), d.Evs)
			case "poolget":
				if ev.Name == "got" {
					c.inst("taken from a pool", ev.outside("pools"))
					if ev.Held != "" {
						bad("constructor", ev, ev.Held+": "+trunc(ev.Res[0].String(), 120), d.Evs)
					}
				} else if len(ev.Res) > 0 {
					bad("constructor", ev, "the constructor of the pool is not known", d.Evs)
				}
			case "poolput":
				v := ev.Args[1]
				if v.Op == OpIface {
					v = v.Args[0]
				}
				m := memOf(v)
				if m != nil && m.Op == OpBack {
					if ms := provenance(r, m.Args[0]); len(ms) == 1 {
						m = ms[0].mem
					}
				}
				c.inst("release", ev.outside("pools"))
				if m == nil {
					bad("release", ev, "what is put into the pool is not understood: "+trunc(v.String(), 120), d.Evs)
					continue
				}
				if ev.Held != "" {
					bad("still-referenced", ev, "put into the pool although it is "+ev.Held, d.Evs)
					continue
				}
				if all == nil {
					all = d.To.trace.since(nil)
				}
				how := ""
				for _, e := range all {
					if e == ev {
						break
					}
					switch e.Kind {
					case "poolget":
						for _, r := range e.Res {
							if r.Op == OpIface {
								r = r.Args[0]
							}
							if memOf(r) == m {
								how = "pool"
							}
						}
					case "call":
						cc := e.call()
						if cc == nil || !cc.IsInvoke() || !inModuleIface(cc) {
							continue
						}
						for i, r := range e.Res {
							if memOf(r) == m {
								how = "database"
								passed[given{e.Name, i}] = true
							}
						}
					case "mapset":
						if memOf(e.Args[2]) == m {
							how = ""
						} else if e.Args[4] != nil && memOf(e.Args[4]) == m && e.Facts.eval(e.Args[3]) == True {
							how = "table"
						}
					case "mapdel":
						if e.Args[4] != nil && memOf(e.Args[4]) == m && e.Facts.eval(e.Args[3]) == True {
							how = "table"
						}
					}
				}
				if how == "" && m.Op == OpAlloc {
					how = "made"
				}
				if how == "" {
					bad("not-owned", ev, "put into the pool without having been taken from a pool or removed from its table on this path: "+trunc(v.String(), 120), d.Evs)
					continue
				}
				c.inst("owned through "+how, ev.outside("pools"))
			}
		}
	}
	for _, r := range runs {
		c.add("runs", 1)
		for _, d := range dpaths(r) {
			c.add("paths", 1)
			visit(r, d)
		}
		for _, st := range r.Exits {
			visit(r, &DPath{Name: r.Name, Evs: st.trace.since(nil), To: st})
		}
		// a reference an iteration leaves to the next must not lead to released memory
		for _, l := range r.Loops {
			for _, it := range l.Iters {
				for s, nx := range it.Next {
					for _, m := range it.St.reaches(nx) {
						if it.St.dead[m] != nil && l.usesMem(s) {
							bad("use-after-release", it.St.dead[m], "the next iteration uses what this one handed back", it.Events)
						}
					}
				}
			}
		}
	}
	for _, r := range c.dbOps("PeerListBytes", "PeerList", "HashStats") {
		for _, d := range dpaths(r) {
			if d.Out == nil {
				continue
			}
			for i, v := range d.Out.rets {
				reached := reachAll(r, d.To, v)
				deep(d.Evs, func(ev *Event, _ *LoopRec) {
					if ev.Kind != "poolput" {
						return
					}
					for m := range reachAll(r, ev.St, ev.Args[1]) {
						if reached[m] {
							bad("returned-after-release", ev, "result "+trunc(v.String(), 60)+" refers to memory handed back to a pool: "+trunc(m.String(), 100), d.Evs)
						}
					}
				})
				if v.isNil() || memOf(v) == nil {
					continue
				}
				g := false
				for p := range passed {
					if p.i == i && p.name == "storage.Database."+r.Fn.Name() {
						g = true
					}
				}
				if !g {
					continue
				}
				c.inst("buffer handed out", r.Name)
				for _, o := range provenance(r, v) {
					if o.mem == nil || o.mem.Op != OpAlloc || d.To.held[o.mem] != "" || o.st != nil && o.st.held[o.mem] != "" {
						c.bad("handed-out", r.Name, pathEnd(d), "the buffer returned, which its receiver puts into a pool, is not exclusively the receiver's: "+trunc(o.v.String(), 100)+" "+d.To.held[o.mem], d.Evs)
					}
					for j := 0; j < i; j++ {
						for _, q := range provenance(r, d.Out.rets[j]) {
							if q.mem == o.mem {
								c.bad("handed-out", r.Name, pathEnd(d), "two of the buffers returned are the same", d.Evs)
							}
						}
					}
				}
			}
		}
	}
	c.need("release", 5)
	c.need("taken from a pool", 3)
	c.need("owned through pool", 2)
	c.need("owned through table", 1)
	c.need("owned through database", 1)
	c.need("buffer handed out", 1)
}

// usesMem: an iteration touches memory through the value carried into it.
func (l *LoopRec) usesMem(s *Term) bool {
	m := memOf(s)
	if m == nil {
		return false
	}
	if _, ok := s.Typ.Underlying().(*types.Pointer); !ok && !isSliceT(s.Typ) {
		return false
	}
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			for _, a := range ev.Args {
				if a != nil && memOf(a) == m {
					return true
				}
			}
		}
	}
	return false
}

// outside gives the place in the caller of a helper package an event comes from.
func (e *Event) outside(pkg string) string {
	fr, in := e.Fr, e.Instr
	for fr.parent != nil && fnPkgPath(fr.fn) == modulePath+"/"+pkg {
		in, fr = fr.site, fr.parent
	}
	return instrPos(fr.eng, in)
}

func (e *Event) call() *ssa.CallCommon {
	if ci, ok := e.Instr.(ssa.CallInstruction); ok {
		return ci.Common()
	}
	return nil
}

type origin struct {
	v, mem *Term
	st     *State // at the end of the iteration it comes from
}

// provenance gives the memory a reference may lead to, following what loops carry.
func provenance(r *Run, v *Term) []origin {
	var out []origin
	seen := map[*Term]bool{}
	var walk func(v *Term, st *State)
	walk = func(v *Term, st *State) {
		s := v
		if v.Op == OpSlice {
			s = v.Args[0]
		}
		if s.Op == OpBack {
			s = s.Args[0]
		}
		if seen[s] {
			return
		}
		seen[s] = true
		if s.Op == OpSym {
			for _, l := range r.Loops {
				iv := l.Init[s]
				if iv == nil {
					continue
				}
				walk(iv, l.Entry)
				for _, it := range l.Iters {
					if nx := it.Next[s]; nx != nil {
						walk(nx, it.St)
					}
				}
				return
			}
		}
		if v.isNil() {
			return
		}
		out = append(out, origin{v, memOf(v), st})
	}
	walk(v, nil)
	return out
}

// reachAll gives the memory reachable from a value in a state, following what loops carry.
func reachAll(r *Run, st *State, v *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(v *Term, st *State, depth int)
	mem := func(m *Term, st *State, depth int) {
		if out[m] {
			return
		}
		out[m] = true
		if m.Op == OpAlloc {
			for b := range st.eng.aliases[m] {
				if b.Op == OpBack {
					walk(b.Args[0], st, depth+1)
				} else {
					walk(b, st, depth+1)
				}
			}
			for k, x := range st.heap {
				if k.Op != OpPseudo && root(k) == m {
					walk(x, st, depth+1)
				}
			}
		}
	}
	walk = func(v *Term, st *State, depth int) {
		if v == nil || v.isNil() || depth > 60 {
			return
		}
		switch v.Op {
		case OpIface, OpClosure, OpStruct, OpElemV, OpConcat, OpUpd, OpTuple:
			for _, a := range v.Args {
				walk(a, st, depth+1)
			}
			return
		case OpSym:
			if seen[v] {
				return
			}
			seen[v] = true
			for _, l := range r.Loops {
				if iv := l.Init[v]; iv != nil {
					walk(iv, l.Entry, depth+1)
					for _, it := range l.Iters {
						if nx := it.Next[v]; nx != nil {
							walk(nx, it.St, depth+1)
						}
					}
					return
				}
			}
		case OpSlice:
			if a := v.Args[0]; a.Op == OpBack {
				walk(a.Args[0], st, depth+1)
			}
		}
		if m := memOf(v); m != nil {
			mem(m, st, depth)
		}
	}
	walk(v, st, 0)
	return out
}
