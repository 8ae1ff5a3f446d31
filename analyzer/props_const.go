package main

// Shared constant responses are never modified (C28).

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "effect analysis on every path of every goroutine and database method: no element store, copy, append into spare capacity, receive operation or unknown call writes to an array that the path did not make, take from a pool or receive as its own (memory of package variables, of strings, and of shared objects without their lock); no package variable holding bytes, text or a table of them is assigned, and no table of cached content changed, while serving; slices of package memory are only given to library functions that do not write or keep them", func(c *Check) {
		c.constants()
	})
}

// heldText: bytes, text, and tables of them.
func heldText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByteElem(u.Elem()) || heldText(u.Elem())
	case *types.Array:
		return isByteElem(u.Elem()) || heldText(u.Elem())
	case *types.Map:
		return heldText(u.Elem())
	case *types.Pointer:
		return heldText(u.Elem())
	}
	return false
}

// keepsOut: library calls that neither write nor keep the slices they are given.
var keepsOut = []string{"(*go.uber.org/zap.", "go.uber.org/zap.", "bytes.", "strings.", "fmt.", "strconv.", "net/netip.", "encoding/binary.", "unicode/utf8.", "errors.", "github.com/pkg/errors.", "(*bytes.Buffer).Write", "(*bufio.Writer).Write", "(*net.UDPConn).Write", "hash/", "(encoding/binary."}

func (c *Check) constants() {
	c.s.e.watchBytes = true
	x := newConc(c.s.p)
	started := c.s.startedRuns()
	once := map[string]bool{}
	bad := func(rule string, ev *Event, msg string, evs []*Event) {
		k := rule + ev.Pos() + msg
		if !once[k] {
			once[k] = true
			c.badEv(rule, ev, msg, evs)
		}
	}
	starting := map[*ssa.Function]bool{}
	for _, r := range x.Roots {
		if r.Name == "main" {
			for _, f := range r.Fns {
				starting[f] = true
			}
		}
	}
	visit := func(r *Run, d *DPath) {
		for _, ev := range d.Evs {
			switch ev.Kind {
			case "bytewrite":
				m := root(ev.Args[0])
				if m.Op == OpBack && !globalMem(m.Args[0]) && writeLocked(ev.Locks) {
					continue
				}
				bad("write", ev, "writes to memory it shares with others: "+trunc(ev.Args[0].String(), 120), d.Evs)
			case "store":
				a := ev.Args[0]
				if a.Op == OpGlobal && heldText(deref(a.Typ)) && !starting[r.Fn] {
					bad("assigned", ev, "package variable "+a.Aux+" is changed while serving", d.Evs)
				}
			case "mapset", "mapdel":
				m := ev.Args[0]
				if mt, ok := m.Typ.Underlying().(*types.Map); ok && heldText(mt.Elem()) && !ev.Priv && !writeLocked(ev.Locks) {
					bad("table", ev, "table of shared content is changed: "+trunc(m.String(), 120), d.Evs)
				}
			case "append":
				if c.s.sharedConst(ev.Args[0]) {
					c.inst("append to shared bytes", ev.Pos())
				}
			case "call":
				ci := ev.call()
				if ci == nil {
					continue
				}
				if _, ok := ci.Value.(*ssa.Builtin); ok {
					continue
				}
				for _, a := range ev.Args {
					if a != nil && a.Op == OpIface {
						a = a.Args[0]
					}
					if a == nil || a.Typ == nil || !isSliceT(a.Typ) || !c.s.sharedConst(a) {
						continue
					}
					c.inst("shared bytes handed out", ev.Pos())
					if readsOnly(ev.Name) || c.reader(ev.Name) {
						continue
					}
					bad("handed-out", ev, "shared bytes are given to "+ev.Name+", which may change or keep them", d.Evs)
				}
			}
		}
	}
	for _, r := range c.concRuns(x, started) {
		c.add("runs", 1)
		for _, d := range dpaths(r) {
			c.add("paths", 1)
			visit(r, d)
		}
		for _, st := range r.Exits {
			visit(r, &DPath{Name: r.Name, Evs: st.trace.since(nil), To: st})
		}
	}
	c.need("shared bytes handed out", 1)
}

func (c *Check) reader(name string) bool {
	base := name[strings.LastIndex(name, ".")+1:]
	for _, w := range []string{"Append", "Read", "Put", "Encode", "Decode", "Fill", "NewBuffer", "Sort", "Reverse", "Insert", "Delete", "Replace"} {
		if strings.HasPrefix(base, w) && base != "ReplaceAll" {
			return false
		}
	}
	for _, k := range keepsOut {
		if strings.HasPrefix(name, k) {
			return true
		}
	}
	return false
}

// sharedConst: the slice lies in memory of a package variable or a string.
func (s *Session) sharedConst(v *Term) bool {
	m := memOf(v)
	if m == nil {
		return false
	}
	switch m.Op {
	case OpStrData, OpGlobal:
		return true
	case OpAlloc:
		return s.e.frozen(m) != nil || v.Op == OpSlice && s.e.frozen(v.Args[0]) != nil
	case OpBack:
		return globalMem(m.Args[0])
	}
	return false
}

func globalMem(v *Term) bool {
	return v.Op == OpLoad && root(v.Args[0]).Op == OpGlobal
}

func writeLocked(ls []LockHeld) bool {
	for _, l := range ls {
		if l.Write {
			return true
		}
	}
	return false
}
