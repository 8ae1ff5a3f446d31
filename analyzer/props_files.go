package main

// Which files are served under which paths (C41).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C41", "the file table is built by one function whose every entry is an embedded file under \"/\" and its name, known not to be the configuration file, or the index under \"/\", and nothing else writes or replaces it; on every path of the HTTP worker the file looked up is that of the full request path and the body is what was found, or 404; the handlers of the info server write a file only where the request path equals the file's own path", func(c *Check) {
		c.fileTable()
		c.workerFiles()
		c.infoFiles()
	})
}

const configFile = "trakx.yaml"

func isFileTable(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "EmbeddedCache"
}

func (c *Check) fileTable() {
	gens := map[*ssa.Function]bool{}
	for _, fn := range c.s.p.sorted() {
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isFileTable(res.At(i).Type()) && fn.Parent() == nil {
				gens[fn] = true
			}
		}
	}
	inner := map[*ssa.Function]bool{} // functions called by a generator
	var mark func(fn *ssa.Function)
	mark = func(fn *ssa.Function) {
		if inner[fn] || !c.s.p.fns[fn] {
			return
		}
		inner[fn] = true
		for _, g := range c.s.p.callees(fn) {
			mark(g)
		}
	}
	for g := range gens {
		mark(g)
	}
	for _, fn := range c.s.p.sorted() {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isFileTable(x.Map.Type()) && !inner[fn] && !inner[root] {
						c.bad("table", fnName(fn), instrPos(c.s.e, in), "the file table is changed outside the function that builds it", nil)
					}
				case *ssa.Store:
					if !isFileTable(x.Val.Type()) {
						continue
					}
					if !fromGen(x.Val, gens, 0) {
						c.bad("table", fnName(fn), instrPos(c.s.e, in), "a file table is used that does not come from the function that builds it", nil)
					}
					c.inst("table use", fnName(fn))
				}
			}
		}
	}
	for _, fn := range c.s.p.sorted() {
		if !gens[fn] {
			continue
		}
		nested := false
		for _, g := range c.s.p.callees(fn) {
			nested = nested || gens[g] && g != fn
		}
		if nested {
			continue
		}
		c.inst("table builder", fn.String())
		run := c.s.run(fn)
		sets, index := 0, 0
		one := func(f *Facts, ev *Event, evs []*Event) {
			if ev.Kind != "mapset" || !isFileTable(ev.Args[0].Typ) {
				return
			}
			k, v := ev.Args[1], ev.Args[2]
			if s, ok := k.strConst(); ok {
				if s == "/" && indexPage(f, v, ev.Args[0]) {
					index++
					return
				}
				c.badEv("table", ev, "the path "+s+" does not serve the file of that name", evs)
				return
			}
			ps := concatParts(k)
			s0, ok := ps[0].strConst()
			if !ok || s0 != "/" || len(ps) != 2 {
				c.badEv("exact-path", ev, "a file is served under "+trunc(k.String(), 100)+" instead of its name after a slash", evs)
				return
			}
			name := ps[1]
			if !notConfig(f, name) {
				c.badEv("no-config", ev, "the embedded configuration file may be served", evs)
			}
			if !fileData(evs, v, name, 0) {
				c.badEv("table", ev, "the content served is not that of the file "+trunc(name.String(), 60), evs)
			}
			sets++
			c.inst("table entry", trunc(k.String(), 80))
		}
		for _, o := range run.Outs {
			if o.kind == "return" || o.kind == "" {
				for _, ev := range o.st.trace.since(nil) {
					one(o.st.facts, ev, o.st.trace.since(nil))
				}
			}
		}
		for _, l := range run.Loops {
			for _, it := range l.Iters {
				n := sets
				for _, ev := range it.Events {
					one(it.St.facts, ev, it.Events)
				}
				if sets == n && !skipOK(it) {
					c.bad("every-file", l.ID, "-", "an embedded file other than the configuration may be left out", it.Events)
				}
			}
		}
		if sets == 0 {
			c.bad("table", fn.String(), "-", "no file is entered into the table", nil)
		}
		if index == 0 {
			c.bad("table", fn.String(), "-", "the index page is not entered under /", nil)
		}
	}
	c.need("table builder", 1)
	c.need("table use", 1)
}

func fromGen(v ssa.Value, gens map[*ssa.Function]bool, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Extract:
		return fromGen(x.Tuple, gens, d+1)
	case *ssa.Call:
		return gens[x.Call.StaticCallee()]
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fromGen(e, gens, d+1) {
				return false
			}
		}
		return true
	case *ssa.MakeMap:
		return gens[x.Parent()]
	case *ssa.Parameter:
		return true // judged where the argument comes from: a caller stores or passes only such tables
	case *ssa.UnOp:
		return true // loaded from where it was stored
	}
	return false
}

// indexPage: the value is what the table holds for /index.html.
func indexPage(f *Facts, v, m *Term) bool {
	return v.contains(func(t *Term) bool {
		if t.Op != OpMapVal {
			return false
		}
		for _, a := range t.Args {
			if s, ok := a.strConst(); ok && s == "/index.html" {
				return true
			}
		}
		return false
	}, map[*Term]bool{})
}

// notConfig: the name is known not to be that of the configuration file.
func notConfig(f *Facts, name *Term) bool {
	for _, e := range eqFacts(f) {
		if e.x == name && e.k == configFile && !e.val || e.x == name && e.val && e.k != configFile {
			return true
		}
		if strings.Contains(e.x.String(), "path/filepath.Ext") || strings.Contains(e.x.String(), "path.Ext") {
			if e.x.mentions(name) && (e.k == ".yaml" && !e.val || e.val && e.k != ".yaml") {
				return true
			}
		}
	}
	for t, v := range f.bools {
		if t.Op == OpCall && (t.Aux == "hassuffix" || t.Aux == "hasprefix" || t.Aux == "contains") && t.Args[0] == name {
			s, ok := t.Args[1].strConst()
			if !ok {
				continue
			}
			matches := map[string]bool{"hassuffix": strings.HasSuffix(configFile, s), "hasprefix": strings.HasPrefix(configFile, s), "contains": strings.Contains(configFile, s)}[t.Aux]
			if matches != v {
				return true
			}
		}
	}
	return false
}

// skipOK: the entry is a directory, or the configuration file.
func skipOK(it LoopIter) bool {
	for _, ev := range it.Events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "DirEntry.IsDir") && len(ev.Res) > 0 && it.St.facts.eval(ev.Res[0]) == True {
			return true
		}
	}
	for _, e := range eqFacts(it.St.facts) {
		if e.val && e.k == configFile {
			return true
		}
	}
	for t, v := range it.St.facts.bools {
		if t.Op == OpCall && t.Aux == "hassuffix" && v {
			if s, ok := t.Args[1].strConst(); ok && (s == ".yaml" || s == configFile) {
				return true
			}
		}
		if t.Op == OpSym && v && strings.Contains(t.String(), "IsDir") {
			return true
		}
	}
	return false
}

// fileData: the value is made from what reading that file returned.
func fileData(evs []*Event, v, name *Term, d int) bool {
	if d > 6 {
		return false
	}
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Res) == 0 || !v.mentions(ev.Res[0]) {
			continue
		}
		if strings.HasSuffix(ev.Name, "ReadFile") {
			for _, a := range ev.Args {
				if a == nil {
					continue
				}
				ps := concatParts(a)
				if len(ps) > 0 && ps[len(ps)-1] == name {
					return true
				}
			}
			return false
		}
		if strings.HasPrefix(strings.TrimPrefix(ev.Name, "(*"), "strings.") || strings.HasPrefix(strings.TrimPrefix(ev.Name, "(*"), "bytes.") {
			for _, a := range ev.Args {
				if a != nil && fileData(evs, a, name, d+1) {
					return true
				}
			}
		}
	}
	// the result of a pure function of the content
	if v.Op == OpCall && strings.HasPrefix(v.Aux, "strings.") {
		for _, a := range v.Args {
			if fileData(evs, a, name, d+1) {
				return true
			}
		}
	}
	return false
}

func (c *Check) workerFiles() {
	hit, miss := 0, 0
	for _, r := range c.httpReqs(c.s) {
		if r.handled() != True {
			continue
		}
		n := 0
		for _, e := range r.p.Evs {
			if e.Kind == "mapget" && isStrMap(e) {
				n++
			}
		}
		ev, found := r.file()
		if ev == nil {
			continue
		}
		if n > 1 {
			c.badEv("exact-path", ev, "a request looks up more than one file", r.p.Evs)
		}
		if !isFileTable(ev.Args[0].Typ) {
			c.badEv("table", ev, "a file is looked up in "+trunc(ev.Args[0].String(), 80), r.p.Evs)
		}
		if why := r.fullPath(ev.Args[1]); why != "" {
			c.badEv("exact-path", ev, "the file looked up is not that of the request path: "+why+": "+trunc(ev.Args[1].String(), 200), r.p.Evs)
		}
		st, body, ok := httpHead(r.response())
		switch found {
		case True:
			hit++
			if !ok || st != "200" || len(body) != 1 || !(body[0] == ev.Res0() || isMapVal(body[0], ev)) {
				c.badEv("file-body", ev, "a file is not answered with exactly its content", r.p.Evs)
			}
		case False:
			miss++
			if !ok || st != "404" {
				c.badEv("not-found", ev, "an unknown path is not answered with 404", r.p.Evs)
			}
		default:
			c.badEv("not-found", ev, "it is not tested whether the file exists", r.p.Evs)
		}
		c.inst("file request", fmt.Sprintf("%v %s", found, trunc(ev.Args[1].String(), 160)))
	}
	if hit == 0 || miss == 0 {
		c.bad("anchor", "file requests", "-", "no path serves a file or none refuses an unknown one", nil)
	}
}

// Res0 is the value a lookup found.
func (ev *Event) Res0() *Term {
	if len(ev.Res) > 0 {
		return ev.Res[0]
	}
	return nil
}

func isMapVal(t *Term, ev *Event) bool {
	if t.Op == OpLoad {
		t = t.Args[0]
	}
	return t.Op == OpMapVal && len(t.Args) == 2 && t.Args[0] == ev.Args[0] && t.Args[1] == ev.Args[1]
}

// fullPath: the key is the piece of the request from the slash after GET to the "?" or to " HTTP/".
func (r *httpReq) fullPath(k *Term) string {
	if k.Op != OpSub {
		return "not a piece of the request"
	}
	off, n := lin(k.Args[1]), lin(k.Args[2])
	end := off.add(n)
	f := r.f
	idx := func(key string) []*Term {
		return termsOf(func(t *Term) bool {
			if t.Op != OpCall || t.Aux != "index" || !t.mentions(r.data) {
				return false
			}
			s, ok := t.Args[1].strConst()
			return ok && s == key
		})
	}
	start := eqLin(f, off, linC(4))
	for _, t := range idx("GET /") {
		start = start || f.entailsEq(off.sub(lin(t)).addC(-4))
	}
	for _, t := range idx(" /") {
		start = start || f.entailsEq(off.sub(lin(t)).addC(-1))
	}
	for _, t := range idx("/") {
		start = start || f.entailsEq(off.sub(lin(t)))
	}
	if !start {
		return "it does not begin where the path begins"
	}
	query := append(idx("?"), mkInt(-1))[:len(idx("?"))]
	for _, h := range idx(" HTTP/") {
		if f.entailsEq(end.sub(lin(h))) {
			for _, q := range query {
				if f.entails(lin(q).neg().addC(-1)) || f.entails(lin(q).sub(lin(h))) || f.entails(off.sub(lin(q)).addC(-1)) {
					return ""
				}
			}
			return "it may include a query"
		}
		for _, q := range query {
			if f.entailsEq(end.sub(lin(q))) && f.entails(lin(q)) && f.entails(lin(h).sub(lin(q))) {
				return ""
			}
		}
	}
	return "it does not end where the path ends"
}

// infoFiles: the handlers registered with the standard library's server.
func (c *Check) infoFiles() {
	isHandle := func(n string) bool {
		switch n {
		case "(*net/http.ServeMux).HandleFunc", "net/http.HandleFunc", "(*net/http.ServeMux).Handle", "net/http.Handle":
			return true
		}
		return false
	}
	for _, fn := range c.s.p.sorted() {
		if fn.Parent() != nil || !c.directCall(fn, isHandle) {
			continue
		}
		run := c.s.run(fn)
		for _, l := range run.Loops {
			for _, it := range l.Iters {
				for _, ev := range it.Events {
					if ev.Kind == "call" && isHandle(ev.Name) {
						c.fileHandler(ev, it, l)
					}
				}
			}
		}
		for _, p := range run.Gos {
			for _, ev := range p.st.trace.since(nil) {
				if ev.Kind == "call" && isHandle(ev.Name) && len(ev.Args) >= 2 {
					c.plainHandler(ev, p.st)
				}
			}
		}
		c.inst("info server", fn.String())
	}
	c.need("info server", 1)
	c.need("info file handler", 1)
}

func (c *Check) directCall(fn *ssa.Function, pred func(string) bool) bool {
	for _, g := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if f := x.Common().StaticCallee(); f != nil && pred(fnName(f)) {
						return true
					}
				}
			}
		}
	}
	return false
}

// runHandler analyses a handler from the state it was registered in.
func (c *Check) runHandler(h *Term, st *State) *Run {
	for h.Op == OpIface || h.Op == OpConv {
		h = h.Args[0]
	}
	var bind []*Term
	switch h.Op {
	case OpClosure:
		bind = h.Args
	case OpFunc:
	default:
		return nil
	}
	if h.Fn == nil || !c.s.e.inlinable(h.Fn) {
		return nil
	}
	var args []*Term
	for _, p := range h.Fn.Params {
		a := sym("arg:"+fnName(h.Fn)+":"+p.Name(), p.Type())
		a.NN = true
		args = append(args, a)
	}
	n := st.clone()
	n.trace, n.locks = nil, nil
	for _, a := range args {
		n.assume(mkEq(a, nilT), false)
	}
	return c.s.e.runRoot(h.Fn, args, bind, n)
}

func respWrite(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch n := ev.Name; n {
	case "http.ResponseWriter.Write", "net/http.ResponseWriter.Write", "io.WriteString", "io.Writer.Write", "io.Copy":
		return true
	default:
		return strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "net/http.Serve")
	}
}

func notFound(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	if ev.Name == "net/http.NotFound" {
		return true
	}
	if ev.Name == "net/http.Error" || strings.HasSuffix(ev.Name, "ResponseWriter.WriteHeader") {
		for _, a := range ev.Args {
			if k, ok := a.intConst(); ok && k == 404 {
				return true
			}
		}
	}
	return false
}

// afterLoop: the state a handler registered in an iteration runs in; variables that later iterations
// overwrite hold anything.
func afterLoop(l *LoopRec, it LoopIter, h *Term) *State {
	for h.Op == OpIface || h.Op == OpConv {
		h = h.Args[0]
	}
	st := it.St.clone()
	if h.Op != OpClosure {
		return st
	}
	born := &bornMemo{l.Fr, l.Fr.info.loops[l.Header], map[*Term]bool{}}
	for _, b := range h.Args {
		if b == nil || b.Op != OpAlloc || born.term(b) {
			continue
		}
		t := deref(b.Typ)
		if x := st.load(b, t); x != l.HdrSt.load(b, t) || l.carries(b) {
			st.store(b, sym("later:"+b.String(), t), t, nil)
		}
	}
	return st
}

// carries: the loop changes the variable.
func (l *LoopRec) carries(cell *Term) bool {
	for _, a := range l.Cell {
		if a == cell {
			return true
		}
	}
	return false
}

func (c *Check) fileHandler(ev *Event, it LoopIter, l *LoopRec) {
	var k, v *Term
	for _, e := range it.Events {
		if e.Kind == "range" && isFileTable(e.Args[0].Typ) {
			k, v = e.Args[1], e.Args[2]
		}
	}
	if k == nil {
		return
	}
	if ev.Args[1] != k {
		c.badEv("exact-path", ev, "a file is registered under another path than its own: "+trunc(ev.Args[1].String(), 100), it.Events)
	}
	run := c.runHandler(ev.Args[2], afterLoop(l, it, ev.Args[2]))
	if run == nil {
		c.badEv("handler", ev, "the handler of a file is not understood", it.Events)
		return
	}
	served := 0
	for _, o := range run.Outs {
		evs := o.st.trace.since(nil)
		ws := collect(evs, respWrite)
		same := Unknown
		for t, b := range o.st.facts.bools {
			if t.Op == OpEq && (t.Args[0] == k || t.Args[1] == k) && strings.HasSuffix(strings.TrimSuffix(t.Args[0].String()+t.Args[1].String(), ")"), ".Path") || t.Op == OpEq && (t.Args[0] == k && isURLPath(t.Args[1]) || t.Args[1] == k && isURLPath(t.Args[0])) {
				same = tri(b)
			}
		}
		nf := len(collect(evs, notFound)) > 0
		switch {
		case len(ws) > 0 && !nf:
			if same != True {
				c.badEv("exact-path", ws[0].Event, "a file is served without knowing that the request path is its path", evs)
			}
			if len(ws) != 1 || !writes(o.st, ws[0].Event, v) {
				c.badEv("file-body", ws[0].Event, "a file is not answered with exactly its content", evs)
			}
			served++
		case !nf:
			c.badEv("not-found", ev, "a request may be answered with neither the file nor not found", evs)
		case same == True:
			c.badEv("not-found", ev, "a file is not served at its own path", evs)
		}
		c.inst("info file handler", fmt.Sprintf("same path %v, writes %d, not found %v", same, len(ws), nf))
	}
	if served == 0 {
		c.badEv("handler", ev, "the handler of a file never serves it", it.Events)
	}
}

// writes: the event writes the content v.
func writes(st *State, ev *Event, v *Term) bool {
	var cand []*Term
	if len(ev.Res) > 2 {
		cand = append(cand, ev.Res[len(ev.Res)-1])
	}
	for _, a := range ev.Args {
		if a != nil {
			cand = append(cand, a, st.bytesOf(a))
		}
	}
	for _, x := range cand {
		if x == v || sameBytes(st.facts, x, v) || x.Op == OpIface && len(x.Args) > 0 && x.Args[0] == v {
			return true
		}
	}
	return false
}

func isURLPath(t *Term) bool {
	return t.Op == OpLoad && t.Args[0].Op == OpField && fieldName(t.Args[0]) == "Path" && strings.Contains(t.String(), "URL")
}

// plainHandler: a handler registered outside the file loop does not touch the embedded files.
func (c *Check) plainHandler(ev *Event, st *State) {
	key := ev.Instr
	if c.seenInstr == nil {
		c.seenInstr = map[ssa.Instruction]bool{}
	}
	if c.seenInstr[key] {
		return
	}
	c.seenInstr[key] = true
	h := ev.Args[len(ev.Args)-1]
	if h.Op == OpCall || h.Op == OpSym {
		if strings.Contains(h.String(), "FileServer") || strings.Contains(h.String(), "embed") {
			c.badEv("handler", ev, "the embedded files are served as a whole, including the configuration", nil)
		}
		return
	}
	c.inst("info handler", trunc(ev.Args[1].String(), 60))
	run := c.runHandler(h, st)
	if run == nil {
		return
	}
	for _, o := range run.Outs {
		evs := o.st.trace.since(nil)
		for _, e := range evs {
			if e.Kind == "call" && strings.HasPrefix(e.Name, "(embed.FS).") {
				c.badEv("handler", e, "a handler reads embedded files by itself", evs)
			}
			for _, a := range e.Args {
				if a != nil && respWrite(e) && o.st.bytesOf(a).contains(func(t *Term) bool { return t.Op == OpMapVal && isFileTable(t.Args[0].Typ) }, map[*Term]bool{}) {
					c.badEv("handler", e, "a file is served under the path "+trunc(ev.Args[1].String(), 60), evs)
				}
			}
		}
	}
}
