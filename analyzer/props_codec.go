package main

// Properties of the saved formats: robust decoding (C03), round trips (C29), consistent backups (C30),
// Postgres statements (C42), the saved connection table (C43).

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C43", "the functions that write a connection table to a file (its layout read off the content term, or its gob form) and those that fill one from a file, over every path: the table written is the receiver's whole table under its lock, the loader decodes the same table from the whole file, every value in it survives the encoding (C29's rules), success is reported only when written; over start-up and shutdown paths: the file written is the file loaded, the table loaded is the one in use, it is not replaced or changed after loading, and the UDP tracker is not started before a load was attempted", func(c *Check) { c.savedConns() })
	register("C30", "for every backup's Save: the layout of what it writes is read off its content term; for each repetition over a table of peers: the number written before it is the length of that very table version, every entry is visited and each read of an entry happens under one hold of the lock that guards the table, taken before the length was read and held across every iteration; no table is handed to an encoder as a whole", func(c *Check) { c.consistent() })
	register("C29", "for every encoder and the decoder of its output (each backup's Save and Load; each pair of table methods): the layout of what is written is read off the encoder's content term, its loops becoming repetitions of records; every feasible iteration and exit of the decoder's loops is then evaluated on a prefix of records, one record (or none left) and any suffix: it must consume exactly the record, with matching width and byte order of each piece, and store every value where the written one came from; gob: the same table as a whole, all of whose fields are exported or marshalled", func(c *Check) { c.roundTrip() })
	register("C03", "panic-freedom obligations (index, slice, nil, assertion, negative make size, nil map, division, explicit panic, nil peer in a table) of every loader analysed with file contents of any length and value; every allocation on a loading path whose size depends on the contents is bounded by a constant of at most 2^20 or by the length of the contents; no loading path panics", func(c *Check) { c.loadRobust() })
}

// maxAlloc bounds what a number read from a file may make the loader allocate.
const maxAlloc = 1 << 20

// byteDecoders: functions that take saved bytes and report an error.
func (s *Session) byteDecoders() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range s.p.declared() {
		if !strings.Contains(fnPkgPath(fn), "/tracker") || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		ps, rs := fn.Signature.Params(), fn.Signature.Results()
		if ps.Len() != 1 || rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type()) || !isByteSlice(ps.At(0).Type()) || !holdsTable(fn.Signature.Recv().Type()) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// loaders: everything that reads saved state.
func (c *Check) loaders() []*Run {
	var runs []*Run
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if !seen[fn] {
			seen[fn] = true
			runs = append(runs, c.s.run(fn))
		}
	}
	for _, fn := range c.s.backupMethods("Load") {
		add(fn)
	}
	for _, fn := range c.s.byteDecoders() {
		add(fn)
	}
	for _, fn := range c.s.p.sorted() {
		if strings.Contains(fnPkgPath(fn), "/tracker/") && fn.Parent() == nil && len(fn.Blocks) > 0 && !c.serves(fn) && c.directCall(fn, func(n string) bool {
			return n == "os.ReadFile" || n == "os.Open" || n == "os.OpenFile" || n == "io/ioutil.ReadFile"
		}) {
			add(fn)
		}
	}
	return runs
}

// fromInput: the number depends on decoded bytes.
func fromInput(t *Term) bool {
	return t.contains(func(x *Term) bool {
		return x.Op == OpDec || x.Op == OpSel && (x.Typ == nil || isByteElem(x.Typ))
	}, map[*Term]bool{})
}

func (c *Check) loadRobust() {
	for _, r := range c.loaders() {
		c.inst("loader", r.Name)
		for _, d := range wpaths(r) {
			c.add("paths", 1)
			for _, ev := range d.Evs {
				switch ev.Kind {
				case "panic":
					c.badEv("no-panic", ev, "loading may panic", d.Evs)
				case "make", "makemap":
					n, f := ev.Args[1], ev.Facts
					if !fromInput(n) {
						c.inst("allocation of fixed size", ev.Pos()+" "+n.String())
						continue
					}
					c.inst("allocation sized by the contents", ev.Pos())
					if !f.entails(linC(maxAlloc).sub(lin(n))) && !c.withinInput(f, n) {
						c.badEv("alloc-bounded", ev, "an allocation is sized by the number "+trunc(n.String(), 120)+" read from saved data without a bound on it", d.Evs)
					}
				}
			}
		}
	}
	c.need("loader", 5)
	c.need("allocation sized by the contents", 1)
	c.crash(c.s, crashKinds...)
}

// withinInput: the size is at most the length of something that is in memory already.
func (c *Check) withinInput(f *Facts, n *Term) bool {
	return len(termsOf(func(x *Term) bool { return x.Op == OpLen && f.entails(lin(x).sub(lin(n))) })) > 0
}

// holdsTable: a lock protected table.
func holdsTable(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := structOf(t)
	if st == nil || !hasMutex(t) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			return true
		}
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteElem(s.Elem())
}

// ---- round trips

// codec is an encoder with the decoder of its output.
type codec struct {
	name     string
	enc, dec *Run
	outs     []*encoded
	x        *Term // the slice the decoder reads
}

// encoded is what a path of an encoder writes.
type encoded struct {
	d  *DPath
	t  *Term
	ev *Event
}

// isGob: the content is the gob encoding of a value.
func isGob(t *Term) bool { return t.Op == OpCall && t.Aux == "gob" }

// written lists what the paths of a saver put into the backup.
func (c *Check) written(r *Run) []*encoded {
	var out []*encoded
	for _, d := range wpaths(r) {
		files := map[*Term][]*Term{}
		names := map[*Term]*Term{}
		for _, ev := range d.Evs {
			if ev.Kind != "call" || ev.St == nil {
				continue
			}
			arg := func(i int) *Term {
				if i < len(ev.Args) {
					return strip(dynPtr(ev.Args[i]))
				}
				return nil
			}
			switch ev.Name {
			case "(*os.File).Write":
				files[arg(0)] = append(files[arg(0)], ev.St.bytesOf(ev.Args[1]))
			case "(*bufio.Writer).Flush":
				if w, ok := ev.St.heap[dstCell(ev.Args[0])]; ok && len(ev.Res) > 1 {
					files[strip(dynPtr(w))] = append(files[strip(dynPtr(w))], ev.Res[1])
				}
			case "(*os.File).Name":
				names[strip(ev.Res[0])] = arg(0)
			case "os.OpenFile", "os.Create":
				names[arg(0)] = strip(ev.Res[0])
			case "os.WriteFile", "io/ioutil.WriteFile":
				if d.succeeded(ev) {
					out = append(out, &encoded{d, ev.St.bytesOf(ev.Args[1]), ev})
				}
			case "os.Rename":
				if f := names[strip(ev.Args[0])]; f != nil && len(files[f]) > 0 && d.succeeded(ev) {
					out = append(out, &encoded{d, mkConcat(files[f]...), ev})
				}
			}
			if isExec(ev.Name) && d.succeeded(ev) {
				if l, ok := sliceElems(ev.St, ev.Args[len(ev.Args)-1]); ok {
					for _, p := range l {
						if p.Op == OpIface && p.Args[0].Typ != nil && isByteSlice(p.Args[0].Typ) || p.Op == OpIface && p.Args[0].Op == OpSlice {
							out = append(out, &encoded{d, ev.St.bytesOf(p.Args[0]), ev})
						}
					}
				}
			}
		}
	}
	return out
}

func isExec(n string) bool {
	return strings.HasPrefix(n, "(*database/sql.") && (strings.HasSuffix(n, ".Exec") || strings.HasSuffix(n, ".ExecContext"))
}

func isScan(n string) bool {
	return n == "(*database/sql.Row).Scan" || n == "(*database/sql.Rows).Scan"
}

// inputs: the byte slices a loader decodes.
func (c *Check) inputs(r *Run) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if t != nil && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, d := range wpaths(r) {
		for _, ev := range d.Evs {
			switch {
			case ev.Kind != "call":
			case ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile" || ev.Name == "io.ReadAll":
				add(strip(ev.Res[0]))
			case isScan(ev.Name):
				for _, t := range scanned(ev) {
					if t.Typ != nil && isByteSlice(t.Typ) {
						add(t)
					}
				}
			}
		}
	}
	return out
}

// scanned: the values a row's columns were read into.
func scanned(ev *Event) []*Term {
	var out []*Term
	for _, t := range ev.Res[1:] {
		if t != nil {
			out = append(out, t)
		}
	}
	return out
}

// backupCodecs pairs each backup's Save with its Load.
func (c *Check) backupCodecs() []*codec {
	var out []*codec
	saves := map[string]*ssa.Function{}
	for _, fn := range c.s.backupMethods("Save") {
		saves[recvName(fn)] = fn
	}
	for _, fn := range c.s.backupMethods("Load") {
		sv := saves[recvName(fn)]
		if sv == nil {
			continue
		}
		e, d := c.s.run(sv), c.s.run(fn)
		outs := c.written(e)
		if len(outs) == 0 {
			continue // saves nothing
		}
		ins := c.inputs(d)
		if len(ins) == 0 {
			c.bad("read-back", e.Name, c.where(fn), "what "+e.Name+" writes is not read by "+d.Name, nil)
		}
		for _, x := range ins {
			out = append(out, &codec{recvName(fn), e, d, outs, x})
		}
	}
	return out
}

func (c *Check) codecs() []*codec {
	out := c.backupCodecs()
	// pairs of table methods
	type side struct {
		r    *Run
		outs []*encoded
		gob  bool
	}
	encs := map[string][]*side{}
	for _, fn := range c.s.byteEncoders() {
		r := c.s.run(fn)
		s := &side{r: r, gob: true}
		for _, d := range wpaths(r) {
			if e, ok := d.retErr(); ok && (e.isNil() || failed(d.To.facts, e) == False) {
				t := d.To.bytesOf(d.Out.rets[0])
				s.outs = append(s.outs, &encoded{d, t, nil})
				s.gob = s.gob && isGob(t)
			}
		}
		if len(s.outs) > 0 {
			encs[recvName(fn)] = append(encs[recvName(fn)], s)
		}
	}
	for _, fn := range c.s.byteDecoders() {
		r := c.s.run(fn)
		gob := false
		for _, d := range wpaths(r) {
			for _, ev := range d.Evs {
				gob = gob || ev.Name == "(*encoding/gob.Decoder).Decode"
			}
		}
		n := 0
		for _, s := range encs[recvName(fn)] {
			if s.gob == gob {
				n++
				out = append(out, &codec{r.Name, s.r, r, s.outs, r.Args[len(r.Args)-1]})
			}
		}
		if n == 0 && c.s.p.live()[fn] {
			c.bad("read-back", r.Name, c.where(fn), "nothing writes what "+r.Name+" reads", nil)
		}
	}
	return out
}

func recvName(fn *ssa.Function) string {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// byteEncoders: methods of tables that return saved bytes.
func (s *Session) byteEncoders() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range s.p.declared() {
		if !strings.Contains(fnPkgPath(fn), "/tracker") || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		ps, rs := fn.Signature.Params(), fn.Signature.Results()
		if ps.Len() != 0 || rs.Len() != 2 || !isErrorT(rs.At(1).Type()) || !isByteSlice(rs.At(0).Type()) || !holdsTable(fn.Signature.Recv().Type()) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func (c *Check) roundTrip() {
	for _, k := range c.codecs() {
		c.inst("codec", k.enc.Name+" -> "+k.dec.Name)
		done := map[*Term]bool{}
		for _, o := range k.outs {
			if done[o.t] {
				continue
			}
			done[o.t] = true
			c.codecOf(k, o)
		}
	}
	c.need("codec", 4)
	c.need("field", 8)
}

// backs: the contents the decoder reads.
func backs(d *Run, x *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(st *State) {
		if t := st.bytesOf(x); t != nil {
			for _, p := range concatParts(t) {
				if p.Op == OpSub {
					p = p.Args[0]
				}
				if !seen[p] {
					seen[p] = true
					out = append(out, p)
				}
			}
		}
	}
	add(d.Init)
	for _, o := range d.Outs {
		add(o.st)
	}
	for _, l := range d.Loops {
		add(l.HdrSt)
	}
	return out
}

func (c *Check) codecOf(k *codec, o *encoded) {
	bad := func(rule string, ev *Event, msg string, evs []*Event) {
		if ev == nil {
			c.bad(rule, k.dec.Name, c.where(k.dec.Fn), msg, evs)
		} else {
			c.badEv(rule, ev, msg, evs)
		}
	}
	if isGob(o.t) {
		c.gobPair(k, o, bad)
		return
	}
	y := newLayouter(k.enc)
	nodes := y.expand(o.t, nil)
	if y.why != "" {
		c.badEv("layout", o.ev, "the layout of what "+k.enc.Name+" writes could not be determined: "+y.why, o.d.Evs)
		return
	}
	var top *encRep
	nrep := 0
	for _, n := range nodes {
		if n.Rep != nil {
			nrep++
			top = n.Rep
		}
	}
	if nrep != 1 || top.M == nil {
		bad("whole-table", o.ev, "what "+k.enc.Name+" writes does not hold the records of one table: "+describe(nodes), o.d.Evs)
		return
	}
	rc := &recon{c: c, label: k.name, dec: k.dec, back: backs(k.dec, k.x), sl: k.x, bad: bad}
	var paths []decPath
	for _, d := range wpaths(k.dec) {
		if d.Out == nil || d.Out.kind != "return" || !readsInput(d, k.x) {
			continue
		}
		ok := true
		for _, ev := range d.Evs {
			if fallible(ev) && !isRead(ev) && !makesError(ev) && failed(d.To.facts, errOf(ev)) == True {
				ok = false
			}
		}
		if ok {
			paths = append(paths, decPath{st: d.To, evs: d.Evs, d: d})
		}
	}
	rc.region(nodes, nil, nil, map[*Term]*Term{}, newFacts(), paths, nil, func(p decPath, e *evalr, next Lin) bool {
		er, ok := p.d.retErr()
		if !ok || !er.isNil() && failed(e.f, e.ev(er)) != False {
			rc.bad("readable", lastEv(p.evs), "the decoder reports an error for what the encoder writes", p.evs)
			rc.fail = true
			return false
		}
		rc.later(func() {
			var t *Term
			for _, x := range rc.tab {
				if x.rep == top {
					if t != nil && t != x.table {
						rc.bad("same-table", lastEv(p.evs), "the records are put into different tables", p.evs)
					}
					t = x.table
				}
			}
			if t == nil {
				return
			}
			src := top.M
			if src.Op != OpLoad {
				rc.bad("whole-table", o.ev, "the table written is not one of the receiver's", o.d.Evs)
				return
			}
			at := substRecv(src.Args[0], k.enc, k.dec)
			if !holdsAt(p.st, p.evs, at, src.Typ, func(z *State) *Term { return t }) {
				rc.bad("same-table", lastEv(p.evs), "the table read is not stored where the one written came from ("+trunc(at.String(), 100)+" holds "+trunc(p.st.load(at, src.Typ).String(), 100)+")", p.evs)
			}
			c.inst("table restored", k.name)
		})
		return true
	})
	rc.finish()
	if !rc.fail && len(rc.tab) == 0 {
		rc.bad("restored", nil, "no record is restored", nil)
	}
	c.add("records", rc.nRep)
	c.add("decoder paths", rc.nPath)
}

// statesAfter: the state at the end of a path and before each lock taken after its last read.
func statesAfter(st *State, evs []*Event) []*State {
	out := []*State{st}
	for i := len(evs) - 1; i >= 0; i-- {
		ev := evs[i]
		if ev.Kind == "lock" && ev.Pre != nil {
			out = append(out, ev.Pre)
		}
		if ev.Kind == "loop" || isRead(ev) || ev.Name == "(*encoding/gob.Decoder).Decode" {
			break
		}
	}
	return out
}

// holdsAt: after the last read the variable at holds the table t.
func holdsAt(st *State, evs []*Event, at *Term, typ types.Type, t func(z *State) *Term) bool {
	for _, z := range statesAfter(st, evs) {
		if z.load(at, typ) == t(z) {
			return true
		}
	}
	return false
}

// readsInput: the path gets the saved bytes, and no others after them.
func readsInput(d *DPath, x *Term) bool {
	if x.Op == OpSym && strings.HasPrefix(x.Aux, "arg") {
		return true
	}
	for i := len(d.Evs) - 1; i >= 0; i-- {
		ev := d.Evs[i]
		if ev.Kind != "call" {
			continue
		}
		for _, r := range ev.Res {
			if r != nil && strip(r) == x {
				return true
			}
		}
		if isScan(ev.Name) && d.succeeded(ev) {
			for _, t := range scanned(ev) {
				if t.Typ != nil && isByteSlice(t.Typ) {
					return false
				}
			}
		}
	}
	return false
}

// substRecv rewrites the encoder's receiver to the decoder's.
func substRecv(t *Term, enc, dec *Run) *Term {
	m := map[*Term]*Term{}
	if len(enc.Args) > 0 && len(dec.Args) > 0 {
		m[enc.Args[0]] = dec.Args[0]
		a, b := enc.Args[0], dec.Args[0]
		for i, x := range a.Args {
			if i < len(b.Args) {
				m[x] = b.Args[i]
			}
		}
	}
	return subst(t, func(t *Term) *Term { return m[t] }, map[*Term]*Term{})
}

func (c *Check) gobPair(k *codec, o *encoded, bad func(rule string, ev *Event, msg string, evs []*Event)) {
	v := strip(dynPtr(o.t.Args[0]))
	if of, _ := snapshotOf(o.d.Evs, v); of != nil {
		v = of
	}
	typ, at := v.Typ, v // a pointer to the table
	if _, ok := v.Typ.(*types.Map); ok {
		if v.Op != OpLoad {
			bad("whole-table", o.ev, "what is encoded is not a table of the receiver: "+trunc(v.String(), 100), o.d.Evs)
			return
		}
		at = v.Args[0]
	} else if typ = deref(v.Typ); typ == nil || v.Op != OpField || o.d.To.heap[v] != nil && o.d.To.heap[v].Op != OpLoad {
		bad("whole-table", o.ev, "what is encoded is not a table of the receiver: "+trunc(v.String(), 100), o.d.Evs)
		return
	}
	at = substRecv(at, k.enc, k.dec)
	n := 0
	for _, d := range wpaths(k.dec) {
		er, ok := d.retErr()
		if !ok || !er.isNil() && failed(d.To.facts, er) == True {
			continue
		}
		found := false
		for _, ev := range d.Evs {
			if ev.Name != "(*encoding/gob.Decoder).Decode" {
				continue
			}
			found = true
			p := dynPtr(ev.Args[1])
			if p != at && (p.Op != OpAlloc || !holdsAt(d.To, d.Evs, at, typ, func(z *State) *Term { return z.load(p, typ) })) {
				bad("same-table", ev, "the table is decoded into "+trunc(p.String(), 100)+", written from "+trunc(at.String(), 100), d.Evs)
			}
			if src := srcOf(ev); src != nil && src != d.To.bytesOf(k.x) && strip(src) != k.x {
				whole := false
				for _, b := range backs(k.dec, k.x) {
					whole = whole || src == b || src.Op == OpSub && src.Args[0] == b && isZero(src.Args[1]) && src.Args[2] == lenT(k.x)
				}
				if !whole {
					bad("whole", ev, "the decoder does not read the bytes as they were written: "+trunc(src.String(), 100), d.Evs)
				}
			}
			if ev.St != nil {
				if pos := ev.St.heap[posCell(dynPtr(ev.Args[len(ev.Args)-1]))]; len(ev.Args) > 2 && pos != nil && !isZero(pos) {
					bad("whole", ev, "the decoder does not read the bytes from their beginning", d.Evs)
				}
			}
			for _, g := range d.Evs {
				if g == ev {
					break
				}
				if consumes(g) {
					bad("whole", g, "saved bytes are consumed before they are decoded", d.Evs)
				}
			}
			n++
		}
		if !found {
			bad("readable", lastEv(d.Evs), "the decoder succeeds without decoding the saved table", d.Evs)
		}
	}
	if n == 0 {
		bad("readable", nil, "the decoder never decodes what was written", nil)
	}
	c.gobType(typ, k, bad)
}

// consumes: the call takes bytes from a reader without decoding them.
func consumes(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, n := range []string{".Read", ".ReadByte", ".ReadRune", ".ReadBytes", ".ReadString", ".Discard", ".Next", ".Seek", "io.ReadFull", "io.CopyN", "encoding/binary.Read"} {
		if strings.HasSuffix(ev.Name, n) && (strings.HasPrefix(ev.Name, "(*bufio.") || strings.HasPrefix(ev.Name, "(*bytes.") || strings.HasPrefix(ev.Name, "(*os.File)") || ev.Name == n) {
			return true
		}
	}
	return false
}

// gobType: every value of the type survives gob.
func (c *Check) gobType(t types.Type, k *codec, bad func(rule string, ev *Event, msg string, evs []*Event)) {
	seen := map[string]bool{}
	var walk func(t types.Type, at string)
	walk = func(t types.Type, at string) {
		if seen[typeKey(t)] {
			return
		}
		seen[typeKey(t)] = true
		if marshals(t) || marshals(types.NewPointer(t)) {
			c.inst("field", k.name+":"+at+" (marshalled)")
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			walk(u.Key(), at+"[key]")
			walk(u.Elem(), at+"[]")
		case *types.Pointer:
			walk(u.Elem(), at)
		case *types.Slice:
			walk(u.Elem(), at+"[]")
		case *types.Array:
			walk(u.Elem(), at+"[]")
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if isMutexType(f.Type()) || f.Name() == "_" {
					continue
				}
				if !f.Exported() {
					bad("gob-field", nil, "field "+at+"."+f.Name()+" is not exported: gob does not save it", nil)
					continue
				}
				c.inst("field", k.name+":"+at+"."+f.Name())
				walk(f.Type(), at+"."+f.Name())
			}
		case *types.Chan, *types.Signature:
			bad("gob-field", nil, at+" is not saved by gob", nil)
		}
	}
	walk(t, "table")
}

func marshals(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"GobEncode", "MarshalBinary"} {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// srcOf is the content a decoder reads from.
func srcOf(ev *Event) *Term {
	if len(ev.Args) < 3 || ev.St == nil {
		return nil
	}
	p := dynPtr(ev.Args[2])
	if t := ev.St.heap[srcCell(p)]; t != nil {
		return t
	}
	return ev.St.heap[bufCell(p)]
}

func (c *Check) where(fn *ssa.Function) string {
	return c.s.p.prog.Fset.Position(fn.Pos()).String()
}

// ---- consistency of backups

func (c *Check) consistent() {
	for _, fn := range c.s.backupMethods("Save") {
		r := c.s.run(fn)
		done := map[*Term]bool{}
		for _, o := range c.written(r) {
			if done[o.t] {
				continue
			}
			done[o.t] = true
			c.inst("backup", r.Name)
			if o.t.contains(isGob, map[*Term]bool{}) {
				c.badEv("one-moment", o.ev, "the tables of all torrents are encoded as one value: nothing keeps their peers from changing meanwhile", o.d.Evs)
				continue
			}
			y := newLayouter(r)
			nodes := y.expand(o.t, nil)
			if y.why != "" {
				c.badEv("layout", o.ev, "the layout of what "+r.Name+" writes could not be determined: "+y.why, o.d.Evs)
				continue
			}
			n := c.peerReps(nodes, o.d.Evs, o.ev)
			if n == 0 {
				c.badEv("layout", o.ev, "what "+r.Name+" writes holds no peer records: "+describe(nodes), o.d.Evs)
			}
		}
	}
	c.need("backup", 2)
	c.need("peer records", 1)
}

// peerReps checks the repetitions over tables of peers; evs are the events around the nodes.
func (c *Check) peerReps(nodes []encNode, evs []*Event, at *Event) int {
	n := 0
	for i, x := range nodes {
		if x.Rep == nil {
			continue
		}
		rep := x.Rep
		for _, it := range rep.Iters {
			n += c.peerReps(it.Nodes, it.It.Events, at)
		}
		// every record of the table is visited
		var le *Event
		for _, ev := range evs {
			if ev.Kind == "loop" && ev.Loop == rep.L {
				le = ev
			}
			if ev.Kind == "rangedone" && le != nil && ev.Args[0] == rep.M {
				le = nil
				break
			}
		}
		if le != nil || rep.M == nil {
			c.badEv("all-records", at, "the loop over "+describe(nodes[i:i+1])+" can be left before every entry is written", evs)
			continue
		}
		if !isPeerTable(rep.M.Typ) {
			continue
		}
		n++
		c.inst("peer records", rep.L.ID)
		// the count written is the length of the table that follows
		counted := false
		for _, y := range nodes[:i] {
			if y.T != nil && rep.N != nil && strip(y.T) != nil && y.T.Op == OpEnc && strip(y.T.Args[0]) == strip(rep.N) {
				counted = true
			}
		}
		if !counted {
			c.badEv("count", lastEv(evs), "the number of peers written is not known to be the number of records that follow: "+describe(nodes), evs)
		}
		base := tableOwner(rep.M, rep.L.Entry)
		held := heldOn(rep.L.Entry.locks, base, false)
		if held == nil {
			c.badEv("one-moment", lastEv(evs), "the peers of a torrent are written without holding its lock", evs)
			continue
		}
		// the length was read under the same hold
		for _, ev := range evs {
			if ev.Kind == "maplen" && ev.Args[0] == rep.M {
				if h := heldOn(ev.Locks, base, false); h == nil || h.Ev != held.Ev {
					c.badEv("one-moment", ev, "the number of peers is read under another hold of the lock than the peers that follow it", evs)
				}
			}
			if ev.Kind == "loop" && ev.Loop == rep.L {
				break
			}
		}
		for _, it := range rep.Iters {
			c.add("iterations", 1)
			for _, ev := range it.It.Events {
				if h := heldOn(ev.Locks, base, false); h == nil || h.Ev != held.Ev {
					c.badEv("one-moment", ev, "the lock of the torrent is not held throughout the writing of its peers", it.It.Events)
					break
				}
			}
			if h := heldOn(it.It.St.locks, base, false); h == nil || h.Ev != held.Ev {
				c.badEv("one-moment", lastEv(it.It.Events), "the lock of the torrent is not held throughout the writing of its peers", it.It.Events)
			}
			if len(it.Nodes) == 0 {
				c.badEv("all-records", lastEv(it.It.Events), "a peer that was counted is not written", it.It.Events)
			}
		}
	}
	return n
}

// ---- the saved connections

// minimal drops functions that only call another one of the set.
func (c *Check) minimal(fns map[*ssa.Function]*Run) []*Run {
	var out []*Run
	for fn, r := range fns {
		wraps := false
		for g := range fns {
			if g != fn && c.s.p.calls(fn, g) && !c.s.p.calls(g, fn) {
				wraps = true
			}
		}
		if !wraps {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// connContent: the content holds a connection table.
func (c *Check) connContent(r *Run, t *Term) bool {
	if isGob(t) {
		v := strip(dynPtr(t.Args[0]))
		return v.Typ != nil && (isConnTable(v.Typ) || connCell(v))
	}
	y := newLayouter(r)
	for _, n := range y.expand(t, nil) {
		if n.Rep != nil && n.Rep.M != nil && isConnTable(n.Rep.M.Typ) {
			return true
		}
	}
	return false
}

// fillsConns: the event puts saved connections into a table.
func fillsConns(ev *Event) bool {
	switch {
	case ev.Kind == "mapset":
		return isConnTable(ev.Args[0].Typ)
	case ev.Kind == "call" && ev.Name == "(*encoding/gob.Decoder).Decode":
		return connCell(dynPtr(ev.Args[1]))
	}
	return false
}

// connCell: the address of a variable that holds a connection table.
func connCell(p *Term) bool {
	return p.Typ != nil && deref(p.Typ) != nil && isConnTable(deref(p.Typ))
}

func readsFile(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile" || ev.Name == "os.Open" || ev.Name == "os.OpenFile" && readFlags(ev))
}

// snapshotOf: m is a map made on the path and filled with every entry of another table by one
// loop over it, and with nothing else: the table and the first visit of one of its entries.
func snapshotOf(evs []*Event, m *Term) (*Term, *Event) {
	if m == nil || m.Op != OpAlloc || m.Typ == nil {
		return nil, nil
	}
	if _, ok := m.Typ.Underlying().(*types.Map); !ok {
		return nil, nil
	}
	var of, last *Term
	var at *Event
	on := func(ev *Event) bool {
		return (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == m
	}
	made, done := false, false
	for _, ev := range evs {
		switch {
		case ev.Kind == "makemap" && ev.Args[0] == m:
			made = true
		case on(ev):
			return nil, nil
		case ev.Kind == "rangedone" && of != nil && !done:
			if ev.Args[0] != of {
				return nil, nil
			}
			done = true
		case ev.Kind == "loop" && loopHas(ev.Loop, on):
			if of != nil {
				return nil, nil
			}
			for _, it := range ev.Loop.Iters {
				var r, set *Event
				for _, g := range it.Events {
					switch {
					case g.Kind == "range" && r == nil:
						r = g
					case on(g):
						if r == nil || set != nil || g.Kind != "mapset" || g.Args[1] != r.Args[1] || g.Args[2] != r.Args[2] {
							return nil, nil
						}
						set = g
					case g.Kind == "loop" && loopHas(g.Loop, on):
						return nil, nil
					}
				}
				if set == nil || last != nil && last != r.Args[0] {
					return nil, nil
				}
				last, at = r.Args[0], r
			}
			of = last
		}
	}
	if !made || !done {
		return nil, nil
	}
	return of, at
}

// copying: the event makes or fills a map that some path of the run uses as a copy of a table.
func copying(r *Run, ev *Event) bool {
	of := func(m *Term) bool {
		for _, d := range wpaths(r) {
			if t, _ := snapshotOf(d.Evs, m); t != nil {
				return true
			}
		}
		return false
	}
	if ev.Kind == "loop" {
		return !loopHas(ev.Loop, func(g *Event) bool {
			return (fillsConns(g) || g.Kind == "mapdel" && isConnTable(g.Args[0].Typ)) && !of(g.Args[0])
		})
	}
	return (ev.Kind == "mapset" || ev.Kind == "makemap") && of(ev.Args[0])
}

func (c *Check) savedConns() {
	savers, loaders := map[*ssa.Function]*Run{}, map[*ssa.Function]*Run{}
	x := newConc(c.s.p)
	for _, fn := range c.s.p.sorted() {
		if !x.live[fn] || fn.Parent() != nil || len(fn.Blocks) == 0 || !strings.Contains(fnPkgPath(fn), "/tracker") || c.serves(fn) {
			continue
		}
		io := func(names ...string) bool {
			return c.s.p.reaches(fn, func(n string) bool {
				for _, m := range names {
					if n == m {
						return true
					}
				}
				return false
			})
		}
		w, rd := io("os.Rename", "os.WriteFile", "io/ioutil.WriteFile"), io("os.ReadFile", "io/ioutil.ReadFile", "os.Open", "os.OpenFile")
		if !w && !rd {
			continue
		}
		r := c.s.run(fn)
		if w {
			for _, o := range c.written(r) {
				if c.connContent(r, o.t) {
					savers[fn] = r
				}
			}
		}
		if rd {
			for _, d := range wpaths(r) {
				from := false
				for _, ev := range d.Evs {
					from = from || readsFile(ev)
					if from && (fillsConns(ev) || ev.Kind == "loop" && loopHas(ev.Loop, fillsConns)) {
						loaders[fn] = r
					}
				}
			}
		}
	}
	// the format
	for _, e := range c.minimal(savers) {
		c.inst("saver", e.Name)
		for _, d := range c.minimal(loaders) {
			c.inst("loader", d.Name)
			done := map[*Term]bool{}
			for _, o := range c.written(e) {
				if done[o.t] {
					continue
				}
				done[o.t] = true
				if !c.connContent(e, o.t) {
					c.badEv("whole", o.ev, "what is written to the file is not the table of connections", o.d.Evs)
					continue
				}
				for _, x := range c.inputs(d) {
					c.codecOf(&codec{e.Name, e, d, nil, x}, o)
				}
			}
		}
		for _, d := range wpaths(e) {
			for _, ev := range d.Evs {
				if ev.Name == "(*encoding/gob.Encoder).Encode" {
					v := strip(dynPtr(ev.Args[1]))
					var owner *Term
					locks := ev.Locks
					if of, at := snapshotOf(d.Evs, v); of != nil {
						v, locks = of, at.Locks
					}
					switch {
					case v.Typ != nil && isConnTable(v.Typ):
						owner = tableOwner(v, ev.St)
					case connCell(v) && v.Op == OpField:
						owner = v.Args[0]
					default:
						continue
					}
					if heldOn(locks, owner, false) == nil {
						c.badEv("one-moment", ev, "the connections are encoded without their lock", d.Evs)
					}
				}
				// saving leaves the table alone
				if fillsConns(ev) || (ev.Kind == "mapdel" || ev.Kind == "makemap") && isConnTable(ev.Args[0].Typ) || ev.Kind == "loop" && loopHas(ev.Loop, func(g *Event) bool {
					return fillsConns(g) || g.Kind == "mapdel" && isConnTable(g.Args[0].Typ)
				}) {
					if copying(e, ev) {
						continue
					}
					c.badEv("saving-keeps", ev, "connections are changed while they are saved", d.Evs)
				}
			}
			// a path that reports success has written the table
			if er, ok := d.retErr(); ok && returnsError(e) && failed(d.To.facts, er) != True {
				found := false
				for _, o := range c.written(e) {
					found = found || o.d.To == d.To
				}
				if !found {
					c.badEv("saved", lastEv(d.Evs), "the connections are reported as saved without having been written", d.Evs)
				}
			}
		}
	}
	c.need("saver", 1)
	c.need("loader", 1)
	// the same file, from the functions that know it
	wr, rd := map[*Term]*Event{}, map[*Term]*Event{}
	spawned := map[*ssa.Function]bool{}
	for _, g := range x.Roots {
		if g.Site != nil {
			for _, f := range g.Fns {
				spawned[f] = true
			}
		}
	}
	for _, r := range c.lifeRuns() {
		for _, o := range c.written(r) {
			if c.connContent(r, o.t) {
				p := o.ev.Args[0]
				if o.ev.Name == "os.Rename" {
					p = o.ev.Args[1]
				}
				wr[strip(p)] = o.ev
			}
		}
		for _, d := range wpaths(r) {
			c.restoredConns(r, d, !spawned[r.Fn], rd)
		}
	}
	for p, ev := range wr {
		c.inst("file", trunc(p.String(), 100))
		if rd[p] == nil {
			c.badEv("same-file", ev, "connections are saved to a file they are not loaded from: "+trunc(p.String(), 100), nil)
		}
	}
	for p, ev := range rd {
		if wr[p] == nil {
			c.badEv("same-file", ev, "connections are loaded from a file they are not saved to: "+trunc(p.String(), 100), nil)
		}
	}
	c.need("file", 1)
	c.need("restored table", 1)
}

// restoredConns: on a path through start-up the table that was loaded is the one in use, unchanged.
func (c *Check) restoredConns(r *Run, d *DPath, first bool, rd map[*Term]*Event) {
	var file *Event
	for i, ev := range d.Evs {
		if readsFile(ev) {
			file = ev
		}
		fills := fillsConns(ev) || ev.Kind == "loop" && loopHas(ev.Loop, fillsConns)
		if !fills || file == nil || !d.succeeded(file) {
			continue
		}
		rd[strip(file.Args[0])] = file
		if ev.Kind == "call" && !d.succeeded(ev) || d.Exit {
			continue
		}
		// nothing failed on the way
		broken := false
		for _, g := range d.Evs {
			if fallible(g) && g.Fr != nil && !saveOp(g) && g.in("/tracker/udp") && failed(d.To.facts, errOf(g)) == True {
				broken = true
			}
		}
		if broken {
			continue
		}
		var t, cell *Term
		if ev.Kind == "call" {
			cell = dynPtr(ev.Args[1])
			t = d.To.heap[cell]
		} else {
			for _, it := range ev.Loop.Iters {
				for _, g := range it.Events {
					if fillsConns(g) && g.Kind == "mapset" {
						t = g.Args[0]
					}
				}
			}
		}
		cells := []*Term{cell}
		if cell == nil || cell.Op != OpField {
			cells = nil
			has := map[*Term]bool{}
			sts := []*State{d.To}
			for _, g := range d.Evs[i+1:] {
				if g.Kind == "lock" && g.Pre != nil {
					sts = append(sts, g.Pre)
				}
			}
			for _, z := range sts {
				for a, v := range z.heap {
					if a.Op == OpField && t != nil && v == t && !has[a] {
						has[a] = true
						cells = append(cells, a)
					}
				}
			}
		}
		c.inst("restored table", r.Name)
		for _, g := range d.Evs[i+1:] {
			switch {
			case g.Kind == "makemap" && isConnTable(g.Args[0].Typ):
				for _, x := range cells {
					if d.To.heap[x] == g.Args[0] {
						c.badEv("kept", g, "the table of connections is replaced after it was loaded", d.Evs)
					}
				}
			case fillsConns(g), g.Kind == "loop" && loopHas(g.Loop, fillsConns):
				if g != ev {
					c.badEv("kept", g, "connections are added or changed after the saved ones were loaded", d.Evs)
				}
			}
		}
		used := false
		for _, x := range cells {
			base := x.Args[0]
			used = used || base.Op != OpAlloc
			for a, v := range d.To.heap {
				if v == base && a.Op == OpField {
					used = true
				}
			}
		}
		if !used {
			c.badEv("in-use", ev, "the saved connections are loaded into a table that is not the one in use", d.Evs)
		}
	}
	// a table taken into use has been loaded
	for _, ev := range d.Evs {
		if ev.Kind == "go" && first && file == nil && c.usesConns(ev) {
			c.badEv("loaded", ev, "the UDP tracker is started without an attempt to load the saved connections", d.Evs)
		}
	}
}

// usesConns: a goroutine that looks up connections.
func (c *Check) usesConns(ev *Event) bool {
	if len(ev.Args) == 0 || ev.Args[0].Fn == nil {
		return false
	}
	looks := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok && isConnTable(l.X.Type().Underlying()) {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{ev.Args[0].Fn}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] || !c.s.p.fns[f] {
			continue
		}
		seen[f] = true
		if looks(f) {
			return true
		}
		todo = append(todo, c.s.p.callees(f)...)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if h := funcValue(g.Call.Value); h != nil {
						todo = append(todo, h)
					}
				}
			}
		}
	}
	return false
}
