package main

// Properties of saving state to disk: replaced atomically (C31), failures reported (C32),
// a backup that cannot be loaded stops start-up (C33).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "typestate over every path that touches a saved file (backup methods, every goroutine and entry point; saved files are the ones the loaders read): such a file is only ever replaced by renaming a file created on that path in the same directory under a unique name, whose whole content was written, then synced to disk, every step known to have succeeded; it is never created, truncated, removed or written in place", func(c *Check) { c.atomicSave() })
	register("C32", "on every path of the save, load and initialisation code and their callers: an operation that failed, or whose error the path never looked at, is followed by returning an error (functions that return one) or logging a failure (others); excepted are a backup that does not exist yet and the end of the data before a record; after a failure nothing replaces the saved file and no message without the error is logged by the code that saw the failure", func(c *Check) { c.reported() })
	register("C33", "on every path from loading a backup to start-up: a failure makes the loader, the database initialisation and the opening of the storage return an error, and the path through the start-up code that sees it, or misses the storage or backup type in its table, ends the process before anything else is started; loaders succeed without reading a backup only knowing that there is none; a failure to load saved connections leaves a fresh empty table and goes on", func(c *Check) { c.loadOrStop() })
}

// savedPaths: the files the tracker reads its saved state from.
func (c *Check) savedPaths(runs []*Run) map[*Term]bool {
	out := map[*Term]bool{}
	for _, r := range runs {
		for _, d := range wpaths(r) {
			for _, ev := range d.Evs {
				if ev.Kind != "call" || len(ev.Args) == 0 || !ev.in("/tracker/") {
					continue
				}
				switch ev.Name {
				case "os.ReadFile", "os.Open", "io/ioutil.ReadFile", "os.OpenFile":
					if ev.Name == "os.OpenFile" && !readFlags(ev) {
						continue
					}
					out[strip(ev.Args[0])] = true
				}
			}
		}
	}
	return out
}

func readFlags(ev *Event) bool {
	if len(ev.Args) < 2 {
		return false
	}
	v, ok := ev.Args[1].intConst()
	return ok && v&3 == 0 && v&0x200 == 0 // O_RDONLY, no O_TRUNC
}

// saveFile is a file a path created.
type saveFile struct {
	f, path *Term
	ev      *Event
	temp    bool // unique name
}

// lifeRuns: the runs of everything that may touch saved state.
func (c *Check) lifeRuns() []*Run {
	x := newConc(c.s.p)
	var runs []*Run
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !x.live[fn] || len(fn.Blocks) == 0 || c.serves(fn) {
			return
		}
		seen[fn] = true
		runs = append(runs, c.s.run(fn))
	}
	for _, r := range x.Roots {
		for _, f := range r.Fns {
			add(f)
		}
	}
	for _, fn := range append(c.s.backupMethods("Init", "Save", "Load"), c.s.dbMethods("Init")...) {
		add(fn)
	}
	return runs
}

// jobRuns: the goroutines that do not serve requests, analysed from where they are started.
func (c *Check) jobRuns() []goRun {
	var out []goRun
	seen := map[*ssa.Function]bool{}
	for _, g := range c.s.p.goSites() {
		if seen[g.fn] || g.fn.Parent() != nil || c.serves(g.fn) {
			continue
		}
		seen[g.fn] = true
		par := c.s.run(g.fn)
		done := map[*Event]bool{}
		for _, gr := range par.Gos {
			fv := gr.ev.Args[0]
			if fv.Fn == nil || !c.s.e.inlinable(fv.Fn) || done[gr.ev] || c.serves(fv.Fn) {
				continue
			}
			done[gr.ev] = true
			out = append(out, goRun{par, c.s.runGo(gr), gr.ev})
		}
	}
	return out
}

func (c *Check) atomicSave() {
	runs := c.lifeRuns()
	saved := c.savedPaths(runs)
	for p := range saved {
		c.inst("saved file", trunc(p.String(), 120))
	}
	c.need("saved file", 2)
	for _, r := range runs {
		for _, d := range wpaths(r) {
			c.savePath(d, saved)
		}
	}
	c.need("replacement", 2)
}

func (c *Check) savePath(d *DPath, saved map[*Term]bool) {
	f := d.To.facts
	var files []*saveFile
	names := map[*Term]*saveFile{} // file names and paths
	fileOf := func(t *Term) *saveFile {
		if t == nil {
			return nil
		}
		t = strip(dynPtr(t))
		for _, x := range files {
			if x.f == t {
				return x
			}
		}
		return nil
	}
	type step struct {
		ev      *Event
		content *Term
	}
	wr := map[*saveFile][]step{}
	sync := map[*saveFile]*Event{}
	dirty := map[*saveFile]bool{} // written since synced
	for _, ev := range d.Evs {
		if ev.Kind != "call" || ev.in("/controller") {
			continue
		}
		arg := func(i int) *Term {
			if i < len(ev.Args) {
				return strip(ev.Args[i])
			}
			return nil
		}
		destroys := func(p *Term, what string) {
			if p != nil && saved[p] {
				c.badEv("in-place", ev, what+" the saved file itself: a crash at this point loses the previous save", d.Evs)
			}
		}
		switch ev.Name {
		case "os.CreateTemp", "io/ioutil.TempFile":
			x := &saveFile{f: strip(ev.Res[0]), ev: ev, temp: true}
			files = append(files, x)
			continue
		case "os.Create", "os.OpenFile":
			if ev.Name == "os.OpenFile" && readFlags(ev) {
				continue
			}
			destroys(arg(0), "opening for writing")
			x := &saveFile{f: strip(ev.Res[0]), path: arg(0), ev: ev}
			if ev.Name == "os.OpenFile" && len(ev.Args) > 1 {
				if v, ok := ev.Args[1].intConst(); ok && v&0x80 != 0 {
					x.temp = true // O_EXCL
				}
			}
			files = append(files, x)
			names[arg(0)] = x
			continue
		case "os.WriteFile", "io/ioutil.WriteFile":
			destroys(arg(0), "writing")
			x := &saveFile{path: arg(0), ev: ev}
			names[arg(0)] = x
			continue
		case "os.Truncate", "os.Remove", "os.RemoveAll":
			destroys(arg(0), "removing or truncating")
			continue
		case "os.Link", "os.Symlink":
			destroys(arg(1), "linking over")
			continue
		case "(*os.File).Name":
			if x := fileOf(arg(0)); x != nil && len(ev.Res) > 0 {
				names[strip(ev.Res[0])] = x
			}
			continue
		case "os.Rename":
			destroys(arg(0), "renaming away")
			if saved[arg(1)] {
				c.inst("replacement", trunc(arg(1).String(), 120))
				c.inst("replacing path", pathEnd(d))
				x := names[arg(0)]
				switch {
				case x == nil:
					c.badEv("temp", ev, "the file renamed over the saved one was not created on this path", d.Evs)
				case x.f == nil:
					c.badEv("synced", ev, "the new contents are not known to be on stable storage before they replace the old", d.Evs)
				default:
					if !x.temp && !heldAcross(x.ev, ev) {
						c.badEv("unique", ev, "the temporary file has a fixed name and no lock is held: two saves at once mix their contents", d.Evs)
					}
					if !sameDir(x, arg(1)) {
						c.badEv("same-dir", ev, "the temporary file is not created in the directory of the saved one: it cannot be renamed over it atomically", d.Evs)
					}
					ws := wr[x]
					if len(ws) == 0 {
						c.badEv("written", ev, "nothing was written to the file that replaces the saved one", d.Evs)
					}
					for _, w := range ws {
						if e := errOf(w.ev); e == nil || failed(f, e) != False {
							c.badEv("write-checked", w.ev, "the saved file is replaced on a path that does not know that writing the new contents succeeded", d.Evs)
						}
						if w.content != nil && (w.content.Op == OpSub || len(ws) > 1) {
							c.badEv("complete", w.ev, "only a part of the data is known to be written", d.Evs)
						}
					}
					s := sync[x]
					if s == nil || dirty[x] {
						c.badEv("synced", ev, "the new contents are not synced to disk before they replace the old", d.Evs)
					} else if failed(f, errOf(s)) != False {
						c.badEv("synced", ev, "the saved file is replaced on a path that does not know that the new contents reached the disk", d.Evs)
					}
				}
			}
			continue
		}
		// anything else the file is given to
		x := (*saveFile)(nil)
		for _, a := range ev.Args {
			if x = fileOf(a); x != nil {
				break
			}
		}
		if x == nil && ev.Name == "(*bufio.Writer).Flush" && len(ev.Args) > 0 && ev.St != nil {
			if w, ok := ev.St.heap[dstCell(ev.Args[0])]; ok {
				x = fileOf(w)
			}
		}
		if x == nil {
			continue
		}
		switch ev.Name {
		case "(*os.File).Sync", "(*os.File).Fd":
			sync[x], dirty[x] = ev, false
		case "(*os.File).Chmod", "(*os.File).Chown", "(*os.File).Stat", "(*os.File).Close", "(*os.File).SetDeadline":
		case "(*os.File).Write", "(*os.File).WriteString":
			var ct *Term
			if ev.St != nil && len(ev.Args) > 1 {
				ct = ev.St.bytesOf(ev.Args[1])
			}
			wr[x] = append(wr[x], step{ev, ct})
			dirty[x] = true
		default:
			wr[x] = append(wr[x], step{ev, nil})
			dirty[x] = true
		}
	}
}

// heldAcross: a lock is held from one event to another.
func heldAcross(a, b *Event) bool {
	for _, l := range a.Locks {
		for _, m := range b.Locks {
			if l.Ev == m.Ev && l.Addr == m.Addr && l.Write && m.Write {
				return true
			}
		}
	}
	return false
}

// sameDir: the temporary file lies beside the file at path.
func sameDir(x *saveFile, path *Term) bool {
	if x.path != nil {
		ps := concatParts(x.path)
		if len(ps) < 2 || strip(ps[0]) != path && !prefixParts(ps, concatParts(path)) {
			return false
		}
		for _, p := range ps[len(concatParts(path)):] {
			if s, ok := p.strConst(); ok && strings.Contains(s, "/") {
				return false
			}
		}
		return true
	}
	d := strip(x.ev.Args[0])
	if d.Op == OpCall && (d.Aux == "path/filepath.Dir" || d.Aux == "path.Dir") && strip(d.Args[0]) == path {
		return true
	}
	// the directory a path is built from
	ps := concatParts(path)
	return len(ps) > 1 && strip(ps[0]) == d
}

func prefixParts(ps, pre []*Term) bool {
	if len(pre) > len(ps) {
		return false
	}
	for i := range pre {
		a, ok1 := ps[i].strConst()
		b, ok2 := pre[i].strConst()
		if ok1 && ok2 {
			if a != b && !(i == len(pre)-1 && strings.HasPrefix(a, b)) {
				return false
			}
			continue
		}
		if strip(ps[i]) != strip(pre[i]) {
			return false
		}
	}
	return true
}

// ---- failures

// fallible: operations on saved state that report an error.
func fallible(ev *Event) bool {
	if ev.Kind != "call" || errOf(ev) == nil {
		return false
	}
	n := ev.Name
	switch n {
	case "(*os.File).Close", "os.Remove", "os.RemoveAll":
		return false
	case "errors.New", "github.com/pkg/errors.New", "fmt.Errorf", "github.com/pkg/errors.Errorf":
		return true
	}
	for _, p := range []string{"os.", "(*os.", "io.", "(io.", "io/", "(*bufio.", "(*bytes.", "encoding/", "(*encoding/", "database/sql.", "(*database/sql.", "storage.Backup.", "storage.Database.", "syscall.", "compress/", "(*compress/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// noBackup: the path knows that the error means that nothing was saved yet.
func noBackup(f *Facts, err *Term) bool {
	known := func(t *Term) bool { return f.eval(t) == True }
	for _, t := range termsOf(func(t *Term) bool {
		return t.Op == OpCall && len(t.Args) > 0 && (t.Aux == "os.IsNotExist" || t.Aux == "errors.Is" || t.Aux == "contains" || t.Aux == "strings.Contains")
	}) {
		x := t.Args[0]
		switch {
		case t.Aux == "os.IsNotExist" && x == err, t.Aux == "errors.Is" && x == err && len(t.Args) > 1 && noneErr(t.Args[1]):
			if known(t) {
				return true
			}
		case (t.Aux == "contains" || t.Aux == "strings.Contains") && len(t.Args) > 1 && ofErr(x, err):
			if s, ok := t.Args[1].strConst(); ok && s == "no rows in result set" && known(t) {
				return true
			}
		}
	}
	for _, t := range termsOf(func(t *Term) bool { return t.Op == OpLoad && noneErr(t) }) {
		if known(mkEq(err, t)) {
			return true
		}
	}
	for _, t := range termsOf(func(t *Term) bool {
		return t.Op == OpCall && strings.HasPrefix(t.Aux, "error.") && len(t.Args) > 0 && t.Args[0] == err
	}) {
		if known(mkEq(t, mkStr("sql: no rows in result set"))) {
			return true
		}
	}
	return false
}

func ofErr(t, err *Term) bool {
	return t.Op == OpCall && strings.HasPrefix(t.Aux, "error.") && len(t.Args) > 0 && t.Args[0] == err || t.Op == OpCall && strings.HasSuffix(t.Aux, ".Error") && len(t.Args) > 0 && t.Args[0] == err
}

// noneErr: the sentinel for something that does not exist.
func noneErr(t *Term) bool {
	if t.Op != OpLoad || t.Args[0].Op != OpGlobal {
		return false
	}
	s := t.Args[0].Aux
	return strings.HasSuffix(s, "os.ErrNotExist") || strings.HasSuffix(s, "io/fs.ErrNotExist") || strings.HasSuffix(s, "database/sql.ErrNoRows")
}

// isEOF: the path knows that the read failed at the end of the data without reading anything.
func isEOF(f *Facts, err *Term) bool {
	for _, t := range termsOf(func(t *Term) bool {
		return t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].Aux, "io.EOF")
	}) {
		if err == t || f.eval(mkEq(err, t)) == True {
			return true
		}
	}
	return false
}

// isRead: a read from saved data.
func isRead(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Name {
	case "encoding/binary.Read":
		return true
	case "io.ReadFull", "(*bufio.Reader).ReadByte", "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte":
		return len(ev.Res) > 2
	}
	return false
}

// recordEnd: the failed read is at the end of the data, before the first byte of a record.
func recordEnd(d *DPath, ev *Event) bool {
	if !isRead(ev) || !isEOF(d.To.facts, errOf(ev)) {
		return false
	}
	// the last loop whose exit the path is on, or the path itself
	var l *LoopRec
	i := index(d.Evs, ev)
	start := 0
	for k := 0; k < i; k++ {
		if d.Evs[k].Kind == "loop" {
			l, start = d.Evs[k].Loop, k+1
		}
	}
	for k := start; k < i; k++ {
		if isRead(d.Evs[k]) {
			return false
		}
	}
	if l == nil {
		return false
	}
	// the loop reads the data's outermost records: no read before it
	for k := 0; k < start-1; k++ {
		if isRead(d.Evs[k]) {
			return false
		}
	}
	// and its iterations read at least one thing
	return loopHas(l, isRead)
}

// pending: the failures of a path that it has neither handled nor reported.
type failure struct {
	ev    *Event
	known Tri // True: it failed; Unknown: the path does not know
	rep   *Event
}

func (d *DPath) failures(skip func(ev *Event) bool) []*failure {
	var out []*failure
	f := d.To.facts
	ret, _ := d.retErr()
	for i, ev := range d.Evs {
		if !fallible(ev) || skip != nil && skip(ev) {
			continue
		}
		e := errOf(ev)
		k := failed(f, e)
		if k == False || ret != nil && ret == e && k == Unknown {
			continue
		}
		if k == Unknown && d.carried(e) {
			continue
		}
		if k == True && (noBackup(f, e) || recordEnd(d, ev)) {
			continue
		}
		x := &failure{ev: ev, known: k}
		for _, g := range d.Evs[i+1:] {
			if failureLog(g) {
				x.rep = g
				break
			}
		}
		out = append(out, x)
	}
	return out
}

// carried: the error is what the next iteration looks at.
func (d *DPath) carried(e *Term) bool {
	if d.Loop == nil {
		return false
	}
	for _, it := range d.Loop.Iters {
		if it.St != d.To {
			continue
		}
		for _, v := range it.Next {
			if v == e {
				return true
			}
		}
	}
	return false
}

// saving: the part of the program that saves and loads state.
func notSaving(r *Run) func(ev *Event) bool {
	return func(ev *Event) bool {
		return !ev.in("/tracker") || ev.in("/http") && !ev.in("/tracker/storage") && !strings.HasPrefix(ev.Name, "storage.")
	}
}

func replaces(ev *Event, saved map[*Term]bool) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Name {
	case "os.Rename":
		return len(ev.Args) > 1 && saved[strip(ev.Args[1])]
	case "os.WriteFile", "os.Create":
		return len(ev.Args) > 0 && saved[strip(ev.Args[0])]
	case "(*database/sql.DB).Exec", "(*database/sql.DB).ExecContext":
		for _, a := range ev.Args {
			if s, ok := a.strConst(); ok && strings.HasPrefix(strings.ToLower(strings.TrimSpace(s)), "insert") {
				return true
			}
		}
	}
	return false
}

func (c *Check) reported() {
	runs := c.lifeRuns()
	saved := c.savedPaths(runs)
	strict := map[*Run]bool{}
	for _, fn := range append(c.s.backupMethods("Init", "Save", "Load"), c.s.dbMethods("Init")...) {
		strict[c.s.run(fn)] = true
	}
	for _, g := range c.jobRuns() {
		runs = append(runs, g.run)
	}
	done := map[string]bool{}
	for _, r := range runs {
		if done[r.Name] && !strict[r] {
			continue
		}
		done[r.Name] = true
		for _, d := range wpaths(r) {
			c.reportedOn(r, d, saved)
		}
	}
	c.need("operation", 8)
}

// serves: a worker that serves requests; what it reads is not saved state.
func (c *Check) serves(fn *ssa.Function) bool {
	return c.s.p.reaches(fn, func(n string) bool { return isUDPRecv(n) || isConnRead(n) }) && !c.s.p.reaches(fn, func(n string) bool { return strings.HasPrefix(n, "os.ReadFile") || n == "os/signal.Notify" })
}

func (c *Check) reportedOn(r *Run, d *DPath, saved map[*Term]bool) {
	for _, ev := range d.Evs {
		if fallible(ev) && !notSaving(r)(ev) {
			c.inst("operation", ev.Name+"@"+ev.Pos())
		}
	}
	ret, hasRet := d.retErr()
	for _, x := range d.failures(notSaving(r)) {
		c.inst("failing path", pathEnd(d)+"|"+x.ev.Pos())
		what := "failed"
		if x.known == Unknown {
			what = "may have failed (its error is not looked at)"
		}
		switch {
		case d.Out != nil && hasRet && returnsError(r):
			if ret.isNil() || failed(d.To.facts, ret) != True {
				c.badEv("returned", x.ev, x.ev.Name+" "+what+" and no error is returned", d.Evs)
				continue
			}
		case x.rep == nil:
			c.badEv("logged", x.ev, x.ev.Name+" "+what+" and no failure is logged", d.Evs)
			continue
		}
		i := index(d.Evs, x.ev)
		for _, g := range d.Evs[i+1:] {
			if replaces(g, saved) && !strings.HasPrefix(x.ev.Name, "storage.") {
				c.badEv("no-replace", g, "the previous save is replaced although "+x.ev.Name+" "+what, d.Evs)
			}
			if x.rep != nil && !saveOp(x.ev) && !g.Fr.within(x.rep.Fr) {
				continue // by code that does not get to know
			}
			if l, e, ok := isLog(g); ok && l == "Info" && !e && x.ev.Fr.within(g.Fr) {
				c.badEv("no-success", g, "a message that reports no error is logged after "+x.ev.Name+" "+what, d.Evs)
			}
		}
	}
}

// saveOp: an operation that saves, rather than loads.
func saveOp(ev *Event) bool {
	for _, n := range []string{"storage.Backup.Save", "os.CreateTemp", "os.Create", "os.OpenFile", "os.WriteFile", "os.Rename", "(*os.File).Write", "(*os.File).Sync", "(*os.File).Chmod", "(*bufio.Writer).", "encoding/binary.Write", "(*encoding/gob.Encoder)", "(*database/sql.DB).Exec"} {
		if strings.HasPrefix(ev.Name, n) {
			return true
		}
	}
	return false
}

// ---- start-up

func isLoader(ev *Event) bool {
	return storageCall(ev, "Backup.Load") || storageCall(ev, "Backup.Init")
}

// isConnTable: the table of connections of the UDP tracker.
func isConnTable(t types.Type) bool {
	m, ok := t.(*types.Map)
	if !ok {
		return false
	}
	n, ok := m.Key().(*types.Named)
	return ok && n.Obj().Name() == "AddrPort"
}

func (c *Check) loadOrStop() {
	// the loaders
	for _, r := range c.restoreRuns() {
		for _, d := range wpaths(r) {
			if d.Exit || d.Out == nil {
				continue
			}
			if !nilError(d) {
				c.inst("loader fails", pathEnd(d))
				continue
			}
			none := false
			read := false
			for _, ev := range d.Evs {
				if e := errOf(ev); e != nil && failed(d.To.facts, e) == True && noBackup(d.To.facts, e) {
					none = true
				}
				switch ev.Name {
				case "os.ReadFile", "(*database/sql.Row).Scan", "(*database/sql.Rows).Scan", "io.ReadAll", "(*os.File).Read":
					if d.succeeded(ev) {
						read = true
					}
				}
			}
			switch {
			case none:
				c.inst("loader finds no backup", pathEnd(d))
			case !read && !c.saves(r.Fn):
				c.inst("loader of a backup that saves nothing", r.Name)
			case !read:
				c.bad("empty-only-without-backup", r.Name, "-", "loading succeeds without a backup having been read and without knowing that there is none", d.Evs)
			default:
				c.inst("loader succeeds", pathEnd(d))
			}
			for _, x := range d.failures(nil) {
				c.badEv("load-error", x.ev, "loading succeeds although "+x.ev.Name+" failed or its error is not looked at", d.Evs)
			}
		}
	}
	c.need("loader finds no backup", 1)
	c.need("loader succeeds", 1)
	c.need("loader fails", 1)
	// the database initialisation
	for _, fn := range c.s.dbMethods("Init") {
		r := c.s.run(fn)
		for _, d := range wpaths(r) {
			if d.Out == nil {
				continue
			}
			if !nilError(d) {
				c.inst("initialisation fails", pathEnd(d))
				continue
			}
			c.inst("initialisation succeeds", pathEnd(d))
			loaded := false
			for _, ev := range d.Evs {
				if isLoader(ev) {
					if !d.succeeded(ev) {
						c.badEv("init-error", ev, "the database initialises without error although "+ev.Name+" failed or its error is not looked at", d.Evs)
					} else if storageCall(ev, "Backup.Load") {
						loaded = true
					}
				}
			}
			if !loaded {
				c.bad("init-loads", r.Name, "-", "the database initialises without loading the backup", d.Evs)
			}
		}
	}
	c.need("initialisation succeeds", 1)
	c.need("initialisation fails", 1)
	// start-up
	handlers := map[*ssa.Function]bool{}
	for _, r := range c.lifeRuns() {
		for _, d := range wpaths(r) {
			c.startPath(r, d)
			for _, ev := range d.Evs {
				if !fallible(ev) || saveOp(ev) || !ev.in("/tracker/udp") || failed(d.To.facts, errOf(ev)) == False {
					continue
				}
				for fr := ev.Fr; fr != nil; fr = fr.parent {
					rs := fr.fn.Signature.Results()
					if rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type()) {
						handlers[fr.fn] = true
						break
					}
				}
			}
		}
	}
	for fn := range handlers {
		r := c.s.run(fn)
		for _, d := range wpaths(r) {
			c.connLoad(r, d)
		}
	}
	c.need("start-up with a failed storage", 1)
	c.need("start-up with an unknown storage type", 1)
	c.need("start-up with an unknown backup type", 1)
	c.need("start-up with a working storage", 1)
	c.need("failed connection load", 1)
}

func started(ev *Event) bool {
	if ev.Kind == "go" {
		return true
	}
	return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "net.Listen") || strings.HasSuffix(ev.Name, ".ListenAndServe") || strings.HasSuffix(ev.Name, ".Serve"))
}

// saves: the backup a loader belongs to saves something.
func (c *Check) saves(load *ssa.Function) bool {
	for _, fn := range c.s.backupMethods("Save") {
		if !types.Identical(fn.Signature.Recv().Type(), load.Signature.Recv().Type()) {
			continue
		}
		for _, d := range wpaths(c.s.run(fn)) {
			for _, ev := range d.Evs {
				if fallible(ev) || ev.Kind == "loop" {
					return true
				}
			}
		}
		return false
	}
	return true
}

// startPath: a path that opens the storage ends the process if that fails.
func (c *Check) startPath(r *Run, d *DPath) {
	f := d.To.facts
	stop := func(i int, ev *Event, why string) {
		if !d.Exit {
			if ret, ok := d.retErr(); ok && returnsError(r) && failed(f, ret) == True {
				return
			}
			c.badEv("stops", ev, "start-up goes on although "+why, d.Evs)
			return
		}
		for _, g := range d.Evs[i+1:] {
			if started(g) {
				c.badEv("stops", g, "something is started although "+why, d.Evs)
			}
		}
	}
	for i, ev := range d.Evs {
		if ev.Kind == "mapget" && len(ev.Args) > 2 {
			kind := ""
			switch {
			case isCfg(ev.Args[1], "DB.Type"):
				kind = "storage"
			case isCfg(ev.Args[1], "DB.Backup.Type"):
				kind = "backup"
			}
			if kind == "" {
				continue
			}
			switch f.eval(ev.Args[2]) {
			case True:
				c.inst("start-up with a known "+kind+" type", pathEnd(d))
			case False:
				c.inst("start-up with an unknown "+kind+" type", pathEnd(d))
				stop(i, ev, "the "+kind+" type is unknown")
			default:
				c.badEv("type-known", ev, "the "+kind+" type is used without knowing whether it exists", d.Evs)
			}
		}
		if storageCall(ev, "Database.Init") {
			e := errOf(ev)
			switch failed(f, e) {
			case True:
				c.inst("start-up with a failed storage", pathEnd(d))
				stop(i, ev, "the storage failed to initialise")
			case False:
				c.inst("start-up with a working storage", pathEnd(d))
			default:
				if ret, ok := d.retErr(); !ok || ret != e {
					c.badEv("storage-checked", ev, "the error of the storage's initialisation is not looked at", d.Evs)
				}
			}
		}
	}
}

// connLoad: after a failure to load the connections the table is empty and the tracker goes on.
func (c *Check) connLoad(r *Run, d *DPath) {
	var bad *Event
	has := false
	for _, ev := range d.Evs {
		if ev.Kind == "makemap" && isConnTable(ev.Args[0].Typ) || ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[1] != nil && isConnTable(ev.Args[1].Typ) {
			has = true
		}
		if has && fallible(ev) && !saveOp(ev) && failed(d.To.facts, errOf(ev)) != False && ev.in("/tracker/udp") {
			bad = ev
		}
	}
	if bad == nil || d.Loop != nil {
		return
	}
	c.inst("failed connection load", pathEnd(d))
	if d.Exit {
		for _, ev := range d.Evs[index(d.Evs, bad):] {
			if ev.Kind == "exit" && ev.in("/tracker/udp") {
				c.badEv("goes-on", bad, "the process ends because saved connections could not be loaded", d.Evs)
			}
		}
	}
	cells := map[*Term]bool{}
	for _, ev := range d.Evs {
		if ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[1] != nil && isConnTable(ev.Args[1].Typ) {
			cells[ev.Args[0]] = true
		}
	}
	kept := map[*Term]bool{} // objects something refers to
	for _, v := range d.To.heap {
		kept[v] = true
	}
	live := func(cell *Term) bool { // the object the cell is in is still in use
		base := cell.Args[0]
		switch base.Op {
		case OpAlloc:
			return kept[base]
		case OpLoad:
			v := d.To.heap[base.Args[0]]
			return v == nil || v == base
		}
		return true
	}
	for cell := range cells {
		if d.To.heap[cell] == nil && cell.Op == OpField && live(cell) {
			c.badEv("emptied", bad, "after saved connections could not be loaded the table may hold a part of them", d.Evs)
		}
	}
	for cell, m := range d.To.heap {
		if m == nil || cell.Op != OpField || !isConnTable(m.Typ) && !cells[cell] || !live(cell) {
			continue
		}
		made := -1
		for i, ev := range d.Evs {
			if ev.Kind == "makemap" && ev.Args[0] == m {
				made = i
			}
		}
		if made < 0 {
			c.badEv("emptied", bad, "after saved connections could not be loaded the table is not a new one", d.Evs)
			continue
		}
		for _, ev := range d.Evs[made+1:] {
			if ev.Kind == "mapset" && ev.Args[0] == m || ev.Kind == "call" && strings.HasSuffix(ev.Name, "gob.Decoder).Decode") {
				c.badEv("emptied", bad, "after saved connections could not be loaded the table may hold a part of them", d.Evs)
				break
			}
		}
	}
}
