package main

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the use of a database server.

func init() {
	register("C42", "every function with database/sql calls, over every path and loop iteration: each statement is a constant; a query's rows, a prepared statement, a transaction and a connection are released on every path on which they were obtained, a single row is always scanned. Over every Save path that reports success: an INSERT into the backup table ran without error, with the encoded database as the bound parameter of one column (its layout holds every torrent and peer; checked against the loader by C29's simulation, which includes the empty database); an error is reported only after an operation failed. Over every Load path: the column scanned is the column inserted, selected without a condition and ordered by the time column, latest first", func(c *Check) { c.sql() })
}

func sqlCall(ev *Event) bool {
	return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "(*database/sql.") || strings.HasPrefix(ev.Name, "database/sql."))
}

// sqlMethod splits a call on a database object.
func sqlMethod(name string) (recv, m string) {
	s, ok := strings.CutPrefix(name, "(*database/sql.")
	if !ok {
		return "", ""
	}
	recv, m, _ = strings.Cut(s, ").")
	return
}

// stmtArg: the statement a call runs or prepares.
func stmtArg(ev *Event) *Term {
	recv, m := sqlMethod(ev.Name)
	if recv != "DB" && recv != "Tx" && recv != "Conn" {
		return nil
	}
	i := 1
	if s, ok := strings.CutSuffix(m, "Context"); ok {
		m, i = s, 2
	}
	switch m {
	case "Exec", "Query", "QueryRow", "Prepare":
		if i < len(ev.Args) {
			return ev.Args[i]
		}
	}
	return nil
}

// statement: the text a call runs, looking through prepared statements.
func statement(evs []*Event, ev *Event) (string, bool) {
	t := stmtArg(ev)
	if t == nil {
		if recv, _ := sqlMethod(ev.Name); recv == "Stmt" {
			for _, g := range evs {
				if _, m := sqlMethod(g.Name); strings.HasPrefix(m, "Prepare") && len(g.Res) > 0 && strip(g.Res[0]) == strip(ev.Args[0]) {
					t = stmtArg(g)
				}
			}
		}
	}
	return constText(t)
}

// constText is the text of a constant string.
func constText(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	switch t.Op {
	case OpConst:
		s, ok := t.strConst()
		return s, ok
	case OpConcat:
		var b strings.Builder
		for _, a := range t.Args {
			s, ok := constText(a)
			if !ok {
				return "", false
			}
			b.WriteString(s)
		}
		return b.String(), true
	}
	return "", false
}

// opened: the calls that obtain something to be released, with the calls that release it.
func opened(ev *Event) (release []string) {
	recv, m := sqlMethod(ev.Name)
	m = strings.TrimSuffix(m, "Context")
	switch {
	case recv == "":
		return nil
	case m == "Query":
		return []string{"(*database/sql.Rows).Close"}
	case m == "Prepare":
		return []string{"(*database/sql.Stmt).Close"}
	case m == "QueryRow":
		return []string{"(*database/sql.Row).Scan"}
	case m == "Begin" || m == "BeginTx":
		return []string{"(*database/sql.Tx).Commit", "(*database/sql.Tx).Rollback"}
	case m == "Conn":
		return []string{"(*database/sql.Conn).Close"}
	}
	return nil
}

// released: on a stretch of events that ends a function or an iteration everything obtained is released.
func (c *Check) released(evs []*Event, f *Facts, later []deferred, where string) {
	for i, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		rel := opened(ev)
		if rel == nil || len(ev.Res) == 0 {
			continue
		}
		c.inst("obtained", ev.Pos()+" "+ev.Name)
		if e := errOf(ev); e != nil && failed(f, e) == True {
			continue
		}
		ok := false
		for _, g := range evs[i+1:] {
			for _, n := range rel {
				ok = ok || g.Kind == "call" && g.Name == n && len(g.Args) > 0 && strip(g.Args[0]) == strip(ev.Res[0])
			}
		}
		for _, g := range later {
			if fn := g.call.StaticCallee(); fn != nil && len(g.args) > 0 && strip(g.args[0]) == strip(ev.Res[0]) {
				for _, n := range rel {
					ok = ok || fnName(fn) == n
				}
			}
		}
		if !ok {
			c.badEv("released", ev, "what "+ev.Name+" obtains is not released on every path of "+where, evs)
		}
	}
}

var (
	reInsert = regexp.MustCompile(`(?is)^\s*insert\s+into\s+"?([\w.]+)"?\s*\(([^)]*)\)\s*values\s*\(([^)]*)\)\s*;?\s*$`)
	reSelect = regexp.MustCompile(`(?is)^\s*select\s+(.*?)\s+from\s+"?([\w.]+)"?\s+(.*?);?\s*$`)
	reOrder  = regexp.MustCompile(`(?is)^order\s+by\s+"?(\w+)"?\s+desc(\s+nulls\s+last)?(\s+limit\s+(\d+))?(\s+offset\s+0)?$`)
	reCreate = regexp.MustCompile(`(?is)^\s*create\s+table\s+(?:if\s+not\s+exists\s+)?"?([\w.]+)"?\s*\((.*)\)\s*;?\s*$`)
	reDelete = regexp.MustCompile(`(?is)^\s*(delete|drop|truncate|update|alter)\b`)
	reOld    = regexp.MustCompile(`(?is)^\s*delete\s+from\s+"?[\w.]+"?\s+where\s+"?(\w+)"?\s*<\s*now\(\)\s*-\s*interval\s+'[^']*'\s*;?\s*$`)
)

type sqlTable struct {
	data  string // column that holds the encoded database
	times map[string]bool
}

func splitList(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		out = append(out, strings.ToLower(strings.Trim(strings.TrimSpace(x), `"`)))
	}
	return out
}

// sqlUsers: the declared functions from which database/sql is used, with what they call.
func (c *Check) sqlUsers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.s.p.declared() {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if c.directCall(fn, func(n string) bool {
			return strings.HasPrefix(n, "(*database/sql.") || strings.HasPrefix(n, "database/sql.")
		}) {
			out = append(out, fn)
		}
	}
	return out
}

func (c *Check) sql() {
	live := c.s.p.live()
	runs := map[*ssa.Function]*Run{}
	var order []*Run
	add := func(fn *ssa.Function) {
		if runs[fn] == nil {
			runs[fn] = c.s.run(fn)
			order = append(order, runs[fn])
		}
	}
	for _, fn := range c.sqlUsers() {
		add(fn)
	}
	usesSQL := func(fn *ssa.Function) bool {
		return c.s.p.reaches(fn, func(n string) bool {
			return strings.HasPrefix(n, "(*database/sql.") || strings.HasPrefix(n, "database/sql.")
		})
	}
	for _, fn := range c.s.backupMethods("Init", "Save", "Load") {
		if usesSQL(fn) {
			add(fn)
		}
	}
	tables := map[string]*sqlTable{}
	// constant statements, and nothing leaks
	for _, r := range order {
		seen := map[*Event]bool{}
		var visit func(evs []*Event)
		visit = func(evs []*Event) {
			for _, ev := range evs {
				if ev.Kind == "loop" {
					for _, it := range ev.Loop.Iters {
						visit(it.Events)
					}
					continue
				}
				if !sqlCall(ev) || seen[ev] {
					continue
				}
				seen[ev] = true
				c.inst("sql call", ev.Pos()+" "+ev.Name)
				t := stmtArg(ev)
				if t == nil {
					continue
				}
				if !constTerm(t) {
					c.badEv("constant", ev, "the statement is not a constant: "+trunc(t.String(), 120), evs)
					continue
				}
				s, ok := constText(t)
				if !ok {
					if live[r.Fn] {
						c.badEv("constant", ev, "the text of the statement could not be determined: "+trunc(t.String(), 120), evs)
					}
					continue
				}
				c.inst("statement", s)
				if m := reCreate.FindStringSubmatch(s); m != nil {
					tb := sqlTab(tables, m[1])
					for _, col := range strings.Split(m[2], ",") {
						l := strings.ToLower(strings.TrimSpace(col))
						name := strings.Trim(strings.SplitN(l, " ", 2)[0], `"`)
						if strings.Contains(l, "default now()") || strings.Contains(l, "default current_timestamp") || strings.Contains(l, "serial") || strings.Contains(l, "generated always as identity") {
							tb.times[name] = true
						}
					}
				}
				if reDelete.MatchString(s) && live[r.Fn] && !reOld.MatchString(s) {
					c.badEv("keeps-latest", ev, "a statement that may remove or change the latest backup is run: "+s, evs)
				}
			}
		}
		for _, d := range wpaths(r) {
			visit(d.Evs)
			if d.Out != nil && d.Out.kind == "return" {
				c.released(d.Evs, d.To.facts, nil, r.Name)
			}
		}
		for _, l := range r.Loops {
			for _, it := range l.Iters {
				c.released(it.Events, it.St.facts, it.Thread.defers, r.Name)
			}
		}
	}
	// saving
	for _, fn := range c.s.backupMethods("Save") {
		r := runs[fn]
		if r == nil {
			continue
		}
		out := c.written(r)
		for _, d := range wpaths(r) {
			er, ok := d.retErr()
			if !ok {
				continue
			}
			if !er.isNil() && failed(d.To.facts, er) != False {
				c.failedFirst(r, d, er)
				if failed(d.To.facts, er) == True {
					continue
				}
			}
			c.inst("successful save", pathEnd(d))
			n := 0
			for _, o := range out {
				if o.d.To != d.To || !isExec(o.ev.Name) {
					continue
				}
				s, ok := statement(d.Evs, o.ev)
				m := reInsert.FindStringSubmatch(s)
				if !ok || m == nil {
					c.badEv("insert", o.ev, "the encoded database is bound to a statement that is not a plain INSERT: "+s, d.Evs)
					continue
				}
				cols, vals := splitList(m[2]), splitList(m[3])
				l, _ := sliceElems(o.ev.St, o.ev.Args[len(o.ev.Args)-1])
				for i, p := range l {
					if p.Op != OpIface || o.ev.St.bytesOf(p.Args[0]) != o.t || len(cols) != len(vals) {
						continue
					}
					for k, v := range vals {
						if v == "$"+itoa(int64(i+1)) {
							tb := sqlTab(tables, m[1])
							if tb.data != "" && tb.data != cols[k] {
								c.badEv("one-column", o.ev, "the encoded database is stored in different columns", d.Evs)
							}
							tb.data = cols[k]
							n++
						}
					}
				}
				// the transaction, if any, is committed
				if recv, _ := sqlMethod(o.ev.Name); recv == "Tx" {
					done := false
					for _, g := range d.Evs {
						done = done || g.Name == "(*database/sql.Tx).Commit" && strip(g.Args[0]) == strip(o.ev.Args[0]) && d.succeeded(g)
					}
					if !done {
						c.badEv("committed", o.ev, "the transaction that stores the backup is not committed", d.Evs)
					}
				}
			}
			if n == 0 {
				c.bad("saved", r.Name, pathEnd(d), "success is reported without the encoded database having been inserted", d.Evs)
			}
			c.inst("insert", pathEnd(d))
		}
	}
	c.need("successful save", 1)
	// loading
	for _, fn := range c.s.backupMethods("Load") {
		r := runs[fn]
		if r == nil {
			continue
		}
		check := func(evs []*Event, ev *Event) {
			i := -1
			for j, t := range ev.Res[1:] {
				if t != nil && t.Typ != nil && isByteSlice(t.Typ) {
					i = j
				}
			}
			if i < 0 {
				return
			}
			c.inst("row read", ev.Pos())
			var q *Event
			for _, g := range evs {
				if queried([]*Event{g}, ev.Args[0]) {
					q = g
				}
			}
			if q == nil {
				c.badEv("latest", ev, "the query of the row that is read was not found", evs)
				return
			}
			s, ok := statement(evs, q)
			m := reSelect.FindStringSubmatch(s)
			if !ok || m == nil {
				c.badEv("latest", q, "the backup is not read by a plain SELECT: "+s, evs)
				return
			}
			tb := tables[strings.ToLower(m[2])]
			cols := splitList(m[1])
			if tb == nil || i >= len(cols) || cols[i] != tb.data {
				c.badEv("same-column", q, "the backup is read from another table or column than it is stored in: "+s, evs)
				return
			}
			o := reOrder.FindStringSubmatch(strings.TrimSpace(m[3]))
			if o == nil || !tb.times[strings.ToLower(o[1])] || o[4] == "0" {
				c.badEv("latest", q, "the SELECT does not return the most recently stored backup: "+s, evs)
			}
		}
		for _, l := range r.Loops {
			for _, it := range l.Iters {
				for _, ev := range it.Events {
					if ev.Kind == "call" && isScan(ev.Name) && strings.Contains(ev.Name, "Rows") && !queried(it.Events, ev.Args[0]) {
						for _, g := range it.Events {
							if g.Name == "(*database/sql.Rows).Next" {
								c.badEv("latest", ev, "rows after the first are read over the latest backup", it.Events)
							}
						}
					}
				}
			}
		}
		for _, d := range wpaths(r) {
			if _, ok := d.retErr(); !ok {
				continue
			}
			for _, ev := range d.Evs {
				if ev.Kind == "call" && isScan(ev.Name) && d.succeeded(ev) {
					check(d.Evs, ev)
				}
			}
		}
	}
	c.need("row read", 1)
	// the content is the whole database, and comes back
	n := 0
	for _, k := range c.backupCodecs() {
		if runs[k.enc.Fn] == nil {
			continue
		}
		n++
		done := map[*Term]bool{}
		for _, o := range k.outs {
			if !done[o.t] {
				done[o.t] = true
				c.codecOf(k, o)
			}
		}
	}
	if n == 0 {
		c.bad("read-back", "backups", "-", "no backup in a database server that is saved and loaded was found", nil)
	}
}

// queried: the rows were obtained among the events.
func queried(evs []*Event, rows *Term) bool {
	for _, g := range evs {
		if g.Kind == "call" && opened(g) != nil && len(g.Res) > 0 && strip(g.Res[0]) == strip(rows) {
			return true
		}
	}
	return false
}

func sqlTab(tables map[string]*sqlTable, name string) *sqlTable {
	name = strings.ToLower(name)
	if tables[name] == nil {
		tables[name] = &sqlTable{times: map[string]bool{}}
	}
	return tables[name]
}

// makesError: the call makes an error rather than failing with one.
func makesError(ev *Event) bool {
	return strings.Contains(ev.Name, "rrors.") || ev.Name == "fmt.Errorf"
}

// failedFirst: an error is reported only after an operation failed.
func (c *Check) failedFirst(r *Run, d *DPath, er *Term) {
	for _, ev := range d.Evs {
		if fallible(ev) && !makesError(ev) && failed(d.To.facts, errOf(ev)) != False {
			return
		}
	}
	c.bad("no-false-error", r.Name, pathEnd(d), "an error is reported although nothing failed", d.Evs)
}
