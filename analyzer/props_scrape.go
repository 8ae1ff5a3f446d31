package main

// Bodies (C15) and scrapes (C16) of the HTTP tracker.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C15", httpTech+"the symbolic content of every announce, scrape and error body parses as exactly one bencoded dictionary (string lengths equal by linear arithmetic, one value per key, nesting closed, loops keep the nesting); elements of non-compact peer lists likewise", func(c *Check) {
		c.httpBodies()
	})
	register("C16", httpTech+"a scrape only reads; its body has one entry per element of the parameters kept by the info_hash filter (summaries of both loops), keyed by the 20 byte value whose counts were read; only parameters known not to be info_hash are left out; it is answered with a failure exactly when a value is not 20 bytes or none was kept", func(c *Check) {
		c.httpScrape()
	})
}

func (c *Check) httpBodies() {
	for _, r := range c.httpReqs(c.s) {
		if r.handled() != True || len(r.writes) == 0 {
			continue
		}
		rt := r.route()
		st, body, ok := httpHead(r.response())
		if !ok || st != "200" {
			continue
		}
		all := mkConcat(body...)
		failure := false
		if s, ok := concatFirst(body); ok && strings.Contains(s, "failure reason") {
			failure = true
		}
		if rt != "/announce" && rt != "/scrape" && !failure {
			continue
		}
		last := r.writes[len(r.writes)-1].Event
		if len(body) == 0 {
			drop := false
			for _, d := range r.db {
				drop = drop || dbOp(d.Event) == "Drop"
			}
			if !drop {
				c.badEv("body", last, "an announce or scrape is answered with an empty body", r.p.Evs)
			}
			c.inst("body", rt+" stopped (empty)")
			continue
		}
		loops := loopsOf(r.p.Evs)
		if _, e := bencDict(r.f, all, loops); e != "" {
			c.badEv("well-formed", last, "the body of "+rt+" is not one complete bencoded dictionary: "+e+" in "+trunc(all.String(), 300), r.p.Evs)
			continue
		}
		c.inst("body", rt+" "+trunc(all.String(), 160))
	}
	c.need("body", 6)
	for _, fn := range c.s.dbMethods("PeerList") {
		run := c.s.run(fn)
		for _, l := range run.Loops {
			for _, it := range l.Iters {
				for _, s := range sortedTerms(it.Next) {
					nv := it.Next[s]
					if nv == s {
						continue
					}
					if nv.Op == OpSlice && nv.Typ != nil && isSliceT(nv.Typ) {
						nv = it.St.bytesOf(nv)
					}
					for _, e := range elemsIn(nv) {
						if e.isNil() || e.Typ == nil || typeKey(e.Typ) != "[]byte" {
							continue
						}
						ct := it.St.bytesOf(e)
						if _, err := bencDict(it.St.facts, ct, append([]*LoopRec{l}, run.Loops...)); err != "" {
							c.bad("well-formed", fn.String(), "-", "an element of the peer list is not one complete bencoded dictionary: "+err+" in "+trunc(ct.String(), 300), it.Events)
						}
						c.inst("peer dictionary", trunc(ct.String(), 160))
					}
				}
			}
		}
	}
	c.need("peer dictionary", 2)
}

func concatFirst(ps []*Term) (string, bool) {
	if len(ps) == 0 {
		return "", false
	}
	return ps[0].strConst()
}

// elemsIn lists the elements a sequence value was given.
func elemsIn(t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OpElemV:
			r = append(r, t.Args[0])
		case OpConcat, OpUpd, OpSub:
			for _, a := range t.Args {
				walk(a)
			}
		}
	}
	walk(t)
	return r
}

const hashKey = "info_hash="

// hasHashPrefix: the slice of bytes e is known to begin (or not to begin) with info_hash=.
func hasHashPrefix(f *Facts, e *Term) Tri {
	n := int64(len(hashKey))
	if f.entails(lin(lenT(e)).neg().addC(n - 1)) {
		return False
	}
	for _, x := range eqFacts(f) {
		if x.k == hashKey && x.x.Op == OpSub && x.x.mentions(e) && isPrefixOf(x.x, e, n) {
			return tri(x.val)
		}
		// the key before the first "="
		if x.k == hashKey[:n-1] {
			if k := keyTerm(f, x.x); k != nil && k.elem == e {
				return tri(x.val && k.val != nil)
			}
		}
	}
	for t, v := range f.bools {
		if t.Op == OpCall && t.Aux == "hasprefix" && t.mentions(e) {
			if s, ok := t.Args[1].strConst(); ok && s == hashKey && isWholeOf(f, t.Args[0], e) {
				return tri(v)
			}
		}
	}
	return Unknown
}

func isPrefixOf(x, e *Term, n int64) bool {
	if x.Args[0].Op != OpLoad || x.Args[0].Args[0].Op != OpBack || x.Args[0].Args[0].Args[0] != e {
		return false
	}
	z, ok := x.Args[1].intConst()
	l, ok2 := x.Args[2].intConst()
	return ok && ok2 && z == 0 && l == n
}

// isRest: the content is everything of e after the first n bytes.
func isRest(f *Facts, x, e *Term, n int64) bool {
	if x.Op != OpSub || x.Args[0].Op != OpLoad || x.Args[0].Args[0].Op != OpBack || x.Args[0].Args[0].Args[0] != e {
		return false
	}
	return eqLin(f, lin(x.Args[1]), linC(n)) && eqLin(f, lin(x.Args[2]), lin(lenT(e)).addC(-n))
}

// isRestSlice: the slice v is e from n on.
func isRestSlice(f *Facts, v, e *Term, n int64) bool {
	arr, off, l, _ := sliceParts(v)
	arr2, off2, l2, _ := sliceParts(e)
	return arr == arr2 && eqLin(f, off, off2.addC(n)) && eqLin(f, l, l2.addC(-n))
}

// hashFilter is the summary of the loop that keeps the info_hash parameters.
type hashFilter struct {
	l       *LoopRec
	arr     *Term   // the filtered sequence after the loop
	tallies []*Term // variables that count, or note, the kept ones
	elems   bool    // a list the kept ones are appended to, rather than an array with nil for the others
}

// filters finds and checks the filter loops of a path.
func (c *Check) hashFilters(r *httpReq, loops []*LoopRec) []*hashFilter {
	var out []*hashFilter
	for _, l := range loops {
		for _, s := range sortedTerms(l.Init) {
			f := &hashFilter{l: l, arr: s}
			kept := make([]Tri, len(l.Iters))
			ok, some := true, false
			for i, it := range l.Iters {
				nv := it.Next[s]
				if nv == nil {
					ok = false
					break
				}
				if nv == s {
					kept[i] = False
					continue
				}
				base := nv
				if nv.Typ != nil && isSliceT(nv.Typ) && nv.Op == OpSlice {
					base = it.St.bytesOf(nv)
					f.elems = true
				}
				es := elemsIn(base)
				if len(es) != 1 {
					ok = false
					break
				}
				some = true
				v := es[0]
				if v.isNil() {
					kept[i] = False
				} else {
					kept[i] = True
					if v.Typ == nil || typeKey(v.Typ) != "[]byte" {
						ok = false
						break
					}
				}
			}
			if !ok || !some {
				continue
			}
			isFilter := false
			for _, k := range kept {
				if k == True {
					isFilter = true
				}
			}
			// is it about info_hash at all
			about := false
			for _, it := range l.Iters {
				for _, e := range eqFacts(it.St.facts) {
					about = about || strings.HasPrefix(e.k, hashKey[:9])
				}
				for t := range it.St.facts.bools {
					if t.Op == OpCall && t.Aux == "hasprefix" {
						if s, ok := t.Args[1].strConst(); ok && s == hashKey {
							about = true
						}
					}
				}
			}
			if !isFilter || !about {
				continue
			}
			for i, it := range l.Iters {
				ft := it.St.facts
				nv := it.Next[s]
				// the element the iteration looks at
				var v *Term
				if nv != s {
					base := nv
					if f.elems {
						base = it.St.bytesOf(nv)
					}
					v = elemsIn(base)[0]
				}
				elems := paramElems(l, it)
				good := false
				for _, e := range elems {
					p := hasHashPrefix(ft, e)
					if kept[i] == True && p == True && isRestSlice(ft, v, e, int64(len(hashKey))) {
						good = true
					}
					if kept[i] == False && p == False {
						good = true
					}
				}
				if !good && kept[i] == False && emptyElem(l, it) {
					good = true
				}
				if !good {
					c.bad("filter", l.ID, "-", map[Tri]string{True: "a parameter is kept as an info hash that is not known to be the value of info_hash", False: "a parameter is left out that is not known to be another than info_hash"}[kept[i]], it.Events)
				}
			}
			f.tallies = talliesOf(l, l.Iters, func(i int) bool { return kept[i] == True })
			c.visitsAll(l, "the info_hash filter")
			c.inst("info_hash filter", l.ID)
			out = append(out, f)
		}
	}
	return out
}

// paramElems: the elements of a parameter array an iteration of a loop reads.
func paramElems(l *LoopRec, it LoopIter) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	add := func(t *Term) {
		t.contains(func(t *Term) bool {
			if t.Op == OpSel && t.Typ != nil && typeKey(t.Typ) == "[]byte" && !seen[t] {
				for s := range l.Init {
					if t.Args[1].mentions(s) {
						seen[t] = true
						r = append(r, t)
						break
					}
				}
			}
			return false
		}, map[*Term]bool{})
	}
	for t := range it.St.facts.bools {
		add(t)
	}
	for _, g := range it.St.facts.ges {
		for _, x := range g.T {
			add(x.A)
		}
	}
	for _, v := range it.Next {
		if v != nil {
			add(v)
		}
	}
	return r
}

// visitsAll: the loop looks at every element of a sequence: an index starts at the first, is increased by one and
// the loop ends only when it has reached the end.
func (c *Check) visitsAll(l *LoopRec, what string) {
	for _, s := range sortedTerms(l.Init) {
		iv := l.Init[s]
		if s.Typ == nil || !isInt(s.Typ) || iv == nil {
			continue
		}
		first, ok := iv.intConst()
		if !ok {
			continue
		}
		step := true
		used := false
		var idx []Lin
		var lens []Lin
		for _, it := range l.Iters {
			if it.Next[s] == nil || !eqLin(it.St.facts, lin(it.Next[s]), lin(s).addC(1)) {
				step = false
				break
			}
			for _, e := range paramElems(l, it) {
				if e.Args[1].mentions(s) && eqLin(it.St.facts, lin(e.Args[1]), lin(s).addC(-first)) {
					used = true
					idx = append(idx, lin(e.Args[1]))
					lens = append(lens, seqLens(e.Args[0])...)
				}
			}
		}
		if !step || !used {
			continue
		}
		for _, x := range l.Exits {
			if x.st == nil {
				continue
			}
			done := false
			for i := range idx {
				for _, n := range lens {
					if x.st.facts.entails(idx[i].sub(n)) {
						done = true
					}
				}
			}
			if !done && !c.earlyFailure(x.st.facts, idx, lens) {
				c.bad("visits-all", l.ID, "-", what+" may end before all parameters were looked at", x.st.trace.since(l.HdrSt.trace))
			}
		}
		return
	}
	c.bad("visits-all", l.ID, "-", what+" does not visit the parameters one after the other", nil)
}

// earlyFailure: the loop is left because a value is not 20 bytes long.
func (c *Check) earlyFailure(f *Facts, idx, lens []Lin) bool {
	return len(not20(f)) > 0
}

func not20(f *Facts) []*Term {
	return termsOf(func(t *Term) bool {
		return t.Op == OpLen && t.Args[0].Op == OpSel && typeKey(t.Args[0].Typ) == "[]byte" && (f.entailsNeq(lin(t).addC(-20)) || f.entailsNeq(lin(t).addC(-30)))
	})
}

// seqLens: the length of a sequence of elements.
func seqLens(arr *Term) []Lin {
	if arr.Op == OpLoad && arr.Args[0].Op == OpBack {
		return []Lin{lin(lenT(arr.Args[0].Args[0]))}
	}
	if arr.Typ != nil {
		if a, ok := arr.Typ.Underlying().(*types.Array); ok {
			return []Lin{linC(a.Len())}
		}
	}
	return nil
}

func (c *Check) httpScrape() {
	answered, failed := 0, map[string]bool{}
	for _, r := range c.httpReqs(c.s) {
		if r.handled() != True || r.route() != "/scrape" || !r.isGet() {
			continue
		}
		evs := r.p.Evs
		for _, d := range r.db {
			if op := dbOp(d.Event); op != "HashStats" {
				c.badEv("read-only", d.Event, "a scrape calls "+op, evs)
			}
		}
		if len(r.writes) == 0 {
			continue
		}
		last := r.writes[len(r.writes)-1].Event
		st, body, ok := httpHead(r.response())
		if !ok || st != "200" {
			c.badEv("answered", last, "a scrape is not answered with status 200", evs)
			continue
		}
		loops := loopsOf(evs)
		ts, e := bencDict(r.f, mkConcat(body...), loops)
		if e != "" {
			c.badEv("files", last, "the body of a scrape is not a bencoded dictionary: "+e, evs)
			continue
		}
		fs := c.hashFilters(r, loops)
		if bencEntry(ts, "failure reason") != nil {
			why := ""
			for _, h := range fs {
				if h.none(r.f) {
					why = "none kept"
				}
			}
			if len(not20(r.f)) > 0 {
				why = "length"
			}
			if why == "" && len(fs) == 0 && noElems(r.f) {
				why = "none kept"
			}
			if why == "" {
				c.badEv("failure-reason", last, "a scrape is answered with a failure although every hash may be valid", evs)
			}
			failed[why] = true
			c.inst("scrape failure", why)
			continue
		}
		files := bencEntry(ts, "files")
		if len(files) == 0 {
			c.badEv("files", last, "a scrape is answered with neither files nor a failure", evs)
			continue
		}
		if len(files) != 3 || files[0].k != 'd' || files[1].k != 'L' || files[2].k != 'e' {
			c.badEv("files", last, fmt.Sprintf("the files dictionary is not built by one loop over the parameters: %v", files), evs)
			continue
		}
		answered++
		c.scrapeEntries(r, files[1], fs, last)
		counted := len(fs) == 0
		for _, h := range fs {
			if h.some(r.f) {
				counted = true
			}
		}
		if counted && len(fs) == 0 {
			counted = c.countedInLoop(r, files[1])
		}
		if !counted {
			c.badEv("no-hash", last, "a scrape may be answered with files although no info_hash was given", evs)
		}
	}
	if answered == 0 {
		c.bad("anchor", "scrape", "-", "no path answers a scrape with files", nil)
	}
	if !failed["length"] {
		c.bad("anchor", "scrape failures", "-", "no path refuses a hash that is not 20 bytes", nil)
	}
	if !failed["none kept"] {
		c.bad("anchor", "scrape failures", "-", "no path refuses a scrape without hashes", nil)
	}
}

// noElems: a count of entries is known to be zero.
func noElems(f *Facts) bool {
	return anyOf(termsOf(func(t *Term) bool {
		return t.Op == OpSym && t.Typ != nil && isInt(t.Typ) && strings.Contains(t.Aux, "#L")
	}), func(t *Term) bool { return f.entailsEq(lin(t)) })
}

// countedInLoop: without a filter, the answering path knows that the entry loop made an entry.
func (c *Check) countedInLoop(r *httpReq, t bTok) bool {
	for _, n := range talliesOf(t.loop, t.its, func(i int) bool { return len(t.iters[i]) > 0 }) {
		if some(r.f, n) {
			return true
		}
	}
	return false
}

// talliesOf: the variables of a loop that count, or note that there was, an iteration with a mark.
func talliesOf(l *LoopRec, its []LoopIter, marked func(int) bool) []*Term {
	var r []*Term
next:
	for _, n := range sortedTerms(l.Init) {
		iv := l.Init[n]
		if n.Typ == nil || iv == nil {
			continue
		}
		if isBoolT(n.Typ) {
			if b, ok := iv.boolConst(); !ok || b {
				continue
			}
		} else if !isInt(n.Typ) {
			continue
		} else if z, ok := iv.intConst(); !ok || z != 0 {
			continue
		}
		for i, it := range its {
			nv := it.Next[n]
			if nv == nil {
				continue next
			}
			f := it.St.facts
			if isBoolT(n.Typ) {
				if marked(i) && f.eval(nv) != True || !marked(i) && nv != n && (f.eval(nv) == Unknown || f.eval(nv) != f.eval(n)) {
					continue next
				}
				continue
			}
			d := int64(0)
			if marked(i) {
				d = 1
			}
			if !eqLin(f, lin(nv), lin(n).addC(d)) {
				continue next
			}
		}
		r = append(r, n)
	}
	return r
}

// none, some: a tally is known to have found nothing, or something.
func none(f *Facts, n *Term) bool {
	if isBoolT(n.Typ) {
		return f.eval(n) == False
	}
	return f.entailsEq(lin(n))
}

func some(f *Facts, n *Term) bool {
	if isBoolT(n.Typ) {
		return f.eval(n) == True
	}
	return f.entails(lin(n).addC(-1))
}

func (h *hashFilter) none(f *Facts) bool {
	for _, n := range h.tallies {
		if none(f, n) {
			return true
		}
	}
	return h.elems && f.entailsEq(lin(lenT(h.arr)))
}

func (h *hashFilter) some(f *Facts) bool {
	for _, n := range h.tallies {
		if some(f, n) {
			return true
		}
	}
	return h.elems && f.entails(lin(lenT(h.arr)).addC(-1))
}

func (c *Check) scrapeEntries(r *httpReq, t bTok, fs []*hashFilter, last *Event) {
	n := 0
	for i, it := range t.its {
		f := it.St.facts
		ts := t.iters[i]
		if len(ts) == 0 {
			if emptyElem(t.loop, it) {
				continue
			}
			known := false
			for _, e := range paramElems(t.loop, it) {
				known = known || hasHashPrefix(f, e) == False
			}
			if !known {
				c.badEv("every-hash", last, "an info_hash may get no entry", it.Events)
			}
			continue
		}
		n++
		if len(ts) != 7 || ts[0].k != 's' || ts[1].k != 'd' || ts[6].k != 'e' || ts[3].k != 'i' || ts[5].k != 'i' {
			c.badEv("entry", last, fmt.Sprintf("an entry is not a hash with the two counts: %v", ts), it.Events)
			continue
		}
		key := ts[0].t
		k1, _ := ts[2].t.strConst()
		k2, _ := ts[4].t.strConst()
		var st *Event
		for _, ev := range it.Events {
			if dbOp(ev) == "HashStats" {
				if st != nil {
					c.badEv("entry", ev, "counts are read twice for one entry", it.Events)
				}
				st = ev
			}
		}
		if st == nil {
			c.badEv("entry", last, "an entry is written without reading the counts", it.Events)
			continue
		}
		want := map[string]*Term{"complete": st.Res[0], "incomplete": st.Res[1]}
		if want[k1] == nil || want[k2] == nil || k1 == k2 || strip(ts[3].t) != strip(want[k1]) || strip(ts[5].t) != strip(want[k2]) {
			c.badEv("counts", last, fmt.Sprintf("the counts of an entry are not the torrent's complete and incomplete counts: %v", ts), it.Events)
		}
		if !sameBytes(f, st.Args[1], key) {
			c.badEv("same-hash", st, "the counts of "+trunc(st.Args[1].String(), 100)+" are reported for "+trunc(key.String(), 100), it.Events)
		}
		if !f.entailsEq(lin(lenOfBytes(key)).addC(-20)) {
			c.badEv("length-20", st, "a hash is looked up without knowing that it has 20 bytes", it.Events)
		}
		ok := false
		for _, e := range paramElems(t.loop, it) {
			if isRest(f, key, e, int64(len(hashKey))) && hasHashPrefix(f, e) == True {
				ok = true
			}
			if k := keyTermOf(f, e); k != nil && k.val == key && hasHashPrefix(f, e) == True {
				ok = true
			}
			if isWholeOf(f, key, e) {
				for _, h := range fs {
					if e.Args[0] == h.arr || e.Args[0].Op == OpLoad && e.Args[0].mentions(h.arr) {
						ok = true
					}
				}
			}
		}
		if !ok {
			c.badEv("requested-hash", st, "the hash looked up is "+trunc(key.String(), 160)+", not the value of an info_hash parameter", it.Events)
		}
		c.inst("scrape entry", trunc(key.String(), 120))
	}
	if n == 0 {
		c.badEv("every-hash", last, "no iteration makes an entry", nil)
	}
	c.visitsAll(t.loop, "the scrape loop")
}

// sameBytes: two contents are equal as far as the facts say.
func sameBytes(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	whole := func(x *Term) (*Term, Lin, Lin) {
		if x.Op == OpSub {
			return x.Args[0], lin(x.Args[1]), lin(x.Args[2])
		}
		return x, linC(0), lin(lenOfBytes(x))
	}
	x, o, n := whole(a)
	y, p, m := whole(b)
	return (x == y || x.String() == y.String()) && eqLin(f, o, p) && eqLin(f, n, m)
}

func keyTermOf(f *Facts, e *Term) *keyVal {
	for _, x := range eqFacts(f) {
		if k := keyTerm(f, x.x); k != nil && k.elem == e {
			return k
		}
	}
	return nil
}
