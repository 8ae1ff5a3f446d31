package main

// Queries the rules are written in: what a path received, sent, stored and knows.

import (
	"go/types"
	"strconv"
	"strings"
)

// strip removes integer conversions (and the wrap marker of arithmetic).
func strip(t *Term) *Term {
	for t != nil {
		switch {
		case (t.Op == OpConv || t.Op == OpWrap) && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == OpLin && t.L.C == 0 && len(t.L.T) == 1 && t.L.T[0].K == 1:
			t = t.L.T[0].A
		default:
			return t
		}
	}
	return t
}

// cfgPath names the configuration value a term was loaded from ("UDP.ConnDB.Validate"), or "".
func cfgPath(t *Term) string {
	t = strip(t)
	var a *Term
	var fs []string
	if t == nil {
		return ""
	}
	for t.Op == OpFieldVal { // field of a configuration section loaded as a whole
		if st := structOf(t.Args[0].Typ); st != nil && t.Idx < st.NumFields() {
			fs = append([]string{st.Field(t.Idx).Name()}, fs...)
		}
		t = t.Args[0]
	}
	if t.Op != OpLoad {
		return ""
	}
	a = t.Args[0]
	for a.Op == OpField {
		fs = append([]string{fieldName(a)}, fs...)
		a = a.Args[0]
	}
	if a.Op == OpLoad && a.Args[0].Op == OpGlobal {
		a = a.Args[0]
	}
	if a.Op != OpGlobal || !strings.Contains(a.Aux, "/config.") {
		return ""
	}
	nm := a.Aux[strings.LastIndex(a.Aux, ".")+1:]
	if nm != "Config" {
		fs = append([]string{nm}, fs...)
	}
	return strings.Join(fs, ".")
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// cfgTerms gives the terms of a fact set or event list that stand for a configuration value.
func isCfg(t *Term, path string) bool { return cfgPath(t) == path }

func termsOf(f func(*Term) bool) []*Term {
	var r []*Term
	for _, t := range in.m {
		if f(t) {
			r = append(r, t)
		}
	}
	return r
}

// decs gives the terms that stand for the n-byte integer at offset pos of a content.
func decs(data *Term, pos int64, n int) []*Term {
	p := mkInt(pos)
	return termsOf(func(t *Term) bool {
		if t.Op == OpDec && len(t.Args) == 2 && t.Args[0] == data && t.Args[1] == p && intSize(t.Typ) == n {
			return n == 1 || strings.HasPrefix(t.Aux, "BE")
		}
		return n == 1 && t.Op == OpSel && t.Args[0] == data && t.Args[1] == p
	})
}

func anyOf(ts []*Term, f func(*Term) bool) bool {
	for _, t := range ts {
		if f(t) {
			return true
		}
	}
	return false
}

// withConvs adds the conversions of the terms that appear in the analysis.
func withConvs(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	for _, t := range ts {
		seen[t] = true
	}
	r := ts
	for _, t := range termsOf(func(t *Term) bool { return (t.Op == OpConv || t.Op == OpWrap) && seen[strip(t)] }) {
		r = append(r, t)
	}
	return r
}

func eqConst(f *Facts, ts []*Term, v int64) bool {
	return anyOf(ts, func(t *Term) bool { return f.entailsEq(lin(t).addC(-v)) })
}
func neqConst(f *Facts, ts []*Term, v int64) bool {
	return anyOf(ts, func(t *Term) bool { return f.entailsNeq(lin(t).addC(-v)) })
}
func geConst(f *Facts, ts []*Term, v int64) bool {
	return anyOf(ts, func(t *Term) bool { return f.entails(lin(t).addC(-v)) })
}
func leConst(f *Facts, ts []*Term, v int64) bool {
	return anyOf(ts, func(t *Term) bool { return f.entails(lin(t).neg().addC(v)) })
}

// forBool calls g for each truth value a condition may have.
func forBool(f *Facts, c *Term, g func(f *Facts, v bool)) {
	if b, ok := c.boolConst(); ok {
		g(f, b)
		return
	}
	switch f.eval(c) {
	case True:
		g(f, true)
		return
	case False:
		g(f, false)
		return
	}
	for _, v := range []bool{true, false} {
		n := f.clone()
		if n.assume(c, v) {
			g(n, v)
		}
	}
}

// dbOp gives the torrent database operation of an event, or "".
func dbOp(ev *Event) string {
	if ev.Kind == "call" && strings.HasPrefix(ev.Name, "storage.Database.") {
		return strings.TrimPrefix(ev.Name, "storage.Database.")
	}
	return ""
}

type inLoop struct {
	*Event
	Loop *LoopRec
}

func collect(evs []*Event, f func(ev *Event) bool) []inLoop {
	var r []inLoop
	deep(evs, func(ev *Event, l *LoopRec) {
		if f(ev) {
			r = append(r, inLoop{ev, l})
		}
	})
	return r
}

func index(evs []*Event, ev *Event) int {
	for i, e := range evs {
		if e == ev {
			return i
		}
	}
	return -1
}

// injective reports whether a term determines every leaf it is made from:
// it is built from loads of fields of base by conversions that lose nothing.
// It returns the names of the fields used.
func fieldsUsed(t, base *Term, lossless func(*Term) bool) (map[string]bool, bool) {
	used := map[string]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.Op == OpLoad && t.Args[0].Op == OpField && t.Args[0].Args[0] == base {
			used[fieldName(t.Args[0])] = true
			return true
		}
		if t.Op == OpConst {
			return true
		}
		if t.Op == OpCall && len(t.Args) == 1 && t.Args[0] == base && (t.Aux == "ap.addr" || t.Aux == "ap.port") {
			used[map[string]string{"ap.addr": "IP", "ap.port": "Port"}[t.Aux]] = true
			return true
		}
		if t == base && typeKey(t.Typ) == "net/netip.AddrPort" {
			used["IP"], used["Port"] = true, true
			return true
		}
		if t.Op == OpLoad && t.Args[0].Op == OpBack {
			return walk(t.Args[0].Args[0])
		}
		if t.Op == OpLin {
			for _, x := range t.L.T {
				if !walk(x.A) {
					return false
				}
			}
			return true
		}
		if t.Op == OpLen || t.Op == OpConv && intSize(t.Typ) >= 2 || lossless(t) {
			for _, a := range t.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	return used, walk(t)
}

// addrOf: the term is an address built from base's fields without loss.
func addrOf(t, base *Term) (map[string]bool, bool) {
	return fieldsUsed(t, base, func(t *Term) bool {
		if t.Op == OpCall {
			switch t.Aux {
			case "addrport", "unmap", "addrfrom", "ap.addr", "ap.port":
				return true
			}
		}
		// a slice of the address bytes from its first byte to its last
		if t.Op == OpSub {
			z, ok := t.Args[1].intConst()
			return ok && z == 0 && t.Args[2].Op == OpLen
		}
		return false
	})
}

// piece gives n bytes of a content from off.
func piece(f *Facts, c *Term, off, n int64) *Term { return mkSub(f, c, linC(off), linC(n)) }

// encodes reports whether c is the big-endian encoding of the value v (up to integer conversions that keep its n low bytes).
func encodes(c, v *Term, n int) bool {
	v = strip(v)
	if c.Op == OpConcat && len(c.Args) == n && n > 1 { // byte by byte
		for i, b := range c.Args {
			if b.Op != OpEnc || b.Idx != 1 || len(b.Args) != 1 {
				return false
			}
			x, k := strip(b.Args[0]), int64(8*(n-1-i))
			if k > 0 {
				if x.Op != OpBin || x.Aux != ">>" {
					return false
				}
				if y, ok := x.Args[1].intConst(); !ok || y != k {
					return false
				}
				x = strip(x.Args[0])
			}
			if x != v {
				return false
			}
		}
		return true
	}
	if c.Op == OpEnc && len(c.Args) == 1 && c.Idx == n && (n == 1 || strings.HasPrefix(c.Aux, "BE")) && strip(c.Args[0]) == v {
		return true
	}
	if v.Op == OpDec && len(v.Args) == 2 && c.Op == OpSub && strings.HasPrefix(v.Aux, "BE") {
		l, ok := c.Args[2].intConst()
		return ok && int(l) == n && intSize(v.Typ) == n && c.Args[0] == v.Args[0] && c.Args[1] == v.Args[1]
	}
	if k, ok := v.intConst(); ok {
		e := mkEnc("BE", n, mkInt(k), types.Typ[types.Int64])
		return e == c
	}
	return false
}

// accum describes a header symbol that collects content: what each iteration appends.
type accum struct {
	Sym     *Term
	Init    *Term
	Header  *Term
	PerIter []*Term // nil: nothing appended
}

func (l *LoopRec) headerContent(s *Term) *Term {
	if s.Typ != nil && isSliceT(s.Typ) {
		return l.HdrSt.bytesOf(s)
	}
	return s
}

func (l *LoopRec) accum(s *Term) *accum {
	a := &accum{Sym: s, Header: l.headerContent(s)}
	if iv := l.Init[s]; iv != nil {
		if s.Typ != nil && isSliceT(s.Typ) {
			a.Init = l.Entry.bytesOf(iv)
		} else {
			a.Init = iv
		}
	}
	for _, it := range l.Iters {
		nv := it.Next[s]
		if nv == nil {
			return nil
		}
		nc := nv
		if s.Typ != nil && isSliceT(s.Typ) {
			nc = it.St.bytesOf(nv)
		}
		if nc == a.Header {
			a.PerIter = append(a.PerIter, nil)
			continue
		}
		ps := concatParts(nc)
		if len(ps) < 2 || ps[0] != a.Header {
			return nil
		}
		a.PerIter = append(a.PerIter, mkConcat(ps[1:]...))
	}
	return a
}

// fill describes a header content that is filled in place, piece after piece:
// what each iteration writes behind the position At, which starts at From.
type fill struct {
	Init     *Term
	From, At Lin
	PerIter  []*Term // nil: nothing written
}

func (l *LoopRec) fill(s *Term) *fill {
	if l.Cell[s] == nil || l.Init[s] == nil {
		return nil
	}
	r := &fill{Init: l.Init[s]}
	pos := false
	for _, it := range l.Iters {
		nv := it.Next[s]
		if nv == nil {
			return nil
		}
		var ups []*Term
		for nv.Op == OpUpd {
			ups = append(ups, nv)
			nv = nv.Args[0]
		}
		if nv != s {
			return nil
		}
		if len(ups) == 0 {
			r.PerIter = append(r.PerIter, nil)
			continue
		}
		// the updates cover one stretch
		f := it.St.facts
		used := make([]bool, len(ups))
		start := -1
		for i, u := range ups {
			first := true
			for j, w := range ups {
				if j != i && !f.entails(lin(w.Args[1]).sub(lin(u.Args[1])).sub(lin(u.Args[2]))) {
					first = false
				}
			}
			if first {
				start = i
			}
		}
		if start < 0 {
			return nil
		}
		at := lin(ups[start].Args[1])
		cur := at
		var ps []*Term
		for range ups {
			hit := false
			for i, u := range ups {
				if !used[i] && f.entailsEq(lin(u.Args[1]).sub(cur)) {
					used[i], hit = true, true
					ps = append(ps, u.Args[3])
					cur = cur.add(lin(u.Args[2]))
					break
				}
			}
			if !hit {
				return nil
			}
		}
		if !pos {
			pos, r.At, r.From = true, at, substLinMap(at, l.Init)
		}
		if !f.entailsEq(at.sub(r.At)) || !f.entailsEq(substLinMap(at, it.Next).sub(cur)) {
			return nil
		}
		r.PerIter = append(r.PerIter, mkConcat(ps...))
	}
	if !pos {
		return nil
	}
	for i, it := range l.Iters {
		if r.PerIter[i] == nil && !it.St.facts.entailsEq(substLinMap(r.At, it.Next).sub(r.At)) {
			return nil
		}
	}
	return r
}

// copied: every iteration writes the element of one sequence x that is k after the position it writes to.
func (r *fill) copied(header map[*Term]*Term) (x *Term, k int64, ok bool) {
	for _, p := range r.PerIter {
		if p == nil {
			continue
		}
		if p.Op == OpEnc && p.Idx == 1 && len(p.Args) == 1 || p.Op == OpElemV {
			p = p.Args[0]
		}
		if p.Op != OpSel || x != nil && p.Args[0] != x {
			return nil, 0, false
		}
		d := lin(p.Args[1]).sub(r.At)
		if !d.isConst() || x != nil && d.C != k {
			return nil, 0, false
		}
		x, k = p.Args[0], d.C
	}
	if x == nil || x.contains(func(t *Term) bool { _, is := header[t]; return is }, map[*Term]bool{}) {
		return nil, 0, false
	}
	return x, k, true
}

// substNext rewrites header symbols to their values at the back edge (or at entry).
func substLinMap(x Lin, m map[*Term]*Term) Lin {
	memo := map[*Term]*Term{}
	t := subst(mkLin(x), func(t *Term) *Term { return m[t] }, memo)
	return lin(t)
}

func itoa(i int64) string { return strconv.FormatInt(i, 10) }
