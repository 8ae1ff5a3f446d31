package main

// The numeric/boolean fact domain: conjunctions of linear inequalities over
// value terms, disequalities and boolean atoms. Entailment is by
// Fourier-Motzkin projection (the polyhedra domain), bounded; unknown = "not entailed".

import (
	"go/types"
	"sort"
	"strings"
)

type Facts struct {
	ges   []Lin // each >= 0
	neqs  []Lin // each != 0
	bools map[*Term]bool
	attrs map[*Term]string // "domain:value" facts about byte contents
	share bool
	memo  map[LKey]bool
	up    *Facts // an ancestor: whatever it entails is entailed here
	geH   []LKey
	neqH  []LKey // fingerprints of neqs and of their negations, alternating
}

func newFacts() *Facts {
	return &Facts{bools: map[*Term]bool{}, attrs: map[*Term]string{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{ges: f.ges[:len(f.ges):len(f.ges)], geH: f.geH[:len(f.geH):len(f.geH)], neqH: f.neqH[:len(f.neqH):len(f.neqH)], neqs: f.neqs[:len(f.neqs):len(f.neqs)], bools: make(map[*Term]bool, len(f.bools)+4), attrs: make(map[*Term]string, len(f.attrs))}
	if f.share {
		n.up = f
	}
	for k, v := range f.bools {
		n.bools[k] = v
	}
	for k, v := range f.attrs {
		n.attrs[k] = v
	}
	return n
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normGE divides by the gcd of the coefficients with integer tightening.
func normGE(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	r := Lin{C: floorDiv(l.C, g)}
	for _, t := range l.T {
		r.T = append(r.T, LT{t.A, t.K / g})
	}
	return r
}

func (f *Facts) addGE(l Lin) {
	l = normGE(l)
	if l.isConst() {
		return
	}
	k := l.hkey()
	if f.hasGE(k) {
		return
	}
	f.memo = nil
	f.geH = append(f.geH, k)
	f.ges = append(f.ges, l)
	// sharpen disequalities: x>=0 and x!=0 gives x>=1
	for _, n := range f.neqH {
		if n == k {
			f.addGE(l.addC(-1))
			return
		}
	}
}

func (f *Facts) hasGE(k LKey) bool {
	for i := range f.geH {
		if f.geH[i] == k {
			return true
		}
	}
	return false
}

func (f *Facts) addNEQ(l Lin) {
	if l.isConst() {
		return
	}
	k := l.hkey()
	for _, n := range f.neqH {
		if n == k {
			return
		}
	}
	f.pushNEQ(l)
	if f.entails(l) {
		f.addGE(l.addC(-1))
	} else if f.entails(l.neg()) {
		f.addGE(l.neg().addC(-1))
	}
}

func (f *Facts) pushNEQ(l Lin) {
	f.neqs = append(f.neqs, l)
	f.neqH = append(f.neqH, l.hkey(), l.neg().hkey())
}

// atomFacts gives the inequalities every value of an atom satisfies.
func atomFacts(a *Term) []Lin {
	var r []Lin
	la := lin(a)
	switch a.Op {
	case OpLen:
		r = append(r, la)
		x := a.Args[0]
		if x.Typ != nil {
			if _, ok := x.Typ.Underlying().(*types.Slice); ok {
				r = append(r, lin(mk(OpCap, intTyp, "", x)).sub(la))
			}
		}
		return r
	case OpCap:
		r = append(r, la)
		x := a.Args[0]
		if x.Typ != nil && isSliceT(x.Typ) {
			r = append(r, la.sub(lin(lenT(x))))
		}
		return r
	case OpMapLen:
		return append(r, la)
	case OpSym:
		if strings.HasPrefix(a.Aux, "init:") && a.Typ != nil && isInt(a.Typ) {
			r = append(r, la) // configured limits are not negative
		}
	case OpCall:
		switch a.Aux {
		case "min":
			r = append(r, lin(a.Args[0]).sub(la), lin(a.Args[1]).sub(la))
		case "max":
			r = append(r, la.sub(lin(a.Args[0])), la.sub(lin(a.Args[1])))
		case "nonneg":
			r = append(r, la)
		}
	case OpBin:
		if a.Aux == "&" {
			for _, x := range a.Args {
				if c, ok := x.intConst(); ok && c >= 0 {
					r = append(r, la, linC(c).sub(la))
				}
			}
		}
	}
	if lo, hi, hl, hh, ok := intRange(a.Typ); ok {
		if hl {
			r = append(r, la.addC(-lo))
		}
		if hh {
			r = append(r, linC(hi).sub(la))
		}
	}
	return r
}

const maxRel = 90
const maxFM = 700

// entails reports whether l >= 0 follows.
func (f *Facts) entails(l Lin) bool {
	l = normGE(l)
	if l.isConst() {
		return l.C >= 0
	}
	k := l.hkey()
	if f.hasGE(k) {
		return true
	}
	if r, ok := f.memo[k]; ok {
		return r
	}
	for p, n := f.up, 0; p != nil && n < 12; p, n = p.up, n+1 {
		if p.memo[k] {
			return true
		}
	}
	r := f.infeasible(l.neg().addC(-1))
	if f.memo == nil {
		f.memo = map[LKey]bool{}
	}
	f.memo[k] = r
	return r
}

func (f *Facts) entailsEq(l Lin) bool { return f.entails(l) && f.entails(l.neg()) }

func (f *Facts) entailsNeq(l Lin) bool {
	if l.isConst() {
		return l.C != 0
	}
	k1 := l.hkey()
	for _, n := range f.neqH {
		if n == k1 {
			return true
		}
	}
	if f.entails(l.addC(-1)) || f.entails(l.neg().addC(-1)) {
		return true
	}
	// v+k (wrapping) differs from c exactly if v differs from c-k
	if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) && l.T[0].A.Op == OpWrap {
		w := l.T[0].A
		x := lin(w.Args[0])
		c := -l.C * l.T[0].K
		if len(x.T) == 1 && x.T[0].K == 1 && x.T[0].A.Typ != nil && types.Identical(x.T[0].A.Typ.Underlying(), w.Typ.Underlying()) {
			if lo, hi, hl, hh, ok := intRange(w.Typ); ok && hl && hh {
				if c < lo || c > hi {
					return true
				}
				if v, ok := wrapConst(c-x.C, w.Typ); ok {
					return f.entailsNeq(Lin{T: []LT{{x.T[0].A, 1}}}.addC(-v))
				}
			}
		}
	}
	return false
}

// infeasible reports whether facts and extra >= 0 are contradictory.
func (f *Facts) infeasible(extra Lin) bool {
	cons := make([]Lin, 1, 48)
	cons[0] = extra
	keys := make([]LKey, 1, 48)
	keys[0] = extra.hkey()
	atoms := make([]*Term, 0, 32)
	addAtoms := func(l Lin) {
	next:
		for _, t := range l.T {
			for _, a := range atoms {
				if a == t.A {
					continue next
				}
			}
			atoms = append(atoms, t.A)
		}
	}
	add := func(l Lin, k LKey) {
		if l.isConst() && l.C >= 0 {
			return
		}
		for _, x := range keys {
			if x == k {
				return
			}
		}
		keys = append(keys, k)
		cons = append(cons, l)
		addAtoms(l)
	}
	addAtoms(extra)
	used := make([]bool, len(f.ges))
	for q := 0; q < len(atoms) && len(cons) < maxRel; q++ {
		a := atoms[q]
		for _, l := range atomFactsMemo(a) {
			add(l.l, l.k)
		}
		for i, l := range f.ges {
			if used[i] {
				continue
			}
			if l.coef(a) != 0 {
				used[i] = true
				add(l, f.geH[i])
				if len(cons) >= maxRel {
					break
				}
			}
		}
	}
	var mk LKey
	for _, h := range keys {
		mk[0] += mix(h[0])
		mk[1] += mix(h[1] ^ h[0])
	}
	if r, ok := fmMemo[mk]; ok {
		return r
	}
	r := fmInfeasible(cons)
	fmMemo[mk] = r
	return r
}

var fmMemo = map[LKey]bool{}

type keyed struct {
	l Lin
	k LKey
}

var atomMemo = map[*Term][]keyed{}

func atomFactsMemo(a *Term) []keyed {
	if r, ok := atomMemo[a]; ok {
		return r
	}
	var r []keyed
	for _, l := range atomFacts(a) {
		l = normGE(l)
		r = append(r, keyed{l, l.hkey()})
	}
	atomMemo[a] = r
	return r
}

func fmInfeasible(cons []Lin) bool {
	for {
		// constants
		vars := map[*Term][2]int{}
		out := cons[:0:0]
		for _, l := range cons {
			if l.isConst() {
				if l.C < 0 {
					return true
				}
				continue
			}
			out = append(out, l)
			for _, t := range l.T {
				v := vars[t.A]
				if t.K > 0 {
					v[0]++
				} else {
					v[1]++
				}
				vars[t.A] = v
			}
		}
		cons = out
		if len(cons) == 0 {
			return false
		}
		// pick the cheapest variable (deterministically)
		var best *Term
		bestCost := 1 << 30
		ids := make([]*Term, 0, len(vars))
		for a := range vars {
			ids = append(ids, a)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].ID < ids[j].ID })
		for _, a := range ids {
			v := vars[a]
			if c := v[0]*v[1] - v[0] - v[1]; c < bestCost {
				best, bestCost = a, c
			}
		}
		var pos, neg, rest []Lin
		for _, l := range cons {
			switch k := l.coef(best); {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(pos)*len(neg)+len(rest) > maxFM {
			return false
		}
		seen := make(map[LKey]bool, len(rest)+len(pos)*len(neg))
		for _, l := range rest {
			seen[l.hkey()] = true
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.coef(best), -n.coef(best)
				g := gcd(kp, kn)
				if big(p, kn/g) || big(n, kp/g) {
					continue
				}
				r := normGE(p.scale(kn / g).add(n.scale(kp / g)))
				if r.isConst() {
					if r.C < 0 {
						return true
					}
					continue
				}
				if k := r.hkey(); !seen[k] {
					seen[k] = true
					rest = append(rest, r)
				}
			}
		}
		cons = rest
	}
}

// big guards against overflow of the int64 coefficients; dropping a constraint is sound.
func big(l Lin, k int64) bool {
	const lim = 1 << 52
	if k > lim || k < -lim {
		return true
	}
	ok := func(x int64) bool {
		if x < 0 {
			x = -x
		}
		return k == 0 || x <= lim/abs64(k)
	}
	if !ok(l.C) {
		return true
	}
	for _, t := range l.T {
		if !ok(t.K) {
			return true
		}
	}
	return false
}
func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

type Tri int

const (
	Unknown Tri = iota
	True
	False
)

func tri(b bool) Tri {
	if b {
		return True
	}
	return False
}

func (f *Facts) eval(c *Term) Tri {
	if b, ok := c.boolConst(); ok {
		return tri(b)
	}
	if b, ok := f.bools[c]; ok {
		return tri(b)
	}
	switch c.Op {
	case OpNot:
		switch f.eval(c.Args[0]) {
		case True:
			return False
		case False:
			return True
		}
	case OpGE:
		l := lin(c.Args[0])
		if f.entails(l) {
			return True
		}
		if f.entails(l.neg().addC(-1)) {
			return False
		}
	case OpEQZ:
		l := lin(c.Args[0])
		if f.entailsNeq(l) {
			return False
		}
		if f.entailsEq(l) {
			return True
		}
	case OpEq:
		return f.evalEq(c.Args[0], c.Args[1])
	case OpCall:
		if x := ofError(c); x != nil && f.eval(mkEq(x, nilT)) == True {
			return False
		}
	}
	return Unknown
}

// ofError: the term says that an error is of a kind; nil is not.
func ofError(c *Term) *Term {
	switch c.Aux {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		if len(c.Args) > 0 {
			return c.Args[0]
		}
	}
	return nil
}

func nonNilTerm(t *Term) bool {
	switch t.Op {
	case OpAlloc, OpGlobal, OpFunc, OpClosure, OpIface, OpField, OpElem:
		return true
	case OpSlice:
		return nonNilTerm(t.Args[0])
	case OpCall:
		return t.Aux == "nonnil"
	case OpSym:
		return t.NN
	}
	return false
}

func (f *Facts) evalEq(a, b *Term) Tri {
	if a == b {
		return True
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		if nonNilTerm(a) {
			return False
		}
		return Unknown
	}
	if a.Op == OpConst && b.Op == OpConst {
		return False
	}
	if a.Op == OpConst {
		a, b = b, a
	}
	if b.Op == OpConst {
		// known equal to another constant?
		for k, v := range f.bools {
			if v && k.Op == OpEq {
				var o *Term
				if k.Args[0] == a {
					o = k.Args[1]
				} else if k.Args[1] == a {
					o = k.Args[0]
				}
				if o != nil && o.Op == OpConst && o != b {
					return False
				}
			}
		}
		if s, ok := b.strConst(); ok {
			l := lenOfBytes(a)
			if f.entailsNeq(lin(l).addC(-int64(len(s)))) {
				return False
			}
		}
	}
	if isBoolT2(a.Typ) || isBoolT2(b.Typ) {
		if x, y := f.eval(a), f.eval(b); x != Unknown && y != Unknown {
			return tri(x == y)
		}
	}
	if a.Op == OpAlloc && b.Op == OpAlloc {
		return False
	}
	if a.Op == OpIface && b.Op == OpIface && a.Aux != b.Aux {
		return False
	}
	return Unknown
}

// assume adds c == v; it returns false if that is contradictory.
// unwrap: a sum v+k that may wrap around is the mathematical one when it is
// known to be outside the values wrapping can give.
func (f *Facts) unwrap(l Lin) {
	for _, a := range l.T {
		w := a.A
		if w.Op != OpWrap {
			continue
		}
		x := lin(w.Args[0])
		lo, hi, hl, hh, ok := intRange(w.Typ)
		if !ok || !hl || !hh || len(x.T) != 1 || x.T[0].K != 1 || x.T[0].A.Typ == nil || !types.Identical(x.T[0].A.Typ.Underlying(), w.Typ.Underlying()) {
			continue
		}
		k := x.C
		if k >= hi-lo || -k >= hi-lo {
			continue
		}
		if k < 0 && f.entails(linC(hi+k).sub(lin(w))) || k > 0 && f.entails(lin(w).addC(-lo-k)) {
			f.addGE(lin(w).sub(x))
			f.addGE(x.sub(lin(w)))
		}
	}
}

func (f *Facts) assume(c *Term, v bool) bool {
	switch f.eval(c) {
	case True:
		return v
	case False:
		return !v
	}
	switch c.Op {
	case OpNot:
		return f.assume(c.Args[0], !v)
	case OpGE:
		l := lin(c.Args[0])
		if v {
			f.addGE(l)
		} else {
			f.addGE(l.neg().addC(-1))
		}
		f.unwrap(l)
		return true
	case OpEQZ:
		l := lin(c.Args[0])
		if v {
			f.addGE(l)
			f.addGE(l.neg())
			f.unwrap(l)
		} else {
			f.addNEQ(l)
		}
		return true
	}
	f.bools[c] = v
	if c.Op == OpCall && v {
		if x := ofError(c); x != nil {
			return f.assume(mkEq(x, nilT), false)
		}
	}
	// equalities of truth values
	var pairs [][2]*Term
	for k, w := range f.bools {
		if k.Op != OpEq || !isBoolT2(k.Args[0].Typ) && !isBoolT2(k.Args[1].Typ) {
			continue
		}
		for i, x := range k.Args {
			if k == c || x == c || x.Op == OpNot && x.Args[0] == c {
				y := k.Args[1-i]
				if !w {
					y = mkNot(y)
				}
				pairs = append(pairs, [2]*Term{x, y})
			}
		}
	}
	for _, q := range pairs {
		if t := f.eval(q[0]); t != Unknown && !f.assume(q[1], t == True) {
			return false
		}
	}
	if c.Op == OpEq {
		a, b := c.Args[0], c.Args[1]
		if a.Op == OpConst {
			a, b = b, a
		}
		if s, ok := b.strConst(); ok {
			l := lin(lenOfBytes(a)).addC(-int64(len(s)))
			if v {
				f.addGE(l)
				f.addGE(l.neg())
			} else if s == "" {
				f.addNEQ(l)
			}
		}
		if b.isNil() && v && a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Slice); ok {
				l := lin(mk(OpLen, intTyp, "", a))
				f.addGE(l.neg())
			}
		}
	}
	return true
}
