package main

// Symbolic bencoding: is a content one complete bencoded dictionary?

import (
	"fmt"
	"strings"
)

type bTok struct {
	k     byte     // d l e i s, r: an element copied whole, L: a loop that appends
	t     *Term    // the content of a string, the value of a number
	iters [][]bTok // L: the tokens each iteration appends
	loop  *LoopRec
	its   []LoopIter
}

func (t bTok) String() string {
	s := string(t.k)
	if t.t != nil {
		s += " " + trunc(t.t.String(), 200)
	}
	if t.k == 'L' {
		s += fmt.Sprint(t.iters)
	}
	return s
}

type bRead struct {
	f     *Facts
	parts []*Term
	s     string // rest of a constant part
	loops []*LoopRec
	toks  []bTok
	err   string
}

func (b *bRead) more() bool {
	for b.s == "" && len(b.parts) > 0 {
		s, ok := b.parts[0].strConst()
		if !ok {
			return true
		}
		b.s, b.parts = s, b.parts[1:]
	}
	return b.s != "" || len(b.parts) > 0
}

func (b *bRead) fail(f string, a ...any) bool {
	if b.err == "" {
		b.err = fmt.Sprintf(f, a...)
	}
	return false
}

// bencTokens reads a content as a sequence of bencoding tokens.
func bencTokens(f *Facts, c *Term, loops []*LoopRec) ([]bTok, string) {
	b := &bRead{f: f, parts: concatParts(c), loops: loops}
	for b.more() && b.token() {
	}
	return b.toks, b.err
}

func (b *bRead) emit(k byte, t *Term) bool {
	b.toks = append(b.toks, bTok{k: k, t: t})
	return true
}

func (b *bRead) token() bool {
	if b.s == "" {
		p := b.parts[0]
		if p.Op == OpNumText { // a computed length
			b.parts = b.parts[1:]
			return b.str(lin(p.Args[0]))
		}
		if e := wholeElem(b.f, p); e != nil {
			b.parts = b.parts[1:]
			return b.emit('r', e)
		}
		return b.acc(p)
	}
	ch := b.s[0]
	switch {
	case ch == 'd' || ch == 'l' || ch == 'e':
		b.s = b.s[1:]
		return b.emit(ch, nil)
	case ch == 'i':
		b.s = b.s[1:]
		if b.s == "" && len(b.parts) > 0 && b.parts[0].Op == OpNumText {
			v := b.parts[0].Args[0]
			b.parts = b.parts[1:]
			b.more()
			if !strings.HasPrefix(b.s, "e") {
				return b.fail("a number is not ended by e")
			}
			b.s = b.s[1:]
			return b.emit('i', v)
		}
		i := strings.IndexByte(b.s, 'e')
		if i < 1 || !isNum(b.s[:i]) {
			return b.fail("a number is not text of digits: %.20q", b.s)
		}
		var n int64
		fmt.Sscan(b.s[:i], &n)
		b.s = b.s[i+1:]
		return b.emit('i', mkInt(n))
	case ch >= '0' && ch <= '9':
		i := 0
		for i < len(b.s) && b.s[i] >= '0' && b.s[i] <= '9' {
			i++
		}
		var n int64
		fmt.Sscan(b.s[:i], &n)
		if i > 1 && b.s[0] == '0' {
			return b.fail("a length with leading zero")
		}
		b.s = b.s[i:]
		return b.str(linC(n))
	}
	return b.fail("unexpected byte %q", ch)
}

// wholeElem: the part is all bytes of an element of a slice of slices.
func wholeElem(f *Facts, p *Term) *Term {
	if p.Op != OpSub || p.Args[0].Op != OpLoad || p.Args[0].Args[0].Op != OpBack {
		return nil
	}
	e := p.Args[0].Args[0].Args[0]
	if (e.Op == OpSel || e.Op == OpLoad) && isWholeOf(f, p, e) {
		return e
	}
	return nil
}

func isNum(s string) bool {
	s = strings.TrimPrefix(s, "-")
	if s == "" || len(s) > 1 && s[0] == '0' {
		return false
	}
	for i := range s {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// str reads ":" and a string of the given length.
func (b *bRead) str(n Lin) bool {
	b.more()
	if !strings.HasPrefix(b.s, ":") {
		return b.fail("a length is not followed by a colon")
	}
	b.s = b.s[1:]
	var got []*Term
	for !b.f.entailsEq(n) {
		if !b.more() {
			return b.fail("a string is %s bytes shorter than its length", n.String())
		}
		if b.s != "" {
			k := int64(len(b.s))
			if n.isConst() && n.C < k {
				k = n.C
			}
			if k < 0 {
				return b.fail("a string is longer than its length")
			}
			got = append(got, mkStr(b.s[:k]))
			b.s = b.s[k:]
			n = n.addC(-k)
			continue
		}
		p := b.parts[0]
		l := lin(lenOfBytes(p))
		if n.isConst() && !b.f.entails(n.sub(l)) {
			return b.fail("a string of length %s holds %s", n.String(), p.String())
		}
		b.parts = b.parts[1:]
		got = append(got, p)
		n = n.sub(l)
	}
	return b.emit('s', mkConcat(got...))
}

// acc reads what a loop built.
func (b *bRead) acc(p *Term) bool {
	for _, l := range b.loops {
		for s := range l.Init {
			if l.headerContent(s) != p {
				continue
			}
			if k := l.constContent(s); k != nil {
				if sv, ok := k.strConst(); ok {
					b.parts = b.parts[1:]
					b.s = sv
					if sv == "" {
						return true
					}
					return b.token()
				}
			}
			a := l.accum(s)
			if a == nil || a.Init == nil {
				return b.fail("a loop builds %s in a way that is not appending", p.String())
			}
			init, e := bencTokens(l.Entry.facts, a.Init, b.loops)
			if e != "" {
				return b.fail("%s", e)
			}
			b.toks = append(b.toks, init...)
			t := bTok{k: 'L', loop: l}
			for i, it := range l.Iters {
				var ts []bTok
				if x := a.PerIter[i]; x != nil {
					if ts, e = bencTokens(it.St.facts, x, append(loopsOf(it.Events), b.loops...)); e != "" {
						return b.fail("in a loop: %s", e)
					}
				}
				t.iters = append(t.iters, ts)
				t.its = append(t.its, it)
			}
			b.toks = append(b.toks, t)
			b.parts = b.parts[1:]
			return true
		}
	}
	return b.fail("bytes that are not bencoding: %s", trunc(p.String(), 120))
}

// bencState runs tokens over a nesting state. Each level is 'k' (dictionary, key next), 'v' (dictionary, value next) or 'l'.
func bencState(st string, ts []bTok) (string, string) {
	value := func() string {
		if st == "" {
			return ""
		}
		switch st[len(st)-1] {
		case 'v':
			st = st[:len(st)-1] + "k"
		case 'k':
			return "a value where a key is expected"
		case '$':
			return "something follows the end of the dictionary"
		}
		return ""
	}
	for _, t := range ts {
		if st == "" && t.k != 'd' {
			return st, "the body is not a dictionary"
		}
		switch t.k {
		case 's':
			if st[len(st)-1] == 'k' {
				st = st[:len(st)-1] + "v"
				continue
			}
			if e := value(); e != "" {
				return st, e
			}
		case 'i', 'r':
			if e := value(); e != "" {
				return st, e
			}
		case 'd', 'l':
			if e := value(); e != "" {
				return st, e
			}
			if t.k == 'd' {
				st += "k"
			} else {
				st += "l"
			}
		case 'e':
			switch st[len(st)-1] {
			case 'v':
				return st, "a dictionary is closed after a key without value"
			case '$':
				return st, "something follows the end of the dictionary"
			}
			st = st[:len(st)-1]
			if st == "" {
				st = "$"
			}
		case 'L':
			for _, it := range t.iters {
				s2, e := bencState(st, it)
				if e != "" {
					return st, "in a loop: " + e
				}
				if s2 != st {
					return st, "an iteration of a loop leaves a dictionary, list or value open"
				}
			}
		}
	}
	return st, ""
}

// bencDict checks that a content is one complete dictionary.
func bencDict(f *Facts, c *Term, loops []*LoopRec) ([]bTok, string) {
	ts, e := bencTokens(f, c, loops)
	if e != "" {
		return ts, e
	}
	st, e := bencState("", ts)
	if e != "" {
		return ts, e
	}
	if st != "$" {
		return ts, "the dictionary is not closed"
	}
	return ts, ""
}

// bencEntry finds the value of a key at the top level of a token list that begins with d.
func bencEntry(ts []bTok, key string) []bTok {
	depth := 0
	for i := 0; i < len(ts); i++ {
		switch ts[i].k {
		case 'd', 'l':
			depth++
		case 'e':
			depth--
		case 's':
			if depth == 1 {
				// key; its value
				j, d := i+1, 0
				for j < len(ts) {
					switch ts[j].k {
					case 'd', 'l':
						d++
					case 'e':
						d--
					}
					j++
					if d == 0 && (j >= len(ts) || ts[j-1].k != 'L') {
						break
					}
				}
				if s, ok := ts[i].t.strConst(); ok && s == key {
					return ts[i+1 : j]
				}
				i = j - 1
			}
		}
	}
	return nil
}

// constContent: a content that is the same constant at the start of every iteration.
func (l *LoopRec) constContent(s *Term) *Term {
	iv := l.Init[s]
	if iv == nil {
		return nil
	}
	sl := s.Typ != nil && isSliceT(s.Typ)
	if sl {
		iv = l.Entry.bytesOf(iv)
	}
	if !iv.isConst() {
		return nil
	}
	for _, it := range l.Iters {
		nv := it.Next[s]
		if nv == nil {
			return nil
		}
		if nv == s {
			continue
		}
		if sl {
			nv = it.St.bytesOf(nv)
		}
		if nv != iv && nv != l.headerContent(s) {
			return nil
		}
	}
	return iv
}
