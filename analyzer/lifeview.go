package main

// Views of a run for the properties on saving, loading, starting and stopping.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sliceElems lists the elements of a slice of known length.
func sliceElems(st *State, s *Term) ([]*Term, bool) {
	if s == nil {
		return nil, false
	}
	if s.isNil() {
		return nil, true
	}
	arr, off, n, _ := sliceParts(s)
	if !n.isConst() || n.C > 64 {
		return nil, false
	}
	var et types.Type
	if s.Typ != nil {
		if t, ok := s.Typ.Underlying().(*types.Slice); ok {
			et = t.Elem()
		}
	}
	c := st.content(arr)
	var out []*Term
	for i := int64(0); i < n.C; i++ {
		out = append(out, mkSel(st.facts, c, off.addC(i), et))
	}
	return out, true
}

// wpaths: the paths of a run, its loop iterations and the paths that end the process.
func wpaths(r *Run) []*DPath {
	ps := dpaths(r)
	for _, x := range r.Exits {
		d := &DPath{Name: r.Name, Evs: x.trace.since(nil), From: r.Init, To: x, Exit: true}
		d.split()
		ps = append(ps, d)
	}
	for _, x := range r.Blocks {
		d := &DPath{Name: r.Name, Evs: x.trace.since(nil), From: r.Init, To: x, Stays: true}
		d.split()
		ps = append(ps, d)
	}
	return ps
}

// startState: goroutines analysed from their start share no trace with the parent.
func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, errTyp)
}

// errOf is the error result of a call, if it has one.
func errOf(ev *Event) *Term {
	cc := ev.call()
	if cc == nil || ev.Kind != "call" {
		return nil
	}
	rs := cc.Signature().Results()
	n := rs.Len()
	if n == 0 || !isErrorT(rs.At(n-1).Type()) || len(ev.Res) < n {
		return nil
	}
	return ev.Res[n-1]
}

// failed: whether the path knows that the error is set.
func failed(f *Facts, err *Term) Tri {
	switch f.eval(mkEq(err, nilT)) {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// succeeded: the call is known to have returned no error.
func (d *DPath) succeeded(ev *Event) bool {
	e := errOf(ev)
	return e == nil || failed(d.To.facts, e) == False
}

// retErr is what the path returns as its error.
func (d *DPath) retErr() (e *Term, ok bool) {
	if d.Out == nil || d.Out.kind != "return" || len(d.Out.rets) == 0 {
		return nil, false
	}
	return d.Out.rets[len(d.Out.rets)-1], true
}

// returnsError: the function the run analyses reports errors to its caller.
func returnsError(r *Run) bool {
	rs := r.Fn.Signature.Results()
	return rs.Len() > 0 && isErrorT(rs.At(rs.Len()-1).Type())
}

// frameOf is the function an event happens in.
func (ev *Event) in(pkg string) bool {
	return ev.Fr != nil && ev.Fr.fn != nil && strings.Contains(fnPkgPath(ev.Fr.fn), pkg)
}

func fromPkg(fn *ssa.Function, pkg string) bool {
	return fn != nil && strings.HasSuffix(fnPkgPath(fn), pkg)
}

// isLog: a log call; its level and whether it carries an error.
func isLog(ev *Event) (level string, withErr, ok bool) {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*go.uber.org/zap.") {
		return "", false, false
	}
	level = ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	for _, l := range []string{"Debug", "Info", "Warn", "Error", "DPanic", "Panic", "Fatal"} {
		if strings.HasPrefix(level, l) {
			level = l
			ok = true
			break
		}
	}
	if !ok {
		return "", false, false
	}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || d > 6 || withErr {
			return
		}
		if t.Op == OpCall && (strings.HasSuffix(t.Aux, "zap.Error") || strings.HasSuffix(t.Aux, "zap.NamedError")) || isErrorT(t.Typ) && !t.isNil() {
			withErr = true
			return
		}
		switch t.Op {
		case OpIface, OpElemV, OpCall:
			for _, a := range t.Args {
				walk(a, d+1)
			}
		case OpSlice:
			if l, ok := sliceElems(ev.St, t); ok {
				for _, x := range l {
					walk(x, d+1)
				}
			}
		}
	}
	for _, a := range ev.Args {
		walk(a, 0)
	}
	return level, withErr, true
}

// failureLog: the event reports a failure to whoever reads the log.
func failureLog(ev *Event) bool {
	l, e, ok := isLog(ev)
	return ok && (e || l != "Info" && l != "Debug")
}

// storageCall: a call through the storage interfaces.
func storageCall(ev *Event, name string) bool {
	return ev.Kind == "call" && ev.Name == "storage."+name
}

// constTerm: built from constants only.
func constTerm(t *Term) bool {
	switch t.Op {
	case OpConst:
		return true
	case OpConcat, OpCall, OpConv, OpLin:
		for _, a := range t.Args {
			if !constTerm(a) {
				return false
			}
		}
		return t.Op != OpCall || len(t.Args) > 0
	}
	return false
}
