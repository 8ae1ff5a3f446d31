package main

// Goroutines: which exist, what each executes, and what is ordered before they start.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// GRoot is a goroutine (or a function the runtime calls from goroutines of its own).
type GRoot struct {
	Name  string
	Fns   []*ssa.Function // entry and the functions handed to it
	Site  ssa.Instruction // where it is started; nil for main
	Multi bool            // several of it may run at once
	reach map[*ssa.Function]bool
}

type conc struct {
	p       *Program
	live    map[*ssa.Function]bool
	taken   map[string][]*ssa.Function // functions used as values other than as call arguments, by signature
	Roots   []*GRoot
	Unknown []ssa.Instruction // started functions that could not be determined
	callers map[*ssa.Function][]ssa.CallInstruction
	execs   map[ssa.Instruction]map[*ssa.Function]bool
	calleeM map[ssa.Instruction][]*ssa.Function
}

func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcValue(x.X)
	}
	return nil
}

func isFuncT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// asyncCallee: functions outside the module that keep a function to call it from other goroutines.
func asyncCallee(f *ssa.Function, cc *ssa.CallCommon) bool {
	pkg := ""
	if f != nil {
		pkg = fnPkgPath(f)
	} else if cc.IsInvoke() && cc.Method.Pkg() != nil {
		pkg = cc.Method.Pkg().Path()
	}
	return pkg == "net/http" || pkg == "time" || pkg == "expvar" || pkg == "os/signal" || pkg == "context" || pkg == "runtime"
}

func newConc(p *Program) *conc {
	x := &conc{p: p, live: map[*ssa.Function]bool{}, taken: map[string][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, execs: map[ssa.Instruction]map[*ssa.Function]bool{}, calleeM: map[ssa.Instruction][]*ssa.Function{}}
	live := p.live()
	for fn := range live {
		x.live[fn] = true
	}
	// bound methods and other wrappers
	for fn := range p.fns {
		if fn.Synthetic != "" && fn.Name() != "init" {
			x.live[fn] = true
		}
	}
	for _, fn := range x.sorted() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					f := funcValue(*op)
					if f == nil {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == *op {
						continue
					}
					if _, ok := in.(*ssa.ChangeType); ok {
						continue
					}
					if isCall && (ci.Common().Value == *op || ci.Common().StaticCallee() != nil || ci.Common().IsInvoke()) {
						continue // called, or handed to a known function
					}
					k := typeKey(f.Signature)
					x.taken[k] = append(x.taken[k], f)
				}
				if isCall {
					if f := ci.Common().StaticCallee(); f != nil {
						x.callers[f] = append(x.callers[f], ci)
					}
				}
			}
		}
	}
	for _, fn := range x.sorted() {
		if fn.Name() == "main" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
			x.Roots = append(x.Roots, &GRoot{Name: "main", Fns: []*ssa.Function{fn}})
		}
	}
	for _, fn := range x.sorted() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x.startedAt(fn, in)
			}
		}
	}
	for _, r := range x.Roots {
		r.reach = x.closure(r.Fns)
	}
	// several at once: started in a loop, or by something that runs several times
	for _, r := range x.Roots {
		if r.Site != nil && (r.Multi || x.repeated(r.Site, map[*ssa.Function]bool{})) {
			r.Multi = true
		}
	}
	for n := 0; n < 3; n++ {
		for _, r := range x.Roots {
			if r.Site == nil || r.Multi {
				continue
			}
			var from []*GRoot
			for _, q := range x.Roots {
				if q.reach[r.Site.Parent()] {
					from = append(from, q)
				}
			}
			if len(from) > 1 || len(from) == 1 && from[0].Multi {
				r.Multi = true
			}
		}
	}
	return x
}

func (x *conc) sorted() []*ssa.Function {
	var r []*ssa.Function
	for f := range x.live {
		if x.p.fns[f] {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

// startedAt adds the goroutines an instruction starts.
func (x *conc) startedAt(fn *ssa.Function, in ssa.Instruction) {
	switch y := in.(type) {
	case *ssa.Go:
		f := y.Call.StaticCallee()
		var fns []*ssa.Function
		if f != nil {
			fns = append(fns, f)
		} else if y.Call.IsInvoke() {
			fns = append(fns, x.invoked(&y.Call)...)
		} else {
			x.start(fn, in, y.Call.Value, nil, 0)
			return
		}
		var open []ssa.Value
		for _, a := range y.Call.Args {
			if !isFuncT(a.Type()) {
				continue
			}
			if g := funcValue(a); g != nil {
				fns = append(fns, g)
			} else {
				open = append(open, a)
			}
		}
		if len(open) == 0 {
			x.Roots = append(x.Roots, &GRoot{Name: rootName(fns), Fns: fns, Site: in})
			return
		}
		for _, a := range open {
			x.start(fn, in, a, fns, 0)
		}
	case ssa.CallInstruction:
		cc := y.Common()
		f := cc.StaticCallee()
		if f != nil && x.p.fns[f] || f == nil && !cc.IsInvoke() || !asyncCallee(f, cc) {
			return
		}
		for _, a := range cc.Args {
			if isFuncT(a.Type()) {
				if g := funcValue(a); g != nil {
					x.Roots = append(x.Roots, &GRoot{Name: rootName([]*ssa.Function{g}), Fns: []*ssa.Function{g}, Site: in, Multi: true})
				} else {
					n := len(x.Roots)
					x.start(fn, in, a, nil, 0)
					for _, r := range x.Roots[n:] {
						r.Multi = true
					}
				}
			}
		}
	case *ssa.MakeInterface:
		if isFuncT(y.X.Type()) && asyncTyp(y.X.Type()) {
			if g := funcValue(y.X); g != nil {
				x.Roots = append(x.Roots, &GRoot{Name: rootName([]*ssa.Function{g}), Fns: []*ssa.Function{g}, Site: in, Multi: true})
			} else if _, ok := y.X.(*ssa.Call); ok {
				n := len(x.Roots)
				x.start(fn, in, y.X, nil, 0)
				for _, r := range x.Roots[n:] {
					r.Multi = true
				}
			}
		}
	}
}

// asyncTyp: named function types the libraries call from goroutines of their own.
func asyncTyp(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "net/http" || n.Obj().Pkg().Path() == "expvar")
}

func rootName(fns []*ssa.Function) string {
	var s []string
	for _, f := range fns {
		s = append(s, fnName(f))
	}
	return strings.Join(s, "+")
}

// start adds goroutines that run the function value v of fn: where v is a parameter, one for
// every call that gives it.
func (x *conc) start(fn *ssa.Function, site ssa.Instruction, v ssa.Value, with []*ssa.Function, depth int) {
	if g := funcValue(v); g != nil {
		x.Roots = append(x.Roots, &GRoot{Name: rootName(append(with[:len(with):len(with)], g)), Fns: append(with[:len(with):len(with)], g), Site: site})
		return
	}
	if depth < 6 {
		switch y := v.(type) {
		case *ssa.Parameter:
			for i, q := range fn.Params {
				if q == y {
					for _, ci := range x.callers[fn] {
						if x.live[ci.Parent()] {
							x.start(ci.Parent(), ci, ci.Common().Args[i], with, depth+1)
						}
					}
					return
				}
			}
		case *ssa.FreeVar:
			for i, q := range fn.FreeVars {
				if q != y {
					continue
				}
				for _, mc := range closuresOf(fn) {
					b := mc.Bindings[i]
					if a, ok := b.(*ssa.Alloc); ok { // captured variable
						for _, u := range *a.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
								x.start(mc.Parent(), mc, s.Val, with, depth+1)
							}
						}
					} else {
						x.start(mc.Parent(), mc, b, with, depth+1)
					}
				}
				return
			}
		case *ssa.UnOp:
			switch a := y.X.(type) {
			case *ssa.Alloc:
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						x.start(fn, site, s.Val, with, depth+1)
					}
				}
				return
			case *ssa.FreeVar:
				x.start(fn, site, a, with, depth+1)
				return
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				x.start(fn, site, e, with, depth+1)
			}
			return
		case *ssa.ChangeType:
			x.start(fn, site, y.X, with, depth+1)
			return
		case *ssa.Call: // made by a helper
			if f := y.Call.StaticCallee(); f != nil && x.p.fns[f] && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						x.start(f, site, r.Results[0], with, depth+1)
					}
				}
				return
			}
		}
	}
	if fs := x.taken[typeKey(v.Type().Underlying())]; len(fs) > 0 {
		x.Roots = append(x.Roots, &GRoot{Name: rootName(with) + "+?", Fns: append(with[:len(with):len(with)], fs...), Site: site})
		return
	}
	x.Unknown = append(x.Unknown, site)
}

func closuresOf(fn *ssa.Function) []*ssa.MakeClosure {
	var r []*ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				r = append(r, mc)
			}
		}
	}
	return r
}

func (x *conc) invoked(cc *ssa.CallCommon) []*ssa.Function {
	var r []*ssa.Function
	if !inModuleIface(cc) {
		return nil
	}
	n := cc.Value.Type().(*types.Named)
	for _, t := range x.p.implementers(strings.TrimPrefix(n.Obj().Pkg().Path(), modulePath), n.Obj().Name()) {
		if f := x.p.method(t, cc.Method.Name()); f != nil && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	return r
}

// calls lists the module functions an instruction may execute before it is done.
func (x *conc) calls(in ssa.Instruction) []*ssa.Function {
	if r, ok := x.calleeM[in]; ok {
		return r
	}
	var r []*ssa.Function
	ci, ok := in.(ssa.CallInstruction)
	if _, isGo := in.(*ssa.Go); ok && !isGo {
		cc := ci.Common()
		f := cc.StaticCallee()
		switch {
		case f != nil:
			if x.p.fns[f] {
				r = append(r, f)
			}
			if fnName(f) == "(*sync.Pool).Get" {
				r = append(r, x.taken["func() interface {}"]...)
				r = append(r, x.taken["func() any"]...)
			}
		case cc.IsInvoke():
			r = append(r, x.invoked(cc)...)
		default:
			if _, isB := cc.Value.(*ssa.Builtin); !isB {
				if _, isP := cc.Value.(*ssa.Parameter); !isP {
					r = append(r, x.taken[typeKey(cc.Value.Type().Underlying())]...)
					r = append(r, x.handed(cc.Value)...)
				}
			}
		}
		if f != nil && x.p.fns[f] || f == nil && !cc.IsInvoke() || !asyncCallee(f, cc) {
			for _, a := range cc.Args {
				if isFuncT(a.Type()) {
					if g := funcValue(a); g != nil {
						r = append(r, g)
					} else if u, ok := a.(*ssa.Parameter); !ok || u == nil {
						r = append(r, x.handed(a)...)
					}
				}
			}
		}
	}
	x.calleeM[in] = r
	return r
}

// handed: the functions a variable holding a function may hold, when it is a captured
// parameter or local variable.
func (x *conc) handed(v ssa.Value) []*ssa.Function {
	seen := map[ssa.Value]bool{}
	var r []*ssa.Function
	var walk func(v ssa.Value, fn *ssa.Function)
	walk = func(v ssa.Value, fn *ssa.Function) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if g := funcValue(v); g != nil {
			r = append(r, g)
			return
		}
		switch y := v.(type) {
		case *ssa.Parameter:
			for i, q := range y.Parent().Params {
				if q == y {
					for _, ci := range x.callers[y.Parent()] {
						walk(ci.Common().Args[i], ci.Parent())
					}
				}
			}
		case *ssa.FreeVar:
			for i, q := range y.Parent().FreeVars {
				if q == y {
					for _, mc := range closuresOf(y.Parent()) {
						walk(mc.Bindings[i], mc.Parent())
					}
				}
			}
		case *ssa.Alloc:
			for _, u := range *y.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
					walk(s.Val, fn)
				}
			}
		case *ssa.UnOp:
			walk(y.X, fn)
		case *ssa.Phi:
			for _, e := range y.Edges {
				walk(e, fn)
			}
		case *ssa.ChangeType:
			walk(y.X, fn)
		}
	}
	walk(v, nil)
	return r
}

func (x *conc) closure(fns []*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if r[f] {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range x.calls(in) {
					walk(g)
				}
			}
		}
	}
	for _, f := range fns {
		walk(f)
	}
	return r
}

// repeated: the instruction may be executed more than once by its goroutine.
func (x *conc) repeated(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	if blockReaches(in.Block(), in.Block()) {
		return true
	}
	fn := in.Parent()
	if seen[fn] {
		return false
	}
	seen[fn] = true
	var sites []ssa.Instruction
	for g := range x.live {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, c := range x.calls(i) {
					if c == fn {
						sites = append(sites, i)
					}
				}
			}
		}
	}
	if len(sites) > 1 {
		return true
	}
	return len(sites) == 1 && x.repeated(sites[0], seen)
}

// blockReaches: a path of at least one edge leads from a to b.
func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		stack = append(stack, b.Succs...)
	}
	return false
}

// instrFollows: b may be executed after a (within one call of their function).
func instrFollows(a, b ssa.Instruction) bool {
	if _, ok := b.(*ssa.Defer); ok {
		return true
	}
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, in := range a.Block().Instrs {
			if in == a {
				ia = i
			}
			if in == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
	}
	return blockReaches(a.Block(), b.Block())
}

// point is something a goroutine executes: an instruction, or an instruction while it is
// executed as part of a function.
type point struct {
	in     ssa.Instruction
	within *ssa.Function // nil: any
}

func (x *conc) executers(in ssa.Instruction) map[*ssa.Function]bool {
	if r := x.execs[in]; r != nil {
		return r
	}
	r := map[*ssa.Function]bool{in.Parent(): true}
	x.execs[in] = r
	x.grow(r)
	return r
}

// grow adds everything that may call a function of the set.
func (x *conc) grow(r map[*ssa.Function]bool) {
	for ch := true; ch; {
		ch = false
		for f := range x.live {
			if r[f] {
				continue
			}
		next:
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, g := range x.calls(in) {
						if r[g] {
							r[f] = true
							ch = true
							break next
						}
					}
				}
			}
		}
	}
}

type mover struct {
	x      *conc
	in     ssa.Instruction
	within *ssa.Function
	ex     map[*ssa.Function]bool // functions that execute the point
	inner  map[*ssa.Function]bool // functions that execute in (once inside within)
}

func (x *conc) mover(p point) *mover {
	m := &mover{x: x, in: p.in, within: p.within, inner: x.executers(p.in)}
	m.ex = m.inner
	if p.within != nil {
		m.ex = map[*ssa.Function]bool{p.within: true}
		x.grow(m.ex)
	}
	return m
}

// leads: executing the instruction (in fn, inside or outside of within) may execute the point.
func (m *mover) leads(in ssa.Instruction, inside bool) bool {
	if in == m.in && (inside || m.within == nil || in.Parent() == m.within) {
		return true
	}
	for _, g := range m.x.calls(in) {
		if inside || m.within == nil {
			if m.inner[g] {
				return true
			}
		} else if m.ex[g] {
			return true
		}
	}
	return false
}

// mayFollow: in an execution of fn the point b may be executed after the point a.
func (x *conc) mayFollow(fn *ssa.Function, a, b *mover, ina, inb bool, seen map[string]bool) bool {
	ina = ina || fn == a.within
	inb = inb || fn == b.within
	k := fn.String() + strconv.FormatBool(ina) + strconv.FormatBool(inb)
	if seen[k] {
		return false
	}
	seen[k] = true
	var as, bs []ssa.Instruction
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			if a.leads(in, ina) {
				as = append(as, in)
			}
			if b.leads(in, inb) {
				bs = append(bs, in)
			}
		}
	}
	for _, p := range as {
		for _, q := range bs {
			if p != q {
				if instrFollows(p, q) {
					return true
				}
				continue
			}
			if blockReaches(p.Block(), p.Block()) {
				return true
			}
			for _, g := range x.calls(p) {
				if x.mayFollow(g, a, b, ina, inb, seen) {
					return true
				}
			}
		}
	}
	return false
}

// before: whenever goroutine g executes the point, it has not yet started r.
func (x *conc) before(g *GRoot, p point, r *GRoot) bool {
	if r.Site == nil {
		return false
	}
	ok := false
	for _, h := range x.Roots {
		if h == r || !h.reach[r.Site.Parent()] {
			continue
		}
		switch {
		case h == g:
			a, b := x.mover(point{in: r.Site}), x.mover(p)
			for _, f := range g.Fns {
				if x.mayFollow(f, a, b, false, false, map[string]bool{}) {
					return false
				}
			}
		case h.Site != nil && g.reach[h.Site.Parent()] && x.before(g, p, h):
		default:
			return false
		}
		ok = true
	}
	return ok
}
