package main

// Loading the current source of the repository and preparing the analysis:
// constant package state, roots, roles.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type Program struct {
	liveFns map[*ssa.Function]bool
	prog    *ssa.Program
	pkgs    []*ssa.Package
	raw     []*packages.Package
	tags    string
	fns     map[*ssa.Function]bool // all module functions
}

func loadProgram(tags string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	p := &Program{prog: prog, raw: pk, tags: tags, fns: map[*ssa.Function]bool{}}
	for _, x := range ps {
		if x != nil {
			x.Build()
			p.pkgs = append(p.pkgs, x)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && inModule(fnPkgPath(fn)) {
			p.fns[fn] = true
		}
	}
	return p, nil
}

// declared: every declared method of the module's types, used or not.
func (p *Program) declared() []*ssa.Function {
	var r []*ssa.Function
	for _, q := range p.pkgs {
		if q.Pkg == nil {
			continue
		}
		for _, n := range q.Pkg.Scope().Names() {
			tn, ok := q.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if fn := p.prog.FuncValue(nt.Method(i)); fn != nil && len(fn.Blocks) > 0 {
					r = append(r, fn)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (p *Program) sorted() []*ssa.Function {
	var r []*ssa.Function
	for f := range p.fns {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func (p *Program) engine() *Engine {
	e := newEngine(p.prog, p.pkgs, p.tags)
	e.p = p
	for _, q := range p.prog.AllPackages() {
		for _, x := range [][2]string{{"bytes", "Buffer"}, {"bufio", "Writer"}, {"strings", "Builder"}} {
			if q.Pkg.Path() == x[0] {
				if o := q.Pkg.Scope().Lookup(x[1]); o != nil {
					namedIface["*"+x[0]+"."+x[1]] = types.NewPointer(o.Type())
				}
			}
		}
	}
	// types whose fields are protected by a mutex
	e.watchT = map[string]bool{}
	for f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					t := deref(fa.X.Type())
					if t != nil && hasMutex(t) {
						e.watchT[typeKey(t)] = true
						for c := range guarded(t) {
							if strings.HasPrefix(c, "F:") {
								c = c[2:]
								e.watchT[c[:strings.LastIndex(c, ".")]] = true
							}
						}
					}
				}
			}
		}
	}
	e.immut = e.immutables()
	e.freeze()
	return e
}

func (e *Engine) watched(t types.Type) bool { return e.watchT[typeKey(t)] }

func (e *Engine) frozen(a *Term) *Term { return e.frozenV[a] }

// globalStores counts the stores to each module global, outside its package's initialiser or not.
func (e *Engine) globalStores() (stores map[*ssa.Global][]*ssa.Function, escaped map[*ssa.Global]bool) {
	stores = map[*ssa.Global][]*ssa.Function{}
	escaped = map[*ssa.Global]bool{}
	for fn := range e.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !inModule(g.Pkg.Pkg.Path()) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							stores[g] = append(stores[g], fn)
							if x.Val == ssa.Value(g) {
								escaped[g] = true
							}
						} else {
							escaped[g] = true
						}
					case *ssa.UnOp:
					case *ssa.DebugRef:
					default:
						escaped[g] = true
					}
				}
			}
		}
	}
	return
}

// freeze evaluates package initialisers to learn constant package state.
func (e *Engine) freeze() {
	e.quiet++
	defer func() { e.quiet--; e.over = false; e.steps = 0 }()
	stores, escaped := e.globalStores()
	single := map[*ssa.Global]*ssa.Function{}
	for g, fs := range stores {
		if len(fs) == 1 && !escaped[g] {
			single[g] = fs[0]
		}
	}
	ran := map[*ssa.Function]bool{}
	var gs []*ssa.Global
	for g := range single {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		fn := single[g]
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		if !isInit && !poolHolder(deref(g.Type())) {
			continue
		}
		if ran[fn] {
			continue
		}
		ran[fn] = true
		st := newState(e)
		fr := e.frame(nil, nil, fn, nil, "")
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, sym("init:"+fn.Name()+":"+p.Name(), p.Type()))
		}
		if isInit {
			// the guard variable
			for _, m := range fn.Pkg.Members {
				if gg, ok := m.(*ssa.Global); ok && gg.Name() == "init$guard" {
					st.heap[mkGlobal(gg)] = mkBool(false)
				}
			}
		}
		outs := e.execFunc(fr, args, st)
		for _, g := range gs {
			if single[g] != fn {
				continue
			}
			var v *Term
			same := true
			for _, o := range outs {
				x, ok := o.st.heap[mkGlobal(g)]
				if !ok {
					same = false
					continue
				}
				if v != nil && v != x {
					same = false
				}
				v = x
			}
			if v == nil || !same || v.Op == OpLoad || v.Op == OpSym && isPtrLike(v.Typ) && !v.NN {
				if v == nil || v.Op != OpAlloc && v.Op != OpSlice {
					continue
				}
			}
			if isInit || v.Op == OpAlloc {
				e.frozenV[mkGlobal(g)] = v
			}
			// contents
			for _, o := range outs {
				for k, x := range o.st.heap {
					r := root(k)
					if r.Op != OpAlloc || k.Op == OpMapHas || k.Op == OpMapVal || k.Op == OpMapLen {
						continue
					}
					if isInit && isContentCell(k) && v.Op == OpSlice && v.Args[0] == k {
						e.frozenV[k] = x
					}
					if !isInit && (x.Op == OpClosure || x.Op == OpFunc || x.isNil()) && k.Op == OpField {
						e.frozenV[k] = x
						if x.isNil() {
							continue
						}
						// captured cells set once
						for _, b := range x.Args {
							if y, ok := o.st.heap[b]; ok && b.Op == OpAlloc {
								e.frozenV[b] = y
							}
							if b.Op == OpAlloc {
								for k2, y := range o.st.heap {
									if root(k2) == b && (y.Op == OpClosure || y.Op == OpFunc) {
										e.frozenV[k2] = y
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func poolHolder(t types.Type) bool {
	if p := deref(t); p != nil {
		t = p
	} else {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == "sync.Pool" {
			return true
		}
	}
	return false
}

// ---- static call closure

func (p *Program) callees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if f := cc.StaticCallee(); f != nil {
					r = append(r, f)
				}
				for _, a := range cc.Args { // function values passed on are called synchronously
					if mc, ok := a.(*ssa.MakeClosure); ok {
						r = append(r, mc.Fn.(*ssa.Function))
					}
					if f, ok := a.(*ssa.Function); ok {
						r = append(r, f)
					}
				}
			}
		}
	}
	return r
}

// closure: the module functions fn calls, directly or not.
func (p *Program) closure(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{fn}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, g := range p.callees(f) {
			if p.fns[g] && !seen[g] {
				seen[g] = true
				todo = append(todo, g)
			}
		}
	}
	return seen
}

func (p *Program) calls(fn, g *ssa.Function) bool { return p.closure(fn)[g] }

// reaches reports whether fn synchronously reaches a call satisfying pred.
func (p *Program) reaches(fn *ssa.Function, pred func(name string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if !p.fns[f] {
			return pred(fnName(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && pred(ifaceMethod(c.Common())) {
					return true
				}
			}
		}
		for _, g := range p.callees(f) {
			if walk(g) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}

// goTargets lists (function containing the go statement, statement).
type goSite struct {
	fn *ssa.Function
	in *ssa.Go
}

func (p *Program) goSites() []goSite {
	var r []goSite
	for _, fn := range p.sorted() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					r = append(r, goSite{fn, g})
				}
			}
		}
	}
	return r
}

// implementers of a module interface.
func (p *Program) implementers(pkgSuffix, name string) []types.Type {
	var it *types.Interface
	for _, q := range p.pkgs {
		if strings.HasSuffix(q.Pkg.Path(), pkgSuffix) {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				it, _ = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	if it == nil {
		return nil
	}
	var r []types.Type
	for _, q := range p.pkgs {
		for _, nm := range q.Pkg.Scope().Names() {
			o, ok := q.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			if _, isI := o.Type().Underlying().(*types.Interface); isI {
				continue
			}
			pt := types.NewPointer(o.Type())
			if types.Implements(pt, it) {
				r = append(r, pt)
			}
		}
	}
	return r
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) find(pkgSuffix, name string) *ssa.Function {
	for _, q := range p.pkgs {
		if q.Pkg.Path() == modulePath+"/"+pkgSuffix || q.Pkg.Path() == modulePath && pkgSuffix == "" {
			if f := q.Func(name); f != nil {
				return f
			}
		}
	}
	return nil
}

// Run is the analysis of one root.
type Run struct {
	Name   string
	Fn     *ssa.Function
	Eng    *Engine
	Args   []*Term
	Init   *State
	Outs   []Outcome
	Loops  []*LoopRec
	Gos    []goRec
	Exits  []*State // paths that end the process
	Blocks []*State // paths that end blocked for ever
}

type goRec struct {
	ev *Event
	st *State
}

// runRoot analyses a function as an entry point.
func (e *Engine) runRoot(fn *ssa.Function, args []*Term, bind []*Term, st *State) *Run {
	r := &Run{Name: fnName(fn), Fn: fn, Eng: e}
	if st == nil {
		st = newState(e)
	}
	if args == nil {
		for i, p := range fn.Params {
			a := sym("arg:"+fnName(fn)+":"+p.Name(), p.Type())
			if i == 0 && fn.Signature.Recv() != nil {
				a.NN = true
				if isPtrLike(p.Type()) {
					st.assume(mkEq(a, nilT), false)
				}
			}
			args = append(args, a)
		}
	}
	r.Args = args
	r.Init = st.clone()
	fr := e.frame(nil, nil, fn, bind, "")
	n := len(e.loopRecs)
	x, b := len(e.exitPaths), len(e.blocked)
	g := len(e.gos)
	r.Outs = e.execFunc(fr, args, st)
	r.Loops = e.loopRecs[n:]
	r.Exits = e.exitPaths[x:]
	r.Blocks = e.blocked[b:]
	for _, l := range r.Loops {
		if len(l.Exits) == 0 && len(l.Iters) > 0 && l.HdrSt != nil {
			r.Blocks = append(r.Blocks, l.HdrSt) // a loop that never ends
		}
	}
	r.Gos = e.gos[g:]
	return r
}

// live: the module functions the program can reach from its entry points
// (function values and interface calls resolved by name).
func (p *Program) live() map[*ssa.Function]bool {
	if p.liveFns != nil {
		return p.liveFns
	}
	byName := map[string][]*ssa.Function{}
	var todo []*ssa.Function
	for fn := range p.fns {
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
		if fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "main" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main") {
			todo = append(todo, fn)
		}
	}
	live := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if live[fn] || !p.fns[fn] {
			continue
		}
		live[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					switch v := (*op).(type) {
					case *ssa.Function:
						todo = append(todo, v)
					case *ssa.MakeClosure:
						todo = append(todo, v.Fn.(*ssa.Function))
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					todo = append(todo, byName[c.Common().Method.Name()]...)
				}
			}
		}
	}
	p.liveFns = live
	return live
}
