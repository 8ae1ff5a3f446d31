package main

// Fields that are only written while their object is being built keep their value for ever.

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// immutables lists the field classes whose every store in the program goes to an
// object made in the storing function and not yet handed to anything.
func (e *Engine) immutables() map[string]bool {
	r := map[string]bool{}
	no := map[string]bool{}
	var dropAll func(t types.Type, seen map[types.Type]bool)
	dropAll = func(t types.Type, seen map[types.Type]bool) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				no["F:"+typeKey(t)+"."+strconv.Itoa(i)] = true
				dropAll(u.Field(i).Type(), seen)
			}
		case *types.Array:
			dropAll(u.Elem(), seen)
		case *types.Pointer:
			dropAll(u.Elem(), seen)
		case *types.Slice:
			dropAll(u.Elem(), seen)
		case *types.Map:
			dropAll(u.Elem(), seen)
		}
	}
	var nested func(t types.Type)
	nested = func(t types.Type) { // a value of this type is stored as a whole
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				no["F:"+typeKey(t)+"."+strconv.Itoa(i)] = true
				nested(u.Field(i).Type())
			}
		case *types.Array:
			nested(u.Elem())
		}
	}
	for fn := range e.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						cl := "F:" + typeKey(deref(fa.X.Type())) + "." + strconv.Itoa(fa.Field)
						if a, ok := fa.X.(*ssa.Alloc); ok && e.building(a, x) {
							r[cl] = true
						} else {
							no[cl] = true
						}
						nested(deref(fa.Type()))
						continue
					}
					if a, ok := x.Addr.(*ssa.Alloc); ok && e.building(a, x) {
						continue
					}
					if g, ok := x.Addr.(*ssa.Global); ok && isPtrLike(deref(g.Type())) {
						continue
					}
					nested(deref(x.Addr.Type()))
				case *ssa.MakeInterface:
					if it, ok := x.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
						if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
							dropAll(p.Elem(), map[types.Type]bool{})
						}
					}
				case *ssa.Convert:
					if isUnsafePtr(x.Type()) {
						if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
							dropAll(p.Elem(), map[types.Type]bool{})
						}
					}
				case *ssa.FieldAddr:
					// the field's own address handed on
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if y.Val == ssa.Value(x) {
								no["F:"+typeKey(deref(x.X.Type()))+"."+strconv.Itoa(x.Field)] = true
							}
						default:
							no["F:"+typeKey(deref(x.X.Type()))+"."+strconv.Itoa(x.Field)] = true
						}
					}
				}
			}
		}
	}
	for k := range no {
		delete(r, k)
	}
	return r
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// building: nothing can have received the object before this store.
func (e *Engine) building(a *ssa.Alloc, s *ssa.Store) bool {
	for _, u := range *a.Referrers() {
		esc := false
		switch x := u.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.Return:
		case *ssa.Store:
			esc = x.Val == ssa.Value(a)
		case *ssa.Call:
			f := x.Call.StaticCallee()
			esc = f == nil || f.Pkg == nil || !inModule(f.Pkg.Pkg.Path()) || e.p.spawns(f)
		default:
			esc = true
		}
		if !esc {
			continue
		}
		if u.Block() == s.Block() {
			for _, in := range u.Block().Instrs {
				if in == u {
					return false
				}
				if in == ssa.Instruction(s) {
					break
				}
			}
			continue
		}
		if reachesBlock(u.Block(), s.Block()) {
			return false
		}
	}
	// a later life of the object in a loop is a new object
	return true
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		stack = append(stack, b.Succs...)
	}
	return false
}

// spawns: the function may start a goroutine or hand its arguments to shared memory.
func (p *Program) spawns(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
				if s, ok := in.(*ssa.Store); ok {
					for _, q := range f.Params {
						if s.Val == ssa.Value(q) {
							if _, loc := s.Addr.(*ssa.Alloc); !loc {
								return true
							}
						}
					}
				}
			}
		}
		for _, g := range p.callees(f) {
			if walk(g) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}

// keeps reports whether a cell can no longer change.
func (e *Engine) keeps(s *State, k *Term) bool {
	return k.Op == OpField && e.immut[class(k)] && !s.private(root(k))
}
