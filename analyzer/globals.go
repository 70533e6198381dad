package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Package variables that are only assigned by their initialiser: their value is built from
// the composite literal.

type globalFacts struct {
	init map[*ssa.Global]ssa.Value
}

func (c *Ctx) globalInits() map[*ssa.Global]ssa.Value {
	c.globOnce.Do(func() {
		stores := map[*ssa.Global][]*ssa.Store{}
		dirty := map[*ssa.Global]bool{}
		var fns []*ssa.Function
		fns = append(fns, c.moduleFuncs()...)
		seen := map[*ssa.Function]bool{}
		for _, f := range fns {
			seen[f] = true
		}
		for _, p := range c.SPkgs {
			if f := p.Func("init"); f != nil && !seen[f] {
				fns = append(fns, f)
			}
		}
		for _, fn := range fns {
			eachInstr(fn, func(i ssa.Instruction) {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := i.(type) {
					case *ssa.Store:
						if x.Addr == g && fn.Name() == "init" && fn.Synthetic != "" {
							stores[g] = append(stores[g], x)
							continue
						}
						dirty[g] = true
					case *ssa.UnOp:
						// contents changed through a load
						for _, ref := range *x.Referrers() {
							switch y := ref.(type) {
							case *ssa.MapUpdate:
								if y.Map == x {
									dirty[g] = true
								}
							case *ssa.IndexAddr:
								for _, r2 := range *y.Referrers() {
									if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
										dirty[g] = true
									}
								}
							}
						}
					case *ssa.DebugRef:
					default:
						dirty[g] = true
					}
				}
			})
		}
		c.globs = map[*ssa.Global]ssa.Value{}
		for g, l := range stores {
			if len(l) == 1 && !dirty[g] {
				c.globs[g] = l[0].Val
			}
		}
	})
	return c.globs
}

// initVal evaluates an initialiser expression; its objects become initial objects.
func (en *Eng) initVal(v ssa.Value, d int) (Val, bool) {
	if d > 8 {
		return nil, false
	}
	mk := func(o *Obj) int {
		en.nobj++
		en.init[en.nobj] = o
		return en.nobj
	}
	switch x := v.(type) {
	case *ssa.Const:
		return en.constVal(x), true
	case *ssa.Function:
		return Closure{fn: x, nm: fname(x)}, true
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return Closure{fn: x.Fn.(*ssa.Function), nm: fname(x.Fn.(*ssa.Function))}, true
		}
	case *ssa.ChangeType:
		return en.initVal(x.X, d+1)
	case *ssa.Convert:
		if isIntT(x.Type()) && isIntT(x.X.Type()) {
			return en.initVal(x.X, d+1)
		}
	case *ssa.MakeInterface:
		if y, ok := en.initVal(x.X, d+1); ok {
			return Iface{x.X.Type(), y}, true
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := &Obj{kind: 'm', mtyp: mt, label: "table"}
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.MapUpdate:
				k, ok1 := en.initVal(y.Key, d+1)
				w, ok2 := en.initVal(y.Value, d+1)
				if !ok1 || !ok2 || y.Block() != x.Block() {
					return nil, false
				}
				o.ups = append(o.ups, mapUp{k: k, v: w})
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil, false
			}
		}
		return MapV{obj: mk(o)}, true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil, false
		}
		at, ok := derefT(al.Type()).Underlying().(*types.Array)
		if !ok || at.Len() > 64 {
			return nil, false
		}
		els := make([]Val, at.Len())
		for i := range els {
			els[i] = en.zero(newState(), at.Elem())
		}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := constInt(ia.Index)
			if !ok {
				return nil, false
			}
			w, ok := en.initAt(ia, at.Elem(), d+1)
			if !ok {
				return nil, false
			}
			els[k] = w
		}
		o := &Obj{kind: 'a', elem: at.Elem(), label: "table"}
		for _, w := range els {
			o.segs = append(o.segs, Seg{kind: 'F', val: w, n: pc(1)})
		}
		return Slice{arr: mk(o), off: pc(0), n: pc(at.Len())}, true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				return en.initAt(al, derefT(al.Type()), d+1)
			}
		}
	case *ssa.Alloc:
		w, ok := en.initAt(x, derefT(x.Type()), d+1)
		if !ok {
			return nil, false
		}
		return Ptr{obj: mk(&Obj{kind: 'c', val: w, elem: derefT(x.Type()), label: "table"})}, true
	}
	return nil, false
}

// initAt gives the value stored at an address by straight-line initialisation code.
func (en *Eng) initAt(addr ssa.Value, t types.Type, d int) (Val, bool) {
	val := en.zero(newState(), t)
	for _, ref := range *addr.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Addr != addr {
				continue
			}
			w, ok := en.initVal(y.Val, d+1)
			if !ok {
				return nil, false
			}
			val = w
		case *ssa.FieldAddr:
			s, ok := val.(Struct)
			if !ok {
				return nil, false
			}
			w, ok := en.initAt(y, derefT(y.Type()), d+1)
			if !ok {
				return nil, false
			}
			n := Struct{typ: s.typ, f: append([]Val(nil), s.f...)}
			n.f[y.Field] = w
			val = n
		}
	}
	return val, true
}
