package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symArgs makes one symbolic argument per parameter, named after the parameter.
func (en *Eng) symArgs(fn *ssa.Function, nonNil bool) []Val {
	var out []Val
	for i, p := range fn.Params {
		v := en.symv("p:"+p.Name(), p.Type())
		if x, ok := v.(Ptr); ok && (nonNil || (i == 0 && fn.Signature.Recv() != nil)) {
			x.nilKey = ""
			v = x
		}
		out = append(out, v)
	}
	return out
}

func (en *Eng) safeRun(fn *ssa.Function, args []Val, st *State) (outs []Outcome, err string) {
	defer func() {
		if e := recover(); e != nil {
			if b, ok := e.(budgetErr); ok {
				err = "analysis budget exhausted in " + b.what
				return
			}
			if b, ok := e.(boundErr); ok {
				en.bound = b.fn
				err = "a loop does not end in " + b.fn
				return
			}
			panic(e)
		}
	}()
	return en.Run(fn, args, nil, st), ""
}

func (en *Eng) show(st *State, v Val, d int, seen map[int]bool) string {
	ind := strings.Repeat("  ", d)
	v = en.force(v)
	if d > 5 {
		return "..."
	}
	switch x := v.(type) {
	case Ptr:
		if seen[x.obj] {
			return "&#" + fmt.Sprint(x.obj)
		}
		seen[x.obj] = true
		defer delete(seen, x.obj)
		return fmt.Sprintf("&#%d ", x.obj) + en.show(st, en.load(st, x), d, seen)
	case Struct:
		u := x.typ.Underlying().(*types.Struct)
		s := shortType(x.typ) + "{\n"
		for i, f := range x.f {
			s += ind + "  " + u.Field(i).Name() + ": " + en.show(st, f, d+1, seen) + "\n"
		}
		return s + ind + "}"
	case Slice:
		ss := en.content(st, x)
		s := fmt.Sprintf("[%s] n=%s nil=%q", segsKey(ss), st.norm(x.n).key(), x.nilKey)
		for _, g := range ss {
			if g.kind == 'F' {
				if _, ok := g.val.(Struct); ok {
					s += "\n" + ind + "   F: " + en.show(st, g.val, d+2, seen)
				}
				if _, ok := g.val.(Slice); ok {
					s += " F: " + en.show(st, g.val, d+2, seen)
				}
			}
			if g.kind == 'G' {
				for _, a := range g.g.alts {
					for _, v := range a.vals {
						s += "\n" + ind + "   G: " + en.show(st, v, d+2, seen)
					}
				}
			}
		}
		return s
	case MapV:
		return en.mapKey(en.get(st, x.obj))
	case Iface:
		return "iface " + shortType(x.typ) + " " + en.show(st, x.v, d+1, seen)
	}
	return v.key()
}

func (c *Ctx) dumpInterp(name string) {
	for _, fn := range c.Funcs {
		if fname(fn) != name {
			continue
		}
		en := newEng(c)
		shapeHooks(en)
		args := en.symArgs(fn, false)
		outs, err := en.safeRun(fn, args, newState())
		fmt.Println("==", fname(fn), len(outs), "outcomes; budget left", en.budget, err)
		for _, o := range outs {
			fmt.Println("--", o.kind, o.why)
			for _, t := range o.st.trace {
				fmt.Println("   if", t)
			}
			for _, v := range o.ret {
				fmt.Println("   ret", en.show(o.st, v, 2, map[int]bool{}))
			}
			for i, a := range args {
				if p, ok := a.(Ptr); ok && o.st.objs[p.obj] != nil {
					fmt.Println("   arg", i, en.show(o.st, p, 2, map[int]bool{}))
				}
			}
			var ms []string
			for k := range en.maxes {
				ms = append(ms, k)
			}
			sort.Strings(ms)
			for _, m := range ms {
				fmt.Println("   max", m, en.maxes[m].init.key(), en.maxes[m].xs)
			}
		}
	}
}

func shapeHooks(en *Eng) {
	en.hooks["util.DeepCopy"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		src, ok1 := unIface(args[0]).(Ptr)
		dst, ok2 := unIface(args[1]).(Ptr)
		if !ok1 || !ok2 {
			return nil, false
		}
		memo := map[int]int{}
		en.store(st, dst, en.deepCopy(st, en.load(st, src), memo))
		return []Outcome{{kind: "ret", ret: []Val{NilV{errType}}, st: st}}, true
	}
}

func unIface(v Val) Val {
	if i, ok := v.(Iface); ok {
		return i.v
	}
	return v
}

func (en *Eng) deepCopy(st *State, v Val, memo map[int]int) Val {
	v = en.force(v)
	switch x := v.(type) {
	case Struct:
		s := Struct{typ: x.typ}
		for _, f := range x.f {
			s.f = append(s.f, en.deepCopy(st, f, memo))
		}
		return s
	case Slice:
		if x.n.isZero() {
			return x
		}
		o := en.get(st, x.arr)
		no := &Obj{kind: 'a', segs: en.content(st, x), elem: o.elem, label: o.label}
		return Slice{arr: en.newObj(st, no), off: pc(0), n: x.n, nilKey: x.nilKey}
	case MapV:
		o := *en.get(st, x.obj)
		return MapV{obj: en.newObj(st, &o), nilKey: x.nilKey}
	case Ptr:
		if len(x.path) == 0 {
			if n, ok := memo[x.obj]; ok {
				return Ptr{obj: n, nilKey: x.nilKey}
			}
			o := *en.get(st, x.obj)
			id := en.newObj(st, &o)
			memo[x.obj] = id
			if o.kind == 'c' {
				o.val = en.deepCopy(st, o.val, memo)
				st.objs[id] = &o
			}
			return Ptr{obj: id, nilKey: x.nilKey}
		}
	}
	return v
}
