package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// heapHooks models the binary heaps of github.com/emirpasic/gods and of container/heap step by
// step: their order is that of the comparisons, which are interpreted; a comparison that is not
// decided splits the path.
type heapModel struct {
	en  *Eng
	cmp map[int]Val // comparator by heap
}

func heapHooks(en *Eng) *heapModel {
	h := &heapModel{en: en, cmp: map[int]Val{}}
	const g = "github.com/emirpasic/gods/"
	on := func(names []string, f hookFn) {
		for _, n := range names {
			en.hooks[n] = f
		}
	}
	typ := func(n string) []string {
		return []string{"(*" + g + "trees/binaryheap.Heap)." + n, "(*trees/binaryheap.Heap)." + n, "(*binaryheap.Heap)." + n}
	}
	on([]string{g + "trees/binaryheap.NewWith", "binaryheap.NewWith"}, func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		id := en.newObj(st, &Obj{kind: 'c', val: en.mkSlice(st, anyT), elem: anyT})
		h.cmp[id] = args[0]
		return retOne(st, Ptr{obj: id})
	})
	get := func(st *State, v Val) (int, []Val, bool) {
		p, ok := en.force(v).(Ptr)
		if !ok {
			return 0, nil, false
		}
		if _, ok := h.cmp[p.obj]; !ok {
			return 0, nil, false
		}
		sl, ok := en.get(st, p.obj).val.(Slice)
		if !ok {
			return 0, nil, false
		}
		vs, ok := en.allVals(st, sl)
		return p.obj, vs, ok
	}
	put := func(st *State, id int, l []Val) {
		o := *en.get(st, id)
		o.val = en.mkSlice(st, anyT, l...)
		st.objs[id] = &o
	}
	on(typ("Push"), func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		id, l, ok := get(st, args[0])
		if !ok {
			return nil, false
		}
		sl, ok := en.force(args[1]).(Slice)
		if !ok {
			return nil, false
		}
		vs, ok := en.allVals(st, sl)
		if !ok || len(vs) != 1 {
			return nil, false
		}
		var outs []Outcome
		okAll := true
		h.up(st, h.cmp[id], append(append([]Val{}, l...), vs[0]), len(l), &okAll, func(st *State, l []Val) {
			put(st, id, l)
			outs = append(outs, Outcome{kind: "ret", st: st})
		})
		return outs, okAll
	})
	on(typ("Pop"), func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		id, l, ok := get(st, args[0])
		if !ok {
			return nil, false
		}
		if len(l) == 0 {
			return retOne(st, NilV{anyT}, BoolC(false))
		}
		top := l[0]
		l = append([]Val{}, l...)
		l[0] = l[len(l)-1]
		l = l[:len(l)-1]
		var outs []Outcome
		okAll := true
		h.down(st, h.cmp[id], l, 0, &okAll, func(st *State, l []Val) {
			put(st, id, l)
			outs = append(outs, Outcome{kind: "ret", ret: []Val{top, BoolC(true)}, st: st})
		})
		return outs, okAll
	})
	on(typ("Peek"), func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, l, ok := get(st, args[0])
		if !ok {
			return nil, false
		}
		if len(l) == 0 {
			return retOne(st, NilV{anyT}, BoolC(false))
		}
		return retOne(st, l[0], BoolC(true))
	})
	on(typ("Empty"), func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, l, ok := get(st, args[0])
		if !ok {
			return nil, false
		}
		return retOne(st, BoolC(len(l) == 0))
	})
	on(typ("Size"), func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, l, ok := get(st, args[0])
		if !ok {
			return nil, false
		}
		return retOne(st, Int{pc(int64(len(l)))})
	})
	on(typ("Clear"), func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		id, _, ok := get(st, args[0])
		if !ok {
			return nil, false
		}
		put(st, id, nil)
		return retOne(st)
	})
	// comparators of the library
	intCmp := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		a, ok1 := unIface(args[0]).(Int)
		b, ok2 := unIface(args[1]).(Int)
		if !ok1 || !ok2 {
			return nil, false
		}
		d := a.p.sub(b.p)
		var outs []Outcome
		for _, x := range []struct {
			r  int64
			cs []Cmp
		}{{-1, []Cmp{{"<0", d}}}, {1, []Cmp{{"<0", d.neg()}}}, {0, []Cmp{{">=0", d}, {">=0", d.neg()}}}} {
			s := st.clone()
			ok := true
			for _, c := range x.cs {
				ok = ok && s.assume(c, true) && !s.infeasible()
			}
			if ok {
				outs = append(outs, Outcome{kind: "ret", ret: []Val{Int{pc(x.r)}}, st: s})
			}
		}
		return outs, true
	}
	on([]string{g + "utils.IntComparator", "utils.IntComparator", "cmp.Compare", "cmp.Compare[int]"}, intCmp)
	on([]string{g + "utils.TimeComparator", "utils.TimeComparator"}, func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if unIface(args[0]).key() == unIface(args[1]).key() {
			return retOne(st, Int{pc(0)})
		}
		return nil, false
	})
	// container/heap
	callM := func(st *State, r Val, name string, args []Val, k func(st *State, ret []Val)) bool {
		i, ok := r.(Iface)
		if !ok {
			return false
		}
		var fn *ssa.Function
		ms := en.c.Prog.MethodSets.MethodSet(i.typ)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == name {
				fn = en.c.Prog.MethodValue(ms.At(j))
			}
		}
		if fn == nil || len(fn.Blocks) == 0 {
			return false
		}
		for _, o := range en.Run(fn, append([]Val{i.v}, args...), nil, st) {
			if o.kind == "ret" {
				k(o.st, o.ret)
			}
		}
		return true
	}
	n := func(i int) Val { return Int{pc(int64(i))} }
	size := func(st *State, r Val, k func(st *State, n int)) bool {
		ok := true
		done := callM(st, r, "Len", nil, func(st *State, ret []Val) {
			i, isI := ret[0].(Int)
			if !isI {
				ok = false
				return
			}
			c, known := st.norm(i.p).konst()
			if !known {
				ok = false
				return
			}
			k(st, int(c))
		})
		return ok && done
	}
	less := func(st *State, r Val, i, j int, k func(st *State, less bool)) bool {
		return callM(st, r, "Less", []Val{n(i), n(j)}, func(st *State, ret []Val) {
			s2 := st.clone()
			if st.assume(ret[0], true) && !st.infeasible() {
				k(st, true)
			}
			if s2.assume(ret[0], false) && !s2.infeasible() {
				k(s2, false)
			}
		})
	}
	var up, down func(st *State, r Val, i, n int, k func(st *State)) bool
	up = func(st *State, r Val, j, _ int, k func(st *State)) bool {
		i := (j - 1) / 2
		if i == j || j <= 0 {
			k(st)
			return true
		}
		ok := true
		return less(st, r, j, i, func(st *State, l bool) {
			if !l {
				k(st)
				return
			}
			ok = callM(st, r, "Swap", []Val{n(i), n(j)}, func(st *State, _ []Val) { ok = up(st, r, i, 0, k) && ok }) && ok
		}) && ok
	}
	down = func(st *State, r Val, i, m int, k func(st *State)) bool {
		j1 := 2*i + 1
		if j1 >= m {
			k(st)
			return true
		}
		ok := true
		step := func(st *State, j int) {
			ok = less(st, r, j, i, func(st *State, l bool) {
				if !l {
					k(st)
					return
				}
				ok = callM(st, r, "Swap", []Val{n(i), n(j)}, func(st *State, _ []Val) { ok = down(st, r, j, m, k) && ok }) && ok
			}) && ok
		}
		if j1+1 < m {
			return less(st, r, j1+1, j1, func(st *State, l bool) {
				if l {
					step(st, j1+1)
				} else {
					step(st, j1)
				}
			}) && ok
		}
		step(st, j1)
		return ok
	}
	en.hooks["container/heap.Push"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		var outs []Outcome
		ok := true
		done := callM(st, args[0], "Push", []Val{args[1]}, func(st *State, _ []Val) {
			ok = size(st, args[0], func(st *State, m int) {
				ok = up(st, args[0], m-1, 0, func(st *State) { outs = append(outs, Outcome{kind: "ret", st: st}) }) && ok
			}) && ok
		})
		return outs, ok && done
	}
	en.hooks["container/heap.Pop"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		var outs []Outcome
		ok := true
		r := args[0]
		done := size(st, r, func(st *State, m int) {
			ok = callM(st, r, "Swap", []Val{n(0), n(m - 1)}, func(st *State, _ []Val) {
				ok = down(st, r, 0, m-1, func(st *State) {
					ok = callM(st, r, "Pop", nil, func(st *State, ret []Val) {
						outs = append(outs, Outcome{kind: "ret", ret: ret, st: st})
					}) && ok
				}) && ok
			}) && ok
		})
		return outs, ok && done
	}
	en.hooks["container/heap.Init"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		var outs []Outcome
		ok := true
		r := args[0]
		done := size(st, r, func(st *State, m int) {
			var from func(st *State, i int)
			from = func(st *State, i int) {
				if i < 0 {
					outs = append(outs, Outcome{kind: "ret", st: st})
					return
				}
				ok = down(st, r, i, m, func(st *State) { from(st, i-1) }) && ok
			}
			from(st, m/2-1)
		})
		return outs, ok && done
	}
	return h
}

// allVals are the elements of a slice all of which are given one by one.
func (en *Eng) allVals(st *State, s Slice) ([]Val, bool) {
	var out []Val
	for _, g := range en.content(st, s) {
		c, ok := g.n.konst()
		if !ok || c < 0 || c > 256 {
			return nil, false
		}
		vs, ok := unitVals([]Seg{g})
		if !ok {
			return nil, false
		}
		out = append(out, vs...)
	}
	return out, true
}

// greater splits the path on whether a comes after b.
func (h *heapModel) greater(st *State, cmp Val, a, b Val, ok *bool, k func(st *State, gt bool)) {
	outs, found := h.compare(st, cmp, a, b)
	if !found {
		*ok = false
		return
	}
	for _, o := range outs {
		if o.kind != "ret" {
			continue
		}
		i, isI := o.ret[0].(Int)
		if !isI {
			*ok = false
			return
		}
		pos := Cmp{"<0", i.p.neg()}
		s2 := o.st.clone()
		if o.st.assume(pos, true) && !o.st.infeasible() {
			k(o.st, true)
		}
		if s2.assume(pos, false) && !s2.infeasible() {
			k(s2, false)
		}
	}
}

func (h *heapModel) compare(st *State, cmp Val, a, b Val) ([]Outcome, bool) {
	c, ok := cmp.(Closure)
	if !ok {
		return nil, false
	}
	fn, ok := c.fn.(*ssa.Function)
	if !ok {
		return nil, false
	}
	for n, hk := range h.en.hooks {
		if strings.HasSuffix(fn.String(), n) && strings.Contains(n, "Comparator") {
			return hk(h.en, st, nil, []Val{a, b})
		}
	}
	if len(fn.Blocks) == 0 {
		return nil, false
	}
	return h.en.Run(fn, []Val{a, b}, c.b, st), true
}

func (h *heapModel) up(st *State, cmp Val, l []Val, i int, ok *bool, k func(st *State, l []Val)) {
	if i <= 0 {
		k(st, l)
		return
	}
	p := (i - 1) >> 1
	h.greater(st, cmp, l[p], l[i], ok, func(st *State, gt bool) {
		if !gt {
			k(st, l)
			return
		}
		m := append([]Val{}, l...)
		m[p], m[i] = m[i], m[p]
		h.up(st, cmp, m, p, ok, k)
	})
}

func (h *heapModel) down(st *State, cmp Val, l []Val, i int, ok *bool, k func(st *State, l []Val)) {
	left := 2*i + 1
	if left >= len(l) {
		k(st, l)
		return
	}
	go2 := func(st *State, c int) {
		h.greater(st, cmp, l[i], l[c], ok, func(st *State, gt bool) {
			if !gt {
				k(st, l)
				return
			}
			m := append([]Val{}, l...)
			m[i], m[c] = m[c], m[i]
			h.down(st, cmp, m, c, ok, k)
		})
	}
	if left+1 < len(l) {
		h.greater(st, cmp, l[left], l[left+1], ok, func(st *State, gt bool) {
			if gt {
				go2(st, left+1)
			} else {
				go2(st, left)
			}
		})
		return
	}
	go2(st, left)
}
