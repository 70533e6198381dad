package main

import (
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var normRx = regexp.MustCompile(`norm\(S(\[[^\]]*\])\)`)

// sortHooks models the sorting functions of the standard library on slices whose elements
// are known and whose comparisons are decided.
func sortHooks(en *Eng) {
	apply := func(en *Eng, st *State, s Slice, less func(a, b int, va, vb Val) (bool, bool)) ([]Outcome, bool) {
		vs, ok := unitVals(en.content(st, s))
		if !ok {
			return nil, false
		}
		idx := make([]int, len(vs))
		for i := range idx {
			idx[i] = i
		}
		fail := false
		sort.SliceStable(idx, func(i, j int) bool {
			r, ok := less(idx[i], idx[j], vs[idx[i]], vs[idx[j]])
			if !ok {
				fail = true
			}
			return r
		})
		if fail {
			return nil, false
		}
		for k, i := range idx {
			en.storeElem(st, s.arr, s.off.addc(int64(k)), vs[i])
		}
		return retOne(st)
	}
	one := func(en *Eng, outs []Outcome) (bool, bool) {
		if len(outs) != 1 || outs[0].kind != "ret" || len(outs[0].ret) != 1 {
			return false, false
		}
		return outs[0].st.decide(outs[0].ret[0])
	}
	// paths is apply following every outcome of the comparisons; an unstable sort takes
	// equal elements in either order, here the last one first when map ranges are reversed
	paths := func(en *Eng, st *State, s Slice, stable bool, run func(st *State, a, b int, va, vb Val) []Outcome, less func(ret []Val) (Val, bool)) ([]Outcome, bool) {
		vs, ok := en.allVals(st, s)
		if !ok {
			return nil, false
		}
		var out []Outcome
		all := true
		var insert func(st *State, perm []int, i, j int)
		insert = func(st *State, perm []int, i, j int) {
			if i >= len(vs) {
				for k, x := range perm {
					en.storeElem(st, s.arr, s.off.addc(int64(k)), vs[x])
				}
				out = append(out, Outcome{kind: "ret", st: st})
				return
			}
			put := func(st *State, j int) {
				n := append(append([]int{}, perm[:j]...), i)
				n = append(n, perm[j:]...)
				insert(st, n, i+1, i+1)
			}
			if j == 0 {
				put(st, 0)
				return
			}
			a, b := i, perm[j-1]
			if en.mapRev == 1 && !stable {
				a, b = b, a
			}
			for _, o := range run(st, a, b, vs[a], vs[b]) {
				if o.kind != "ret" {
					out = append(out, o)
					continue
				}
				c, ok := less(o.ret)
				if !ok {
					all = false
					return
				}
				s2 := o.st.clone()
				if o.st.assume(c, true) && !o.st.infeasible() {
					if a == i {
						insert(o.st, perm, i, j-1)
					} else {
						put(o.st, j)
					}
				}
				if s2.assume(c, false) && !s2.infeasible() {
					if a == i {
						put(s2, j)
					} else {
						insert(s2, perm, i, j-1)
					}
				}
			}
		}
		insert(st, nil, 0, 0)
		if !all {
			return nil, false
		}
		return out, true
	}
	truth := func(ret []Val) (Val, bool) {
		switch ret[0].(type) {
		case BoolC, Cmp, TBool, Term:
			return ret[0], true
		}
		return nil, false
	}
	negative := func(ret []Val) (Val, bool) {
		x, ok := ret[0].(Int)
		return Cmp{"<0", x.p}, ok
	}
	// sort.Slice and friends: comparison by index
	byIndex := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := en.force(unIface(args[0])).(Slice)
		if !ok {
			return nil, false
		}
		cl, ok := args[1].(Closure)
		if !ok {
			return nil, false
		}
		f, ok := cl.fn.(*ssa.Function)
		if !ok {
			return nil, false
		}
		if en.pathMode {
			return paths(en, st, s, strings.HasSuffix(calleeName(cc), "Stable"), func(st *State, a, b int, _, _ Val) []Outcome {
				return en.Run(f, []Val{Int{pc(int64(a))}, Int{pc(int64(b))}}, cl.b, st.clone())
			}, truth)
		}
		return apply(en, st, s, func(a, b int, _, _ Val) (bool, bool) {
			return one(en, en.Run(f, []Val{Int{pc(int64(a))}, Int{pc(int64(b))}}, cl.b, st.clone()))
		})
	}
	en.hooks["sort.Slice"] = byIndex
	en.hooks["sort.SliceStable"] = byIndex
	byIface := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		i, ok := args[0].(Iface)
		if !ok {
			return nil, false
		}
		s, ok := en.force(i.v).(Slice)
		if !ok {
			return nil, false
		}
		f := en.c.Prog.LookupMethod(i.typ, nil, "Less")
		if f == nil || len(f.Blocks) == 0 {
			return nil, false
		}
		if en.pathMode {
			return paths(en, st, s, strings.HasSuffix(calleeName(cc), "Stable"), func(st *State, a, b int, _, _ Val) []Outcome {
				return en.Run(f, []Val{s, Int{pc(int64(a))}, Int{pc(int64(b))}}, nil, st.clone())
			}, truth)
		}
		return apply(en, st, s, func(a, b int, _, _ Val) (bool, bool) {
			return one(en, en.Run(f, []Val{s, Int{pc(int64(a))}, Int{pc(int64(b))}}, nil, st.clone()))
		})
	}
	en.hooks["sort.Sort"] = byIface
	en.hooks["sort.Stable"] = byIface
	// slices.SortFunc: comparison of elements
	byFunc := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := en.force(args[0]).(Slice)
		if !ok {
			return nil, false
		}
		cl, ok := args[1].(Closure)
		if !ok {
			return nil, false
		}
		f, ok := cl.fn.(*ssa.Function)
		if !ok {
			return nil, false
		}
		if en.pathMode {
			return paths(en, st, s, strings.Contains(calleeName(cc), "Stable"), func(st *State, _, _ int, a, b Val) []Outcome {
				return en.Run(f, []Val{a, b}, cl.b, st.clone())
			}, negative)
		}
		return apply(en, st, s, func(_, _ int, a, b Val) (bool, bool) {
			outs := en.Run(f, []Val{a, b}, cl.b, st.clone())
			if len(outs) != 1 || outs[0].kind != "ret" {
				return false, false
			}
			x, ok := outs[0].ret[0].(Int)
			if !ok {
				return false, false
			}
			k, ok := outs[0].st.norm(x.p).konst()
			return k < 0, ok
		})
	}
	en.hooks["slices.SortFunc"] = byFunc
	en.hooks["slices.SortStableFunc"] = byFunc
}
