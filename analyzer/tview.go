package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Views: what an abstract state says about each Encoding a function hands out.

var encOrder = []string{"Ids", "TypeIds", "Tokens", "Offsets", "SpecialTokenMask", "AttentionMask", "Words"}

type encView struct {
	en    *Eng
	st    *State
	where string
	owner string // non-empty: an untouched symbolic encoding
	segs  map[string][]Seg
	n     map[string]*Poly
	arr   map[string]Slice
	over  Val
	rng   Val
	bad   string // content unknown
}

func (en *Eng) view(st *State, v Val, where string) *encView {
	v = en.force(v)
	if p, ok := v.(Ptr); ok {
		v = en.load(st, p)
	}
	s, ok := v.(Struct)
	if !ok || !isEncoding(s.typ) {
		return &encView{en: en, st: st, where: where, bad: "not a known encoding: " + v.key()}
	}
	w := &encView{en: en, st: st, where: where, segs: map[string][]Seg{}, n: map[string]*Poly{}, arr: map[string]Slice{}}
	u := s.typ.Underlying().(*types.Struct)
	for i, f := range s.f {
		name := u.Field(i).Name()
		if name == "Overflowing" {
			w.over = en.force(f)
			continue
		}
		if name == "SequenceRanges" {
			w.rng = en.force(f)
			continue
		}
		if !encFields[name] {
			continue
		}
		sl, ok := en.asSlice(f, u.Field(i).Type())
		if !ok {
			w.bad = "field " + name + " unknown"
			continue
		}
		w.n[name] = st.norm(sl.n)
		w.segs[name] = en.content(st, sl)
		w.arr[name] = sl
	}
	return w
}

// views lists the encodings contained in v: itself, elements of slices, overflow windows.
func (en *Eng) views(st *State, v Val, where string, depth int) []*encView {
	v = en.force(v)
	if depth > 4 {
		return nil
	}
	var out []*encView
	switch x := v.(type) {
	case Ptr:
		o := en.get(st, x.obj)
		if o == nil {
			return nil
		}
		t := o.elem
		if o.kind == 'c' && len(x.path) == 0 && t != nil && isEncoding(t) {
			return en.views(st, en.load(st, x), where, depth)
		}
		if o.kind == 'a' || len(x.path) > 0 {
			lv := en.load(st, x)
			if s, ok := lv.(Struct); ok && isEncoding(s.typ) {
				return en.views(st, lv, where, depth)
			}
		}
	case Struct:
		if !isEncoding(x.typ) {
			return nil
		}
		if nm := en.structKey(x); nm != "" {
			return []*encView{{en: en, st: st, where: where, owner: nm}}
		}
		w := en.view(st, x, where)
		out = append(out, w)
		if w.over != nil {
			out = append(out, en.views(st, w.over, where+".Overflowing", depth+1)...)
		}
	case Slice:
		o := en.get(st, x.arr)
		if o == nil || o.elem == nil || !isEncoding(derefT(o.elem)) {
			return nil
		}
		out = append(out, en.segViews(st, en.content(st, x), where, depth)...)
	case Tuple:
		for i, y := range x {
			out = append(out, en.views(st, y, fmt.Sprintf("%s#%d", where, i), depth)...)
		}
	}
	return out
}

func (en *Eng) segViews(st *State, segs []Seg, where string, depth int) []*encView {
	var out []*encView
	for _, g := range segs {
		switch g.kind {
		case 'F':
			out = append(out, en.views(st, g.val, where+"[]", depth)...)
		case 'S':
			out = append(out, &encView{en: en, st: st, where: where + "[]", owner: g.base + "[…]"})
		case 'G':
			for _, a := range g.g.alts {
				for _, v := range a.vals {
					out = append(out, en.views(a.st, v, where+"["+g.g.k+"]", depth)...)
				}
				out = append(out, en.segViews(a.st, a.segs, where+"["+g.g.k+"]", depth)...)
			}
		case 'U':
			out = append(out, &encView{en: en, st: st, where: where + "[]", bad: "elements unknown: " + g.base})
		}
	}
	return out
}

func (w *encView) String() string {
	if w.bad != "" {
		return w.where + ": unknown (" + w.bad + ")"
	}
	if w.owner != "" {
		return w.where + ": untouched " + w.owner
	}
	s := w.where + ":\n"
	for _, f := range encOrder {
		s += fmt.Sprintf("      %-16s n=%s  %s\n", f, w.n[f].key(), w.en.segsShow(w.st, w.segs[f]))
	}
	return s
}

func (en *Eng) segsShow(st *State, ss []Seg) string {
	var l []string
	for _, g := range ss {
		t := g.String()
		if g.kind == 'F' {
			t = "(" + en.valShow(st, g.val) + ")x" + g.n.key()
		}
		if g.kind == 'G' {
			var a []string
			for _, x := range g.g.alts {
				var b []string
				for _, v := range x.vals {
					b = append(b, en.valShow(x.st, v))
				}
				if x.segs != nil {
					b = append(b, "<"+en.segsShow(x.st, x.segs)+">")
				}
				a = append(a, strings.Join(b, " "))
			}
			t = "gen<" + g.g.k + ">{" + strings.Join(a, " | ") + "}x" + g.n.key()
		}
		l = append(l, t)
	}
	return strings.Join(l, " ++ ")
}

func (en *Eng) valShow(st *State, v Val) string {
	if s, ok := v.(Slice); ok {
		return "[" + en.segsShow(st, en.content(st, s)) + "]"
	}
	return v.key()
}

// ---------- contract of MergeWith, used at every call; MergeWith itself is verified against it.

func contractHooks(en *Eng) {
	shapeHooks(en)
	en.hooks["(*tokenizer.Encoding).MergeWith"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		rp, ok1 := args[0].(Ptr)
		pp, ok2 := args[1].(Ptr)
		if !ok1 || !ok2 {
			return nil, false
		}
		rs, ok1 := en.load(st, rp).(Struct)
		ps, ok2 := en.load(st, pp).(Struct)
		if !ok1 || !ok2 || !isEncoding(rs.typ) {
			return nil, false
		}
		grow := args[2]
		d, known := st.decide(grow)
		u := rs.typ.Underlying().(*types.Struct)
		out := Struct{typ: rs.typ}
		tag := en.fresh("merged")
		for i := range rs.f {
			f := u.Field(i)
			switch {
			case encFields[f.Name()]:
				a, ok1 := en.asSlice(rs.f[i], f.Type())
				b, ok2 := en.asSlice(ps.f[i], f.Type())
				if !ok1 || !ok2 {
					return nil, false
				}
				cb := en.content(st, b)
				if f.Name() == "Offsets" && (!known || d) {
					cb = shiftSegs(cb)
				}
				segs := append(append([]Seg(nil), en.content(st, a)...), cb...)
				o := &Obj{kind: 'a', segs: segs, elem: f.Type().Underlying().(*types.Slice).Elem(), alias: map[int]bool{}}
				out.f = append(out.f, Slice{arr: en.newObj(st, o), off: pc(0), n: st.norm(a.n.add(b.n))})
			case f.Name() == "Overflowing":
				out.f = append(out.f, en.symv(tag+".Overflowing", f.Type()))
			default:
				out.f = append(out.f, en.symv(tag+"."+f.Name(), f.Type()))
			}
		}
		en.store(st, rp, out)
		return []Outcome{{kind: "ret", ret: []Val{args[0]}, st: st}}, true
	}
}

func shiftSegs(ss []Seg) []Seg {
	var out []Seg
	for _, s := range ss {
		switch s.kind {
		case 'S':
			s.base = "shift(" + s.base + ")"
		default:
			s = Seg{kind: 'U', base: "shift(" + s.String() + ")", n: s.n}
		}
		out = append(out, s)
	}
	return out
}

// ---------- roots

type tRun struct {
	name string
	fn   *ssa.Function
	en   *Eng
	args []Val
	outs []Outcome
	err  string
}

// troot interprets one function on symbolic, well-formed arguments.
func (c *Ctx) troot(short, name string, setup func(*Eng, *State, []Val)) *tRun {
	fn := c.lookup(short, name)
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	en := newEng(c)
	contractHooks(en)
	args := en.symArgs(fn, true)
	st := newState()
	if setup != nil {
		setup(en, st, args)
	}
	r := &tRun{name: fname(fn), fn: fn, en: en, args: args}
	r.outs, r.err = en.safeRun(fn, args, st)
	return r
}

func (c *Ctx) dumpViews(short, name string) {
	r := c.troot(short, name, nil)
	if r == nil {
		fmt.Println("no function", short, name)
		return
	}
	fmt.Println("==", r.name, len(r.outs), "outcomes", r.err)
	for _, o := range r.outs {
		fmt.Println("--", o.kind, o.why)
		if o.kind != "ret" {
			continue
		}
		for _, t := range o.st.trace {
			fmt.Println("   if", t)
		}
		for i, v := range o.ret {
			vs := r.en.views(o.st, v, fmt.Sprintf("ret%d", i), 0)
			if len(vs) == 0 {
				fmt.Println("   ret", i, v.key())
			}
			for _, w := range vs {
				fmt.Println("   ", w)
			}
		}
		for i, a := range r.args {
			for _, w := range r.en.views(o.st, a, "arg:"+r.fn.Params[i].Name(), 0) {
				fmt.Println("   ", w)
			}
		}
	}
	var ms []string
	for k := range r.en.maxes {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	for k, l := range r.en.havocs {
		fmt.Println("   havoc", k)
		for _, v := range l {
			fmt.Println("       ", v.key(), r.en.show(r.outs[len(r.outs)-1].st, v, 0, map[int]bool{}))
		}
	}
	for _, m := range ms {
		fmt.Println("   max", m, r.en.maxes[m].init.key(), r.en.maxes[m].xs)
	}
}
