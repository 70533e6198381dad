package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural effect analysis. For every function a summary is computed bottom-up to a
// fixpoint: which memory reachable from its parameters, captured variables and package
// variables it may write, what its results may point to, and what it stores where. Objects
// reachable at entry are named by access path from a parameter, new objects by allocation
// site; values are sets of locations (object, field path). Flow-insensitive, field-sensitive,
// context-sensitive through summary instantiation.

type eobj struct {
	key    string
	kind   byte // i: in memory at entry, g: package variable, f: fresh, c: closure, d: result of an unresolved function value
	root   string
	parent *eobj
	ppath  string
	depth  int
	typ    types.Type
	fn     *ssa.Function
}

type eloc struct {
	o *eobj
	p string
}

type eset map[eloc]bool

func (s eset) addAll(t eset) bool {
	ch := false
	for l := range t {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

type ewrite struct {
	l      eloc
	pos    token.Pos
	in     *ssa.Function
	what   string // store, map update, append, copy, sort, delete
	locked bool
	via    *ssa.Function // root callee chain: the function called from here
}

type edyn struct {
	key    string
	target eset
	args   []eset
	nres   int
	locked bool
}

type efn struct {
	an     *effects
	fn     *ssa.Function
	objs   map[string]*eobj
	vals   map[ssa.Value]eset
	tup    map[ssa.Value][]eset
	heap   map[eloc]eset
	rets   []eset
	writes map[string]*ewrite
	dyns   map[string]*edyn
	locks  map[ssa.Instruction]map[string]bool
	ids    map[ssa.Instruction]int
	ch     bool
	done   int
}

type effects struct {
	c       *Ctx
	res     *resolver
	fns     map[*ssa.Function]*efn
	order   []*efn
	work    bool
	msets   map[string][]*ssa.Function
	exempt  func(*ssa.Function) bool
	externs map[string]bool
}

func newEffects(c *Ctx) *effects {
	return &effects{c: c, res: newResolver(c), fns: map[*ssa.Function]*efn{}, msets: map[string][]*ssa.Function{}, externs: map[string]bool{}}
}

func (a *effects) get(fn *ssa.Function) *efn {
	if f, ok := a.fns[fn]; ok {
		return f
	}
	f := &efn{an: a, fn: fn, objs: map[string]*eobj{}, vals: map[ssa.Value]eset{}, tup: map[ssa.Value][]eset{}, heap: map[eloc]eset{}, writes: map[string]*ewrite{}, dyns: map[string]*edyn{}, ids: map[ssa.Instruction]int{}}
	f.locks = heldLocks(fn, nil)
	n := 0
	eachInstr(fn, func(i ssa.Instruction) { n++; f.ids[i] = n })
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		f.rets = append(f.rets, eset{})
	}
	a.fns[fn] = f
	a.order = append(a.order, f)
	a.work = true
	return f
}

// solve runs every function reached from the roots until no summary changes.
func (a *effects) solve(roots []*ssa.Function) {
	for _, r := range roots {
		a.get(r)
	}
	for n := 0; n < 40; n++ {
		a.work = false
		if os.Getenv("TKDBG") != "" {
			fs := append([]*efn(nil), a.order...)
			sort.Slice(fs, func(i, j int) bool { return len(fs[i].heap) > len(fs[j].heap) })
			for i := 0; i < 6 && i < len(fs); i++ {
				f := fs[i]
				fmt.Fprintln(os.Stderr, n, len(a.order), fname(f.fn), "objs", len(f.objs), "heap", len(f.heap), "writes", len(f.writes), "dyns", len(f.dyns))
			}
		}
		for k := len(a.order) - 1; k >= 0; k-- {
			f := a.order[k]
			for m := 0; m < 30; m++ {
				f.ch = false
				if len(f.objs) > 800 && os.Getenv("TKDBG") == "2" {
					for _, k := range sortedKeys(f.objs) {
						fmt.Fprintln(os.Stderr, "obj", k)
					}
					os.Exit(1)
				}
				t0 := time.Now()
				if os.Getenv("TKDBG") == "2" {
					fmt.Fprintln(os.Stderr, "do", n, fname(f.fn), "objs", len(f.objs), "heap", len(f.heap), "writes", len(f.writes), "dyns", len(f.dyns))
				}
				f.pass()
				if d := time.Since(t0); os.Getenv("TKDBG") != "" && d > time.Second {
					fmt.Fprintln(os.Stderr, d, n, fname(f.fn), "objs", len(f.objs), "heap", len(f.heap), "writes", len(f.writes), "dyns", len(f.dyns))
				}
				if !f.ch {
					break
				}
				a.work = true
			}
		}
		if !a.work {
			return
		}
	}
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func hasPointers(t types.Type) bool { return len(leaves(t)) > 0 }

type leaf struct {
	p string
	t types.Type
}

func leaves(t types.Type) []leaf { return leavesD(t, 0) }

func leavesD(t types.Type, d int) []leaf {
	if d > 6 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return []leaf{{"", t}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesD(u.Field(i).Type(), d+1) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.p, l.t})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range leavesD(u.Elem(), d+1) {
			out = append(out, leaf{"[]" + l.p, l.t})
		}
		return out
	}
	return nil
}

func (f *efn) obj(o eobj) *eobj {
	if x, ok := f.objs[o.key]; ok {
		return x
	}
	n := o
	f.objs[o.key] = &n
	return &n
}

func (f *efn) rootObj(root string, kind byte) *eobj {
	return f.obj(eobj{key: root, kind: kind, root: root})
}

const maxInDepth = 5

// child: the object a pointer stored at (o,p) pointed to at entry.
func (f *efn) child(o *eobj, p string, t types.Type) *eobj {
	if o.depth >= maxInDepth || strings.Contains(o.key, "~") {
		k := o.root + "~" + types.TypeString(t, nil)
		return f.obj(eobj{key: k, kind: o.kind, root: o.root, depth: maxInDepth, typ: t})
	}
	return f.obj(eobj{key: o.key + p + "*", kind: o.kind, root: o.root, parent: o, ppath: p, depth: o.depth + 1, typ: t})
}

func clip(p string) string {
	if len(p) > 100 {
		return p[:100]
	}
	return p
}

func (f *efn) load(l eloc, t types.Type) eset {
	if !pointerish(t) {
		if hasPointers(t) {
			return eset{l: true}
		}
		return nil
	}
	out := eset{}
	out.addAll(f.heap[l])
	switch l.o.kind {
	case 'i', 'g', 'd':
		out[eloc{f.child(l.o, l.p, t), ""}] = true
	}
	return out
}

func (f *efn) loadAll(s eset, suffix string, t types.Type) eset {
	out := eset{}
	for l := range s {
		out.addAll(f.load(eloc{l.o, clip(l.p + suffix)}, t))
	}
	return out
}

func (f *efn) put(l eloc, s eset) {
	if len(s) == 0 {
		return
	}
	h := f.heap[l]
	if h == nil {
		h = eset{}
		f.heap[l] = h
	}
	if h.addAll(s) {
		f.ch = true
	}
}

// copyTo stores a value of type t at dst.
func (f *efn) copyTo(v eset, t types.Type, dst eloc) {
	if len(v) == 0 {
		return
	}
	if pointerish(t) {
		f.put(dst, v)
		return
	}
	for _, lf := range leaves(t) {
		d := eloc{dst.o, clip(dst.p + lf.p)}
		for s := range v {
			if s == dst {
				continue
			}
			f.put(d, f.load(eloc{s.o, clip(s.p + lf.p)}, lf.t))
		}
	}
}

func (f *efn) write(l eloc, pos token.Pos, in *ssa.Function, what string, locked bool, via *ssa.Function) {
	switch l.o.kind {
	case 'i', 'g', 'd':
	default:
		return
	}
	k := fmt.Sprintf("%s|%s|%d|%s|%v", l.o.key, l.p, pos, what, locked)
	if _, ok := f.writes[k]; !ok {
		f.writes[k] = &ewrite{l, pos, in, what, locked, via}
		f.ch = true
	}
}

func (f *efn) val(v ssa.Value) eset {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return eset{eloc{f.rootObj("G:"+x.String(), 'g'), ""}: true}
	case *ssa.Function:
		return eset{eloc{f.obj(eobj{key: "fn:" + x.String(), kind: 'c', fn: x}), ""}: true}
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == x {
				return eset{eloc{f.rootObj(fmt.Sprintf("p:%d", i), 'i'), ""}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == x {
				return eset{eloc{f.rootObj(fmt.Sprintf("fv:%d", i), 'i'), ""}: true}
			}
		}
	}
	return f.vals[v]
}

func (f *efn) set(v ssa.Value, s eset) {
	if len(s) == 0 || !hasPointers(v.Type()) {
		return
	}
	o := f.vals[v]
	if o == nil {
		o = eset{}
		f.vals[v] = o
	}
	if o.addAll(s) {
		f.ch = true
	}
}

func suffixAll(s eset, suf string) eset {
	out := eset{}
	for l := range s {
		out[eloc{l.o, clip(l.p + suf)}] = true
	}
	return out
}

func (f *efn) fresh(i ssa.Instruction, tag string, t types.Type) *eobj {
	return f.obj(eobj{key: fmt.Sprintf("%s@%d", tag, f.ids[i]), kind: 'f', typ: t})
}

func writeLocked(m map[string]bool) bool {
	for k := range m {
		if strings.HasPrefix(k, "W:") {
			return true
		}
	}
	return false
}

func (f *efn) pass() {
	fn := f.fn
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.step(in)
		}
	}
}

func one(o *eobj) eset { return eset{eloc{o, ""}: true} }

func (f *efn) step(in ssa.Instruction) {
	locked := writeLocked(f.locks[in])
	switch x := in.(type) {
	case *ssa.Alloc:
		f.set(x, one(f.fresh(x, "new", derefT(x.Type()))))
	case *ssa.MakeSlice:
		f.set(x, one(f.fresh(x, "make", x.Type())))
	case *ssa.MakeMap:
		f.set(x, one(f.fresh(x, "make", x.Type())))
	case *ssa.MakeChan:
		f.set(x, one(f.fresh(x, "make", x.Type())))
	case *ssa.MakeInterface:
		v := f.val(x.X)
		if pointerish(x.X.Type()) {
			f.set(x, v)
		} else if hasPointers(x.X.Type()) || true {
			box := f.fresh(x, "box", x.X.Type())
			f.copyTo(v, x.X.Type(), eloc{box, ""})
			f.set(x, one(box))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		o := f.obj(eobj{key: fmt.Sprintf("clo@%d", f.ids[x]), kind: 'c', fn: g})
		for i, b := range x.Bindings {
			f.put(eloc{o, fmt.Sprintf("#%d", i)}, f.val(b))
		}
		f.set(x, one(o))
	case *ssa.FieldAddr:
		f.set(x, suffixAll(f.val(x.X), "."+fieldName(derefT(x.X.Type()), x.Field)))
	case *ssa.Field:
		f.set(x, f.loadAll(f.val(x.X), "."+fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.IndexAddr:
		f.set(x, suffixAll(f.val(x.X), "[]"))
	case *ssa.Index:
		f.set(x, f.loadAll(f.val(x.X), "[]", x.Type()))
	case *ssa.Lookup:
		var s eset
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			s = f.loadAll(f.val(x.X), "{}", m.Elem())
		}
		if x.CommaOk {
			f.setTup(x, 0, s)
		} else {
			f.set(x, s)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			f.set(x, f.loadAll(f.val(x.X), "", x.Type()))
		case token.ARROW:
			t := x.X.Type().Underlying().(*types.Chan).Elem()
			s := f.loadAll(f.val(x.X), "<>", t)
			if x.CommaOk {
				f.setTup(x, 0, s)
			} else {
				f.set(x, s)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.set(x, f.val(e))
		}
	case *ssa.ChangeType:
		f.set(x, f.val(x.X))
	case *ssa.ChangeInterface:
		f.set(x, f.val(x.X))
	case *ssa.Convert:
		if pointerish(x.X.Type()) && pointerish(x.Type()) {
			f.set(x, f.val(x.X))
		} else if pointerish(x.Type()) {
			f.set(x, one(f.fresh(x, "conv", x.Type())))
		}
	case *ssa.MultiConvert:
		f.set(x, f.val(x.X))
	case *ssa.SliceToArrayPointer:
		f.set(x, f.val(x.X))
	case *ssa.Slice:
		f.set(x, f.val(x.X))
	case *ssa.TypeAssert:
		s := f.val(x.X)
		out := eset{}
		_, toIface := x.AssertedType.Underlying().(*types.Interface)
		for l := range s {
			if !toIface && l.o.kind == 'f' && l.o.typ != nil && l.p == "" {
				want := x.AssertedType
				if p, ok := want.Underlying().(*types.Pointer); ok {
					want = p.Elem()
				}
				if !types.Identical(want, l.o.typ) {
					continue
				}
			}
			out[l] = true
		}
		if x.CommaOk {
			f.setTup(x, 0, out)
		} else {
			f.set(x, out)
		}
	case *ssa.Range:
		f.vals[x] = f.val(x.X)
	case *ssa.Next:
		if x.IsString {
			return
		}
		r := x.Iter.(*ssa.Range)
		m, ok := r.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		f.setTup(x, 1, f.loadAll(f.val(r.X), "{k}", m.Key()))
		f.setTup(x, 2, f.loadAll(f.val(r.X), "{}", m.Elem()))
	case *ssa.Extract:
		if t := f.tup[x.Tuple]; x.Index < len(t) {
			f.set(x, t[x.Index])
		}
	case *ssa.Select:
		n := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				t := s.Chan.Type().Underlying().(*types.Chan).Elem()
				f.setTup(x, n, f.loadAll(f.val(s.Chan), "<>", t))
				n++
			} else {
				for l := range f.val(s.Chan) {
					f.copyTo(f.val(s.Send), s.Send.Type(), eloc{l.o, clip(l.p + "<>")})
				}
			}
		}
	case *ssa.Send:
		for l := range f.val(x.Chan) {
			f.copyTo(f.val(x.X), x.X.Type(), eloc{l.o, clip(l.p + "<>")})
		}
	case *ssa.Store:
		v := f.val(x.Val)
		for l := range f.val(x.Addr) {
			f.copyTo(v, x.Val.Type(), l)
			f.write(l, x.Pos(), f.fn, "store", locked, nil)
		}
	case *ssa.MapUpdate:
		v, k := f.val(x.Value), f.val(x.Key)
		for l := range f.val(x.Map) {
			f.copyTo(v, x.Value.Type(), eloc{l.o, clip(l.p + "{}")})
			f.copyTo(k, x.Key.Type(), eloc{l.o, clip(l.p + "{k}")})
			f.write(eloc{l.o, clip(l.p + "{}")}, x.Pos(), f.fn, "map update", locked, nil)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if f.rets[i].addAll(f.val(r)) {
				f.ch = true
			}
		}
	case ssa.CallInstruction:
		f.call(x, locked)
	}
}

func (f *efn) setTup(v ssa.Value, i int, s eset) {
	t := f.tup[v]
	for len(t) <= i {
		t = append(t, eset{})
	}
	f.tup[v] = t
	if t[i].addAll(s) {
		f.ch = true
	}
}

func (f *efn) setRes(x ssa.CallInstruction, i int, s eset) {
	v := x.Value()
	if v == nil {
		return
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		f.setTup(v, i, s)
	} else if i == 0 {
		f.set(v, s)
	}
}

func (f *efn) call(x ssa.CallInstruction, locked bool) {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f.builtin(x, b.Name(), cc, locked)
		return
	}
	var args []eset
	if cc.IsInvoke() {
		recv := f.val(cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, f.val(a))
		}
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		if it == nil {
			return
		}
		any := false
		for _, g := range f.methods(it, cc.Method, recv) {
			any = true
			f.apply(x, fmt.Sprintf("%d", f.ids[x]), g, nil, args, locked, func(i int, s eset) { f.setRes(x, i, s) })
		}
		if !any {
			f.extern(x, calleeName(cc), cc, args, locked)
		}
		return
	}
	for _, a := range cc.Args {
		args = append(args, f.val(a))
	}
	if g := cc.StaticCallee(); g != nil {
		if f.an.has(g) {
			var clo *eobj
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for l := range f.val(mc) {
					clo = l.o
				}
			}
			f.apply(x, fmt.Sprintf("%d", f.ids[x]), g, clo, args, locked, func(i int, s eset) { f.setRes(x, i, s) })
		} else {
			f.extern(x, calleeName(cc), cc, args, locked)
		}
		return
	}
	f.dynCall(x, fmt.Sprintf("%d", f.ids[x]), f.val(cc.Value), args, cc.Signature().Results().Len(), locked, func(i int, s eset) { f.setRes(x, i, s) }, 0)
}

func (a *effects) has(g *ssa.Function) bool {
	return len(g.Blocks) > 0 && a.c.inModule(g)
}

// methods lists the implementations an interface call may reach given the receiver's objects.
func (f *efn) methods(it *types.Interface, m *types.Func, recv eset) []*ssa.Function {
	var out []*ssa.Function
	all := false
	ts := map[string]types.Type{}
	for l := range recv {
		if l.o.kind == 'f' && l.o.typ != nil && l.p == "" {
			ts[types.TypeString(l.o.typ, nil)] = l.o.typ
			continue
		}
		all = true
	}
	add := func(T types.Type) {
		sel := f.an.c.Prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			return
		}
		if g := f.an.c.Prog.MethodValue(sel); g != nil && f.an.has2(g) {
			out = appendOnce(out, g)
		}
	}
	if all {
		for _, t := range f.an.res.types {
			for _, T := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(T, it) {
					add(T)
					break
				}
			}
		}
		return out
	}
	for _, k := range sortedKeys(ts) {
		t := ts[k]
		if types.Implements(t, it) {
			add(t)
		} else if types.Implements(types.NewPointer(t), it) {
			add(types.NewPointer(t))
		}
	}
	return out
}

func (a *effects) has2(g *ssa.Function) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	return a.c.inModule(g) || g.Synthetic != ""
}

func (f *efn) dynCall(x ssa.CallInstruction, id string, target eset, args []eset, nres int, locked bool, res func(int, eset), d int) {
	un := eset{}
	for l := range target {
		if l.o.kind == 'c' && l.o.fn != nil {
			if f.an.has2(l.o.fn) {
				f.apply(x, id+"c", l.o.fn, l.o, args, locked, res)
			}
			continue
		}
		if l.o.kind != 'f' {
			un[l] = true
		}
	}
	if len(un) == 0 || d > 4 {
		return
	}
	if len(id) > 40 {
		id = id[:40]
	}
	k := "dyn" + id
	dy := f.dyns[k]
	if dy == nil {
		dy = &edyn{key: k, target: eset{}, nres: nres}
		f.dyns[k] = dy
		f.ch = true
	}
	if dy.target.addAll(un) {
		f.ch = true
	}
	for i, a := range args {
		if i >= len(dy.args) {
			dy.args = append(dy.args, eset{})
		}
		if dy.args[i].addAll(a) {
			f.ch = true
		}
	}
	for i := 0; i < nres; i++ {
		res(i, one(f.rootObj(fmt.Sprintf("%s:%d", k, i), 'd')))
	}
}

// apply instantiates the summary of g at a call.
func (f *efn) apply(x ssa.CallInstruction, id string, g *ssa.Function, clo *eobj, args []eset, locked bool, res func(int, eset)) {
	if f.an.exempt != nil && f.an.exempt(g) {
		return
	}
	s := f.an.get(g)
	memo := map[*eobj]eset{}
	busy := map[*eobj]bool{}
	dres := map[string]eset{}
	var mo func(o *eobj) eset
	mo = func(o *eobj) eset {
		if v, ok := memo[o]; ok {
			return v
		}
		if busy[o] {
			return nil
		}
		busy[o] = true
		out := eset{}
		switch o.kind {
		case 'i', 'g', 'd':
			if o.parent != nil {
				for l := range mo(o.parent) {
					t := o.typ
					out.addAll(f.load(eloc{l.o, clip(l.p + o.ppath)}, t))
				}
			} else if strings.Contains(o.key, "~") {
				f.matching(mo(s.rootObj(o.root, o.kind)), o, out)
			} else {
				switch {
				case o.kind == 'g':
					out[eloc{f.rootObj(o.root, 'g'), ""}] = true
				case o.kind == 'd':
					out.addAll(dres[o.root])
				case strings.HasPrefix(o.root, "p:"):
					n := 0
					fmt.Sscanf(o.root, "p:%d", &n)
					if n < len(args) {
						out.addAll(args[n])
					}
				case strings.HasPrefix(o.root, "fv:"):
					if clo != nil {
						out.addAll(f.heap[eloc{clo, "#" + o.root[3:]}])
						if clo.kind == 'i' {
							out[eloc{f.child(clo, "#"+o.root[3:], types.Typ[types.UnsafePointer]), ""}] = true
						}
					}
				}
			}
		case 'f':
			k := "call" + id + "|"
			if o.typ != nil {
				k += types.TypeString(o.typ, nil)
			} else {
				k += "?"
			}
			out[eloc{f.obj(eobj{key: clip(k), kind: 'f', typ: o.typ}), ""}] = true
		case 'c':
			if o.fn != nil && len(o.fn.FreeVars) == 0 {
				out[eloc{f.obj(eobj{key: "fn:" + o.fn.String(), kind: 'c', fn: o.fn}), ""}] = true
			} else {
				out[eloc{f.obj(eobj{key: clip("clo" + id + "|" + o.fn.String()), kind: 'c', fn: o.fn}), ""}] = true
			}
		}
		memo[o] = out
		delete(busy, o)
		return out
	}
	ms := func(in eset) eset {
		out := eset{}
		for l := range in {
			for b := range mo(l.o) {
				out[eloc{b.o, clip(b.p + l.p)}] = true
			}
		}
		return out
	}
	for round := 0; round < 3; round++ {
		for _, k := range sortedKeys(s.dyns) {
			dy := s.dyns[k]
			var as []eset
			for _, a := range dy.args {
				as = append(as, ms(a))
			}
			f.dynCall(x, id+"/"+dy.key, ms(dy.target), as, dy.nres, locked || dy.locked, func(i int, v eset) {
				r := fmt.Sprintf("%s:%d", dy.key, i)
				if dres[r] == nil {
					dres[r] = eset{}
				}
				dres[r].addAll(v)
			}, strings.Count(id, "/"))
		}
		if len(s.dyns) == 0 {
			break
		}
		memo = map[*eobj]eset{}
	}
	live := s.live()
	type ent struct {
		l eloc
		v eset
	}
	var ents []ent
	for l, h := range s.heap {
		if live[l.o] {
			ents = append(ents, ent{l, ms(h)})
		}
	}
	for _, e := range ents {
		for b := range mo(e.l.o) {
			f.put(eloc{b.o, clip(b.p + e.l.p)}, e.v)
		}
	}
	for _, w := range s.sortedWrites() {
		for b := range mo(w.l.o) {
			f.write(eloc{b.o, clip(b.p + w.l.p)}, w.pos, w.in, w.what, w.locked || locked, g)
		}
	}
	for i := range s.rets {
		if i < len(s.rets) {
			res(i, ms(s.rets[i]))
		}
	}
}

// matching: everything reachable from the set whose static type fits a collapsed object.
func (f *efn) matching(from eset, o *eobj, out eset) {
	seen := map[*eobj]bool{}
	var st []*eobj
	for l := range from {
		if !seen[l.o] {
			seen[l.o] = true
			st = append(st, l.o)
		}
	}
	byObj := map[*eobj][]eloc{}
	for l := range f.heap {
		byObj[l.o] = append(byObj[l.o], l)
	}
	for len(st) > 0 {
		a := st[len(st)-1]
		st = st[:len(st)-1]
		switch a.kind {
		case 'i', 'g', 'd':
			if a.typ != nil && !typeReaches(a.typ, o.typ) {
				break
			}
			k := a.root + "~" + types.TypeString(o.typ, nil)
			out[eloc{f.obj(eobj{key: k, kind: a.kind, root: a.root, depth: maxInDepth, typ: o.typ}), ""}] = true
		case 'f':
			if a.typ != nil && o.typ != nil {
				if p, ok := o.typ.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), a.typ) || types.Identical(o.typ, a.typ) {
					out[eloc{a, ""}] = true
				}
			} else if a.typ == nil {
				out[eloc{a, ""}] = true
			}
		}
		for _, l := range byObj[a] {
			for t := range f.heap[l] {
				if !seen[t.o] {
					seen[t.o] = true
					st = append(st, t.o)
				}
			}
		}
	}
}

var reachMemo sync.Map

// typeReaches: memory of a value of type a can hold a value of type b.
func typeReaches(a, b types.Type) bool {
	m, ok := reachMemo.Load(types.TypeString(a, nil))
	if !ok {
		s := map[string]bool{}
		any := false
		var rec func(t types.Type)
		rec = func(t types.Type) {
			k := types.TypeString(t, nil)
			if s[k] {
				return
			}
			s[k] = true
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				rec(u.Elem())
			case *types.Slice:
				rec(u.Elem())
			case *types.Array:
				rec(u.Elem())
			case *types.Chan:
				rec(u.Elem())
			case *types.Map:
				rec(u.Key())
				rec(u.Elem())
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					rec(u.Field(i).Type())
				}
			case *types.Interface, *types.Signature, *types.TypeParam:
				any = true
			}
		}
		rec(a)
		if any {
			s["*"] = true
		}
		m, _ = reachMemo.LoadOrStore(types.TypeString(a, nil), s)
	}
	s := m.(map[string]bool)
	if s["*"] || s[types.TypeString(b, nil)] {
		return true
	}
	_, isI := b.Underlying().(*types.Interface)
	return isI
}

// live: objects whose contents a caller can see.
func (f *efn) live() map[*eobj]bool {
	byObj := map[*eobj][]eset{}
	out := map[*eobj]bool{}
	var st []*eobj
	add := func(o *eobj) {
		if !out[o] {
			out[o] = true
			st = append(st, o)
		}
	}
	for l, h := range f.heap {
		byObj[l.o] = append(byObj[l.o], h)
		if l.o.kind != 'f' && l.o.kind != 'c' {
			add(l.o)
		}
	}
	for _, r := range f.rets {
		for l := range r {
			add(l.o)
		}
	}
	for _, d := range f.dyns {
		for _, a := range d.args {
			for l := range a {
				add(l.o)
			}
		}
		for l := range d.target {
			add(l.o)
		}
	}
	for len(st) > 0 {
		a := st[len(st)-1]
		st = st[:len(st)-1]
		for _, h := range byObj[a] {
			for l := range h {
				add(l.o)
			}
		}
	}
	return out
}

func (f *efn) builtin(x ssa.CallInstruction, name string, cc *ssa.CallCommon, locked bool) {
	switch name {
	case "append":
		s := f.val(cc.Args[0])
		elem := types.Type(types.Typ[types.Byte])
		if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			elem = st.Elem()
		}
		fr := f.fresh(x, "append", cc.Args[0].Type())
		out := eset{eloc{fr, ""}: true}
		if !exactSlice(cc.Args[0]) && len(cc.Args) > 1 {
			for l := range s {
				out[l] = true
				f.write(eloc{l.o, clip(l.p + "[]")}, x.Pos(), f.fn, "append", locked, nil)
			}
		}
		for l := range out {
			for q := range s {
				f.copyTo(eset{eloc{q.o, clip(q.p + "[]")}: true}, wrapStruct(elem), eloc{l.o, clip(l.p + "[]")})
				if pointerish(elem) && q != l {
					f.put(eloc{l.o, clip(l.p + "[]")}, f.load(eloc{q.o, clip(q.p + "[]")}, elem))
				}
			}
			if len(cc.Args) > 1 {
				for q := range f.val(cc.Args[1]) {
					src := eloc{q.o, clip(q.p + "[]")}
					if pointerish(elem) {
						f.put(eloc{l.o, clip(l.p + "[]")}, f.load(src, elem))
					} else {
						f.copyTo(eset{src: true}, elem, eloc{l.o, clip(l.p + "[]")})
					}
				}
			}
		}
		f.setRes(x, 0, out)
	case "copy":
		elem := types.Type(types.Typ[types.Byte])
		if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			elem = st.Elem()
		}
		for l := range f.val(cc.Args[0]) {
			f.write(eloc{l.o, clip(l.p + "[]")}, x.Pos(), f.fn, "copy", locked, nil)
			for q := range f.val(cc.Args[1]) {
				src := eloc{q.o, clip(q.p + "[]")}
				if pointerish(elem) {
					f.put(eloc{l.o, clip(l.p + "[]")}, f.load(src, elem))
				} else {
					f.copyTo(eset{src: true}, elem, eloc{l.o, clip(l.p + "[]")})
				}
			}
		}
	case "delete", "clear":
		for l := range f.val(cc.Args[0]) {
			f.write(eloc{l.o, clip(l.p + "{}")}, x.Pos(), f.fn, name, locked, nil)
		}
	}
}

// wrapStruct: only structured elements are copied by location.
func wrapStruct(t types.Type) types.Type {
	if pointerish(t) {
		return types.Typ[types.Int]
	}
	return t
}

// exactSlice: the slice has no spare capacity (s[a:b:b], a literal or nil).
func exactSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil
	case *ssa.Const:
		return true
	}
	return false
}

// calls outside the module

var externWrites = []struct {
	prefix string
	arg    int
}{
	{"sort.Slice", 0}, {"sort.Sort", 0}, {"sort.Stable", 0}, {"sort.Strings", 0}, {"sort.Ints", 0}, {"sort.Float64s", 0},
	{"slices.Sort", 0}, {"slices.Reverse", 0}, {"maps.Copy", 0}, {"maps.DeleteFunc", 0},
	{"container/heap.", 0}, {"(*container/list.List).", 0},
	{"(*strings.Builder).Write", 0}, {"(*strings.Builder).Reset", 0}, {"(*strings.Builder).Grow", 0}, {"(*bytes.Buffer).Write", 0}, {"(*bytes.Buffer).Read", 0}, {"(*bytes.Buffer).Reset", 0},
	{"(*math/rand.Rand).", 0}, {"(*math/rand/v2.Rand).", 0},
	{"encoding/json.Unmarshal", 1}, {"(*encoding/json.Decoder).Decode", 1}, {"(*encoding/gob.Decoder).Decode", 1}, {"math/rand.Shuffle", -1},
}

func (f *efn) extern(x ssa.CallInstruction, name string, cc *ssa.CallCommon, args []eset, locked bool) {
	f.an.externs[name] = true
	once := strings.HasPrefix(name, "(*sync.Once).")
	for _, e := range externWrites {
		if strings.HasPrefix(name, e.prefix) && e.arg >= 0 && e.arg < len(args) {
			for l := range args[e.arg] {
				f.write(l, x.Pos(), f.fn, name, locked, nil)
				// containers behind a pointer (heap.Push on *[]T)
				if strings.HasPrefix(name, "container/heap.") {
					for b := range f.heap[l] {
						f.write(b, x.Pos(), f.fn, name, locked, nil)
					}
				}
			}
		}
	}
	// function values handed over are called
	for i, a := range args {
		for l := range a {
			if l.o.kind == 'c' && l.o.fn != nil && f.an.has2(l.o.fn) {
				var none []eset
				for range l.o.fn.Params {
					none = append(none, eset{})
				}
				f.apply(x, fmt.Sprintf("%dx%d", f.ids[x], i), l.o.fn, l.o, none, locked || once, func(int, eset) {})
			}
		}
	}
	// containers of other modules: what is put in may come out
	third := strings.HasPrefix(strings.TrimLeft(name, "(*"), "github.com/") && strings.HasPrefix(name, "(")
	if third && len(args) > 1 {
		for l := range args[0] {
			for _, a := range args[1:] {
				f.put(eloc{l.o, clip(l.p + "$")}, a)
			}
		}
	}
	sig := cc.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !hasPointers(t) || isErr(t) {
			continue
		}
		pt := t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			pt = p.Elem()
		}
		out := one(f.fresh(x, fmt.Sprintf("ext%d", i), pt))
		if third && len(args) > 0 && pointerish(t) {
			out.addAll(f.loadAll(args[0], "$", t))
		}
		for j, a := range args {
			var at types.Type
			if cc.IsInvoke() {
				if j == 0 {
					at = cc.Value.Type()
				} else {
					at = cc.Args[j-1].Type()
				}
			} else {
				at = cc.Args[j].Type()
			}
			if types.Identical(at, t) && !strings.Contains(name, "Clone") {
				out.addAll(a)
			}
		}
		f.setRes(x, i, out)
	}
}

// ---------- E01

func (w *ewrite) path() string {
	s := w.l.o.key + w.l.p
	return s
}

func (f *efn) sortedWrites() []*ewrite {
	var ks []string
	for k := range f.writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*ewrite
	for _, k := range ks {
		out = append(out, f.writes[k])
	}
	return out
}

func e01(c *Ctx, r *Rep) {
	roots := readRoots(c, r)
	a := newEffects(c)
	a.solve(roots)
	r.Add("entry points", len(roots))
	r.Add("functions summarised", len(a.order))
	for _, f := range a.order {
		eachInstr(f.fn, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				r.Add("memory writes analysed", 1)
			case ssa.CallInstruction:
				r.Add("calls analysed", 1)
				_ = x
			}
		})
	}
	if os.Getenv("TKDBG") == "3" {
		for _, f := range a.order {
			for _, w := range f.sortedWrites() {
				v := ""
				if w.via != nil {
					v = fname(w.via)
				}
				fmt.Fprintln(os.Stderr, "W", fname(f.fn), w.path(), w.what, fname(w.in), c.pos(w.pos), "via", v)
			}
		}
	}
	for _, fn := range roots {
		f := a.fns[fn]
		n := 0
		locked := 0
		seen := map[string]bool{}
		for _, w := range f.sortedWrites() {
			mine := w.l.o.root == "p:0" || w.l.o.kind == 'g'
			if !mine {
				continue
			}
			if w.locked {
				locked++
				continue
			}
			k := fname(w.in) + "|" + c.pos(w.pos) + w.what
			if seen[k] {
				continue
			}
			seen[k] = true
			n++
			p := strings.Replace(w.path(), "p:0", "tokenizer", 1)
			r.Bad("read-only", fname(fn)+"|"+fname(w.in)+"|"+w.what, w.pos, "writes memory of the tokenizer without a lock: "+w.what+" to "+p)
		}
		if n == 0 {
			r.OK("read-only", fname(fn), fn.Pos(), fmt.Sprintf("no unlocked write to memory reachable from the tokenizer or a package variable (%d under a lock)", locked))
		}
	}
	r.Min("functions summarised", 120)
}

func init() {
	props["E01"] = propMeta{run: e01,
		explain: "Interprocedural effect analysis: for every function reachable from the encode, decode and lookup entry points a summary of the memory it may write, return and store is computed (access paths from parameters and captured variables, allocation sites, package variables) and instantiated at each call, including interface calls and function values. No write may reach memory that belonged to the tokenizer or a package variable before the call, except under a write lock or sync.Once.",
		assume:  []string{"calls outside the module write only through the arguments listed for them and their results alias only arguments of the same type", "writes through reflection and unsafe are not seen"}}
}
