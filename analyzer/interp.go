package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng is an abstract interpreter over SSA. It never runs the program: values are symbolic
// (polynomials over lengths, sequences described by segments, uninterpreted terms), loops are
// summarised from one generic iteration, and callees are inlined or replaced by contracts.
type Eng struct {
	c              *Ctx
	nobj           int
	sym            map[string]int
	init           map[int]*Obj
	hooks          map[string]hookFn
	opaque         func(*ssa.Function) bool
	record         func(name string) bool
	intOf          map[string]*Poly // the integers converted to floating point
	mapRev         int              // order of ranges over maps of known keys
	ranges         int
	sched          int                 // object of the goroutines; 0 for no model of them
	pathMode       bool                // follow every pass of every loop
	bound          string              // the loop that does not end within the bound
	longLoops      int                 // passes allowed while known tables are built
	reals          bool                // numbers with a fraction are polynomials too
	draw           func(k string) bool // whether a random draw is below the bound it is compared with
	noMerge        bool                // keep outcomes apart that agree on results and memory
	onIndex        func(en *Eng, fn *ssa.Function, pos token.Pos, what string, idx, n *Poly, st *State)
	onAppend       func(en *Eng, fn *ssa.Function, pos token.Pos, base Slice, st *State)
	budget         int
	started        time.Time
	nfresh         int
	stack          []*ssa.Function
	loops          map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	maxDepth       int
	recurse        int   // how often a function may be on the stack already and still be followed (0: never)
	shrink, shrunk int64 // constants of at least shrink (and no bit masks) count as shrunk
	foldGlobals    bool
	quietLoop      int // >0 while in a discovery run
	noSym          map[string]bool
	tsyms          map[string]types.Type
	next           map[*ssa.Next]nextVal
	maxes          map[string]maxInfo
	havocs         map[string][]Val
	elemOf         map[string]elemRef
}

type hookFn func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool)

type Outcome struct {
	kind string // ret, panic, exit
	ret  []Val
	st   *State
	why  string
}

type End struct {
	kind     string // ret, panic, back, exit
	to, from *ssa.BasicBlock
	ret      []Val
	st       *State
	why      string
}

func newEng(c *Ctx) *Eng {
	return &Eng{c: c, sym: map[string]int{}, init: map[int]*Obj{}, hooks: map[string]hookFn{}, budget: 400000, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, maxDepth: 16, noSym: map[string]bool{}, tsyms: map[string]types.Type{}, elemOf: map[string]elemRef{}, intOf: map[string]*Poly{}}
}

type budgetErr struct{ what string }

// tick counts one step of interpretation and ends a run that takes too long.
func (en *Eng) tick(fn *ssa.Function) {
	en.budget--
	if en.budget&63 == 0 {
		if en.started.IsZero() {
			en.started = time.Now()
		} else if time.Since(en.started) > 100*time.Second {
			panic(budgetErr{fname(fn) + " (time)"})
		}
	}
	if en.budget < 0 {
		panic(budgetErr{fname(fn)})
	}
}

func (en *Eng) fresh(p string) string {
	en.nfresh++
	return fmt.Sprintf("%s~%d", p, en.nfresh)
}

func (en *Eng) newObj(st *State, o *Obj) int {
	en.nobj++
	st.objs[en.nobj] = o
	return en.nobj
}

func (en *Eng) symObj(key string, mk func() *Obj) int {
	if id, ok := en.sym[key]; ok {
		return id
	}
	en.nobj++
	id := en.nobj
	en.sym[key] = id
	en.init[id] = mk()
	return id
}

func (en *Eng) get(st *State, id int) *Obj {
	if o, ok := st.objs[id]; ok {
		return o
	}
	return en.init[id]
}

var encFields = map[string]bool{"Ids": true, "TypeIds": true, "Tokens": true, "Offsets": true, "SpecialTokenMask": true, "AttentionMask": true, "Words": true}

func isEncoding(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Encoding" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

// isSpecialToken: a template special token lists its ids and their strings in parallel.
func isSpecialToken(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "SpecialToken" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/processor"
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// symArr is the array with symbolic base key and length n.
func (en *Eng) symArr(key string, elem types.Type, n *Poly) int {
	return en.symObj("arr:"+key, func() *Obj {
		return &Obj{kind: 'a', segs: []Seg{{kind: 'S', base: key, lo: pc(0), n: n}}, elem: elem, label: key}
	})
}

// symv builds the symbolic value named key of type t.
func (en *Eng) symv(key string, t types.Type) Val {
	en.tsyms[key] = t
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return Int{pa(key)}
		}
		if u.Info()&types.IsBoolean != 0 {
			return TBool{k: key}
		}
		return Term{key, t}
	case *types.Pointer:
		id := en.symObj("ptr:"+key, func() *Obj {
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return &Obj{kind: 'a', segs: []Seg{{kind: 'S', base: key, lo: pc(0), n: pc(a.Len())}}, elem: a.Elem(), label: key}
			}
			return &Obj{kind: 'c', val: en.symv(key, u.Elem()), elem: u.Elem(), label: key}
		})
		return Ptr{obj: id, nilKey: key}
	case *types.Struct:
		enc := isEncoding(t)
		par := isSpecialToken(t)
		s := Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, isS := f.Type().Underlying().(*types.Slice); (enc && encFields[f.Name()]) || (par && isS) {
				n := pa("N(" + key + ")")
				el := f.Type().Underlying().(*types.Slice).Elem()
				s.f = append(s.f, Slice{arr: en.symArr(key+"."+f.Name(), el, n), off: pc(0), n: n})
				continue
			}
			s.f = append(s.f, en.lazy(key+"."+f.Name(), f.Type()))
		}
		return s
	case *types.Slice:
		n := pa("len(" + key + ")")
		return Slice{arr: en.symArr(key, u.Elem(), n), off: pc(0), n: n, nilKey: key}
	case *types.Map:
		return MapV{obj: en.symObj("map:"+key, func() *Obj { return &Obj{kind: 'm', base: key, mtyp: u, label: key} }), nilKey: key}
	case *types.Tuple:
		var l Tuple
		for i := 0; i < u.Len(); i++ {
			l = append(l, en.symv(fmt.Sprintf("%s#%d", key, i), u.At(i).Type()))
		}
		return l
	case *types.Array:
		return Term{key, t}
	}
	return Term{key, t}
}

// Lazy postpones symbolic values so that recursive pointer types do not unfold.
type Lazy struct {
	k string
	t types.Type
}

func (l Lazy) key() string { return l.k }

func (en *Eng) lazy(key string, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Struct:
		return Lazy{key, t}
	}
	return en.symv(key, t)
}

func (en *Eng) force(v Val) Val {
	if l, ok := v.(Lazy); ok {
		return en.symv(l.k, l.t)
	}
	return v
}

func (en *Eng) zero(st *State, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return Int{pc(0)}
		}
		if u.Info()&types.IsBoolean != 0 {
			return BoolC(false)
		}
		if u.Info()&types.IsString != 0 {
			return Term{"\"\"", t}
		}
		return Term{"0", t}
	case *types.Struct:
		s := Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, en.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return Term{"zero:" + shortType(t), t}
	}
	return NilV{t}
}

func (en *Eng) asSlice(v Val, t types.Type) (Slice, bool) {
	v = en.force(v)
	switch x := v.(type) {
	case Slice:
		return x, true
	case NilV:
		if s, ok := x.typ.Underlying().(*types.Slice); ok {
			id := en.symObj("emptyarr:"+shortType(s.Elem()), func() *Obj { return &Obj{kind: 'a', elem: s.Elem()} })
			return Slice{arr: id, off: pc(0), n: pc(0), nilKey: "⊥"}, true
		}
	}
	return Slice{}, false
}

func (en *Eng) toInt(v Val) *Poly {
	switch x := v.(type) {
	case Int:
		return x.p
	case Term:
		return pa(x.k)
	case BoolC:
	}
	return pa(v.key())
}

// ---------- memory

func (en *Eng) loadPath(st *State, v Val, path []Sel) Val {
	for _, s := range path {
		v = en.force(v)
		if s.idx == nil {
			sv, ok := v.(Struct)
			if !ok {
				if t, isT := v.(Term); isT {
					if stt, ok := t.typ.Underlying().(*types.Struct); ok && s.field < stt.NumFields() {
						v = en.symv(t.k+"."+stt.Field(s.field).Name(), stt.Field(s.field).Type())
						continue
					}
				}
				return Term{en.fresh("field"), types.Typ[types.Invalid]}
			}
			v = sv.f[s.field]
			continue
		}
		if t, isT := v.(Term); isT {
			if at, ok := t.typ.Underlying().(*types.Array); ok {
				v = en.symv(t.k+"["+s.idx.key()+"]", at.Elem())
				continue
			}
		}
		return Term{en.fresh("elem"), types.Typ[types.Invalid]}
	}
	return en.force(v)
}

func (en *Eng) load(st *State, p Ptr) Val {
	o := en.get(st, p.obj)
	if o.kind == 'a' {
		if len(p.path) == 0 {
			// value of a whole array
			return Term{fmt.Sprintf("arr%d", p.obj), types.NewArray(o.elem, 0)}
		}
		return en.loadPath(st, en.elem(st, p.obj, p.path[0].idx), p.path[1:])
	}
	return en.loadPath(st, o.val, p.path)
}

func (en *Eng) storePath(st *State, v Val, path []Sel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	v = en.force(v)
	s := path[0]
	if sv, ok := v.(Struct); ok && s.idx == nil {
		f := append([]Val(nil), sv.f...)
		f[s.field] = en.storePath(st, sv.f[s.field], path[1:], nv)
		return Struct{sv.typ, f}
	}
	if t, ok := v.(Term); ok && s.idx == nil {
		if stt, ok := t.typ.Underlying().(*types.Struct); ok {
			sv := Struct{typ: t.typ}
			for i := 0; i < stt.NumFields(); i++ {
				sv.f = append(sv.f, en.lazy(t.k+"."+stt.Field(i).Name(), stt.Field(i).Type()))
			}
			return en.storePath(st, sv, path, nv)
		}
	}
	if t, ok := v.(Term); ok {
		return Term{en.fresh("upd"), t.typ}
	}
	return Term{en.fresh("upd"), types.Typ[types.Invalid]}
}

func (en *Eng) store(st *State, p Ptr, nv Val) {
	o := en.get(st, p.obj)
	n := *o
	if o.kind == 'a' {
		if len(p.path) == 0 {
			n.segs = []Seg{{kind: 'U', base: en.fresh("arr"), n: segsLen(o.segs)}}
			n.wr = nil
			st.objs[p.obj] = &n
			return
		}
		if len(p.path) > 1 {
			nv = en.storePath(st, en.elem(st, p.obj, p.path[0].idx), p.path[1:], nv)
		}
		en.storeElem(st, p.obj, p.path[0].idx, nv)
		return
	}
	n.val = en.storePath(st, o.val, p.path, nv)
	st.objs[p.obj] = &n
}

// flush applies pending element writes as far as their positions are known.
func (en *Eng) storeElem(st *State, id int, idx *Poly, v Val) {
	o := en.get(st, id)
	n := *o
	if o.hole {
		for i, w := range o.wr {
			if st.provesEQ(w.idx.sub(idx)) {
				n.wr = append([]arrWrite(nil), o.wr...)
				n.wr[i] = arrWrite{idx, v}
				st.objs[id] = &n
				return
			}
		}
	}
	if len(o.wr) == 0 && !o.hole {
		if segs, ok := en.splice(st, o.segs, idx, v); ok {
			n.segs = segs
			st.objs[id] = &n
			return
		}
	}
	n.wr = append(append([]arrWrite(nil), o.wr...), arrWrite{idx, v})
	st.objs[id] = &n
}

func (en *Eng) splice(st *State, segs []Seg, idx *Poly, v Val) ([]Seg, bool) {
	pos := pc(0)
	for i, s := range segs {
		end := pos.add(s.n)
		if st.provesGE(idx.sub(pos)) && st.provesGE(end.sub(idx).addc(-1)) {
			var out []Seg
			out = append(out, segs[:i]...)
			if a := idx.sub(pos); !st.provesEQ(a) {
				out = append(out, en.subSeg(s, pc(0), a))
			}
			out = append(out, Seg{kind: 'F', val: v, n: pc(1)})
			if b := end.sub(idx).addc(-1); !st.provesEQ(b) {
				out = append(out, en.subSeg(s, idx.sub(pos).addc(1), b))
			}
			return append(out, segs[i+1:]...), true
		}
		pos = end
	}
	return nil, false
}

func (en *Eng) subSeg(s Seg, lo, n *Poly) Seg {
	t := s
	t.n = n
	switch s.kind {
	case 'S':
		t.lo = s.lo.add(lo)
	case 'G':
		g := *s.g
		if g.off == nil {
			g.off = pc(0)
		}
		g.off = g.off.add(lo)
		t.g = &g
	case 'U':
		t.base = s.base + "[" + lo.key() + ":]"
	}
	return t
}

// elem reads element idx of array id.
func (en *Eng) elem(st *State, id int, idx *Poly) Val {
	o := en.get(st, id)
	for i := len(o.wr) - 1; i >= 0; i-- {
		w := o.wr[i]
		if st.provesEQ(w.idx.sub(idx)) {
			return w.val
		}
		if !st.provesNE(w.idx.sub(idx)) {
			return en.symv(en.fresh("elem"), o.elem)
		}
	}
	return en.segElem(st, o.segs, idx, o.elem)
}

func (en *Eng) segElem(st *State, segs []Seg, idx *Poly, el types.Type) Val {
	if len(segs) == 1 {
		return en.seg1(st, segs[0], idx, el)
	}
	pos := pc(0)
	for _, s := range segs {
		end := pos.add(s.n)
		if st.provesGE(idx.sub(pos)) && st.provesGE(end.sub(idx).addc(-1)) {
			return en.seg1(st, s, idx.sub(pos), el)
		}
		pos = end
	}
	return en.symv(fmt.Sprintf("(%s)[%s]", segsKey(segs), st.norm(idx).key()), el)
}

func (en *Eng) seg1(st *State, s Seg, j *Poly, el types.Type) Val {
	switch s.kind {
	case 'S':
		ix := st.norm(s.lo.add(j))
		key := s.base + "[" + ix.key() + "]"
		en.elemOf[key] = elemRef{s.base, ix}
		return en.symv(key, el)
	case 'F':
		return s.val
	case 'G':
		if len(s.g.alts) == 1 && len(s.g.alts[0].vals) == 1 {
			q := j
			if s.g.off != nil {
				q = q.add(s.g.off)
			}
			return en.substVal(st, s.g.alts[0].vals[0], s.g.k, q, map[int]int{})
		}
		off := pc(0)
		if s.g.off != nil {
			off = s.g.off
		}
		return en.symv(fmt.Sprintf("gen%s[%s]", s.g.id, st.norm(off.add(j)).key()), el)
	}
	return en.symv(s.base+"["+st.norm(j).key()+"]", el)
}

// content returns the elements of a slice as segments.
func (en *Eng) content(st *State, s Slice) []Seg {
	o := en.get(st, s.arr)
	if s.n.isZero() || st.provesEQ(s.n) {
		return nil
	}
	if len(o.wr) > 0 {
		segs := o.segs
		for _, w := range o.wr {
			n, ok := en.splice(st, segs, w.idx, w.val)
			if !ok {
				return []Seg{{kind: 'U', base: en.fresh("written"), n: s.n}}
			}
			segs = n
		}
		o = &Obj{kind: 'a', segs: segs, elem: o.elem}
	}
	return en.subSegs(st, o.segs, s.off, s.n)
}

func (en *Eng) subSegs(st *State, segs []Seg, lo, n *Poly) []Seg {
	total := segsLen(segs)
	if st.provesEQ(lo) && st.provesEQ(total.sub(n)) {
		return segs
	}
	end := lo.add(n)
	pos := pc(0)
	var out []Seg
	started := false
	for _, s := range segs {
		segEnd := pos.add(s.n)
		if !started {
			if st.provesGE(lo.sub(segEnd)) && !(st.provesEQ(lo.sub(segEnd)) && false) {
				pos = segEnd
				continue
			}
			if !st.provesGE(lo.sub(pos)) || !st.provesGE(segEnd.sub(lo)) {
				return []Seg{{kind: 'U', base: fmt.Sprintf("(%s)[%s]", segsKey(segs), lo.key()), n: n}}
			}
			started = true
			a := lo.sub(pos)
			if st.provesGE(segEnd.sub(end)) {
				return []Seg{en.subSeg(s, a, n)}
			}
			if !st.provesGE(end.sub(segEnd)) {
				return []Seg{{kind: 'U', base: fmt.Sprintf("(%s)[%s]", segsKey(segs), lo.key()), n: n}}
			}
			if st.provesEQ(a) {
				out = append(out, s)
			} else {
				out = append(out, en.subSeg(s, a, s.n.sub(a)))
			}
			pos = segEnd
			continue
		}
		if st.provesGE(pos.sub(end)) {
			return out
		}
		if st.provesGE(end.sub(segEnd)) {
			out = append(out, s)
			pos = segEnd
			continue
		}
		if st.provesGE(segEnd.sub(end)) {
			out = append(out, en.subSeg(s, pc(0), end.sub(pos)))
			return out
		}
		return []Seg{{kind: 'U', base: fmt.Sprintf("(%s)[%s]", segsKey(segs), lo.key()), n: n}}
	}
	return out
}

// substVal instantiates a loop-generic value at iteration q.
func (en *Eng) substVal(st *State, v Val, k string, q *Poly, memo map[int]int) Val {
	rs := func(s string) string { return strings.ReplaceAll(s, k, q.key()) }
	switch x := v.(type) {
	case Int:
		return Int{substAtom(x.p, k, q)}
	case Term:
		if strings.Contains(x.k, k) {
			return en.resym(rs(x.k), x.typ)
		}
	case Lazy:
		return Lazy{rs(x.k), x.t}
	case TBool:
		return TBool{rs(x.k), x.neg}
	case Cmp:
		return Cmp{x.op, substAtom(x.p, k, q)}
	case Ptr:
		p := Ptr{obj: en.substObj(st, x.obj, k, q, memo), nilKey: rs(x.nilKey)}
		for _, s := range x.path {
			if s.idx != nil {
				s.idx = substAtom(s.idx, k, q)
			}
			p.path = append(p.path, s)
		}
		return p
	case Slice:
		return Slice{en.substObj(st, x.arr, k, q, memo), substAtom(x.off, k, q), substAtom(x.n, k, q), rs(x.nilKey)}
	case Struct:
		s := Struct{typ: x.typ}
		for _, f := range x.f {
			s.f = append(s.f, en.substVal(st, f, k, q, memo))
		}
		return s
	case Tuple:
		var t Tuple
		for _, f := range x {
			t = append(t, en.substVal(st, f, k, q, memo))
		}
		return t
	case Closure:
		c := Closure{fn: x.fn, nm: x.nm}
		for _, f := range x.b {
			c.b = append(c.b, en.substVal(st, f, k, q, memo))
		}
		return c
	case Iface:
		return Iface{x.typ, en.substVal(st, x.v, k, q, memo)}
	case MapV:
		return MapV{en.substObj(st, x.obj, k, q, memo), rs(x.nilKey)}
	}
	return v
}

func (en *Eng) resym(key string, t types.Type) Val { return Term{key, t} }

func substAtom(p *Poly, k string, q *Poly) *Poly {
	if p == nil {
		return nil
	}
	if !p.mentions(func(a string) bool { return strings.Contains(a, k) }) {
		return p
	}
	out := pc(0)
	for mk, c := range p.m {
		t := pc(c)
		if mk != "" {
			for _, a := range strings.Split(mk, mulSep) {
				switch {
				case a == k:
					t = t.mul(q)
				case strings.Contains(a, k):
					t = t.mul(pa(strings.ReplaceAll(a, k, q.key())))
				default:
					t = t.mul(pa(a))
				}
			}
		}
		out = out.add(t)
	}
	return out
}

func (en *Eng) substSeg(st *State, s Seg, k string, q *Poly, memo map[int]int) Seg {
	t := s
	t.base = strings.ReplaceAll(s.base, k, q.key())
	t.lo = substAtom(s.lo, k, q)
	t.n = substAtom(s.n, k, q)
	if s.val != nil {
		t.val = en.substVal(st, s.val, k, q, memo)
	}
	if s.g != nil {
		g := *s.g
		g.off = substAtom(g.off, k, q)
		g.alts = nil
		for _, a := range s.g.alts {
			na := GenAlt{st: a.st}
			for _, v := range a.vals {
				na.vals = append(na.vals, en.substVal(st, v, k, q, memo))
			}
			for _, s := range a.segs {
				na.segs = append(na.segs, en.substSeg(st, s, k, q, memo))
			}
			g.alts = append(g.alts, na)
		}
		t.g = &g
	}
	return t
}

func (en *Eng) substObj(st *State, id int, k string, q *Poly, memo map[int]int) int {
	if n, ok := memo[id]; ok {
		return n
	}
	o := en.get(st, id)
	if _, isSym := en.init[id]; isSym {
		if !strings.Contains(o.label, k) {
			return id
		}
		nk := strings.ReplaceAll(o.label, k, q.key())
		for sk, sid := range en.sym {
			if sid == id {
				nsk := strings.ReplaceAll(sk, k, q.key())
				if n, ok := en.sym[nsk]; ok {
					return n
				}
				no := *en.init[id]
				no.label = nk
				en.nobj++
				n := en.nobj
				en.sym[nsk] = n
				en.init[n] = &no
				memo[id] = n
				if no.kind == 'a' {
					no.segs = nil
					for _, s := range en.init[id].segs {
						no.segs = append(no.segs, en.substSeg(st, s, k, q, memo))
					}
				} else if no.kind == 'c' {
					no.val = en.substVal(st, no.val, k, q, memo)
				} else {
					no.base = strings.ReplaceAll(no.base, k, q.key())
				}
				return n
			}
		}
		return id
	}
	if !en.objMentions(st, id, k, map[int]bool{}) {
		return id
	}
	en.nobj++
	n := en.nobj
	memo[id] = n
	no := *o
	switch o.kind {
	case 'c':
		no.val = en.substVal(st, o.val, k, q, memo)
	case 'a':
		no.segs = nil
		for _, s := range o.segs {
			no.segs = append(no.segs, en.substSeg(st, s, k, q, memo))
		}
	}
	if o.alias != nil {
		no.alias = map[int]bool{}
		for a := range o.alias {
			no.alias[a] = true
		}
	}
	st.objs[n] = &no
	return n
}

func (en *Eng) objMentions(st *State, id int, k string, seen map[int]bool) bool {
	if seen[id] {
		return false
	}
	seen[id] = true
	o := en.get(st, id)
	if o == nil {
		return false
	}
	if strings.Contains(o.label, k) {
		return true
	}
	switch o.kind {
	case 'c':
		return en.valMentions(st, o.val, k, seen)
	case 'a':
		for _, s := range o.segs {
			if strings.Contains(s.String(), k) {
				return true
			}
			if s.val != nil && en.valMentions(st, s.val, k, seen) {
				return true
			}
			if s.g != nil {
				for _, a := range s.g.alts {
					for _, v := range a.vals {
						if en.valMentions(st, v, k, seen) {
							return true
						}
					}
					for _, s := range a.segs {
						if s.val != nil && en.valMentions(st, s.val, k, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (en *Eng) valMentions(st *State, v Val, k string, seen map[int]bool) bool {
	if strings.Contains(v.key(), k) {
		return true
	}
	switch x := v.(type) {
	case Ptr:
		return en.objMentions(st, x.obj, k, seen)
	case Slice:
		return en.objMentions(st, x.arr, k, seen)
	case Struct:
		for _, f := range x.f {
			if en.valMentions(st, f, k, seen) {
				return true
			}
		}
	case Iface:
		return en.valMentions(st, x.v, k, seen)
	}
	return false
}

// ---------- execution

func (en *Eng) loopMap(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := en.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, l := range loopsOf(fn) {
		m[l.header] = l
	}
	en.loops[fn] = m
	return m
}

// Run interprets fn on args from st.
func (en *Eng) Run(fn *ssa.Function, args []Val, free []Val, st *State) []Outcome {
	saved := st.env
	st = st.clone()
	st.env = map[interface{}]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = en.force(args[i])
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			st.env[f] = free[i]
		}
	}
	en.stack = append(en.stack, fn)
	ends := en.block(fn, fn.Blocks[0], nil, st, nil, false)
	en.stack = en.stack[:len(en.stack)-1]
	var out []Outcome
	for _, e := range ends {
		e.st.env = make(map[interface{}]Val, len(saved)+4)
		for k, v := range saved {
			e.st.env[k] = v
		}
		out = append(out, Outcome{e.kind, e.ret, e.st, e.why})
	}
	if en.noMerge {
		return out
	}
	return mergeOutcomes(out)
}

// mergeOutcomes joins outcomes that agree on results and memory.
func mergeOutcomes(out []Outcome) []Outcome {
	if len(out) < 2 {
		return out
	}
	var res []Outcome
	idx := map[string]int{}
	for _, o := range out {
		if o.kind != "ret" {
			res = append(res, o)
			continue
		}
		var kb strings.Builder
		for _, v := range o.ret {
			kb.WriteString(v.key() + ";")
		}
		var ids []int
		for id := range o.st.objs {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			fmt.Fprintf(&kb, "%d@%p ", id, o.st.objs[id])
		}
		fmt.Fprintf(&kb, "ev%d", len(o.st.evs))
		if i, ok := idx[kb.String()]; ok {
			res[i].st = joinFacts(res[i].st, o.st)
			continue
		}
		idx[kb.String()] = len(res)
		res = append(res, o)
	}
	return res
}

func joinFacts(a, b *State) *State {
	n := a.clone()
	n.ge, n.ne, n.eqs = nil, nil, nil
	for i := 0; i < len(a.ge) && i < len(b.ge) && a.ge[i] == b.ge[i]; i++ {
		n.ge = append(n.ge, a.ge[i])
	}
	for i := 0; i < len(a.ne) && i < len(b.ne) && a.ne[i] == b.ne[i]; i++ {
		n.ne = append(n.ne, a.ne[i])
	}
	for i := 0; i < len(a.eqs) && i < len(b.eqs) && a.eqs[i].atom == b.eqs[i].atom && a.eqs[i].p == b.eqs[i].p; i++ {
		n.eqs = append(n.eqs, a.eqs[i])
	}
	for k, v := range n.truth {
		if w, ok := b.truth[k]; !ok || w != v {
			delete(n.truth, k)
		}
	}
	for k, v := range n.typ {
		if w, ok := b.typ[k]; !ok || !types.Identical(w, v) {
			delete(n.typ, k)
		}
	}
	return n
}

// block interprets from b. region limits execution to a loop body.
func (en *Eng) block(fn *ssa.Function, b, pred *ssa.BasicBlock, st *State, region *loopInfo, atHeader bool) []End {
	for {
		if region != nil {
			if b == region.header && !atHeader {
				return []End{{kind: "back", to: b, from: pred, st: st}}
			}
			if !region.blocks[b] {
				return []End{{kind: "exit", to: b, from: pred, st: st}}
			}
		}
		if !atHeader {
			if l := en.loopMap(fn)[b]; l != nil {
				var out []End
				for _, e := range en.loop(fn, l, pred, st) {
					if e.kind == "exit" {
						out = append(out, en.block(fn, e.to, e.from, e.st, region, false)...)
					} else {
						out = append(out, e)
					}
				}
				return out
			}
			en.phis(b, pred, st)
		}
		atHeader = false
		sts, ends := en.instrs(fn, b, 0, st)
		if len(sts) == 0 {
			return ends
		}
		if len(sts) == 1 && len(ends) == 0 {
			nb, more := en.term(fn, b, sts[0], region)
			if nb == nil {
				return more
			}
			if len(nb) == 1 {
				pred, b, st = b, nb[0].b, nb[0].st
				continue
			}
			var out []End
			for _, x := range nb {
				out = append(out, en.block(fn, x.b, b, x.st, region, false)...)
			}
			return out
		}
		out := ends
		for _, s := range sts {
			nb, more := en.term(fn, b, s, region)
			out = append(out, more...)
			for _, x := range nb {
				out = append(out, en.block(fn, x.b, b, x.st, region, false)...)
			}
		}
		return out
	}
}

func (en *Eng) phis(b, pred *ssa.BasicBlock, st *State) {
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		if pi < 0 {
			vals = append(vals, en.symv(en.fresh("phi"), p.Type()))
		} else {
			vals = append(vals, en.val(st, p.Edges[pi]))
		}
	}
	for i, p := range ps {
		st.env[p] = vals[i]
	}
}

type succ struct {
	b  *ssa.BasicBlock
	st *State
}

func (en *Eng) term(fn *ssa.Function, b *ssa.BasicBlock, st *State, region *loopInfo) ([]succ, []End) {
	last := b.Instrs[len(b.Instrs)-1]
	switch x := last.(type) {
	case *ssa.Jump:
		return []succ{{b.Succs[0], st}}, nil
	case *ssa.If:
		c := en.val(st, x.Cond)
		if d, ok := st.decide(c); ok {
			i := 1
			if d {
				i = 0
			}
			return []succ{{b.Succs[i], st}}, nil
		}
		a, bb := st, st.clone()
		tr := fmt.Sprintf("%s@%s", c.key(), en.c.pos(lastPos(b)))
		if pathDebug {
			fmt.Println("fork", tr)
		}
		var out []succ
		a.trace = append(a.trace, tr)
		a.br += fmt.Sprintf("%d+", b.Index)
		if a.assume(c, true) && !(isCmp(c) && a.infeasible()) {
			out = append(out, succ{b.Succs[0], a})
		}
		bb.trace = append(bb.trace, "!"+tr)
		bb.br += fmt.Sprintf("%d-", b.Index)
		if bb.assume(c, false) && !(isCmp(c) && bb.infeasible()) {
			out = append(out, succ{b.Succs[1], bb})
		}
		return out, nil
	case *ssa.Return:
		var r []Val
		for _, v := range x.Results {
			r = append(r, en.val(st, v))
		}
		return nil, []End{{kind: "ret", ret: r, st: st}}
	case *ssa.Panic:
		return nil, []End{{kind: "panic", ret: []Val{en.val(st, x.X)}, st: st, why: "panic at " + en.c.pos(x.Pos())}}
	}
	return nil, nil
}

var pathDebug = os.Getenv("VERIF_PATHS") != ""

func isCmp(v Val) bool { _, ok := v.(Cmp); return ok }

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

// instrs interprets the instructions of b from index i up to the terminator.
func (en *Eng) instrs(fn *ssa.Function, b *ssa.BasicBlock, i int, st *State) ([]*State, []End) {
	for ; i < len(b.Instrs)-1; i++ {
		en.tick(fn)
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		outs := en.step(fn, in, st)
		if len(outs) == 1 && outs[0].kind == "" {
			st = outs[0].st
			continue
		}
		if pathDebug {
			fmt.Println("split", len(outs), in, en.c.pos(in.Pos()))
		}
		var sts []*State
		var ends []End
		for _, o := range outs {
			if o.kind != "" {
				ends = append(ends, o)
				continue
			}
			s, e := en.instrs(fn, b, i+1, o.st)
			sts = append(sts, s...)
			ends = append(ends, e...)
		}
		return sts, ends
	}
	return []*State{st}, nil
}

func cont(st *State) []End { return []End{{st: st}} }

func (en *Eng) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return en.constVal(x)
	case *ssa.Function:
		return Closure{fn: x, nm: fname(x)}
	case *ssa.Global:
		return Ptr{obj: en.symObj("ptr:global:"+x.Pkg.Pkg.Name()+"."+x.Name(), func() *Obj {
			t := x.Type().(*types.Pointer).Elem()
			k := "global:" + x.Pkg.Pkg.Name() + "." + x.Name()
			if a, ok := t.Underlying().(*types.Array); ok {
				return &Obj{kind: 'a', segs: []Seg{{kind: 'S', base: k, lo: pc(0), n: pc(a.Len())}}, elem: a.Elem(), label: k}
			}
			if en.foldGlobals {
				if iv, ok := en.c.globalInits()[x]; ok {
					if v, ok := en.initVal(iv, 0); ok {
						return &Obj{kind: 'c', val: v, elem: t, label: k}
					}
				}
			}
			return &Obj{kind: 'c', val: en.symv(k, t), elem: t, label: k}
		})}
	case *ssa.Builtin:
		return Term{"builtin " + x.Name(), x.Type()}
	}
	if r, ok := st.env[v]; ok {
		return en.force(r)
	}
	return en.symv(en.fresh("undef:"+v.Name()), v.Type())
}

func (en *Eng) constVal(x *ssa.Const) Val {
	if x.Value == nil {
		switch x.Type().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Basic:
			return en.zero(nil, x.Type())
		}
		return NilV{x.Type()}
	}
	switch x.Value.Kind() {
	case constant.Int:
		if isIntT(x.Type()) {
			if n, ok := constant.Int64Val(x.Value); ok {
				if en.shrink > 0 && n >= en.shrink && n < 1<<40 {
					n = en.shrunk
				}
				return Int{pc(n)}
			}
			return Int{pa("c" + x.Value.ExactString())}
		}
	case constant.Bool:
		return BoolC(constant.BoolVal(x.Value))
	case constant.String:
		return Term{strconv.Quote(constant.StringVal(x.Value)), x.Type()}
	}
	return Term{"c:" + x.Value.ExactString(), x.Type()}
}

func nilTest(en *Eng, v Val) Val {
	v = en.force(v)
	k := ""
	switch x := v.(type) {
	case NilV:
		return BoolC(true)
	case Ptr:
		k = x.nilKey
	case MapV:
		k = x.nilKey
	case Slice:
		k = x.nilKey
		if k == "len0" {
			return Cmp{"==0", x.n}
		}
	case Iface, Closure, chanV:
		return BoolC(false)
	case Term:
		k = x.k
	default:
		return TBool{k: "nil:" + v.key()}
	}
	if k == "" {
		return BoolC(false)
	}
	if k == "⊥" {
		return BoolC(true)
	}
	return TBool{k: "nil:" + k}
}

func notV(v Val) Val {
	switch x := v.(type) {
	case BoolC:
		return BoolC(!x)
	case Cmp:
		return Cmp{map[string]string{"<0": ">=0", ">=0": "<0", "==0": "!=0", "!=0": "==0"}[x.op], x.p}
	case TBool:
		return TBool{x.k, !x.neg}
	case Term:
		return TBool{x.k, true}
	}
	return TBool{v.key(), true}
}

func (en *Eng) eqVal(a, b Val) Val {
	a, b = en.force(a), en.force(b)
	if _, ok := a.(NilV); ok {
		return nilTest(en, b)
	}
	if _, ok := b.(NilV); ok {
		return nilTest(en, a)
	}
	if x, ok := a.(Int); ok {
		return Cmp{"==0", x.p.sub(en.toInt(b))}
	}
	if x, ok := b.(Int); ok {
		return Cmp{"==0", x.p.sub(en.toInt(a))}
	}
	if x, ok := a.(BoolC); ok {
		if x {
			return b
		}
		return notV(b)
	}
	if x, ok := b.(BoolC); ok {
		if x {
			return a
		}
		return notV(a)
	}
	if a.key() == b.key() {
		return BoolC(true)
	}
	ta, oka := a.(Term)
	tb, okb := b.(Term)
	if oka && okb {
		_, ca := ta.isStrConst()
		_, cb := tb.isStrConst()
		if ca && cb {
			return BoolC(ta.k == tb.k)
		}
		if ca {
			ta, tb = tb, ta
		} else if !cb && ta.k > tb.k {
			ta, tb = tb, ta
		}
		return TBool{k: ta.k + " == " + tb.k}
	}
	ia, oka := a.(Iface)
	ib, okb := b.(Iface)
	if oka && okb {
		if !types.Identical(ia.typ, ib.typ) {
			return BoolC(false)
		}
		return en.eqVal(ia.v, ib.v)
	}
	ka, kb := a.key(), b.key()
	if ka > kb {
		ka, kb = kb, ka
	}
	return TBool{k: ka + " == " + kb}
}

func (en *Eng) binop(st *State, x *ssa.BinOp) Val {
	a, b := en.val(st, x.X), en.val(st, x.Y)
	isInt := isIntT(x.X.Type())
	if en.reals && isFloat(x.X.Type()) {
		if v, ok := en.realOp(x.Op, a, b, x.Type()); ok {
			return v
		}
	}
	switch x.Op {
	case token.EQL:
		return en.eqVal(a, b)
	case token.NEQ:
		return notV(en.eqVal(a, b))
	}
	if isInt {
		p, q := en.toInt(a), en.toInt(b)
		switch x.Op {
		case token.ADD:
			return Int{p.add(q)}
		case token.SUB:
			return Int{p.sub(q)}
		case token.MUL:
			return Int{p.mul(q)}
		case token.LSS:
			return Cmp{"<0", p.sub(q)}
		case token.GTR:
			return Cmp{"<0", q.sub(p)}
		case token.LEQ:
			return Cmp{">=0", q.sub(p)}
		case token.GEQ:
			return Cmp{">=0", p.sub(q)}
		}
		if c, ok := p.konst(); ok {
			if d, ok := q.konst(); ok {
				switch x.Op {
				case token.QUO:
					if d != 0 {
						return Int{pc(c / d)}
					}
				case token.REM:
					if d != 0 {
						return Int{pc(c % d)}
					}
				case token.SHL:
					if d >= 0 && d < 62 {
						return Int{pc(c << uint(d))}
					}
				case token.SHR:
					if d >= 0 {
						return Int{pc(c >> uint(min(d, 63)))}
					}
				case token.AND:
					return Int{pc(c & d)}
				case token.OR:
					return Int{pc(c | d)}
				case token.XOR:
					if c >= 0 && d >= 0 {
						return Int{pc(c ^ d)}
					}
				case token.AND_NOT:
					return Int{pc(c &^ d)}
				}
			}
		}
		return Int{pa("(" + st.norm(p).key() + x.Op.String() + st.norm(q).key() + ")")}
	}
	if en.pathMode {
		switch x.Op {
		case token.LSS, token.GEQ:
			if d, ok := en.floatLess(a, b); ok {
				return BoolC(d == (x.Op == token.LSS))
			}
		case token.GTR, token.LEQ:
			if d, ok := en.floatLess(b, a); ok {
				return BoolC(d == (x.Op == token.GTR))
			}
		}
	}
	if sa, ok := strOf(a); ok {
		if sb, ok := strOf(b); ok {
			switch x.Op {
			case token.LSS:
				return BoolC(sa < sb)
			case token.GTR:
				return BoolC(sa > sb)
			case token.LEQ:
				return BoolC(sa <= sb)
			case token.GEQ:
				return BoolC(sa >= sb)
			}
		}
	}
	ka, kb := a.key(), b.key()
	switch x.Op {
	case token.ADD:
		if isStrT(x.Type()) {
			return catStr(a, b, x.Type())
		}
		return Term{"(" + ka + "+" + kb + ")", x.Type()}
	case token.LSS:
		return TBool{k: ka + " < " + kb}
	case token.GTR:
		return TBool{k: kb + " < " + ka}
	case token.LEQ:
		return TBool{k: kb + " < " + ka, neg: true}
	case token.GEQ:
		return TBool{k: ka + " < " + kb, neg: true}
	}
	return Term{"(" + ka + x.Op.String() + kb + ")", x.Type()}
}

func catStr(a, b Val, t types.Type) Val {
	if ta, ok := a.(Term); ok {
		if tb, ok := b.(Term); ok {
			sa, oka := ta.isStrConst()
			sb, okb := tb.isStrConst()
			if oka && okb {
				return strVal(sa + sb)
			}
			if oka && sa == "" {
				return b
			}
			if okb && sb == "" {
				return a
			}
		}
	}
	return Term{"cat(" + a.key() + "," + b.key() + ")", t}
}

func (en *Eng) lenOf(st *State, v Val) *Poly {
	v = en.force(v)
	switch x := v.(type) {
	case Slice:
		return x.n
	case NilV:
		return pc(0)
	case Term:
		if s, ok := x.isStrConst(); ok {
			return pc(int64(len(s)))
		}
		return pa("len(" + x.k + ")")
	case MapV:
		o := en.get(st, x.obj)
		if o.base == "" && len(o.ups) == 0 {
			return pc(0)
		}
		if len(o.ups) == 0 {
			return pa("len(" + o.base + ")")
		}
		if es := en.mapEntries(st, o); es != nil {
			return pc(int64(len(es)))
		}
		return pa("len(" + en.mapKey(o) + ")")
	case Ptr:
		return segsLen(en.get(st, x.obj).segs)
	}
	return pa("len(" + v.key() + ")")
}

func (en *Eng) mapKey(o *Obj) string {
	var l []string
	for _, u := range o.ups {
		if u.gen != nil {
			l = append(l, "gen"+u.gen.id)
		} else {
			l = append(l, u.k.key()+":"+func() string {
				if u.del {
					return "del"
				}
				return u.v.key()
			}())
		}
	}
	return "map<" + o.base + ";" + strings.Join(l, ";") + ">"
}

func (en *Eng) lookup(st *State, m Val, k Val) (Val, Val) {
	m = en.force(m)
	if en.pathMode {
		k = en.normVal(st, k)
	}
	switch x := m.(type) {
	case MapV:
		o := en.get(st, x.obj)
		for i := len(o.ups) - 1; i >= 0; i-- {
			u := o.ups[i]
			if u.gen != nil {
				return en.symv(en.mapKey(o)+"["+k.key()+"]", o.mtyp.Elem()), TBool{k: "has(" + en.mapKey(o) + "," + k.key() + ")"}
			}
			e := en.eqVal(u.k, k)
			if a, ok := constKey(u.k); ok {
				if b, ok := constKey(k); ok {
					e = BoolC(a == b)
				}
			}
			if d, ok := st.decide(e); ok {
				if d {
					if u.del {
						return en.zero(st, o.mtyp.Elem()), BoolC(false)
					}
					return u.v, BoolC(true)
				}
				continue
			}
			return en.symv(en.mapKey(o)+"["+k.key()+"]", o.mtyp.Elem()), TBool{k: "has(" + en.mapKey(o) + "," + k.key() + ")"}
		}
		if o.base == "" {
			return en.zero(st, o.mtyp.Elem()), BoolC(false)
		}
		return en.symv(o.base+"["+k.key()+"]", o.mtyp.Elem()), TBool{k: "has(" + o.base + "," + k.key() + ")"}
	case NilV:
		return en.zero(st, x.typ.Underlying().(*types.Map).Elem()), BoolC(false)
	}
	return Term{m.key() + "[" + k.key() + "]", types.Typ[types.Invalid]}, TBool{k: "has(" + m.key() + "," + k.key() + ")"}
}

// step interprets one instruction; an End with an empty kind continues.
func (en *Eng) step(fn *ssa.Function, in ssa.Instruction, st *State) []End {
	set := func(v Val) []End {
		st.env[in.(ssa.Value)] = v
		return cont(st)
	}
	nilPanic := func() []End {
		return []End{{kind: "panic", st: st, why: "nil dereference at " + en.c.pos(in.Pos())}}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return cont(st)
	case *ssa.RunDefers:
		return en.runDefers(fn, st)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			o := &Obj{kind: 'a', elem: a.Elem(), label: x.Comment}
			if a.Len() <= 64 {
				for i := int64(0); i < a.Len(); i++ {
					o.segs = append(o.segs, Seg{kind: 'F', val: en.zero(st, a.Elem()), n: pc(1)})
				}
			} else {
				o.segs = []Seg{{kind: 'F', val: en.zero(st, a.Elem()), n: pc(a.Len())}}
			}
			return set(Ptr{obj: en.newObj(st, o)})
		}
		return set(Ptr{obj: en.newObj(st, &Obj{kind: 'c', val: en.zero(st, t), elem: t, label: x.Comment})})
	case *ssa.BinOp:
		return set(en.binop(st, x))
	case *ssa.UnOp:
		v := en.val(st, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := v.(Ptr)
			if !ok {
				if _, isNil := v.(NilV); isNil {
					return nilPanic()
				}
				return set(en.symv("*"+v.key(), x.Type()))
			}
			if p.nilKey != "" {
				if !st.assume(TBool{k: "nil:" + p.nilKey}, false) {
					return nilPanic()
				}
			}
			return set(en.load(st, p))
		case token.SUB:
			if isIntT(x.Type()) {
				return set(Int{en.toInt(v).neg()})
			}
			if en.reals && isFloat(x.Type()) {
				if r, ok := en.realOp(token.SUB, Int{pc(0)}, v, x.Type()); ok {
					return set(r)
				}
			}
			return set(Term{"(-" + v.key() + ")", x.Type()})
		case token.NOT:
			return set(notV(v))
		case token.ARROW:
			if c, ok := en.force(v).(chanV); ok {
				return en.recv(x, c, st)
			}
			return set(en.symv(en.fresh("recv"), x.Type()))
		}
		return set(en.symv("("+x.Op.String()+v.key()+")", x.Type()))
	case *ssa.Store:
		p, ok := en.val(st, x.Addr).(Ptr)
		if !ok {
			return cont(st)
		}
		if p.nilKey != "" && !st.assume(TBool{k: "nil:" + p.nilKey}, false) {
			return nilPanic()
		}
		en.store(st, p, en.val(st, x.Val))
		return cont(st)
	case *ssa.FieldAddr:
		p, ok := en.val(st, x.X).(Ptr)
		if !ok {
			v := en.val(st, x.X)
			if _, isNil := v.(NilV); isNil {
				return nilPanic()
			}
			return set(en.symv(v.key()+".&"+fieldName(x.X.Type(), x.Field), x.Type()))
		}
		if p.nilKey != "" && !st.assume(TBool{k: "nil:" + p.nilKey}, false) {
			return nilPanic()
		}
		return set(Ptr{obj: p.obj, path: append(append([]Sel(nil), p.path...), Sel{field: x.Field})})
	case *ssa.Field:
		return set(en.loadPath(st, en.val(st, x.X), []Sel{{field: x.Field}}))
	case *ssa.IndexAddr:
		v := en.val(st, x.X)
		idx := en.toInt(en.val(st, x.Index))
		switch b := v.(type) {
		case Ptr:
			if len(b.path) == 0 && en.get(st, b.obj).kind == 'a' {
				en.index(fn, in.Pos(), "index", idx, segsLen(en.get(st, b.obj).segs), st)
				return set(Ptr{obj: b.obj, path: []Sel{{idx: idx}}})
			}
			return set(Ptr{obj: b.obj, path: append(append([]Sel(nil), b.path...), Sel{idx: idx})})
		default:
			s, ok := en.asSlice(v, x.X.Type())
			if !ok {
				return set(en.symv(v.key()+"[&"+idx.key()+"]", x.Type()))
			}
			en.index(fn, in.Pos(), "index", idx, s.n, st)
			if st.provesEQ(s.n) {
				return []End{{kind: "panic", st: st, why: "index of an empty slice at " + en.c.pos(in.Pos())}}
			}
			return set(Ptr{obj: s.arr, path: []Sel{{idx: s.off.add(idx)}}})
		}
	case *ssa.Index:
		v := en.val(st, x.X)
		idx := en.toInt(en.val(st, x.Index))
		en.index(fn, in.Pos(), "index", idx, en.lenOf(st, v), st)
		if t, ok := strOf(v); ok && en.pathMode {
			if i, ok := idx.konst(); ok && i >= 0 && int(i) < len(t) {
				return set(Int{pc(int64(t[i]))})
			}
		}
		return set(en.symv(v.key()+"["+st.norm(idx).key()+"]", x.Type()))
	case *ssa.Lookup:
		m := en.val(st, x.X)
		k := en.val(st, x.Index)
		if isStrT(x.X.Type()) {
			idx := en.toInt(k)
			en.index(fn, in.Pos(), "index", idx, en.lenOf(st, m), st)
			if t, ok := strOf(m); ok && en.pathMode {
				if i, ok := idx.konst(); ok && i >= 0 && int(i) < len(t) {
					return set(Int{pc(int64(t[i]))})
				}
			}
			return set(en.symv(m.key()+"["+st.norm(idx).key()+"]", x.Type()))
		}
		v, ok := en.lookup(st, m, k)
		if x.CommaOk {
			return set(Tuple{v, ok})
		}
		return set(v)
	case *ssa.MapUpdate:
		m, ok := en.val(st, x.Map).(MapV)
		if !ok {
			return cont(st)
		}
		o := *en.get(st, m.obj)
		o.ups = append(append([]mapUp(nil), o.ups...), mapUp{k: en.val(st, x.Key), v: en.val(st, x.Value)})
		st.objs[m.obj] = &o
		return cont(st)
	case *ssa.MakeMap:
		return set(MapV{obj: en.newObj(st, &Obj{kind: 'm', mtyp: x.Type().Underlying().(*types.Map)})})
	case *ssa.MakeSlice:
		n := en.toInt(en.val(st, x.Len))
		el := x.Type().Underlying().(*types.Slice).Elem()
		o := &Obj{kind: 'a', elem: el}
		if !n.isZero() {
			o.segs = []Seg{{kind: 'F', val: en.zero(st, el), n: n}}
		}
		return set(Slice{arr: en.newObj(st, o), off: pc(0), n: n})
	case *ssa.MakeChan:
		if en.sched != 0 {
			return set(en.makeChan(st, x.Type()))
		}
		return set(Term{en.fresh("chan"), x.Type()})
	case *ssa.Slice:
		return set(en.sliceOp(fn, x, st))
	case *ssa.MakeClosure:
		c := Closure{fn: x.Fn, nm: fname(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			c.b = append(c.b, en.val(st, b))
		}
		return set(c)
	case *ssa.MakeInterface:
		return set(Iface{x.X.Type(), en.val(st, x.X)})
	case *ssa.ChangeInterface:
		return set(en.val(st, x.X))
	case *ssa.ChangeType:
		v := en.val(st, x.X)
		if s, ok := v.(Struct); ok {
			return set(Struct{x.Type(), s.f})
		}
		return set(v)
	case *ssa.Convert:
		v := en.val(st, x.X)
		if isIntT(x.Type()) && isIntT(x.X.Type()) {
			return set(Int{en.toInt(v)})
		}
		if en.reals && isFloat(x.Type()) && isIntT(x.X.Type()) {
			return set(Int{en.toInt(v).mul(pc(realUnit))})
		}
		if en.reals && isFloat(x.Type()) && isFloat(x.X.Type()) {
			return set(v)
		}
		if en.pathMode {
			if c, ok := en.constConvert(st, x, v); ok {
				return set(c)
			}
			if t, ok := v.(Term); ok && isFloat(x.Type()) && isFloat(x.X.Type()) {
				return set(Term{t.k, x.Type()})
			}
		}
		if isStrT(x.Type()) && isStrT(x.X.Type()) {
			return set(v)
		}
		k := shortType(x.Type()) + "(" + v.key() + ")"
		if s, ok := v.(Slice); ok {
			k = shortType(x.Type()) + "(" + segsKey(en.content(st, s)) + ")"
			if isStrT(x.Type()) {
				if ss := en.content(st, s); len(ss) == 1 && ss[0].kind == 'S' && strings.HasPrefix(ss[0].base, "[]") {
					// string([]byte(s)) and string([]rune(s)) give s back
					in := ss[0].base[strings.Index(ss[0].base, "(")+1 : len(ss[0].base)-1]
					if ss[0].lo.isZero() {
						return set(Term{in, x.Type()})
					}
				}
			}
		}
		if i, ok := v.(Int); ok && isFloat(x.Type()) {
			en.intOf[k] = i.p
		}
		if isIntT(x.Type()) && isFloat(x.X.Type()) {
			if p := en.intOf[v.key()]; p != nil {
				return set(Int{p})
			}
		}
		return set(en.symv(k, x.Type()))
	case *ssa.MultiConvert:
		return set(en.val(st, x.X))
	case *ssa.SliceToArrayPointer:
		return set(en.symv(en.fresh("sl2arr"), x.Type()))
	case *ssa.Extract:
		t := en.val(st, x.Tuple)
		if tt, ok := t.(Tuple); ok && x.Index < len(tt) {
			return set(en.force(tt[x.Index]))
		}
		return set(en.symv(fmt.Sprintf("%s#%d", t.key(), x.Index), x.Type()))
	case *ssa.TypeAssert:
		return en.typeAssert(x, st)
	case *ssa.Range:
		v := en.val(st, x.X)
		return set(Tuple{v})
	case *ssa.Next:
		if nv, ok := en.next[x]; ok {
			return set(en.nextAt(st, x, nv))
		}
		// outside a summarised header: an arbitrary next element
		tt := x.Type().(*types.Tuple)
		k := en.fresh("next")
		r := Tuple{TBool{k: k + "#ok"}}
		for i := 1; i < tt.Len(); i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				r = append(r, Term{k, tt.At(i).Type()})
				continue
			}
			r = append(r, en.symv(fmt.Sprintf("%s#%d", k, i), tt.At(i).Type()))
		}
		return set(r)
	case *ssa.Call:
		outs := en.call(fn, x, &x.Call, st)
		var ends []End
		for _, o := range outs {
			if o.kind != "ret" {
				ends = append(ends, End{kind: o.kind, ret: o.ret, st: o.st, why: o.why})
				continue
			}
			var v Val
			switch len(o.ret) {
			case 0:
				v = Tuple{}
			case 1:
				v = o.ret[0]
			default:
				v = Tuple(o.ret)
			}
			o.st.env[x] = v
			ends = append(ends, End{st: o.st})
		}
		return ends
	case *ssa.Go:
		if en.record != nil {
			st.evs = append(st.evs, Event{name: "go " + calleeName(&x.Call), pos: en.c.pos(x.Pos())})
		}
		if en.sched != 0 {
			if d, bad := en.resolve(x, &x.Call, st); bad == nil && !d.isBuiltin() {
				s := en.schedGet(st)
				s.pending = append(s.pending, d)
				en.schedPut(st, s)
			}
		}
		return cont(st)
	case *ssa.Defer:
		st.evs = append(st.evs, Event{name: "defer " + calleeName(&x.Call), pos: en.c.pos(x.Pos())})
		d, bad := en.resolve(x, &x.Call, st)
		if bad != nil || d.isBuiltin() && !(en.sched != 0 && d.name == "close") {
			return cont(st) // fails, if at all, when the function returns
		}
		l, _ := st.env[deferKey{fn}].(deferList)
		st.env[deferKey{fn}] = append(append(deferList{}, l...), d)
		return cont(st)
	case *ssa.Send:
		if c, ok := en.force(en.val(st, x.Chan)).(chanV); ok {
			return en.send(st, c, en.val(st, x.X))
		}
		return cont(st)
	case *ssa.Select:
		return set(en.symv(en.fresh("select"), x.Type()))
	}
	if v, ok := in.(ssa.Value); ok {
		return set(en.symv(en.fresh("unk"), v.Type()))
	}
	return cont(st)
}

func (en *Eng) index(fn *ssa.Function, pos token.Pos, what string, idx, n *Poly, st *State) {
	if en.onIndex != nil && en.quietLoop == 0 {
		en.onIndex(en, fn, pos, what, idx, n, st)
	}
	// execution continues only when the index is in range
	st.ge = append(st.ge, idx, n.sub(idx).addc(-1))
}

func (en *Eng) sliceOp(fn *ssa.Function, x *ssa.Slice, st *State) Val {
	v := en.val(st, x.X)
	lo := pc(0)
	if x.Low != nil {
		lo = en.toInt(en.val(st, x.Low))
	}
	if p, ok := v.(Ptr); ok { // pointer to array
		if len(p.path) > 0 {
			return en.symv(en.fresh("slice"), x.Type())
		}
		n := segsLen(en.get(st, p.obj).segs)
		hi := n
		if x.High != nil {
			hi = en.toInt(en.val(st, x.High))
		}
		return Slice{arr: p.obj, off: lo, n: hi.sub(lo)}
	}
	if isStrT(x.X.Type()) {
		hi := en.lenOf(st, v)
		if t, ok := strOf(v); ok && en.pathMode {
			a, okA := lo.konst()
			b, okB := int64(len(t)), true
			if x.High != nil {
				b, okB = en.toInt(en.val(st, x.High)).konst()
			}
			if okA && okB && 0 <= a && a <= b && int(b) <= len(t) {
				return strVal(t[a:b])
			}
		}
		hk := ""
		if x.High != nil {
			hi = en.toInt(en.val(st, x.High))
			hk = st.norm(hi).key()
		}
		if en.onIndex != nil && en.quietLoop == 0 {
			en.onIndex(en, fn, x.Pos(), "slice", lo, hi, st)
			en.onIndex(en, fn, x.Pos(), "slice", hi, en.lenOf(st, v), st)
		}
		if lo.isZero() && x.High == nil {
			return v
		}
		return Term{v.key() + "[" + st.norm(lo).key() + ":" + hk + "]", x.Type()}
	}
	s, ok := en.asSlice(v, x.X.Type())
	if !ok {
		return en.symv(en.fresh("slice"), x.Type())
	}
	hi := s.n
	if x.High != nil {
		hi = en.toInt(en.val(st, x.High))
	}
	if en.onIndex != nil && en.quietLoop == 0 {
		en.onIndex(en, fn, x.Pos(), "slice", lo, hi, st)
		if x.High != nil {
			en.onIndex(en, fn, x.Pos(), "slice", hi, s.n, st)
		}
	}
	st.ge = append(st.ge, lo, hi.sub(lo))
	if x.High != nil {
		st.ge = append(st.ge, s.n.sub(hi))
	}
	nk := s.nilKey
	return Slice{arr: s.arr, off: s.off.add(lo), n: hi.sub(lo), nilKey: nk}
}

func (en *Eng) typeAssert(x *ssa.TypeAssert, st *State) []End {
	v := en.val(st, x.X)
	T := x.AssertedType
	_, isI := T.Underlying().(*types.Interface)
	yes := func(s *State, r Val) End {
		if x.CommaOk {
			s.env[x] = Tuple{r, BoolC(true)}
		} else {
			s.env[x] = r
		}
		return End{st: s}
	}
	no := func(s *State) End {
		if x.CommaOk {
			s.env[x] = Tuple{en.zero(s, T), BoolC(false)}
			return End{st: s}
		}
		return End{kind: "panic", st: s, why: "type assertion fails at " + en.c.pos(x.Pos())}
	}
	switch y := v.(type) {
	case NilV:
		return []End{no(st)}
	case Iface:
		if isI {
			if types.Implements(y.typ, T.Underlying().(*types.Interface)) {
				return []End{yes(st, v)}
			}
			return []End{no(st)}
		}
		if types.Identical(y.typ, T) {
			return []End{yes(st, y.v)}
		}
		return []End{no(st)}
	}
	k := v.key()
	tk := k + ".(" + shortType(T) + ")"
	mk := func() Val {
		if isI {
			return v
		}
		r := en.symv(tk, T)
		if p, ok := r.(Ptr); ok {
			p.nilKey = ""
			return p
		}
		return r
	}
	if kt, ok := st.typ[k]; ok && !isI {
		if types.Identical(kt, T) {
			return []End{yes(st, mk())}
		}
		return []End{no(st)}
	}
	if t, ok := st.truth["typ:"+tk]; ok {
		if t {
			return []End{yes(st, mk())}
		}
		return []End{no(st)}
	}
	if st.truth["nil:"+k] {
		return []End{no(st)}
	}
	b := st.clone()
	if !isI {
		st.typ[k] = T
	}
	st.truth["typ:"+tk] = true
	st.truth["nil:"+k] = false
	st.br += "T"
	b.truth["typ:"+tk] = false
	b.br += "t"
	return []End{yes(st, mk()), no(b)}
}

// ---------- calls

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true, "reflect": true, "path": true, "path/filepath": true, "fmt": true, "unicode/utf16": true, "slices": false}

// a deferred call, its arguments evaluated
type deferred struct {
	group  string
	site   ssa.Instruction
	cc     *ssa.CallCommon
	name   string
	target *ssa.Function
	args   []Val
	free   []Val
}

func (d *deferred) isBuiltin() bool {
	_, ok := d.cc.Value.(*ssa.Builtin)
	return ok
}

type deferKey struct{ fn *ssa.Function }
type deferList []*deferred

func (l deferList) key() string {
	k := "defers:"
	for _, d := range l {
		k += fmt.Sprintf("%p,", d.site)
		for _, a := range d.args {
			k += a.key() + ";"
		}
	}
	return k
}

func (en *Eng) runDefers(fn *ssa.Function, st *State) []End {
	l, _ := st.env[deferKey{fn}].(deferList)
	if len(l) == 0 {
		return cont(st)
	}
	st.env[deferKey{fn}] = l[:len(l)-1]
	d := l[len(l)-1]
	var ends []End
	outs := []Outcome(nil)
	if d.isBuiltin() {
		outs = en.builtin(fn, d.site, d.name, d.cc, d.args, st)
	} else {
		outs = en.callFn(fn, d.site, d.cc, d.name, d.target, d.args, d.free, st)
	}
	for _, o := range outs {
		if o.kind != "ret" {
			ends = append(ends, End{kind: o.kind, ret: o.ret, st: o.st, why: o.why})
			continue
		}
		ends = append(ends, en.runDefers(fn, o.st)...)
	}
	return ends
}

func (en *Eng) call(fn *ssa.Function, site ssa.Instruction, cc *ssa.CallCommon, st *State) []Outcome {
	d, bad := en.resolve(site, cc, st)
	if bad != nil {
		return bad
	}
	if d.isBuiltin() {
		return en.builtin(fn, site, d.name, cc, d.args, st)
	}
	return en.callFn(fn, site, cc, d.name, d.target, d.args, d.free, st)
}

// resolve evaluates the arguments and finds the function called.
func (en *Eng) resolve(site ssa.Instruction, cc *ssa.CallCommon, st *State) (*deferred, []Outcome) {
	var args []Val
	if cc.IsInvoke() {
		args = append(args, en.val(st, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, en.val(st, a))
	}
	name := calleeName(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return &deferred{site: site, cc: cc, name: b.Name(), args: args}, nil
	}
	var target *ssa.Function
	var free []Val
	if cc.IsInvoke() {
		switch r := args[0].(type) {
		case NilV:
			return nil, []Outcome{{kind: "panic", st: st, why: "method call on nil interface at " + en.c.pos(site.Pos())}}
		case Iface:
			if f := en.c.Prog.LookupMethod(r.typ, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				target = f
				args[0] = r.v
				name = f.String()
			}
		default:
			if st.truth["nil:"+r.key()] {
				return nil, []Outcome{{kind: "panic", st: st, why: "method call on nil interface at " + en.c.pos(site.Pos())}}
			}
		}
	} else if f := cc.StaticCallee(); f != nil {
		target = f
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, en.val(st, b))
			}
		}
	} else {
		switch c := en.val(st, cc.Value).(type) {
		case Closure:
			target = c.fn.(*ssa.Function)
			free = c.b
			name = target.String()
		case NilV:
			return nil, []Outcome{{kind: "panic", st: st, why: "call of nil function at " + en.c.pos(site.Pos())}}
		default:
			name = "dynamic:" + c.key()
		}
	}
	return &deferred{site: site, cc: cc, name: name, target: target, args: args, free: free}, nil
}

func (en *Eng) callFn(fn *ssa.Function, site ssa.Instruction, cc *ssa.CallCommon, name string, target *ssa.Function, args, free []Val, st *State) []Outcome {
	short := strings.ReplaceAll(strings.ReplaceAll(name, modPath+"/", ""), modPath+".", "tokenizer.")
	if target != nil && target.Origin() != nil {
		short = fname(target.Origin())
	}
	if h := en.hooks[short]; h != nil {
		if outs, ok := h(en, st, cc, args); ok {
			en.recordEv(short, args, outs, site)
			return outs
		}
	}
	if isExit(name) {
		return []Outcome{{kind: "exit", st: st, why: name + " at " + en.c.pos(site.Pos())}}
	}
	if strings.HasPrefix(name, "log.Panic") || strings.HasPrefix(name, "(*log.Logger).Panic") {
		return []Outcome{{kind: "panic", st: st, why: name + " at " + en.c.pos(site.Pos())}}
	}
	if target != nil && len(target.Blocks) > 0 && en.c.inModule(target) && !en.inStack(target) && len(en.stack) < en.maxDepth && (en.opaque == nil || !en.opaque(target)) {
		outs := en.Run(target, args, free, st)
		en.recordEv(short, args, outs, site)
		return outs
	}
	res := cc.Signature().Results()
	switch short {
	case "errors.New", "fmt.Errorf":
		outs := []Outcome{{kind: "ret", ret: []Val{Iface{errType, Term{en.fresh("err"), errType}}}, st: st}}
		return outs
	}
	pure := false
	if target != nil {
		pure = purePkgs[fnPkgPath(target)] && !strings.HasPrefix(short, "(*") && !strings.HasPrefix(short, "fmt.Fprint") && !strings.HasPrefix(short, "fmt.Sscan") && !strings.HasPrefix(short, "fmt.Fscan")
		if fnPkgPath(target) == "" {
			pure = false
		}
	}
	if strings.HasPrefix(short, "(*regexp.Regexp)") || strings.HasPrefix(short, "regexp.") || strings.HasPrefix(short, "(reflect.Type)") || strings.HasPrefix(short, "invoke reflect.Type.") {
		pure = true
	}
	invoke := cc.IsInvoke() && target == nil
	key := short + "("
	for i, a := range args {
		if i > 0 {
			key += ","
		}
		key += en.argKey(st, a)
	}
	key += ")"
	if !pure && !invoke {
		key += "@" + en.fresh("")
		en.havocArgs(st, args)
	}
	var ret []Val
	for i := 0; i < res.Len(); i++ {
		k := key
		if res.Len() > 1 {
			k = fmt.Sprintf("%s#%d", key, i)
		}
		ret = append(ret, en.symv(k, res.At(i).Type()))
	}
	outs := []Outcome{{kind: "ret", ret: ret, st: st}}
	en.recordEv(short, args, outs, site)
	return outs
}

func (en *Eng) recordEv(name string, args []Val, outs []Outcome, site ssa.Instruction) {
	if en.record == nil || !en.record(name) {
		return
	}
	for i := range outs {
		snap := outs[i].st.clone()
		outs[i].st.evs = append(outs[i].st.evs, Event{name: name, args: args, res: outs[i].ret, pos: en.c.pos(site.Pos()), st: snap})
	}
}

func (en *Eng) inStack(f *ssa.Function) bool {
	n := 0
	for _, g := range en.stack {
		if g == f {
			n++
		}
	}
	return n > en.recurse
}

// argKey renders an argument by content, so that equal contents give equal terms.
func (en *Eng) argKey(st *State, v Val) string {
	v = en.force(v)
	switch x := v.(type) {
	case Int:
		return st.norm(x.p).key()
	case Slice:
		return "[" + segsKey(en.content(st, x)) + "]"
	case Iface:
		return en.argKey(st, x.v)
	case Ptr:
		o := en.get(st, x.obj)
		if o.label != "" && en.init[x.obj] != nil {
			k := o.label
			for _, s := range x.path {
				k += "." + strconv.Itoa(s.field)
			}
			return k
		}
	case MapV:
		return en.mapKey(en.get(st, x.obj))
	case Struct:
		var l []string
		for _, f := range x.f {
			l = append(l, en.argKey(st, f))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	return v.key()
}

func (en *Eng) havocArgs(st *State, args []Val) {
	for _, a := range args {
		en.havocVal(st, a)
	}
}

func (en *Eng) havocVal(st *State, a Val) {
	switch x := a.(type) {
	case Iface:
		en.havocVal(st, x.v)
	case Ptr:
		o := en.get(st, x.obj)
		if o == nil {
			return
		}
		if len(x.path) == 0 && o.kind == 'c' {
			n := *o
			n.val = en.symv(en.fresh("hv"), o.elem)
			st.objs[x.obj] = &n
		} else if len(x.path) > 0 && o.kind == 'c' {
			cur := en.load(st, x)
			en.store(st, x, en.havocLike(st, cur))
		} else if o.kind == 'a' {
			n := *o
			n.segs = []Seg{{kind: 'U', base: en.fresh("hv"), n: segsLen(o.segs)}}
			n.wr = nil
			st.objs[x.obj] = &n
		}
	case Slice:
		o := en.get(st, x.arr)
		if o == nil || len(o.segs) == 0 {
			return
		}
		n := *o
		n.segs = []Seg{{kind: 'U', base: en.fresh("hv"), n: segsLen(o.segs)}}
		n.wr = nil
		st.objs[x.arr] = &n
	case MapV:
		o := *en.get(st, x.obj)
		o.base = en.fresh("hvmap")
		o.ups = nil
		st.objs[x.obj] = &o
	}
}

func (en *Eng) havocLike(st *State, v Val) Val {
	switch x := v.(type) {
	case Struct:
		return en.symv(en.fresh("hv"), x.typ)
	case Int:
		return Int{pa(en.fresh("hv"))}
	case Slice:
		o := en.get(st, x.arr)
		return en.symv(en.fresh("hv"), types.NewSlice(o.elem))
	case Term:
		return Term{en.fresh("hv"), x.typ}
	}
	return v
}

func (en *Eng) appendSegs(st *State, base Slice, extra []Seg, el types.Type) Val {
	segs := append(append([]Seg(nil), en.content(st, base)...), extra...)
	n := base.n.add(segsLen(extra))
	o := &Obj{kind: 'a', segs: segs, elem: el, alias: map[int]bool{}}
	bo := en.get(st, base.arr)
	if len(bo.segs) > 0 {
		o.alias[base.arr] = true
	}
	for a := range bo.alias {
		o.alias[a] = true
	}
	nk := ""
	if base.nilKey != "" {
		nk = "len0"
		if base.nilKey != "⊥" && base.nilKey != "len0" {
			nk = base.nilKey
		}
		if st.provesGE(n.addc(-1)) {
			nk = ""
		}
	}
	return Slice{arr: en.newObj(st, o), off: pc(0), n: n, nilKey: nk}
}

func (en *Eng) builtin(fn *ssa.Function, site ssa.Instruction, name string, cc *ssa.CallCommon, args []Val, st *State) []Outcome {
	ret := func(v ...Val) []Outcome { return []Outcome{{kind: "ret", ret: v, st: st}} }
	switch name {
	case "len":
		return ret(Int{en.lenOf(st, args[0])})
	case "cap":
		return ret(Int{pa("cap(" + args[0].key() + ")")})
	case "append":
		t, ok := cc.Value.Type().(*types.Signature)
		_ = t
		_ = ok
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		base, ok := en.asSlice(args[0], cc.Args[0].Type())
		if !ok {
			return ret(en.symv(en.fresh("append"), cc.Args[0].Type()))
		}
		if len(args) == 1 {
			return ret(base)
		}
		var extra []Seg
		if s, ok := en.asSlice(args[1], nil); ok {
			extra = en.content(st, s)
		} else {
			n := en.lenOf(st, args[1])
			extra = []Seg{{kind: 'S', base: "[]byte(" + args[1].key() + ")", lo: pc(0), n: n}}
		}
		if en.onAppend != nil && en.quietLoop == 0 {
			en.onAppend(en, fn, site.Pos(), base, st)
		}
		return ret(en.appendSegs(st, base, extra, el))
	case "copy":
		d, ok := en.asSlice(args[0], nil)
		if !ok {
			return ret(Int{pa(en.fresh("copy"))})
		}
		var src []Seg
		var n *Poly
		if s, ok := en.asSlice(args[1], nil); ok {
			src, n = en.content(st, s), s.n
		} else {
			n = en.lenOf(st, args[1])
			src = []Seg{{kind: 'S', base: "[]byte(" + args[1].key() + ")", lo: pc(0), n: n}}
		}
		o := *en.get(st, d.arr)
		m := n
		if !st.provesGE(d.n.sub(n)) {
			if st.provesGE(n.sub(d.n)) {
				m = d.n
				src = en.subSegs(st, src, pc(0), m)
			} else {
				total := segsLen(o.segs)
				o.segs = []Seg{{kind: 'U', base: en.fresh("copy"), n: total}}
				o.wr = nil
				st.objs[d.arr] = &o
				return ret(Int{pa(en.fresh("copied"))})
			}
		}
		total := segsLen(o.segs)
		var segs []Seg
		if !st.provesEQ(d.off) {
			segs = append(segs, en.subSegs(st, o.segs, pc(0), d.off)...)
		}
		segs = append(segs, src...)
		rest := total.sub(d.off).sub(m)
		if !st.provesEQ(rest) {
			segs = append(segs, en.subSegs(st, o.segs, d.off.add(m), rest)...)
		}
		o.segs = segs
		o.wr = nil
		st.objs[d.arr] = &o
		return ret(Int{m})
	case "delete":
		if m, ok := args[0].(MapV); ok {
			o := *en.get(st, m.obj)
			o.ups = append(append([]mapUp(nil), o.ups...), mapUp{k: args[1], del: true})
			st.objs[m.obj] = &o
		}
		return ret()
	case "min", "max":
		if isIntT(cc.Args[0].Type()) {
			outs := []Outcome{{kind: "ret", ret: []Val{args[0]}, st: st}}
			for i := 1; i < len(args); i++ {
				var next []Outcome
				for _, o := range outs {
					a, b := en.toInt(o.ret[0]), en.toInt(args[i])
					c := Cmp{"<0", a.sub(b)}
					s1, s2 := o.st.clone(), o.st
					d, known := o.st.decide(c)
					s1.br += "m"
					s2.br += "M"
					if (!known || d) && s1.assume(c, true) {
						r := args[i]
						if name == "min" {
							r = o.ret[0]
						}
						next = append(next, Outcome{kind: "ret", ret: []Val{r}, st: s1})
					}
					if (!known || !d) && s2.assume(c, false) {
						r := args[i]
						if name == "max" {
							r = o.ret[0]
						}
						next = append(next, Outcome{kind: "ret", ret: []Val{r}, st: s2})
					}
				}
				outs = next
			}
			return outs
		}
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "print", "println", "close", "clear":
		if name == "close" {
			if c, ok := en.force(args[0]).(chanV); ok {
				return en.closeChan(st, c)
			}
		}
		return ret()
	case "recover":
		return ret(NilV{types.NewInterfaceType(nil, nil)})
	}
	if v, ok := site.(ssa.Value); ok {
		return ret(en.symv(en.fresh(name), v.Type()))
	}
	return ret()
}

func (en *Eng) nextAt(st *State, x *ssa.Next, nv nextVal) Val {
	tt := x.Type().(*types.Tuple)
	if nv.at != nil {
		return nv.at
	}
	if !nv.ok || nv.src == nil {
		r := Tuple{BoolC(nv.ok)}
		for i := 1; i < tt.Len(); i++ {
			r = append(r, Term{"none", tt.At(i).Type()})
		}
		if nv.ok {
			for i := 1; i < tt.Len(); i++ {
				r[i] = en.symv(fmt.Sprintf("next%s#%d", nv.k, i), tt.At(i).Type())
			}
		}
		return r
	}
	src := en.force(nv.src)
	if x.IsString {
		k := src.key()
		return Tuple{BoolC(true), Int{pa("idx(" + k + "," + nv.k + ")")}, Int{pa("rune(" + k + "," + nv.k + ")")}}
	}
	switch m := src.(type) {
	case MapV:
		o := en.get(st, m.obj)
		name := o.base
		if len(o.ups) > 0 || o.base == "" {
			name = en.mapKey(o)
		}
		key := en.symv("key("+name+","+nv.k+")", o.mtyp.Key())
		val := en.symv(name+"["+key.key()+"]", o.mtyp.Elem())
		return Tuple{BoolC(true), key, val}
	}
	r := Tuple{BoolC(true)}
	for i := 1; i < tt.Len(); i++ {
		r = append(r, en.symv(fmt.Sprintf("next(%s,%s)#%d", src.key(), nv.k, i), tt.At(i).Type()))
	}
	return r
}
