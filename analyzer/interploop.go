package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type locT struct {
	phi  *ssa.Phi
	obj  int
	path string // "" or ".1.2"
}

type item struct {
	loc  locT
	typ  types.Type
	kind byte // 'i' int, 's' slice, 'a' array object, 'm' map object, 'o' other
	init Val  // phi/cell items
	io   *Obj // object items
	cls  byte // 'i' additive, 's' append, 'w' indexed writes, 'm' map updates, 'h' havoc, 'x' max, 'l' set
	hole string
	cur  Val // value at the generic iteration
	co   *Obj
	base string // marker of the partial content at the generic iteration
	last Val
	xs   []Val
}

type maxInfo struct {
	init *Poly
	xs   []*Poly
	k    string
	n    *Poly
}

type nextVal struct {
	ok  bool
	k   string
	src Val
	at  Tuple // the entry itself, when it is known
}

func pathSel(p string) []Sel {
	var out []Sel
	for _, s := range strings.Split(p, ".") {
		if s == "" {
			continue
		}
		var n int
		fmt.Sscan(s, &n)
		out = append(out, Sel{field: n})
	}
	return out
}

func typeAt(t types.Type, p string) types.Type {
	for _, s := range pathSel(p) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || s.field >= st.NumFields() {
			return types.Typ[types.Invalid]
		}
		t = st.Field(s.field).Type()
	}
	return t
}

func (en *Eng) diffVal(a, b Val, p string, out map[string]bool) {
	if a.key() == b.key() {
		return
	}
	sa, ok1 := en.force(a).(Struct)
	sb, ok2 := en.force(b).(Struct)
	if ok1 && ok2 && len(sa.f) == len(sb.f) {
		for i := range sa.f {
			en.diffVal(sa.f[i], sb.f[i], fmt.Sprintf("%s.%d", p, i), out)
		}
		return
	}
	out[p] = true
}

// diffHeap lists the locations of pre-existing objects that differ between two states.
func (en *Eng) diffHeap(a, b *State, maxID int) []locT {
	var ids []int
	for id := range b.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []locT
	for _, id := range ids {
		ob := b.objs[id]
		oa, ok := a.objs[id]
		if !ok {
			oa, ok = en.init[id]
			if !ok {
				continue
			}
		}
		if oa == ob {
			continue
		}
		if ob.kind == 'c' {
			m := map[string]bool{}
			en.diffVal(oa.val, ob.val, "", m)
			var ps []string
			for p := range m {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				out = append(out, locT{obj: id, path: p})
			}
			continue
		}
		if segsKey(oa.segs) != segsKey(ob.segs) || len(oa.wr) != len(ob.wr) || len(oa.ups) != len(ob.ups) || oa.base != ob.base {
			out = append(out, locT{obj: id})
		}
	}
	return out
}

func (en *Eng) setItem(st *State, it *item, v Val, o *Obj) {
	if it.loc.phi != nil {
		st.env[it.loc.phi] = v
		return
	}
	if o != nil {
		st.objs[it.loc.obj] = o
		return
	}
	cur := *en.get(st, it.loc.obj)
	cur.val = en.storePath(st, cur.val, pathSel(it.loc.path), v)
	st.objs[it.loc.obj] = &cur
}

func (en *Eng) getItem(st *State, it *item, from *ssa.BasicBlock) Val {
	if it.loc.phi != nil {
		b := it.loc.phi.Block()
		for i, p := range b.Preds {
			if p == from {
				return en.val(st, it.loc.phi.Edges[i])
			}
		}
		return nil
	}
	o := en.get(st, it.loc.obj)
	if o.kind != 'c' {
		return nil
	}
	return en.loadPath(st, o.val, pathSel(it.loc.path))
}

func kindOf(t types.Type) byte {
	if isIntT(t) {
		return 'i'
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return 's'
	}
	return 'o'
}

func mentionsHole(s string) bool { return strings.Contains(s, "‹H") }

type backInfo struct {
	e     End
	delta []string // per item group key
	dp    []*Poly  // int deltas / extra lengths
	extra [][]Seg
	ups   [][]mapUp
	wr    [][]arrWrite
	vals  []Val
}

// analyseBack compares the end of one iteration with its start for every item.
func (en *Eng) analyseBack(e End, items []*item, start *State) *backInfo {
	bi := &backInfo{e: e, delta: make([]string, len(items)), dp: make([]*Poly, len(items)), extra: make([][]Seg, len(items)), ups: make([][]mapUp, len(items)), wr: make([][]arrWrite, len(items)), vals: make([]Val, len(items))}
	for i, it := range items {
		switch {
		case it.co != nil: // object item
			o := en.get(e.st, it.loc.obj)
			if o.kind == 'm' {
				if o.base == it.co.base && len(o.ups) >= len(it.co.ups) {
					bi.ups[i] = o.ups[len(it.co.ups):]
					bi.delta[i] = fmt.Sprintf("m%d", len(bi.ups[i]))
				} else {
					bi.delta[i] = "?"
				}
				continue
			}
			if segsKey(o.segs) == segsKey(it.co.segs) {
				bi.wr[i] = o.wr
				bi.delta[i] = fmt.Sprintf("w%d", len(o.wr))
			} else {
				bi.delta[i] = "?"
			}
		default:
			v := en.getItem(e.st, it, e.from)
			bi.vals[i] = v
			if v == nil {
				bi.delta[i] = "?"
				continue
			}
			cur := it.cur
			switch it.kind {
			case 'i':
				d := e.st.norm(en.toInt(v).sub(en.toInt(cur)))
				bi.dp[i] = d
				bi.delta[i] = "i" + d.key()
			case 's':
				s, ok := en.asSlice(v, it.typ)
				c, ok2 := en.asSlice(cur, it.typ)
				if !ok || !ok2 {
					bi.delta[i] = "?"
					continue
				}
				if s.key() == c.key() {
					bi.dp[i] = pc(0)
					bi.delta[i] = "s0"
					continue
				}
				ss, cs := en.content(e.st, s), en.content(e.st, c)
				if len(ss) >= len(cs) && segsKey(ss[:len(cs)]) == segsKey(cs) {
					bi.extra[i] = ss[len(cs):]
					n := e.st.norm(segsLen(bi.extra[i]))
					bi.dp[i] = n
					bi.delta[i] = "s" + n.key()
				} else {
					bi.delta[i] = "?"
				}
			default:
				if v.key() == cur.key() {
					bi.delta[i] = "="
				} else {
					bi.delta[i] = "v" + v.key()
				}
			}
		}
	}
	return bi
}

// header runs the header block; it returns the states that stay in the loop and those that leave
// through the header, with the staying condition.
type hdrOut struct {
	in, out []succ
	cond    Val // true = stay
	ends    []End
	hasExit bool
}

func (en *Eng) runHeader(fn *ssa.Function, l *loopInfo, st *State, force string) hdrOut {
	var r hdrOut
	sts, ends := en.instrs(fn, l.header, 0, st)
	r.ends = ends
	iff, isIf := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if isIf {
		in0, in1 := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
		if in0 != in1 {
			r.hasExit = true
			for _, s := range sts {
				c := en.val(s, iff.Cond)
				stay, leave := l.header.Succs[0], l.header.Succs[1]
				if in1 {
					stay, leave = leave, stay
					c = notV(c)
				}
				if r.cond == nil {
					r.cond = c
				}
				switch force {
				case "stay":
					if s.assume(c, true) {
						r.in = append(r.in, succ{stay, s})
					}
				case "leave":
					s.assume(c, false)
					r.out = append(r.out, succ{leave, s})
				}
			}
			return r
		}
	}
	for _, s := range sts {
		nb, more := en.term(fn, l.header, s, l)
		r.in = append(r.in, nb...)
		r.ends = append(r.ends, more...)
	}
	return r
}

func (en *Eng) bodyRun(fn *ssa.Function, l *loopInfo, st *State) (ends []End, cond Val, hasExit bool) {
	h := en.runHeader(fn, l, st, "stay")
	ends = h.ends
	for _, s := range h.in {
		ends = append(ends, en.block(fn, s.b, l.header, s.st, l, false)...)
	}
	return ends, h.cond, h.hasExit
}

// unroll follows a loop whose condition is decided on every pass and which ends after a few passes.
func (en *Eng) unroll(fn *ssa.Function, l *loopInfo, pred *ssa.BasicBlock, st *State) ([]End, bool) {
	h := l.header
	var next *ssa.Next
	var known []Tuple
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok || l.blocks[h.Succs[0]] == l.blocks[h.Succs[1]] {
		return nil, false
	}
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if known = en.knownEntries(st, nx); known == nil {
				return nil, false
			}
			next = nx
		}
	}
	if next != nil {
		old, had := en.next[next]
		defer func() {
			if had {
				en.next[next] = old
			} else {
				delete(en.next, next)
			}
		}()
	}
	type pt struct {
		st   *State
		from *ssa.BasicBlock
	}
	cur := []pt{{st.clone(), pred}}
	var out []End
	for pass := 0; pass <= 8; pass++ {
		if next != nil {
			if en.next == nil {
				en.next = map[*ssa.Next]nextVal{}
			}
			nv := nextVal{at: Tuple{BoolC(false), NilV{}, NilV{}}}
			if pass < len(known) {
				nv = nextVal{ok: true, at: known[pass]}
			}
			en.next[next] = nv
		}
		var next []pt
		for _, c := range cur {
			en.phis(h, c.from, c.st)
			sts, ends := en.instrs(fn, h, 0, c.st)
			out = append(out, ends...)
			for _, s := range sts {
				d, known := s.decide(en.val(s, h.Instrs[len(h.Instrs)-1].(*ssa.If).Cond))
				if !known {
					return nil, false
				}
				to := h.Succs[1]
				if d {
					to = h.Succs[0]
				}
				if !l.blocks[to] {
					out = append(out, End{kind: "exit", to: to, from: h, st: s})
					continue
				}
				for _, e := range en.block(fn, to, h, s, l, false) {
					if e.kind == "back" {
						next = append(next, pt{e.st, e.from})
					} else {
						out = append(out, e)
					}
				}
			}
		}
		if len(next) == 0 {
			return out, true
		}
		if len(next) > 64 {
			return nil, false
		}
		cur = next
	}
	return nil, false
}

func (en *Eng) loop(fn *ssa.Function, l *loopInfo, pred *ssa.BasicBlock, st *State) []End {
	if en.pathMode {
		if ends, ok := en.paths(fn, l, pred, st); ok {
			return ends
		}
	}
	en.quietLoop++
	un, ok := en.unroll(fn, l, pred, st)
	en.quietLoop--
	if ok {
		if en.quietLoop == 0 && (en.onIndex != nil || en.onAppend != nil) {
			un, _ = en.unroll(fn, l, pred, st)
		}
		return un
	}
	en.nfresh++
	id := en.nfresh
	k := fmt.Sprintf("‹k%d›", id)
	savedBr := st.br
	entryEvs := len(st.evs)

	var items []*item
	pi := -1
	for i, p := range l.header.Preds {
		if p == pred {
			pi = i
		}
	}
	var nexts []*ssa.Next
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			v := en.val(st, p.Edges[pi])
			items = append(items, &item{loc: locT{phi: p}, typ: p.Type(), kind: kindOf(p.Type()), init: v})
		}
		if n, ok := in.(*ssa.Next); ok {
			nexts = append(nexts, n)
		}
	}
	if en.next == nil {
		en.next = map[*ssa.Next]nextVal{}
	}
	var srcs []Val
	for _, n := range nexts {
		t, _ := st.env[n.Iter].(Tuple)
		var v Val
		if len(t) > 0 {
			v = t[0]
		}
		srcs = append(srcs, v)
		en.next[n] = nextVal{true, k, v, nil}
	}
	defer func() {
		for _, n := range nexts {
			delete(en.next, n)
		}
	}()

	// --- discovery of what one iteration changes
	maxID := en.nobj
	var start *State
	var backs []*backInfo
	for round := 0; ; round++ {
		start = st.clone()
		start.br = ""
		for j, it := range items {
			it.hole = fmt.Sprintf("‹H%d.%d›", id, j)
			en.setHole(start, it)
		}
		run := start.clone()
		en.quietLoop++
		ends, _, _ := en.bodyRun(fn, l, run)
		en.quietLoop--
		backs = nil
		grew := false
		nitems := len(items)
		for _, e := range ends {
			if e.kind != "back" {
				continue
			}
			for _, lc := range en.diffHeap(start, e.st, maxID) {
				dup := false
				for _, it := range items {
					if it.loc.phi == nil && it.loc.obj == lc.obj && (it.loc.path == lc.path || strings.HasPrefix(lc.path, it.loc.path+".") || it.loc.path == "") {
						dup = true
					}
				}
				if dup {
					continue
				}
				// drop finer locations subsumed by this one
				var keep []*item
				for _, it := range items {
					if it.loc.phi == nil && it.loc.obj == lc.obj && strings.HasPrefix(it.loc.path, lc.path+".") {
						continue
					}
					keep = append(keep, it)
				}
				items = keep
				o := en.get(st, lc.obj)
				ni := &item{loc: lc}
				if o.kind == 'c' {
					ni.typ = typeAt(o.elem, lc.path)
					ni.kind = kindOf(ni.typ)
					ni.init = en.loadPath(st, o.val, pathSel(lc.path))
				} else {
					ni.kind = o.kind
					ni.io = o
				}
				items = append(items, ni)
				grew = true
			}
		}
		if !grew || round > 8 {
			for _, e := range ends {
				if e.kind == "back" {
					bi := en.analyseBack(e, items[:nitems], start)
					backs = append(backs, bi)
				}
			}
			items = items[:nitems]
			break
		}
	}
	if len(backs) == 0 {
		// the body never comes back: at most one pass
		s := st.clone()
		for _, it := range items {
			if it.loc.phi != nil {
				s.env[it.loc.phi] = it.init
			}
		}
		s2 := s.clone()
		ends, _, has := en.bodyRun(fn, l, s)
		if has {
			for _, n := range nexts {
				en.next[n] = nextVal{false, k, en.next[n].src, nil}
			}
			h := en.runHeader(fn, l, s2, "leave")
			for _, x := range h.out {
				ends = append(ends, End{kind: "exit", to: x.b, from: l.header, st: x.st})
			}
		}
		return ends
	}

	// --- classification (from the hole run)
	for i, it := range items {
		it.cls = 0
		own := it.hole
		switch it.kind {
		case 'i':
			it.cls = 'i'
			for _, b := range backs {
				if b.dp[i] == nil || strings.Contains(b.dp[i].key(), own) {
					it.cls = 'h'
				}
			}
			if it.cls == 'h' {
				// running maximum: unchanged, or replaced by something proved larger
				isMax := true
				for _, b := range backs {
					if b.dp[i] != nil && b.dp[i].isZero() {
						continue
					}
					v := b.vals[i]
					if v == nil || strings.Contains(v.key(), own) || !b.e.st.provesGE(en.toInt(v).sub(en.toInt(it.cur))) {
						isMax = false
					}
				}
				if isMax {
					it.cls = 'x'
				}
			}
		case 's':
			it.cls = 's'
			for _, b := range backs {
				if b.delta[i] == "?" || b.dp[i] == nil || strings.Contains(b.dp[i].key(), own) {
					it.cls = 'h'
				}
			}
		case 'a':
			it.cls = 'w'
			for _, b := range backs {
				if b.delta[i] == "?" || len(b.wr[i]) > 1 {
					it.cls = 'h'
				}
			}
		case 'm':
			it.cls = 'm'
			for _, b := range backs {
				if b.delta[i] == "?" {
					it.cls = 'h'
				}
			}
		default:
			it.cls = '='
			for _, b := range backs {
				if b.delta[i] != "=" {
					it.cls = 'h'
				}
			}
		}
	}
	// groups of paths with the same effect
	gkey := func(b *backInfo) string {
		var l []string
		for i, it := range items {
			if it.cls == 'i' || it.cls == 's' {
				if mentionsHole(b.delta[i]) {
					l = append(l, "var")
				} else {
					l = append(l, b.delta[i])
				}
			}
			if it.cls == 'w' || it.cls == 'm' {
				l = append(l, b.delta[i])
			}
		}
		return strings.Join(l, ";")
	}
	var groups []string
	for _, b := range backs {
		g := gkey(b)
		f := false
		for _, x := range groups {
			f = f || x == g
		}
		if !f {
			groups = append(groups, g)
		}
	}
	sort.Strings(groups)
	variant := map[int]bool{}
	gd := map[string][]*Poly{}
	for _, b := range backs {
		g := gkey(b)
		if gd[g] == nil {
			gd[g] = b.dp
		}
		for i, it := range items {
			if (it.cls == 'i' || it.cls == 's') && en.loopVariant(b.dp[i], id) {
				variant[i] = true
			}
		}
	}
	counts := func(q *Poly, tag string, s *State) []*Poly {
		if len(groups) == 1 {
			return []*Poly{q}
		}
		var out []*Poly
		last := q
		for g := 0; g < len(groups)-1; g++ {
			c := pa(fmt.Sprintf("‹c%d.%d%s›", id, g, tag))
			out = append(out, c)
			last = last.sub(c)
		}
		s.ge = append(s.ge, last)
		return append(out, last)
	}
	sumAt := func(i int, cs []*Poly) *Poly {
		t := pc(0)
		for g := range groups {
			t = t.add(gd[groups[g]][i].mul(cs[g]))
		}
		return t
	}

	// --- generic iteration k
	gen := st.clone()
	gen.br = ""
	cs := counts(pa(k), "@k", gen)
	for i, it := range items {
		it.co = nil
		switch it.cls {
		case 'i':
			if variant[i] {
				it.cur = Int{en.toInt(it.init).add(pa(fmt.Sprintf("Σpart%d.%d", id, i)))}
			} else {
				it.cur = Int{en.toInt(it.init).add(sumAt(i, cs))}
			}
		case 'x':
			a := fmt.Sprintf("‹max%d.%d@k›", id, i)
			it.cur = Int{pa(a)}
			gen.ge = append(gen.ge, pa(a).sub(en.toInt(it.init)))
		case 's':
			s, _ := en.asSlice(it.init, it.typ)
			it.base = fmt.Sprintf("‹part%d.%d›", id, i)
			n := pa(fmt.Sprintf("len(Σpart%d.%d)", id, i))
			if !variant[i] {
				n = sumAt(i, cs)
			}
			if n.isZero() {
				it.cur = it.init
				break
			}
			segs := append(append([]Seg(nil), en.content(gen, s)...), Seg{kind: 'U', base: it.base, n: n})
			el := it.typ.Underlying().(*types.Slice).Elem()
			o := &Obj{kind: 'a', segs: segs, elem: el, alias: map[int]bool{}}
			bo := en.get(st, s.arr)
			if len(bo.segs) > 0 {
				o.alias[s.arr] = true
			}
			for a := range bo.alias {
				o.alias[a] = true
			}
			nk := s.nilKey
			if nk != "" {
				nk = "len0"
			}
			it.cur = Slice{arr: en.newObj(gen, o), off: pc(0), n: s.n.add(n), nilKey: nk}
		case 'w', 'm', 'h':
			if it.io != nil {
				o := *it.io
				if o.kind == 'a' {
					o.segs = []Seg{{kind: 'U', base: fmt.Sprintf("‹part%d.%d›", id, i), n: segsLen(it.io.segs)}}
					o.wr = nil
					o.hole = true
				} else {
					o.base = fmt.Sprintf("‹part%d.%d›%s", id, i, it.io.base)
					o.ups = nil
				}
				it.co = &o
				it.cur = nil
			} else {
				it.cur = en.havocTyped(it, fmt.Sprintf("‹hv%d.%d›%s", id, i, k))
			}
		case '=':
			it.cur = it.init
		}
		en.setItem(gen, it, it.cur, it.co)
	}
	genStart := gen.clone()
	// trip count from the header condition
	en.quietLoop++
	probe := gen.clone()
	hp := en.runHeader(fn, l, probe, "stay")
	en.quietLoop--
	n := pa(fmt.Sprintf("‹n%d›", id))
	if hp.hasExit {
		n = en.trip(st, hp.cond, k, n)
	}
	for i := range nexts {
		if srcs[i] != nil {
			n = en.rangeLen(st, srcs[i])
		}
	}
	gen.ge = append(gen.ge, n.sub(pa(k)).addc(-1))
	ends, _, hasExit := en.bodyRun(fn, l, gen)
	var out []End
	var kb []*backInfo
	for _, e := range ends {
		if e.kind == "back" {
			kb = append(kb, en.analyseBack(e, items, genStart))
		} else {
			e.st.br = savedBr + "L" + e.st.br
			out = append(out, e)
		}
	}
	if !hasExit || len(kb) == 0 {
		if hasExit && len(kb) == 0 {
			// never iterates twice; leave with the initial values or after exits above
		} else {
			return out
		}
	}

	// --- leaving through the header after n iterations
	ex := st.clone()
	for _, b := range kb {
		for oid, o := range b.e.st.objs {
			if _, ok := ex.objs[oid]; !ok {
				if _, isSym := en.init[oid]; !isSym {
					ex.objs[oid] = o
				}
			}
		}
		if len(b.e.st.evs) > entryEvs {
			for _, ev := range b.e.st.evs[entryEvs:] {
				ev.k += k
				ex.evs = append(ex.evs, ev)
			}
		}
	}
	cs = counts(n, "@n", ex)
	for i, it := range items {
		var v Val
		var o *Obj
		switch it.cls {
		case 'i':
			if variant[i] {
				v = Int{en.toInt(it.init).add(en.sumAtom(kb, i, k, n))}
			} else {
				v = Int{en.toInt(it.init).add(sumAt(i, cs))}
			}
		case 'x':
			a := fmt.Sprintf("‹max%d.%d@n›", id, i)
			v = Int{pa(a)}
			ex.ge = append(ex.ge, pa(a).sub(en.toInt(it.init)))
			mi := maxInfo{init: en.toInt(it.init), k: k, n: n}
			for _, b := range kb {
				if b.dp[i] == nil || !b.dp[i].isZero() {
					mi.xs = append(mi.xs, en.toInt(b.vals[i]))
				}
			}
			if en.maxes == nil {
				en.maxes = map[string]maxInfo{}
			}
			en.maxes[a] = mi
		case 's':
			s, _ := en.asSlice(it.init, it.typ)
			var total *Poly
			if variant[i] {
				total = en.sumAtom(kb, i, k, n)
			} else {
				total = sumAt(i, cs)
			}
			if total.isZero() {
				v = it.init
				break
			}
			sg := en.genSeg(ex, kb, func(b *backInfo) ([]Val, []Seg, bool) { v, ok := unitVals(b.extra[i]); return v, b.extra[i], ok }, k, n, total, fmt.Sprintf("%d.%d", id, i))
			el := it.typ.Underlying().(*types.Slice).Elem()
			no := &Obj{kind: 'a', segs: append(append([]Seg(nil), en.content(ex, s)...), sg), elem: el, alias: map[int]bool{}}
			bo := en.get(st, s.arr)
			if len(bo.segs) > 0 {
				no.alias[s.arr] = true
			}
			for a := range bo.alias {
				no.alias[a] = true
			}
			for _, b := range kb {
				if x, ok := en.asSlice(b.vals[i], it.typ); ok {
					for a := range en.get(b.e.st, x.arr).alias {
						no.alias[a] = true
					}
				}
			}
			nk := s.nilKey
			if nk != "" {
				nk = "len0"
			}
			v = Slice{arr: en.newObj(ex, no), off: pc(0), n: s.n.add(total), nilKey: nk}
		case 'w':
			o = en.writesAfter(ex, it, kb, i, k, n, fmt.Sprintf("%d.%d", id, i))
		case 'm':
			no := *it.io
			any := false
			g := &Gen{k: k, id: fmt.Sprintf("%d.%d", id, i)}
			for _, b := range kb {
				var vs []Val
				for _, u := range b.ups[i] {
					any = true
					if u.gen != nil {
						vs = append(vs, Term{"gen" + u.gen.id, types.Typ[types.Invalid]}, Term{"gen" + u.gen.id, types.Typ[types.Invalid]})
						g.nested = append(g.nested, u)
						continue
					}
					if u.del {
						vs = append(vs, u.k, Term{"deleted", types.Typ[types.Invalid]})
						continue
					}
					vs = append(vs, u.k, u.v)
				}
				g.alts = append(g.alts, GenAlt{vals: vs, st: b.e.st})
			}
			if any {
				no.ups = append(append([]mapUp(nil), it.io.ups...), mapUp{gen: g, n: n})
			}
			o = &no
		case 'h':
			if it.io != nil {
				no := *it.io
				if no.kind == 'a' {
					no.segs = []Seg{{kind: 'U', base: en.fresh("‹hv›"), n: segsLen(it.io.segs)}}
					no.wr = nil
				} else {
					no.base, no.ups = en.fresh("‹hvmap›"), nil
				}
				o = &no
			} else if c := sameConst(kb, i); c != nil && ex.provesGE(n.addc(-1)) {
				v = c
			} else {
				v = en.havocTyped(it, fmt.Sprintf("‹hv%d.%d›@n", id, i))
				if len(kb) > 0 {
					en.noteHavoc(v, it, kb, i)
				}
			}
		case '=':
			v = it.init
		}
		en.setItem(ex, it, v, o)
	}
	for _, nx := range nexts {
		en.next[nx] = nextVal{false, k, en.next[nx].src, nil}
	}
	ex.br = savedBr
	h := en.runHeader(fn, l, ex, "leave")
	out = append(out, h.ends...)
	for _, x := range h.out {
		x.st.br = savedBr + "N"
		out = append(out, End{kind: "exit", to: x.b, from: l.header, st: x.st})
	}
	return out
}

// sameConst: every iteration leaves the same constant in item i.
func sameConst(kb []*backInfo, i int) Val {
	var c Val
	for _, b := range kb {
		v := b.vals[i]
		switch x := v.(type) {
		case BoolC:
		case Int:
			if _, ok := x.p.konst(); !ok {
				return nil
			}
		case Term:
			if _, ok := x.isStrConst(); !ok {
				return nil
			}
		default:
			return nil
		}
		if c != nil && c.key() != v.key() {
			return nil
		}
		c = v
	}
	return c
}

func (en *Eng) noteHavoc(v Val, it *item, kb []*backInfo, i int) {
	if en.havocs == nil {
		en.havocs = map[string][]Val{}
	}
	l := []Val{it.init}
	for _, b := range kb {
		if b.vals[i] != nil {
			l = append(l, b.vals[i])
		}
	}
	en.havocs[v.key()] = l
}

func (en *Eng) havocTyped(it *item, key string) Val {
	v := en.symv(key, it.typ)
	if p, ok := v.(Ptr); ok {
		// a pointer that is non-nil before the loop and on every iteration stays so
		if q, ok := it.init.(Ptr); ok && q.nilKey == "" {
			p.nilKey = ""
			return p
		}
	}
	return v
}

func (en *Eng) setHole(st *State, it *item) {
	if it.io != nil {
		o := *it.io
		if o.kind == 'a' {
			o.segs = []Seg{{kind: 'U', base: it.hole, n: segsLen(it.io.segs)}}
			o.wr = nil
			o.hole = true
		} else {
			o.base, o.ups = it.hole, nil
		}
		it.co = &o
		it.cur = nil
		st.objs[it.loc.obj] = &o
		return
	}
	v := en.symv(it.hole, it.typ)
	if p, ok := v.(Ptr); ok {
		if q, ok := it.init.(Ptr); ok && q.nilKey == "" {
			p.nilKey = ""
			v = p
		}
	}
	it.cur = v
	en.setItem(st, it, v, nil)
}

// loopVariant: the polynomial mentions something that changes from iteration to iteration.
func (en *Eng) loopVariant(p *Poly, id int) bool {
	if p == nil {
		return true
	}
	return p.mentions(func(a string) bool {
		return strings.Contains(a, fmt.Sprintf("‹H%d.", id)) || strings.Contains(a, fmt.Sprintf("‹k%d›", id)) || en.freshSince(a, id)
	})
}

// freshSince: the atom contains a name generated after loop id started.
func (en *Eng) freshSince(a string, id int) bool {
	for i := 0; i < len(a); i++ {
		if a[i] == '~' {
			n := 0
			j := i + 1
			for j < len(a) && a[j] >= '0' && a[j] <= '9' {
				n = n*10 + int(a[j]-'0')
				j++
			}
			if j > i+1 && n > id {
				return true
			}
		}
	}
	for _, pre := range []string{"‹n", "‹c", "‹max", "‹part", "‹hv", "‹k"} {
		for s := a; ; {
			i := strings.Index(s, pre)
			if i < 0 {
				break
			}
			s = s[i+len(pre):]
			n, j := 0, 0
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				n = n*10 + int(s[j]-'0')
				j++
			}
			if j > 0 && n > id {
				return true
			}
		}
	}
	return false
}

// sumAtom names the sum over all iterations of a per-iteration amount, so that equal amounts give
// equal sums.
func (en *Eng) sumAtom(kb []*backInfo, i int, k string, n *Poly) *Poly {
	set := map[string]bool{}
	for _, b := range kb {
		if b.dp[i] != nil {
			set[b.e.br()+":"+b.dp[i].key()] = true
		}
	}
	var l []string
	for s := range set {
		l = append(l, s)
	}
	sort.Strings(l)
	return pa("len(Σ" + k + "<" + n.key() + ":" + strings.Join(l, "|") + ")")
}

func (e End) br() string { return e.st.br }

func unitVals(segs []Seg) ([]Val, bool) {
	var out []Val
	for _, s := range segs {
		c, ok := s.n.konst()
		if !ok || c < 0 || c > 8 {
			return nil, false
		}
		if s.kind == 'F' {
			for j := int64(0); j < c; j++ {
				out = append(out, s.val)
			}
			continue
		}
		return nil, false
	}
	return out, true
}

// genSeg builds the segment appended by n iterations.
func (en *Eng) genSeg(st *State, kb []*backInfo, vals func(*backInfo) ([]Val, []Seg, bool), k string, n, total *Poly, id string) Seg {
	g := &Gen{k: k, id: id}
	unit := true
	for _, b := range kb {
		vs, sg, ok := vals(b)
		if !ok {
			unit = false
			g.alts = append(g.alts, GenAlt{segs: sg, st: b.e.st})
			continue
		}
		g.alts = append(g.alts, GenAlt{vals: vs, st: b.e.st})
	}
	// all alternatives identical?
	same := len(g.alts) > 0 && unit
	for _, a := range g.alts {
		if len(a.vals) != len(g.alts[0].vals) {
			same = false
			break
		}
		for j := range a.vals {
			if a.vals[j].key() != g.alts[0].vals[j].key() {
				same = false
			}
		}
	}
	if same {
		g.alts = g.alts[:1]
		if len(g.alts[0].vals) == 1 {
			v := g.alts[0].vals[0]
			if !en.valMentions(st, v, k, map[int]bool{}) && !en.perIter(v, k) {
				return Seg{kind: 'F', val: v, n: total}
			}
			if base, lo, ok := en.elemSource(st, v, k); ok {
				return Seg{kind: 'S', base: base, lo: lo, n: total}
			}
		}
	}
	return Seg{kind: 'G', g: g, n: total}
}

func (en *Eng) perIter(v Val, k string) bool {
	var id int
	fmt.Sscanf(k, "‹k%d›", &id)
	switch x := v.(type) {
	case Int, Term, TBool, Cmp:
		return en.freshSince(v.key(), id)
	case Struct:
		for _, f := range x.f {
			if en.perIter(f, k) {
				return true
			}
		}
	}
	return false
}

type elemRef struct {
	base string
	idx  *Poly
}

// elemSource recognises "element lo+k of base".
func (en *Eng) elemSource(st *State, v Val, k string) (string, *Poly, bool) {
	var key string
	switch x := v.(type) {
	case Int:
		a, ok := x.p.atom()
		if !ok {
			return "", nil, false
		}
		key = a
	case Term:
		key = x.k
	case TBool:
		if x.neg {
			return "", nil, false
		}
		key = x.k
	case Slice:
		o := en.get(st, x.arr)
		if en.init[x.arr] == nil || !x.off.isZero() || x.n.key() != segsLen(en.init[x.arr].segs).key() {
			return "", nil, false
		}
		if cur, ok := st.objs[x.arr]; ok && segsKey(cur.segs) != segsKey(en.init[x.arr].segs) {
			return "", nil, false
		}
		key = o.label
	case Ptr:
		if len(x.path) > 0 || en.init[x.obj] == nil {
			return "", nil, false
		}
		key = en.init[x.obj].label
	case Struct:
		// an untouched symbolic struct
		key = en.structKey(x)
	default:
		return "", nil, false
	}
	r, ok := en.elemOf[key]
	if !ok {
		return "", nil, false
	}
	c, rest, ok := r.idx.coefOf(k)
	if !ok {
		return "", nil, false
	}
	if cc, isC := c.konst(); !isC || cc != 1 {
		return "", nil, false
	}
	if strings.Contains(rest.key(), k) || strings.Contains(r.base, k) {
		return "", nil, false
	}
	return r.base, rest, true
}

// structKey returns the symbolic name of an unmodified symbolic struct, "" otherwise.
func (en *Eng) structKey(s Struct) string {
	u, ok := s.typ.Underlying().(*types.Struct)
	if !ok || len(s.f) == 0 {
		return ""
	}
	name := ""
	f0 := s.f[0].key()
	_ = f0
	switch x := s.f[0].(type) {
	case Term:
		name = x.k
	case Int:
		name, _ = x.p.atom()
	case TBool:
		name = x.k
	case Lazy:
		name = x.k
	case Slice:
		if o := en.init[x.arr]; o != nil {
			name = o.label
		}
	case MapV:
		if o := en.init[x.obj]; o != nil {
			name = o.label
		}
	}
	suf := "." + u.Field(0).Name()
	if !strings.HasSuffix(name, suf) {
		return ""
	}
	name = strings.TrimSuffix(name, suf)
	if en.symv(name, s.typ).key() == s.key() {
		return name
	}
	return ""
}

func (en *Eng) writesAfter(st *State, it *item, kb []*backInfo, i int, k string, n *Poly, id string) *Obj {
	no := *it.io
	no.hole = false
	total := segsLen(it.io.segs)
	unk := func() *Obj {
		no.segs = []Seg{{kind: 'U', base: en.fresh("‹wr›"), n: total}}
		no.wr = nil
		return &no
	}
	var lo *Poly
	any := false
	for _, b := range kb {
		for _, w := range b.wr[i] {
			any = true
			c, rest, ok := st.norm(w.idx).coefOf(k)
			if !ok {
				return unk()
			}
			if cc, isC := c.konst(); !isC || cc != 1 || strings.Contains(rest.key(), k) || en.freshSince(rest.key(), atoiK(k)) {
				return unk()
			}
			if lo == nil {
				lo = rest
			} else if !st.provesEQ(lo.sub(rest)) {
				return unk()
			}
		}
	}
	if !any {
		return it.io
	}
	src := en.contentOf(st, it.io)
	sg := en.genSeg(st, kb, func(b *backInfo) ([]Val, []Seg, bool) {
		if len(b.wr[i]) == 0 {
			return []Val{en.segElem(st, src, lo.add(pa(k)), it.io.elem)}, nil, true
		}
		return []Val{b.wr[i][0].val}, nil, true
	}, k, n, n, id)
	rest := total.sub(lo).sub(n)
	if !st.provesGE(rest) || !st.provesGE(lo) {
		return unk()
	}
	var segs []Seg
	if !st.provesEQ(lo) {
		segs = append(segs, en.subSegs(st, src, pc(0), lo)...)
	}
	segs = append(segs, sg)
	if !st.provesEQ(rest) {
		segs = append(segs, en.subSegs(st, src, lo.add(n), rest)...)
	}
	no.segs = segs
	no.wr = nil
	return &no
}

func atoiK(k string) int {
	var id int
	fmt.Sscanf(k, "‹k%d›", &id)
	return id
}

func (en *Eng) contentOf(st *State, o *Obj) []Seg {
	segs := o.segs
	for _, w := range o.wr {
		n, ok := en.splice(st, segs, w.idx, w.val)
		if !ok {
			return []Seg{{kind: 'U', base: en.fresh("written"), n: segsLen(o.segs)}}
		}
		segs = n
	}
	return segs
}

func (en *Eng) rangeLen(st *State, v Val) *Poly {
	switch x := v.(type) {
	case MapV:
		return en.lenOf(st, x)
	case NilV:
		return pc(0)
	case Term:
		if s, ok := x.isStrConst(); ok {
			return pc(int64(len([]rune(s))))
		}
		return pa("len(runes:" + x.k + ")")
	}
	return pa("len(range:" + v.key() + ")")
}

// trip solves the staying condition for the number of iterations.
func (en *Eng) trip(st *State, cond Val, k string, def *Poly) *Poly {
	c, ok := cond.(Cmp)
	if !ok {
		return def
	}
	co, rest, ok := c.p.coefOf(k)
	if !ok || strings.Contains(rest.key(), k) || en.freshSince(rest.key(), atoiK(k)) {
		return def
	}
	cc, isC := co.konst()
	if !isC {
		return def
	}
	var n *Poly
	switch {
	case c.op == "<0" && cc == 1:
		n = rest.neg()
	case c.op == ">=0" && cc == -1:
		n = rest.addc(1)
	case c.op == "!=0" && cc == 1:
		n = rest.neg()
	case c.op == "!=0" && cc == -1:
		n = rest
	default:
		return def
	}
	n = st.norm(n)
	if st.provesGE(n) {
		return n
	}
	if st.provesGE(n.neg()) {
		return pc(0)
	}
	a := pa("max0(" + n.key() + ")")
	st.ge = append(st.ge, a.sub(n))
	return a
}

// knownEntries lists the entries of a map made here from constant keys (insertion order).
func (en *Eng) knownEntries(st *State, nx *ssa.Next) []Tuple {
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok {
		return nil
	}
	x := en.force(en.val(st, rg.X))
	if nx.IsString {
		t, ok := strOf(x)
		if !ok || !en.pathMode {
			return nil
		}
		out := []Tuple{}
		pos, rs := runesOf(t)
		for i, r := range rs {
			out = append(out, Tuple{BoolC(true), Int{pc(int64(pos[i]))}, Int{pc(int64(r))}})
		}
		return out
	}
	if _, isNil := x.(NilV); isNil {
		return []Tuple{}
	}
	m, ok := x.(MapV)
	if !ok {
		return nil
	}
	es := en.mapEntries(st, en.get(st, m.obj))
	if en.reversed() {
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

// mapEntries lists the entries of a map whose keys are all known.
func (en *Eng) mapEntries(st *State, o *Obj) []Tuple {
	if o.base != "" || len(o.ups) > 8 && !en.pathMode || len(o.ups) > 2000 {
		return nil
	}
	out := []Tuple{}
	at := map[string]int{}
	for _, u := range o.ups {
		if u.gen != nil || u.del && !en.pathMode {
			return nil
		}
		k, ok := constKey(u.k)
		if !ok {
			return nil
		}
		if u.del {
			if i, dup := at[k]; dup {
				out = append(out[:i], out[i+1:]...)
				delete(at, k)
				for x, j := range at {
					if j > i {
						at[x] = j - 1
					}
				}
			}
			continue
		}
		e := Tuple{BoolC(true), u.k, u.v}
		if i, dup := at[k]; dup {
			out[i] = e
			continue
		}
		at[k] = len(out)
		out = append(out, e)
	}
	return out
}

// constKey identifies a value all parts of which are constants.
func constKey(v Val) (string, bool) {
	switch x := v.(type) {
	case Term:
		if s, ok := x.isStrConst(); ok {
			return strVal(s).k, true
		}
	case Int:
		if _, c := x.p.konst(); c {
			return x.p.key(), true
		}
	case Struct:
		k := "{"
		for _, f := range x.f {
			fk, ok := constKey(f)
			if !ok {
				return "", false
			}
			k += fk + ","
		}
		return k + "}", true
	}
	return "", false
}

// reversed tells whether a range over a map takes the last entered key first: in mode 1 all
// do, in modes 2 and 3 every other one.
func (en *Eng) reversed() bool {
	en.ranges++
	return en.mapRev == 1 || en.mapRev > 1 && en.ranges%2 == en.mapRev-2
}
