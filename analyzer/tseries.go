package main

import (
	"fmt"
	"go/token"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The T properties: what every function that builds or changes encodings does to
// the per-token arrays, decided on the abstract states of the interpreter.

type tRoot struct {
	short, name string
	tag         string
	kind        string // pad, process, trunc, trunc2, merge, build, other
	setup       func(*Eng, *State, []Val, *ssa.Function)
	opt         bool // may be absent
}

func setNil(names ...string) func(*Eng, *State, []Val, *ssa.Function) {
	return func(en *Eng, st *State, args []Val, fn *ssa.Function) {
		for i, p := range fn.Params {
			for _, n := range names {
				if p.Name() == n {
					args[i] = NilV{p.Type()}
				}
			}
		}
	}
}

// pairNil makes the second *Encoding parameter nil.
func pairNil(en *Eng, st *State, args []Val, fn *ssa.Function) {
	n := 0
	for i, p := range fn.Params {
		if isEncPtr(p.Type()) {
			n++
			if n == 2 {
				args[i] = NilV{p.Type()}
			}
		}
	}
}

// padDir fixes the padding direction and strategy, the cases the documentation defines.
func padDir(dir, strategy string) func(*Eng, *State, []Val, *ssa.Function) {
	return func(en *Eng, st *State, args []Val, fn *ssa.Function) {
		d := en.c.constInt("", dir)
		for i, p := range fn.Params {
			ts := p.Type().String()
			switch {
			case strings.HasSuffix(ts, ".PaddingDirection"):
				args[i] = Int{pc(d)}
			case strings.HasSuffix(ts, ".PaddingParams"):
				st.assume(Cmp{"==0", pa("p:" + p.Name() + ".Direction").addc(-d)}, true)
				st.assume(TBool{k: "p:" + p.Name() + ".Strategy.Name == \"" + strategy + "\""}, true)
			}
		}
	}
}

func someEncodings(en *Eng, st *State, args []Val, fn *ssa.Function) {
	for _, a := range args {
		if s, ok := a.(Slice); ok {
			st.assume(Cmp{">=0", s.n.addc(-1)}, true)
		}
	}
}

var tRoots = []tRoot{
	{"", "*Encoding.Truncate", "", "trunc", nil, false},
	{"", "*Encoding.Pad", "left", "pad", padDir("Left", ""), false},
	{"", "*Encoding.Pad", "right", "pad", padDir("Right", ""), false},
	{"", "*Encoding.MergeWith", "", "merge", nil, false},
	{"", "NewEncodingFromTokens", "", "build", nil, false},
	{"", "*PreTokenizedString.IntoEncoding", "", "build", nil, false},
	{"", "DefaultProcess", "", "process", nil, false},
	{"", "DefaultProcess", "nopair", "process", pairNil, false},
	{"", "PrepareEncodings", "", "prepare", nil, false},
	{"", "PrepareEncodings", "nopair", "prepare", pairNil, false},
	{"", "MergeEncodings", "", "mergeall", nil, false},
	{"", "TruncateEncodings", "", "trunc2", nil, false},
	{"", "TruncateEncodings", "nopair", "trunc2", pairNil, false},
	{"", "PadEncodings", "fixed left", "padall", padDir("Left", "Fixed"), false},
	{"", "PadEncodings", "fixed right", "padall", padDir("Right", "Fixed"), false},
	{"", "PadEncodings", "longest left", "padall", padDir("Left", "BatchLongest"), false},
	{"", "PadEncodings", "longest right", "padall", padDir("Right", "BatchLongest"), false},
	{"pretokenizer", "ProcessOffsets", "", "offsets", nil, false},
	{"processor", "*BertProcessing.Process", "", "process", nil, false},
	{"processor", "*BertProcessing.Process", "nopair", "process", pairNil, false},
	{"processor", "*RobertaProcessing.Process", "", "process", nil, false},
	{"processor", "*RobertaProcessing.Process", "nopair", "process", pairNil, false},
	{"processor", "*ByteLevelProcessing.Process", "", "process", nil, false},
	{"processor", "*ByteLevelProcessing.Process", "nopair", "process", pairNil, false},
	{"processor", "*TemplateProcessing.ApplyTemplate", "", "template", someEncodings, true},
	{"processor", "*Sequence.Process", "", "process", nil, false},
	{"processor", "*Sequence.Process", "nopair", "process", pairNil, false},
}

type tCase struct {
	tRoot
	*tRun
}

func (t *tCase) id() string {
	s := t.tRun.name
	if t.tag != "" {
		s += "/" + t.tag
	}
	return s
}

var tCache []*tCase
var tMissing []string

func (c *Ctx) tCases() []*tCase {
	if tCache != nil {
		return tCache
	}
	res := make([]*tCase, len(tRoots))
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 6)
	for i, r := range tRoots {
		fn := c.lookup(r.short, r.name)
		if fn == nil || len(fn.Blocks) == 0 {
			if !r.opt {
				mu.Lock()
				tMissing = append(tMissing, r.short+"."+r.name)
				mu.Unlock()
			}
			continue
		}
		wg.Add(1)
		go func(i int, r tRoot) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			run := c.troot(r.short, r.name, func(en *Eng, st *State, a []Val) {
				if r.setup != nil {
					r.setup(en, st, a, fn)
				}
			})
			if run != nil {
				res[i] = &tCase{r, run}
			}
		}(i, r)
	}
	wg.Wait()
	for _, t := range res {
		if t != nil {
			tCache = append(tCache, t)
		}
	}
	return tCache
}

// each visits the encodings handed out by the normal outcomes of every root.
func (c *Ctx) eachT(r *Rep, f func(t *tCase, o Outcome, ws []*encView)) {
	for _, t := range c.tCases() {
		r.Add("functions interpreted", 1)
		if t.err != "" {
			r.Add("functions with exhausted budget", 1)
			r.Notes = append(r.Notes, t.id()+": "+t.err)
			continue
		}
		for _, o := range t.outs {
			r.Add("outcomes", 1)
			if o.kind != "ret" {
				continue
			}
			var ws []*encView
			for i, v := range o.ret {
				ws = append(ws, t.en.views(o.st, v, fmt.Sprintf("ret%d", i), 0)...)
			}
			for i, a := range t.args {
				ws = append(ws, t.en.views(o.st, a, "arg:"+t.fn.Params[i].Name(), 0)...)
			}
			r.Add("encodings viewed", len(ws))
			f(t, o, ws)
		}
	}
	for _, m := range tMissing {
		r.Missing(m)
	}
}

var opaqueRx = regexp.MustCompile(`~|‹hv|‹part|cap\(|‹max|‹c\d`)

func concretePoly(p *Poly) bool {
	ok := true
	p.atoms(func(a string) {
		if opaqueRx.MatchString(a) {
			ok = false
		}
	})
	return ok
}

// refutable: the abstract state has a member in which pred(p) is false; the facts are
// evaluated on a small grid of the numbers they mention.
func refutable(st *State, p *Poly, pred func(int64) bool) bool {
	p = st.norm(p)
	if c, ok := p.konst(); ok {
		return !pred(c)
	}
	var facts, nes []*Poly
	for _, f := range st.ge {
		facts = append(facts, st.norm(f))
	}
	for _, f := range st.ne {
		nes = append(nes, st.norm(f))
	}
	for _, e := range st.eqs { // atoms eliminated by equalities stay non-negative
		if nonNegAtom(e.atom) {
			facts = append(facts, st.norm(e.p))
		}
	}
	rel := map[string]bool{}
	p.atoms(func(a string) { rel[a] = true })
	for changed := true; changed; {
		changed = false
		for _, l := range [][]*Poly{facts, nes} {
			for _, f := range l {
				hit := f.mentions(func(a string) bool { return rel[a] })
				if hit {
					f.atoms(func(a string) {
						if !rel[a] {
							rel[a] = true
							changed = true
						}
					})
				}
			}
		}
	}
	var atoms []string
	for a := range rel {
		atoms = append(atoms, a)
	}
	sort.Strings(atoms)
	if len(atoms) > 9 {
		return false
	}
	eval := func(f *Poly, env map[string]int64) (int64, bool) {
		var t int64
		for k, c := range f.m {
			v := c
			if k != "" {
				for _, a := range strings.Split(k, mulSep) {
					x, ok := env[a]
					if !ok {
						return 0, false
					}
					v *= x
				}
			}
			t += v
		}
		return t, true
	}
	env := map[string]int64{}
	try := func() bool {
		for _, f := range facts {
			if v, ok := eval(f, env); ok && v < 0 {
				return false
			}
		}
		for _, f := range nes {
			if v, ok := eval(f, env); ok && v == 0 {
				return false
			}
		}
		v, ok := eval(p, env)
		return ok && !pred(v)
	}
	base := []int64{0, 1, 2, 3, 7}
	if len(atoms) <= 4 {
		base = []int64{0, 1, 2, 3, 4, 5, 9}
	}
	total := 1
	for range atoms {
		total *= len(base) + 1
		if total > 400000 {
			break
		}
	}
	if total <= 400000 {
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(atoms) {
				return try()
			}
			vs := base
			if !nonNegAtom(atoms[i]) {
				vs = append([]int64{-1}, base...)
			}
			for _, v := range vs {
				env[atoms[i]] = v
				if rec(i + 1) {
					return true
				}
			}
			return false
		}
		return rec(0)
	}
	seed := uint64(12345)
	next := func(n int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int(seed>>33) % n
	}
	for t := 0; t < 200000; t++ {
		for _, a := range atoms {
			v := base[next(len(base))]
			if !nonNegAtom(a) && next(8) == 0 {
				v = -1
			}
			env[a] = v
		}
		if try() {
			return true
		}
	}
	return false
}

// judgeEQ: 1 proven zero, -1 definitely not always zero, 0 undecided.
func judgeEQ(st *State, d *Poly) int {
	if st.provesEQ(d) {
		return 1
	}
	d = st.norm(d)
	if concretePoly(d) && refutable(st, d, func(v int64) bool { return v == 0 }) {
		return -1
	}
	return 0
}

func judgeGE(st *State, d *Poly) int {
	if st.provesGE(d) {
		return 1
	}
	d = st.norm(d)
	if concretePoly(d) && refutable(st, d, func(v int64) bool { return v >= 0 }) {
		return -1
	}
	return 0
}

func (r *Rep) Undecided(rule, key, why string) {
	r.Obls = append(r.Obls, Obl{rule, r.uniq(rule, key), "?", "undecided", why})
	r.Add("undecided obligations", 1)
}

func (r *Rep) Judge(v int, rule, key string, p token.Pos, okmsg, badmsg string) {
	switch v {
	case 1:
		r.OK(rule, key, p, okmsg)
	case -1:
		r.Bad(rule, key, p, badmsg)
	default:
		r.Undecided(rule, key, badmsg)
	}
}

func cond(o Outcome) string {
	var l []string
	for _, t := range o.st.trace {
		if i := strings.LastIndex(t, "@"); i > 0 {
			t = t[:i]
		}
		l = append(l, t)
	}
	s := strings.Join(l, " & ")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	if s == "" {
		return "always"
	}
	return "when " + s
}

// ---------- T01

func t01(c *Ctx, r *Rep) {
	c.eachT(r, func(t *tCase, o Outcome, ws []*encView) {
		for _, w := range ws {
			if w.owner != "" {
				r.Add("untouched encodings", 1)
				continue
			}
			key := t.id() + " " + genericWhere(w.where)
			if w.bad != "" {
				r.Undecided("equal-lengths", key, w.bad)
				continue
			}
			var bad, und []string
			for _, f := range encOrder[1:] {
				d := w.n[f].sub(w.n["Ids"])
				if f == "Words" && w.st.provesEQ(w.n[f]) {
					continue // no word information at all
				}
				switch judgeEQ(w.st, d) {
				case -1:
					bad = append(bad, fmt.Sprintf("%s has %s entries for %s tokens", f, w.n[f].key(), w.n["Ids"].key()))
				case 0:
					und = append(und, f)
				}
			}
			switch {
			case len(bad) > 0:
				r.Bad("equal-lengths", key, t.fn.Pos(), strings.Join(bad, "; ")+" ("+cond(o)+")")
			case len(und) > 0:
				r.Undecided("equal-lengths", key, "length of "+strings.Join(und, ",")+" not bounded by the analysis")
			default:
				r.OK("equal-lengths", key, t.fn.Pos(), "all arrays have "+w.n["Ids"].key()+" entries")
			}
		}
	})
	r.Min("functions interpreted", 15)
	r.Min("encodings viewed", 60)
}

var genRx = regexp.MustCompile(`‹[a-z]+\d[^›]*›`)

func genericWhere(s string) string { return genRx.ReplaceAllString(s, "i") }

// ---------- T02 / T03: alignment of the arrays piece by piece

type piecePair struct {
	a, b Seg // same length
	st   *State
}

// alignSegs splits two contents of equal length at each other's boundaries.
func alignSegs(st *State, as, bs []Seg) (out []piecePair, rest string) {
	as = append([]Seg(nil), as...)
	bs = append([]Seg(nil), bs...)
	for len(as) > 0 && len(bs) > 0 {
		a, b := as[0], bs[0]
		if st.provesEQ(a.n) {
			as = as[1:]
			continue
		}
		if st.provesEQ(b.n) {
			bs = bs[1:]
			continue
		}
		d := a.n.sub(b.n)
		switch {
		case st.provesEQ(d):
			out = append(out, piecePair{a, b, st})
			as, bs = as[1:], bs[1:]
		case st.provesGE(d) && cuttable(a):
			x, y := cutSeg(a, b.n)
			out = append(out, piecePair{x, b, st})
			as[0] = y
			bs = bs[1:]
		case st.provesGE(d.neg()) && cuttable(b):
			x, y := cutSeg(b, a.n)
			out = append(out, piecePair{a, x, st})
			bs[0] = y
			as = as[1:]
		default:
			return out, "piece lengths " + a.n.key() + " and " + b.n.key() + " cannot be compared"
		}
	}
	return out, ""
}

func cuttable(s Seg) bool { return s.kind == 'S' || s.kind == 'F' }

func cutSeg(s Seg, n *Poly) (Seg, Seg) {
	x, y := s, s
	x.n = n
	y.n = s.n.sub(n)
	if s.kind == 'S' {
		y.lo = s.lo.add(n)
	}
	return x, y
}

// expand replaces generated pieces of identical structure by their per-iteration pairs.
func expandPair(p piecePair) ([]piecePair, bool) {
	if p.a.kind == 'S' && p.b.kind == 'G' && unitGen(p.b.g) {
		var out []piecePair
		off := pc(0)
		if p.b.g.off != nil {
			off = p.b.g.off
		}
		for _, y := range p.b.g.alts {
			x := p.a
			x.lo = p.a.lo.add(pa(p.b.g.k)).sub(off)
			x.n = pc(1)
			out = append(out, piecePair{x, altSegs(y)[0], orSt(y.st, p.st)})
		}
		return out, true
	}
	if p.a.kind == 'G' && p.b.kind == 'G' && p.a.g.k == p.b.g.k && len(p.a.g.alts) == 1 && unitGen(p.a.g) && unitGen(p.b.g) {
		var out []piecePair
		for _, y := range p.b.g.alts {
			out = append(out, piecePair{altSegs(p.a.g.alts[0])[0], altSegs(y)[0], orSt(y.st, p.st)})
		}
		return out, true
	}
	if p.a.kind == 'G' && p.b.kind == 'G' && p.a.g.k == p.b.g.k && len(p.a.g.alts) == 1 && len(p.b.g.alts) > 1 {
		var out []piecePair
		for _, y := range p.b.g.alts {
			ps, rest := alignSegs(orSt(y.st, p.st), altSegs(p.a.g.alts[0]), altSegs(y))
			if rest != "" {
				return nil, false
			}
			for _, q := range ps {
				qs, ok := expandPair(q)
				if !ok {
					return nil, false
				}
				out = append(out, qs...)
			}
		}
		return out, true
	}
	if p.a.kind == 'G' && p.b.kind == 'G' && p.a.g.k == p.b.g.k && len(p.a.g.alts) == len(p.b.g.alts) {
		var out []piecePair
		for i, x := range p.a.g.alts {
			y := p.b.g.alts[i]
			xs, ys := altSegs(x), altSegs(y)
			ps, rest := alignSegs(orSt(x.st, p.st), xs, ys)
			if rest != "" {
				return nil, false
			}
			for _, q := range ps {
				qs, ok := expandPair(q)
				if !ok {
					return nil, false
				}
				out = append(out, qs...)
			}
		}
		return out, true
	}
	if p.a.kind == 'G' && p.b.kind == 'F' {
		var out []piecePair
		for _, x := range p.a.g.alts {
			for _, s := range altSegs(x) {
				q := p.b
				q.n = s.n
				qs, ok := expandPair(piecePair{s, q, orSt(x.st, p.st)})
				if !ok {
					return nil, false
				}
				out = append(out, qs...)
			}
		}
		return out, true
	}
	return []piecePair{p}, true
}

func orSt(a, b *State) *State {
	if a != nil {
		return a
	}
	return b
}

func unitGen(g *Gen) bool {
	for _, a := range g.alts {
		s := altSegs(a)
		if len(s) != 1 || s[0].kind != 'F' {
			return false
		}
		if c, ok := s[0].n.konst(); !ok || c != 1 {
			return false
		}
	}
	return len(g.alts) > 0
}

func altSegs(a GenAlt) []Seg {
	if a.segs != nil {
		return a.segs
	}
	var out []Seg
	for _, v := range a.vals {
		out = append(out, Seg{kind: 'F', val: v, n: pc(1)})
	}
	return out
}

// source classifies one piece: which object's which field at which index it comes from.
// owner "" = not from an encoding or token.
type source struct {
	owner, field string
	idx          *Poly
	shift        bool
	konst        string
	opaque       bool
}

var tokFields = map[string]string{"Id": "Ids", "Value": "Tokens", "Offsets": "Offsets"}

func (en *Eng) source(st *State, s Seg, field string) source {
	switch s.kind {
	case 'S':
		b := s.base
		src := source{idx: s.lo}
		if strings.HasPrefix(b, "shift(") && strings.HasSuffix(b, ")") {
			b = b[6 : len(b)-1]
			src.shift = true
		}
		i := strings.LastIndex(b, ".")
		if i < 0 {
			return source{opaque: true}
		}
		src.owner, src.field = b[:i], b[i+1:]
		if !encFields[src.field] || opaqueRx.MatchString(strings.ReplaceAll(src.owner, "‹hv", "")) {
			src.opaque = true
		}
		return src
	case 'F':
		k := s.val.key()
		if sl, ok := s.val.(Slice); ok { // an offsets pair
			if en.get(st, sl.arr) == nil {
				return source{opaque: true}
			}
			ss := en.content(st, sl)
			if len(ss) == 1 && ss[0].kind == 'S' && ss[0].lo.isZero() && strings.HasSuffix(ss[0].base, ".Offsets") {
				return source{owner: strings.TrimSuffix(ss[0].base, ".Offsets"), field: "Offsets", konst: ss[0].base, idx: pa("@tok")}
			}
			k = "[" + en.segsShow(st, ss) + "]"
		}
		if i := strings.LastIndex(k, "]"); i == len(k)-1 && !strings.HasPrefix(k, "[") {
			// element read base[idx]
			d, j := 0, len(k)-1
			for ; j >= 0; j-- {
				if k[j] == ']' {
					d++
				} else if k[j] == '[' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j > 0 {
				b := k[:j]
				if x := strings.LastIndex(b, "."); x > 0 && encFields[b[x+1:]] {
					return source{owner: b[:x], field: b[x+1:], konst: k, idx: pa("@" + k[j:])}
				}
			}
		}
		if x := strings.LastIndex(k, "."); x > 0 && tokFields[k[x+1:]] != "" && !strings.Contains(k, " ") {
			return source{owner: k[:x], field: tokFields[k[x+1:]], konst: k, idx: pa("@tok")}
		}
		if opaqueRx.MatchString(k) {
			return source{opaque: true, konst: k}
		}
		return source{konst: k}
	}
	return source{opaque: true}
}

// zeroPair: both offsets are 0.
func isZeroPair(k string) bool {
	return k == "[(0)x1 ++ (0)x1]" || k == "[(0)x2]"
}

// isInserted: the position does not stem from an encoding or token passed in.
func (t *tCase) isInserted(s source) bool {
	if s.opaque {
		return false
	}
	if s.owner == "" {
		return s.konst != ""
	}
	return !t.textOwner(s.owner)
}

// textOwner: the owner is (part of) an encoding, token list or text given to the root.
func (t *tCase) textOwner(owner string) bool {
	for _, p := range t.fn.Params {
		n := "p:" + p.Name()
		if owner != n && !strings.HasPrefix(owner, n+".") && !strings.HasPrefix(owner, n+"[") {
			continue
		}
		ts := p.Type().String()
		return strings.HasSuffix(ts, modPath+".Encoding") || strings.HasSuffix(ts, modPath+".Token") || strings.HasSuffix(ts, "PreTokenizedString")
	}
	return true
}

func t02(c *Ctx, r *Rep) {
	c.eachT(r, func(t *tCase, o Outcome, ws []*encView) {
		for _, w := range ws {
			if w.owner != "" || w.bad != "" {
				continue
			}
			key := t.id() + " " + genericWhere(w.where)
			for _, f := range encOrder[1:] {
				if f == "Words" && w.st.provesEQ(w.n[f]) {
					continue
				}
				if !w.st.provesEQ(w.n[f].sub(w.n["Ids"])) {
					r.Undecided("aligned", key+"."+f, "lengths differ or are not known (T01)")
					continue
				}
				ps, rest := alignSegs(w.st, w.segs["Ids"], w.segs[f])
				if rest != "" {
					r.Undecided("aligned", key+"."+f, rest)
					continue
				}
				var qs []piecePair
				exp := true
				for _, p := range ps {
					q, ok := expandPair(p)
					exp = exp && ok
					qs = append(qs, q...)
				}
				und := ""
				if !exp {
					und = "loop-built pieces of different shape"
				}
				bad := ""
				for _, p := range qs {
					m, u := t.misaligned(p, f)
					if m != "" {
						bad = m
						break
					}
					if u != "" {
						und = u
					}
				}
				switch {
				case bad != "":
					r.Bad("aligned", key+"."+f, t.fn.Pos(), bad+" ("+cond(o)+")")
				case und != "":
					r.Undecided("aligned", key+"."+f, und)
				default:
					r.OK("aligned", key+"."+f, t.fn.Pos(), fmt.Sprintf("%d pieces, each from the same token as its id", len(qs)))
				}
			}
			t02order(t, r, o, w, key)
		}
	})
	r.Min("functions interpreted", 15)
}

// misaligned compares the origin of an id with the origin of another attribute of the same position.
func (t *tCase) misaligned(p piecePair, f string) (bad, und string) {
	a := t.en.source(p.st, p.a, "Ids")
	b := t.en.source(p.st, p.b, f)
	if a.opaque || a.owner == "" && a.konst == "" {
		return "", "origin of the id not known: " + p.a.String()
	}
	if t.isInserted(a) {
		if b.owner != "" && !b.opaque && t.textOwner(b.owner) {
			return fmt.Sprintf("position with inserted id %s takes its %s from %s", a.konst, f, b.owner+"."+b.field), ""
		}
		return "", ""
	}
	// a token taken over from owner
	if a.field != "Ids" {
		return fmt.Sprintf("ids are filled from %s.%s", a.owner, a.field), ""
	}
	if b.owner == "" {
		if f == "Offsets" && t.kind == "merge" && p.b.kind == 'F' && a.idx != nil {
			return t.badShift(p, a)
		}
		if b.opaque || b.konst == "" {
			return "", f + " not known: " + p.b.String()
		}
		switch f {
		case "SpecialTokenMask", "AttentionMask":
			return "", "" // T03 looks at the values
		case "TypeIds":
			if t.kind == "process" || t.kind == "template" || t.kind == "prepare" || t.kind == "build" {
				return "", ""
			}
		case "Offsets":
			if t.kind == "process" || t.kind == "offsets" || t.kind == "build" || t.kind == "template" {
				return "", "offsets recomputed"
			}
		case "Words":
			if t.kind == "build" {
				return "", ""
			}
		}
		return fmt.Sprintf("token taken from %s gets the constant %s %s", a.owner, f, b.konst), ""
	}
	if b.opaque {
		return "", f + " not known: " + p.b.String()
	}
	if b.shift && f != "Offsets" {
		return fmt.Sprintf("%s of %s are shifted", f, b.owner), ""
	}
	if b.field != f {
		return fmt.Sprintf("%s are filled from %s.%s", f, b.owner, b.field), ""
	}
	if b.owner != a.owner {
		return fmt.Sprintf("id comes from %s but %s from %s", a.owner, f, b.owner), ""
	}
	if a.idx != nil && b.idx != nil {
		switch judgeEQ(p.st, a.idx.sub(b.idx)) {
		case -1:
			return fmt.Sprintf("id of token %s[%s] is paired with %s of token [%s]", a.owner, a.idx.key(), f, b.idx.key()), ""
		case 0:
			return "", "index of " + f + " not comparable"
		}
	}
	return "", ""
}

// badShift: a recomputed offset pair is the token's own pair, both ends moved by the
// end of the preceding sequence when offsets grow and by nothing otherwise.
func (t *tCase) badShift(p piecePair, a source) (bad, und string) {
	sl, ok := p.b.val.(Slice)
	if !ok || t.en.get(p.st, sl.arr) == nil {
		return "", "offsets not known"
	}
	ss := t.en.content(p.st, sl)
	var vals []*Poly
	for _, s := range ss {
		v, ok := s.val.(Int)
		n, isC := s.n.konst()
		if s.kind != 'F' || !ok || !isC {
			return "", "offsets not known"
		}
		for ; n > 0; n-- {
			vals = append(vals, p.st.norm(v.p))
		}
	}
	if len(vals) != 2 {
		return "", "offsets not known"
	}
	own := a.owner + ".Offsets[" + p.st.norm(a.idx).key() + "]"
	s0, s1 := vals[0].sub(pa(own+"[0]")), vals[1].sub(pa(own+"[1]"))
	if !concretePoly(s0) || !concretePoly(s1) {
		return "", "offsets not known"
	}
	show := "(" + vals[0].key() + ", " + vals[1].key() + ")"
	if s0.key() != s1.key() {
		return "offsets " + show + " are not the token's own pair " + own + " moved as a whole", ""
	}
	enc, _ := t.encParams()
	last := enc + ".Offsets[N(" + enc + ")-1][1]"
	grow := false
	for _, q := range t.fn.Params {
		if q.Type().String() == "bool" {
			if d, ok := p.st.decide(TBool{k: "p:" + q.Name()}); ok {
				grow = d
			} else if !s0.isZero() {
				return "", "growing offsets not decided"
			}
		}
	}
	if p.st.provesEQ(pa("N(" + enc + ")")) {
		grow = false
	}
	switch {
	case grow && s0.key() != last && p.st.provesGE(pa("N("+enc+")").addc(-1)):
		return "offsets " + show + " do not continue at the end " + last, ""
	case !grow && !s0.isZero():
		return "offsets " + show + " are moved although offsets do not grow", ""
	}
	return "", ""
}

// t02order: the surviving tokens are the expected ones in the original order.
func t02order(t *tCase, r *Rep, o Outcome, w *encView, key string) {
	if !strings.HasPrefix(w.where, "ret") {
		return
	}
	var kept []Seg
	for _, s := range w.segs["Ids"] {
		if w.st.provesEQ(s.n) {
			continue
		}
		src := t.en.source(w.st, s, "Ids")
		if t.isInserted(src) {
			continue
		}
		if s.kind != 'S' || src.opaque {
			return
		}
		if n := len(kept); n > 0 && kept[n-1].base == s.base && w.st.provesEQ(kept[n-1].lo.add(kept[n-1].n).sub(s.lo)) {
			kept[n-1].n = kept[n-1].n.add(s.n)
			continue
		}
		kept = append(kept, s)
	}
	// ascending per owner
	for i := 1; i < len(kept); i++ {
		if kept[i].base == kept[i-1].base {
			end := kept[i-1].lo.add(kept[i-1].n)
			if judgeGE(w.st, kept[i].lo.sub(end)) == -1 {
				r.Bad("order", key, t.fn.Pos(), fmt.Sprintf("tokens of %s from %s follow tokens up to %s (%s)", kept[i].base, kept[i].lo.key(), end.key(), cond(o)))
				return
			}
		}
	}
	enc, pair := t.encParams()
	var want []string
	switch {
	case t.kind == "pad" && w.where == "ret0", t.kind == "process" && w.where == "ret0" && pair == "", t.kind == "offsets" && w.where == "ret0":
		want = []string{enc}
	case (t.kind == "merge" || t.kind == "process") && w.where == "ret0":
		want = []string{enc, pair}
	default:
		return
	}
	var got []string
	whole := true
	for _, s := range kept {
		ow := strings.TrimSuffix(s.base, ".Ids")
		got = append(got, ow)
		if judgeEQ(w.st, s.lo) == -1 || judgeEQ(w.st, s.n.sub(pa("N("+ow+")"))) == -1 {
			whole = false
		}
	}
	// an empty input leaves no piece
	var wantNE []string
	for _, x := range want {
		if x != "" && !w.st.provesEQ(pa("N("+x+")")) {
			wantNE = append(wantNE, x)
		}
	}
	if strings.Join(got, ",") != strings.Join(wantNE, ",") || !whole {
		for _, s := range kept {
			if opaqueRx.MatchString(s.base) {
				return
			}
		}
		r.Bad("complete", key, t.fn.Pos(), fmt.Sprintf("the result keeps %s instead of all of %s (%s)", segsKey(kept), strings.Join(want, " then "), cond(o)))
		return
	}
	r.OK("complete", key, t.fn.Pos(), "keeps "+strings.Join(want, " then "))
}

// encParams names the (first, second) encoding parameters; second "" when it is nil.
func (t *tCase) encParams() (enc, pair string) {
	n := 0
	for i, p := range t.fn.Params {
		if !isEncPtr(p.Type()) {
			continue
		}
		n++
		_, isNil := t.args[i].(NilV)
		if n == 1 {
			enc = "p:" + p.Name()
		} else if n == 2 && !isNil {
			pair = "p:" + p.Name()
		}
	}
	return
}

// ---------- T03

var idTok = []struct{ id, tok string }{{".Id", ".Value"}, {"padId", "padToken"}, {".PadId", ".PadToken"}}

func partner(idKey string) string {
	for _, x := range idTok {
		if strings.HasSuffix(idKey, x.id) {
			return strings.TrimSuffix(idKey, x.id) + x.tok
		}
	}
	return ""
}

func t03(c *Ctx, r *Rep) {
	c.eachT(r, func(t *tCase, o Outcome, ws []*encView) {
		for _, w := range ws {
			if w.owner != "" || w.bad != "" {
				continue
			}
			pad := t.kind == "pad" || t.kind == "padall"
			key := t.id() + " " + genericWhere(w.where)
			for _, f := range encOrder[1:] {
				if f == "Words" && w.st.provesEQ(w.n[f]) {
					continue
				}
				ps, rest := alignSegs(w.st, w.segs["Ids"], w.segs[f])
				if rest != "" {
					r.Undecided("marked", key+"."+f, rest)
					continue
				}
				bad, und, cnt := "", "", 0
				for _, p0 := range ps {
					qs, ok := expandPair(p0)
					if !ok {
						und = "loop-built pieces of different shape"
					}
					for _, p := range qs {
						b, u := t.badMark(p, f, pad)
						if b != "" {
							bad = b
						}
						if u != "" {
							und = u
						}
						cnt++
					}
				}
				switch {
				case bad != "":
					r.Bad("marked", key+"."+f, t.fn.Pos(), bad+" ("+cond(o)+")")
				case und != "":
					r.Undecided("marked", key+"."+f, und)
				default:
					r.OK("marked", key+"."+f, t.fn.Pos(), fmt.Sprintf("%d pieces carry the right %s", cnt, f))
				}
			}
		}
	})
	r.Min("functions interpreted", 15)
}

func (t *tCase) badMark(p piecePair, f string, pad bool) (bad, und string) {
	a := t.en.source(p.st, p.a, "Ids")
	b := t.en.source(p.st, p.b, f)
	if a.opaque {
		return "", "origin of the id not known"
	}
	what := "inserted special token"
	if pad {
		what = "padding position"
	}
	if t.isInserted(a) {
		if b.opaque || b.konst == "" && b.owner == "" {
			return "", f + " of the inserted position not known"
		}
		wantK := ""
		switch f {
		case "SpecialTokenMask":
			wantK = "1"
		case "AttentionMask":
			wantK = "1"
			if pad {
				wantK = "0"
			}
		case "Words":
			wantK = "-1"
		case "Offsets":
			if !isZeroPair(b.konst) {
				return fmt.Sprintf("%s has offsets %s instead of (0,0)", what, b.konst), ""
			}
			return "", ""
		case "Tokens":
			if a.owner != "" && b.owner != "" {
				if a.owner != b.owner || b.field != "Tokens" {
					return fmt.Sprintf("id of %s is inserted with the string of %s", a.owner, b.owner), ""
				}
				return "", ""
			}
			wantK = partner(a.konst)
			if wantK == "" {
				return "", "no configured string known for id " + a.konst
			}
		case "TypeIds":
			if !pad {
				return "", ""
			}
			switch {
			case strings.HasSuffix(a.konst, "PadId"):
				wantK = strings.TrimSuffix(a.konst, "PadId") + "PadTypeId"
			default:
				wantK = "p:padTypeId"
			}
		}
		if pad && f == "TypeIds" {
			// parameters are recognised by position, not by name
			if want, ok := t.padParam(1); ok {
				wantK = want
			}
		}
		if pad && f == "Tokens" {
			if want, ok := t.padParam(2); ok {
				wantK = want
			}
			if want, ok := t.padParam(0); ok && a.konst != want {
				return fmt.Sprintf("padding position has id %s instead of %s", a.konst, want), ""
			}
		}
		if b.konst != wantK {
			return fmt.Sprintf("%s %s has %s %s instead of %s", what, a.konst, f, b.konst, wantK), ""
		}
		return "", ""
	}
	// token from the text
	if b.owner == "" && b.konst != "" && !b.opaque {
		if f == "SpecialTokenMask" && b.konst != "0" {
			return fmt.Sprintf("token of %s is marked special (%s)", a.owner, b.konst), ""
		}
		if f == "AttentionMask" && b.konst != "1" {
			return fmt.Sprintf("token of %s has attention %s", a.owner, b.konst), ""
		}
	}
	return "", ""
}

// padParam: the i-th of (pad id, pad type id, pad token) as the padding function receives it.
func (t *tCase) padParam(i int) (string, bool) {
	if t.kind == "padall" {
		for _, p := range t.fn.Params {
			if strings.HasSuffix(p.Type().String(), "PaddingParams") {
				return "p:" + p.Name() + "." + []string{"PadId", "PadTypeId", "PadToken"}[i], true
			}
		}
		return "", false
	}
	if t.kind != "pad" || len(t.fn.Params) < 6 {
		return "", false
	}
	return "p:" + t.fn.Params[2+i].Name(), true
}

func isEncPtr(t interface{ String() string }) bool {
	return strings.HasSuffix(t.String(), "*"+modPath+".Encoding")
}

func init() {
	props["T01"] = propMeta{run: t01, explain: "Abstract interpretation of every function that builds or changes encodings: the lengths of the seven per-token arrays of every encoding handed out are compared as polynomials over the input lengths.", assume: nil}
	props["T02"] = propMeta{run: t02, explain: "Abstract interpretation of every function that builds or changes encodings: the content of each per-token array of every encoding handed out is a sequence of segments (slices of named source arrays, constants, pad runs). Every array of one encoding must be built of the same segments of the same sources in the same order, each from the field of the same name; a segment from another field, in another order, or of another length is a violation.", assume: []string{"appends, copies and loops are summarised by inferred affine invariants; where no invariant is found the obligation is recorded as undecided", "values read from maps and from functions outside the module are opaque"}}
	props["T03"] = propMeta{run: t03, explain: "Every run of constant values an interpreted function puts into a per-token array is classified as padding or special token by the id it carries; the other arrays must hold at the same positions the values a position of that kind must have (offsets 0,0; attention; special-token mask; no word; configured id, type id and string).", assume: []string{"positions are compared symbolically; a run whose bounds are not comparable is recorded as undecided"}}
}

// ---------- T04

func (t *tCase) padTarget() *Poly {
	if t.kind == "pad" && len(t.fn.Params) >= 6 {
		return pa("p:" + t.fn.Params[1].Name())
	}
	return nil
}

// windowOf names the symbolic encoding a view's tokens come from.
func (t *tCase) windowOf(w *encView) (owner string, pieces []Seg, before, after *Poly, ok bool) {
	before, after = pc(0), pc(0)
	for _, s := range w.segs["Ids"] {
		if w.st.provesEQ(s.n) {
			continue
		}
		src := t.en.source(w.st, s, "Ids")
		if t.isInserted(src) {
			if owner == "" {
				before = before.add(s.n)
			} else {
				after = after.add(s.n)
			}
			continue
		}
		if s.kind != 'S' || src.opaque || src.field != "Ids" {
			return "", nil, nil, nil, false
		}
		if owner != "" && owner != src.owner {
			return "", nil, nil, nil, false
		}
		owner = src.owner
		pieces = append(pieces, s)
	}
	return owner, pieces, before, after, true
}

func t04(c *Ctx, r *Rep) {
	c.eachT(r, func(t *tCase, o Outcome, ws []*encView) {
		if t.kind != "pad" && t.kind != "padall" {
			return
		}
		for _, w := range ws {
			if !strings.HasPrefix(w.where, "ret") || strings.Count(w.where, "Overflowing") > 1 {
				continue
			}
			key := t.id() + " " + genericWhere(w.where)
			target := t.padTarget()
			var covers string // set when the target must be the longest member
			if t.kind == "padall" {
				pp := ""
				for _, p := range t.fn.Params {
					if strings.HasSuffix(p.Type().String(), "PaddingParams") {
						pp = "p:" + p.Name()
					}
				}
				if strings.HasPrefix(t.tag, "fixed") {
					target = pa(pp + ".Strategy.Value.(int)")
				} else {
					covers = "all"
				}
			}
			if w.bad != "" {
				r.Undecided("target", key, w.bad)
				continue
			}
			if covers != "" {
				// the target is read off a padded member and must be a maximum over all members
				target = nil
				for a, mi := range t.en.maxes {
					if mi.init.isZero() && t.allMembers(mi) {
						if w.owner == "" && w.n["Ids"].mentions(func(x string) bool { return x == a }) || w.owner != "" && t.mentionsInFacts(w.st, a) {
							target = pa(a)
						}
					}
				}
				if target == nil {
					if w.owner == "" && w.padded(t) && concretePoly(w.n["Ids"]) {
						r.Bad("target", key, t.fn.Pos(), "batch padding to the longest pads to "+w.n["Ids"].key()+", which is not the maximum over all members ("+cond(o)+")")
					} else {
						r.Undecided("target", key, "target is not recognised as the maximum over the members")
					}
					continue
				}
			}
			if w.owner != "" {
				own := strings.TrimSuffix(w.owner, "[…]")
				if own != w.owner {
					// a whole list of windows left alone
					if strings.HasSuffix(own, ".Overflowing") {
						if opaqueRx.MatchString(own) || strings.Count(own, ".Overflowing") > 1 {
							continue
						}
						if w.st.provesEQ(pa("len(" + own + ")")) {
							r.OK("windows", key, t.fn.Pos(), "no windows")
							continue
						}
						r.Bad("windows", key, t.fn.Pos(), "the overflow windows "+own+" are not padded ("+cond(o)+")")
					} else {
						r.Undecided("target", key, "members "+w.owner+" not visited one by one")
					}
					continue
				}
				n := pa("N(" + own + ")")
				v := judgeGE2(w.st, n.sub(target))
				r.Judge(v, "target", key, t.fn.Pos(), "left alone because it is long enough", "encoding "+own+" may be shorter than "+target.key()+" but is left unpadded ("+cond(o)+")")
				continue
			}
			owner, pieces, before, after, ok := t.windowOf(w)
			if !ok || owner == "" {
				r.Undecided("target", key, "composition not known: "+segsKey(w.segs["Ids"]))
				continue
			}
			n := pa("N(" + owner + ")")
			added := before.add(after)
			kept := segsLen(pieces)
			if !w.st.provesEQ(kept.sub(n)) {
				if judgeEQ(w.st, kept.sub(n)) == -1 {
					r.Bad("target", key, t.fn.Pos(), "padding keeps "+segsKey(pieces)+" of "+n.key()+" tokens ("+cond(o)+")")
				}
				continue
			}
			if w.st.provesEQ(added) {
				v := judgeGE2(w.st, n.sub(target))
				r.Judge(v, "target", key, t.fn.Pos(), "unchanged because it is long enough", "encoding "+owner+" may be shorter than "+target.key()+" but gets no padding ("+cond(o)+")")
				continue
			}
			d := w.n["Ids"].sub(target)
			v := 0
			switch {
			case w.st.provesEQ(d):
				v = 1
			case w.st.provesEQ(added) || w.st.provesGE(n.sub(target)):
				v = 0
			default:
				v = judgeEQ2(w.st, d)
			}
			r.Judge(v, "target", key, t.fn.Pos(), "padded to exactly "+target.key(), "padding yields "+w.n["Ids"].key()+" tokens for target "+target.key()+" ("+cond(o)+")")
			// side
			isL, isR := strings.HasSuffix(t.tag, "left"), strings.HasSuffix(t.tag, "right")
			switch {
			case isL && judgeEQ(w.st, after) == -1:
				r.Bad("side", key, t.fn.Pos(), "left padding adds "+after.key()+" positions after the tokens ("+cond(o)+")")
			case isR && judgeEQ(w.st, before) == -1:
				r.Bad("side", key, t.fn.Pos(), "right padding adds "+before.key()+" positions before the tokens ("+cond(o)+")")
			default:
				r.OK("side", key, t.fn.Pos(), "padding on the requested side")
			}
		}
	})
	r.Min("functions interpreted", 15)
}

func (w *encView) padded(t *tCase) bool {
	for _, s := range w.segs["Ids"] {
		if t.isInserted(t.en.source(w.st, s, "Ids")) {
			return true
		}
	}
	return false
}

// judge*2 accept a recognised maximum as a concrete number.
func judgeGE2(st *State, d *Poly) int {
	if st.provesGE(d) {
		return 1
	}
	d = st.norm(d)
	if concrete2(d) && refutable(st, d, func(v int64) bool { return v >= 0 }) {
		return -1
	}
	return 0
}

func judgeEQ2(st *State, d *Poly) int {
	if st.provesEQ(d) {
		return 1
	}
	d = st.norm(d)
	if concrete2(d) && refutable(st, d, func(v int64) bool { return v == 0 }) {
		return -1
	}
	return 0
}

func concrete2(p *Poly) bool {
	ok := true
	p.atoms(func(a string) {
		if opaqueRx.MatchString(a) && !strings.HasPrefix(a, "‹max") {
			ok = false
		}
	})
	return ok
}

func (t *tCase) mentionsInFacts(st *State, a string) bool {
	for _, f := range st.ge {
		if st.norm(f).mentions(func(x string) bool { return x == a }) {
			return true
		}
	}
	return false
}

// allMembers: the maximum ranges over the length of every element of the slice parameter.
func (t *tCase) allMembers(mi maxInfo) bool {
	for i, p := range t.fn.Params {
		if !strings.HasSuffix(p.Type().String(), "[]"+modPath+".Encoding") {
			continue
		}
		sl, ok := t.args[i].(Slice)
		if !ok || mi.n.key() != sl.n.key() {
			return false
		}
		want := "N(p:" + p.Name() + "[" + mi.k + "])"
		for _, x := range mi.xs {
			if x.key() == want {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) constInt(short, name string) int64 {
	sp := c.SPkgs[short]
	if sp == nil {
		return -1 << 40
	}
	k := sp.Const(name)
	if k == nil || k.Value == nil {
		return -1 << 40
	}
	return k.Value.Int64()
}

func init() {
	props["T04"] = propMeta{run: t04, explain: "Pad and PadEncodings are interpreted on a symbolic encoding, target, direction and strategy: on each path the length of the result and of every overflow window is compared with the target, and the added run must lie before (left) or after (right) the source tokens.", assume: []string{"element-wise maxima over a batch are summarised by the loop's own invariant"}}
}
