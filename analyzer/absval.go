package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ---------- abstract values

type Val interface{ key() string }

type Int struct{ p *Poly }
type Term struct { // uninterpreted immutable value
	k   string
	typ types.Type
}
type BoolC bool
type Cmp struct { // op one of "<0", ">=0", "==0", "!=0"
	op string
	p  *Poly
}
type TBool struct {
	k   string
	neg bool
}
type Sel struct {
	field int
	idx   *Poly // nil for a field
}
type Ptr struct {
	obj    int
	path   []Sel
	nilKey string // "" = certainly not nil
}
type Slice struct {
	arr    int
	off, n *Poly
	nilKey string
}
type Struct struct {
	typ types.Type
	f   []Val
}
type Closure struct {
	fn interface{} // *ssa.Function
	nm string
	b  []Val
}
type Iface struct {
	typ types.Type // dynamic type
	v   Val
}
type MapV struct {
	obj    int
	nilKey string
}
type Tuple []Val
type NilV struct{ typ types.Type }

func (v Int) key() string  { return v.p.key() }
func (v Term) key() string { return v.k }
func (v BoolC) key() string {
	if v {
		return "true"
	}
	return "false"
}
func (v Cmp) key() string { return "(" + v.p.key() + v.op + ")" }
func (v TBool) key() string {
	if v.neg {
		return "!" + v.k
	}
	return v.k
}
func (v Ptr) key() string {
	s := fmt.Sprintf("&%d", v.obj)
	for _, x := range v.path {
		if x.idx != nil {
			s += "[" + x.idx.key() + "]"
		} else {
			s += "." + strconv.Itoa(x.field)
		}
	}
	return s
}
func (v Slice) key() string { return fmt.Sprintf("S%d[%s:+%s]", v.arr, v.off.key(), v.n.key()) }
func (v Struct) key() string {
	var l []string
	for _, x := range v.f {
		l = append(l, x.key())
	}
	return "{" + strings.Join(l, ",") + "}"
}
func (v Closure) key() string {
	var l []string
	for _, x := range v.b {
		l = append(l, x.key())
	}
	return "func:" + v.nm + "[" + strings.Join(l, ",") + "]"
}
func (v Iface) key() string { return "iface(" + shortType(v.typ) + "," + v.v.key() + ")" }
func (v MapV) key() string  { return fmt.Sprintf("M%d", v.obj) }
func (v Tuple) key() string {
	var l []string
	for _, x := range v {
		l = append(l, x.key())
	}
	return "(" + strings.Join(l, ",") + ")"
}
func (v NilV) key() string { return "nil" }

func strVal(s string) Term { return Term{strconv.Quote(s), types.Typ[types.String]} }
func (v Term) isStrConst() (string, bool) {
	if strings.HasPrefix(v.k, "\"") {
		s, err := strconv.Unquote(v.k)
		return s, err == nil
	}
	return "", false
}

// ---------- sequences

type Seg struct {
	kind byte // 'S' copy of base[lo:lo+n), 'F' n times val, 'G' loop-generated, 'U' unknown
	base string
	lo   *Poly
	val  Val
	n    *Poly
	g    *Gen
}

// Gen: element j (0<=j<n/width) is built by one of the alternatives, parametric in the loop variable k.
type Gen struct {
	k      string
	alts   []GenAlt
	id     string
	off    *Poly // elements start at iteration off (after slicing)
	nested []mapUp
}
type GenAlt struct {
	vals []Val
	segs []Seg  // what one iteration adds, when it is not a fixed number of elements
	st   *State // facts on this path
}

func (s Seg) String() string {
	switch s.kind {
	case 'S':
		return fmt.Sprintf("%s[%s:+%s]", s.base, s.lo.key(), s.n.key())
	case 'F':
		return fmt.Sprintf("(%s)x%s", s.val.key(), s.n.key())
	case 'G':
		var a []string
		for _, x := range s.g.alts {
			var l []string
			for _, v := range x.vals {
				l = append(l, v.key())
			}
			if x.segs != nil {
				l = append(l, segsKey(x.segs))
			}
			a = append(a, strings.Join(l, " "))
		}
		return fmt.Sprintf("gen<%s>{%s}x%s", s.g.k, strings.Join(a, " | "), s.n.key())
	}
	return fmt.Sprintf("?%s x%s", s.base, s.n.key())
}

func segsKey(ss []Seg) string {
	var l []string
	for _, s := range ss {
		l = append(l, s.String())
	}
	return strings.Join(l, " ++ ")
}

func segsLen(ss []Seg) *Poly {
	t := pc(0)
	for _, s := range ss {
		t = t.add(s.n)
	}
	return t
}

type arrWrite struct {
	idx *Poly
	val Val
}
type mapUp struct {
	k, v Val
	del  bool
	gen  *Gen // generated by a loop: alts hold [k,v]
	n    *Poly
}

// Obj is immutable; stores replace it.
type Obj struct {
	kind  byte // 'c' cell, 'a' array, 'm' map
	val   Val
	segs  []Seg
	wr    []arrWrite
	elem  types.Type
	base  string // symbolic map base, "" = made here
	ups   []mapUp
	mtyp  *types.Map
	alias map[int]bool // array objects whose memory this array may share
	label string
	hole  bool
}

// ---------- state

type State struct {
	objs  map[int]*Obj
	env   map[interface{}]Val
	ge    []*Poly
	ne    []*Poly
	eqs   []eqFact
	truth map[string]bool
	typ   map[string]types.Type
	trace []string
	evs   []Event
	br    string // branch decisions since the current loop's start
	depth int
}

type eqFact struct {
	atom string
	p    *Poly
}

type Event struct {
	name string
	args []Val
	res  []Val
	pos  string
	k    string
	st   *State
}

func newState() *State {
	return &State{objs: map[int]*Obj{}, env: map[interface{}]Val{}, truth: map[string]bool{}, typ: map[string]types.Type{}}
}

func (s *State) clone() *State {
	n := &State{objs: make(map[int]*Obj, len(s.objs)), env: make(map[interface{}]Val, len(s.env)), truth: make(map[string]bool, len(s.truth)+1), typ: make(map[string]types.Type, len(s.typ)), br: s.br, depth: s.depth}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.truth {
		n.truth[k] = v
	}
	for k, v := range s.typ {
		n.typ[k] = v
	}
	n.ge = s.ge[:len(s.ge):len(s.ge)]
	n.ne = s.ne[:len(s.ne):len(s.ne)]
	n.eqs = s.eqs[:len(s.eqs):len(s.eqs)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.evs = s.evs[:len(s.evs):len(s.evs)]
	return n
}

// norm rewrites p with the known equalities.
func (s *State) norm(p *Poly) *Poly {
	for _, e := range s.eqs {
		p = p.subst(e.atom, e.p)
	}
	return p
}

func nonNegAtom(a string) bool {
	return strings.HasPrefix(a, "N(") || strings.HasPrefix(a, "len(") || strings.HasPrefix(a, "‹k") || strings.HasPrefix(a, "‹n") || strings.HasPrefix(a, "‹c") || strings.HasPrefix(a, "max0(")
}

func trivGE(p *Poly) bool {
	for k, c := range p.m {
		if c < 0 {
			return false
		}
		if k == "" {
			continue
		}
		for _, a := range strings.Split(k, mulSep) {
			if !nonNegAtom(a) {
				return false
			}
		}
	}
	return true
}

// provesGE: p >= 0 follows from the facts (sums of at most three facts).
func (s *State) provesGE(p *Poly) bool {
	p = s.norm(p)
	if trivGE(p) {
		return true
	}
	if c, ok := p.konst(); ok {
		return c >= 0
	}
	fs := make([]*Poly, 0, len(s.ge))
	for _, f := range s.ge {
		fs = append(fs, s.norm(f))
	}
	return proveRec(p, fs, 3)
}

// infeasible: the facts contradict each other.
func (s *State) infeasible() bool {
	fs := make([]*Poly, 0, len(s.ge))
	for _, f := range s.ge {
		f = s.norm(f)
		if c, ok := f.konst(); ok {
			if c < 0 {
				return true
			}
			continue
		}
		if trivGE(f) {
			continue
		}
		fs = append(fs, f)
	}
	for _, f := range s.ne {
		if s.norm(f).isZero() {
			return true
		}
	}
	return proveRec(pc(-1), fs, 3)
}

func proveRec(p *Poly, fs []*Poly, d int) bool {
	if trivGE(p) {
		return true
	}
	if d == 0 {
		return false
	}
	// pick a monomial that blocks triviality and cancel it with a fact
	var keys []string
	for k := range p.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c := p.m[k]
		if k == "" {
			continue
		}
		bad := c < 0
		if !bad {
			for _, a := range strings.Split(k, mulSep) {
				if !nonNegAtom(a) {
					bad = true
				}
			}
		}
		if !bad {
			continue
		}
		for _, f := range fs {
			fc := f.m[k]
			if fc == 0 || (fc < 0) != (c < 0) || c%fc != 0 {
				continue
			}
			if proveRec(p.addScaled(f, -(c/fc)), fs, d-1) {
				return true
			}
		}
		return false
	}
	// only the constant is negative
	for _, f := range fs {
		q := p.sub(f)
		if proveRec(q, fs, d-1) {
			return true
		}
	}
	return false
}

func (s *State) provesEQ(p *Poly) bool {
	p = s.norm(p)
	if p.isZero() {
		return true
	}
	if _, ok := p.konst(); ok {
		return false
	}
	return s.provesGE(p) && s.provesGE(p.neg())
}

func (s *State) provesNE(p *Poly) bool {
	p = s.norm(p)
	if c, ok := p.konst(); ok {
		return c != 0
	}
	for _, q := range s.ne {
		q = s.norm(q)
		if q.key() == p.key() || q.neg().key() == p.key() {
			return true
		}
	}
	return s.provesGE(p.addc(-1)) || s.provesGE(p.neg().addc(-1))
}

func (s *State) addEQ(p *Poly) {
	p = s.norm(p)
	if p.isZero() {
		return
	}
	// a sum of lengths is zero only when each of them is
	if trivGE(p) || trivGE(p.neg()) {
		if _, hasC := p.m[""]; !hasC && len(p.m) > 1 {
			for k := range p.m {
				if !strings.Contains(k, mulSep) {
					s.addEQ(pa(k))
				}
			}
			return
		}
	}
	// solve for an atom with coefficient ±1, preferring non-length atoms
	var best string
	var bc int64
	score := -1
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := p.m[k]
		if k == "" || strings.Contains(k, mulSep) || (c != 1 && c != -1) {
			continue
		}
		occ := 0
		p.atoms(func(a string) {
			if a == k {
				occ++
			}
		})
		if occ != 1 {
			continue
		}
		sc := 1
		if strings.HasPrefix(k, "‹n") || strings.HasPrefix(k, "‹c") || strings.HasPrefix(k, "‹k") {
			sc = 4
		} else if strings.HasPrefix(k, "len(") {
			sc = 3
		} else if !nonNegAtom(k) {
			sc = 2
		}
		if sc > score {
			best, bc, score = k, c, sc
		}
	}
	if best == "" {
		s.ge = append(s.ge, p, p.neg())
		return
	}
	rest := p.sub(pa(best).mul(pc(bc)))
	sol := rest.neg()
	if bc < 0 {
		sol = rest
	}
	if nonNegAtom(best) && !trivGE(sol) {
		s.ge = append(s.ge, sol)
	}
	s.eqs = append(s.eqs, eqFact{best, sol})
}

// assume adds v==want; false when that contradicts what is known.
func (s *State) assume(v Val, want bool) bool {
	if d, ok := s.decide(v); ok {
		return d == want
	}
	switch x := v.(type) {
	case Cmp:
		op := x.op
		if !want {
			op = map[string]string{"<0": ">=0", ">=0": "<0", "==0": "!=0", "!=0": "==0"}[op]
		}
		switch op {
		case "<0":
			s.ge = append(s.ge, x.p.neg().addc(-1))
			if s.provesGE(x.p) {
				return false
			}
		case ">=0":
			s.ge = append(s.ge, x.p)
			if s.provesGE(x.p.neg()) {
				s.addEQ(x.p)
			}
			if s.provesGE(x.p.neg().addc(-1)) {
				return false
			}
		case "==0":
			s.addEQ(x.p)
			for _, f := range s.ge {
				if c, ok := s.norm(f).konst(); ok && c < 0 {
					return false
				}
			}
			for _, f := range s.ne {
				if s.norm(f).isZero() {
					return false
				}
			}
		case "!=0":
			s.ne = append(s.ne, x.p)
			if s.provesGE(x.p) {
				s.ge = append(s.ge, x.p.addc(-1))
			} else if s.provesGE(x.p.neg()) {
				s.ge = append(s.ge, x.p.neg().addc(-1))
			}
		}
	case TBool:
		s.truth[x.k] = want != x.neg
	case Term:
		s.truth[x.k] = want
	}
	return true
}

func (s *State) decide(v Val) (bool, bool) {
	switch x := v.(type) {
	case BoolC:
		return bool(x), true
	case Cmp:
		switch x.op {
		case "<0":
			if s.provesGE(x.p) {
				return false, true
			}
			if s.provesGE(x.p.neg().addc(-1)) {
				return true, true
			}
		case ">=0":
			if s.provesGE(x.p) {
				return true, true
			}
			if s.provesGE(x.p.neg().addc(-1)) {
				return false, true
			}
		case "==0":
			if s.provesEQ(x.p) {
				return true, true
			}
			if s.provesNE(x.p) {
				return false, true
			}
		case "!=0":
			if s.provesEQ(x.p) {
				return false, true
			}
			if s.provesNE(x.p) {
				return true, true
			}
		}
	case TBool:
		if t, ok := s.truth[x.k]; ok {
			return t != x.neg, true
		}
		// equality with a constant excludes other constants
		if i := strings.Index(x.k, " == "); i > 0 {
			l, rr := x.k[:i], x.k[i+4:]
			if strings.HasPrefix(rr, "\"") {
				for k, t := range s.truth {
					if t && strings.HasPrefix(k, l+" == \"") && k != x.k {
						return x.neg, true
					}
				}
			}
		}
	case Term:
		if t, ok := s.truth[x.k]; ok {
			return t, true
		}
	}
	return false, false
}
