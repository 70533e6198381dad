package main

import (
	"fmt"
	"sort"
	"strings"
)

// Poly is an immutable multivariate polynomial with integer coefficients over named atoms.
// Monomials are atoms joined by "·" in sorted order; the constant term has key "".
type Poly struct {
	m map[string]int64
	k string
}

const mulSep = "·"

func mkPoly(m map[string]int64) *Poly {
	for k, v := range m {
		if v == 0 {
			delete(m, k)
		}
	}
	return &Poly{m: m}
}

func pc(c int64) *Poly       { return mkPoly(map[string]int64{"": c}) }
func pa(a string) *Poly      { return &Poly{m: map[string]int64{a: 1}} }
func (p *Poly) isZero() bool { return len(p.m) == 0 }

func (p *Poly) konst() (int64, bool) {
	if len(p.m) == 0 {
		return 0, true
	}
	if len(p.m) == 1 {
		c, ok := p.m[""]
		return c, ok
	}
	return 0, false
}

func (p *Poly) atom() (string, bool) {
	if len(p.m) == 1 {
		for k, v := range p.m {
			if v == 1 && k != "" && !strings.Contains(k, mulSep) {
				return k, true
			}
		}
	}
	return "", false
}

func (p *Poly) addScaled(q *Poly, c int64) *Poly {
	m := make(map[string]int64, len(p.m)+len(q.m))
	for k, v := range p.m {
		m[k] = v
	}
	for k, v := range q.m {
		m[k] += c * v
	}
	return mkPoly(m)
}

func (p *Poly) add(q *Poly) *Poly  { return p.addScaled(q, 1) }
func (p *Poly) sub(q *Poly) *Poly  { return p.addScaled(q, -1) }
func (p *Poly) neg() *Poly         { return pc(0).addScaled(p, -1) }
func (p *Poly) addc(c int64) *Poly { return p.add(pc(c)) }

func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	l := append(strings.Split(a, mulSep), strings.Split(b, mulSep)...)
	sort.Strings(l)
	return strings.Join(l, mulSep)
}

func (p *Poly) mul(q *Poly) *Poly {
	m := map[string]int64{}
	for a, x := range p.m {
		for b, y := range q.m {
			m[mulMono(a, b)] += x * y
		}
	}
	return mkPoly(m)
}

func (p *Poly) key() string {
	if p.k != "" {
		return p.k
	}
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, k := range ks {
		c := p.m[k]
		if k == "" {
			continue
		}
		if i > 0 && b.Len() > 0 || c < 0 {
			if c < 0 {
				b.WriteString("-")
			} else {
				b.WriteString("+")
			}
		}
		if c < 0 {
			c = -c
		}
		if c != 1 {
			fmt.Fprintf(&b, "%d*", c)
		}
		b.WriteString(k)
	}
	if c, ok := p.m[""]; ok {
		if c >= 0 && b.Len() > 0 {
			b.WriteString("+")
		}
		fmt.Fprintf(&b, "%d", c)
	}
	if b.Len() == 0 {
		b.WriteString("0")
	}
	p.k = b.String()
	return p.k
}

func (p *Poly) atoms(f func(string)) {
	for k := range p.m {
		if k == "" {
			continue
		}
		for _, a := range strings.Split(k, mulSep) {
			f(a)
		}
	}
}

func (p *Poly) mentions(pred func(string) bool) bool {
	r := false
	p.atoms(func(a string) {
		if pred(a) {
			r = true
		}
	})
	return r
}

// subst replaces every occurrence of atom by q.
func (p *Poly) subst(atom string, q *Poly) *Poly {
	if !p.mentions(func(a string) bool { return a == atom }) {
		return p
	}
	out := pc(0)
	for k, c := range p.m {
		t := pc(c)
		if k != "" {
			for _, a := range strings.Split(k, mulSep) {
				if a == atom {
					t = t.mul(q)
				} else {
					t = t.mul(pa(a))
				}
			}
		}
		out = out.add(t)
	}
	return out
}

// coefOf splits p = c*atom + rest where c and rest do not contain atom; ok=false when atom occurs non-linearly.
func (p *Poly) coefOf(atom string) (c, rest *Poly, ok bool) {
	c, rest = pc(0), pc(0)
	for k, v := range p.m {
		n := 0
		other := ""
		if k != "" {
			for _, a := range strings.Split(k, mulSep) {
				if a == atom {
					n++
				} else {
					other = mulMono(other, a)
				}
			}
		}
		switch n {
		case 0:
			rest = rest.add(mkPoly(map[string]int64{k: v}))
		case 1:
			c = c.add(mkPoly(map[string]int64{other: v}))
		default:
			return nil, nil, false
		}
	}
	return c, rest, true
}
