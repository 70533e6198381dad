package main

import (
	"math/big"
	"sort"
)

// linInfeasible tells whether facts p >= 0, linear in their monomials, contradict each
// other over the rationals (the general simplex method, with Bland's rule).
func linInfeasible(facts []*Poly) bool {
	vars := map[string]int{}
	var names []string
	for _, f := range facts {
		for k := range f.m {
			if k != "" {
				if _, ok := vars[k]; !ok {
					vars[k] = 0
					names = append(names, k)
				}
			}
		}
	}
	sort.Strings(names)
	for i, n := range names {
		vars[n] = i
	}
	nv, nf := len(names), len(facts)
	// variables 0..nv-1 are free, nv+i is the linear part of fact i, at least -constant
	low := make([]*big.Rat, nv+nf)
	row := make([]map[int]*big.Rat, nv+nf) // of basic variables
	val := make([]*big.Rat, nv+nf)
	for i := range val {
		val[i] = new(big.Rat)
	}
	for i, f := range facts {
		r := map[int]*big.Rat{}
		for k, c := range f.m {
			if k != "" && c != 0 {
				r[vars[k]] = big.NewRat(c, 1)
			}
		}
		row[nv+i] = r
		low[nv+i] = big.NewRat(-f.m[""], 1)
	}
	for steps := 0; steps < 5000; steps++ {
		b := -1
		for i := range row {
			if row[i] != nil && low[i] != nil && val[i].Cmp(low[i]) < 0 {
				b = i
				break
			}
		}
		if b < 0 {
			return false
		}
		// a variable that can move so that b grows
		p := -1
		for j := range val {
			c := row[b][j]
			if c == nil || c.Sign() == 0 {
				continue
			}
			if low[j] == nil || c.Sign() > 0 || val[j].Cmp(low[j]) > 0 {
				p = j
				break
			}
		}
		if p < 0 {
			return true
		}
		// pivot: p becomes basic, b moves to its bound
		c := row[b][p]
		d := new(big.Rat).Sub(low[b], val[b])
		d.Quo(d, c)
		nr := map[int]*big.Rat{b: new(big.Rat).Inv(c)}
		for j, x := range row[b] {
			if j != p {
				nr[j] = new(big.Rat).Neg(new(big.Rat).Quo(x, c))
			}
		}
		val[b] = new(big.Rat).Set(low[b])
		val[p] = new(big.Rat).Add(val[p], d)
		row[b] = nil
		for i := range row {
			if row[i] == nil {
				continue
			}
			x := row[i][p]
			if x == nil || x.Sign() == 0 {
				delete(row[i], p)
				continue
			}
			val[i] = new(big.Rat).Add(val[i], new(big.Rat).Mul(x, d))
			n := map[int]*big.Rat{}
			for j, y := range row[i] {
				if j != p {
					n[j] = y
				}
			}
			for j, y := range nr {
				t := new(big.Rat).Mul(x, y)
				if n[j] != nil {
					t.Add(t, n[j])
				}
				if t.Sign() == 0 {
					delete(n, j)
				} else {
					n[j] = t
				}
			}
			row[i] = n
		}
		row[p] = nr
	}
	return false
}

// contradicts: the facts of a path, taken together, cannot hold.
func (s *State) contradicts() bool {
	var fs []*Poly
	for _, f := range s.ge {
		f = s.norm(f)
		if c, ok := f.konst(); ok {
			if c < 0 {
				return true
			}
			continue
		}
		if !trivGE(f) {
			fs = append(fs, f)
		}
	}
	return linInfeasible(fs)
}
