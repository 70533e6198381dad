package main

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Scores as numbers: with en.reals a floating point value is a polynomial in thousandths,
// or infinite. Rounding is not modelled.

const realUnit = 1000

// realOf is a value as a polynomial; inf is the sign of an infinite one.
func (en *Eng) realOf(v Val) (p *Poly, inf int, ok bool) {
	switch x := en.force(v).(type) {
	case Int:
		return x.p, 0, true
	case Term:
		switch x.k {
		case "inf:+":
			return nil, 1, true
		case "inf:-":
			return nil, -1, true
		}
		f, ok := floatConst(x)
		if !ok {
			return nil, 0, false
		}
		switch {
		case f > 1e12:
			return nil, 1, true
		case f < -1e12:
			return nil, -1, true
		}
		k := math.Round(f * realUnit)
		if math.Abs(k-f*realUnit) > 1e-6 {
			return nil, 0, false
		}
		return pc(int64(k)), 0, true
	}
	return nil, 0, false
}

func infVal(sign int, t types.Type) Val {
	if sign < 0 {
		return Term{"inf:-", t}
	}
	return Term{"inf:+", t}
}

// realOp is an operation on two numbers.
func (en *Eng) realOp(op token.Token, a, b Val, t types.Type) (Val, bool) {
	p, pi, ok1 := en.realOf(a)
	q, qi, ok2 := en.realOf(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	if pi != 0 || qi != 0 {
		switch op {
		case token.ADD:
			if pi == 0 || qi == 0 || pi == qi {
				return infVal(pi+qi, t), true
			}
			return nil, false
		case token.SUB:
			if pi == 0 || qi == 0 || pi == -qi {
				return infVal(pi-qi, t), true
			}
			return nil, false
		case token.LSS:
			return BoolC(pi < qi), true
		case token.GTR:
			return BoolC(pi > qi), true
		case token.LEQ:
			return BoolC(pi <= qi), true
		case token.GEQ:
			return BoolC(pi >= qi), true
		case token.EQL:
			return BoolC(pi == qi), true
		case token.NEQ:
			return BoolC(pi != qi), true
		}
		return nil, false
	}
	switch op {
	case token.ADD:
		return Int{p.add(q)}, true
	case token.SUB:
		return Int{p.sub(q)}, true
	case token.MUL:
		k, ok := q.konst()
		if !ok {
			k, ok = p.konst()
			p = q
		}
		if !ok {
			return nil, false
		}
		if c, isC := p.konst(); isC && c*k%realUnit == 0 {
			return Int{pc(c * k / realUnit)}, true
		}
		if k%realUnit != 0 {
			return nil, false
		}
		return Int{p.mul(pc(k / realUnit))}, true
	case token.LSS:
		return Cmp{"<0", p.sub(q)}, true
	case token.GTR:
		return Cmp{"<0", q.sub(p)}, true
	case token.LEQ:
		return Cmp{">=0", q.sub(p)}, true
	case token.GEQ:
		return Cmp{">=0", p.sub(q)}, true
	case token.EQL:
		return Cmp{"==0", p.sub(q)}, true
	case token.NEQ:
		return notV(Cmp{"==0", p.sub(q)}), true
	}
	return nil, false
}

func realHooks(en *Eng) {
	en.reals = true
	en.hooks["math.Inf"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, ok := st.norm(en.toInt(args[0])).konst()
		if !ok {
			return nil, false
		}
		s := 1
		if k < 0 {
			s = -1
		}
		return retOne(st, infVal(s, types.Typ[types.Float64]))
	}
	en.hooks["math.IsInf"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, inf, ok := en.realOf(args[0])
		k, ok2 := st.norm(en.toInt(args[1])).konst()
		if !ok || !ok2 {
			return nil, false
		}
		return retOne(st, BoolC(inf != 0 && (k == 0 || inf > 0 == (k > 0))))
	}
	en.hooks["math.IsNaN"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if _, _, ok := en.realOf(args[0]); !ok {
			return nil, false
		}
		return retOne(st, BoolC(false))
	}
	pick := func(op token.Token) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			c, ok := en.realOp(op, args[0], args[1], types.Typ[types.Float64])
			if !ok {
				return nil, false
			}
			if d, ok := st.decide(c); ok {
				if d {
					return retOne(st, args[0])
				}
				return retOne(st, args[1])
			}
			var out []Outcome
			s2 := st.clone()
			if st.assume(c, true) && !st.infeasible() {
				o, _ := retOne(st, args[0])
				out = append(out, o...)
			}
			if s2.assume(c, false) && !s2.infeasible() {
				o, _ := retOne(s2, args[1])
				out = append(out, o...)
			}
			return out, true
		}
	}
	en.hooks["math.Min"] = pick(token.LEQ)
	en.hooks["math.Max"] = pick(token.GEQ)
}

// cacheHooks models the expiring cache of the go-cache library as a map.
func cacheHooks(en *Eng) {
	const pkg = "github.com/patrickmn/go-cache."
	anyT := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(strT, anyT)
	en.hooks[pkg+"New"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		t := cc.Signature().Results().At(0).Type().(*types.Pointer).Elem()
		s, ok := t.Underlying().(*types.Struct)
		if !ok || s.NumFields() == 0 {
			return nil, false
		}
		m := MapV{obj: en.newObj(st, &Obj{kind: 'm', mtyp: mt, label: "cache"})}
		inner := Ptr{obj: en.newObj(st, &Obj{kind: 'c', val: m})}
		outer := en.mkStruct("cache", t, map[string]Val{s.Field(0).Name(): inner})
		return retOne(st, Ptr{obj: en.newObj(st, &Obj{kind: 'c', val: outer})})
	}
	at := func(en *Eng, st *State, v Val) (MapV, bool) {
		p, ok := en.force(v).(Ptr)
		if !ok || p.obj == 0 {
			return MapV{}, false
		}
		switch x := en.force(en.load(st, p)).(type) {
		case MapV:
			return x, true
		case Struct:
			if len(x.f) > 0 {
				if q, ok := en.force(x.f[0]).(Ptr); ok && q.obj != 0 {
					m, ok := en.force(en.load(st, q)).(MapV)
					return m, ok
				}
			}
		}
		return MapV{}, false
	}
	for _, recv := range []string{"(*" + pkg + "cache).", "(" + pkg + "Cache).", "(*" + pkg + "Cache)."} {
		en.hooks[recv+"Get"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			m, ok := at(en, st, args[0])
			if !ok {
				return nil, false
			}
			v, has := en.lookup(st, m, args[1])
			if d, ok := st.decide(has); ok && !d {
				v = NilV{anyT}
			}
			return retOne(st, v, has)
		}
		set := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			m, ok := at(en, st, args[0])
			if !ok {
				return nil, false
			}
			o := en.get(st, m.obj)
			n := *o
			n.ups = append(append([]mapUp{}, o.ups...), mapUp{k: args[1], v: args[2]})
			st.objs[m.obj] = &n
			return retOne(st)
		}
		en.hooks[recv+"Set"] = set
		en.hooks[recv+"SetDefault"] = set
	}
}
