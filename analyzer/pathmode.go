package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// In path mode every pass of a loop is followed, conditions that are not decided splitting
// the path; an analysis of small inputs all paths of which are wanted.

const maxPathPasses = 130

func (en *Eng) paths(fn *ssa.Function, l *loopInfo, pred *ssa.BasicBlock, st *State) ([]End, bool) {
	h := l.header
	var next *ssa.Next
	var known []Tuple
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if known = en.knownEntries(st, nx); known == nil {
				return nil, false
			}
			next = nx
		}
	}
	if next != nil {
		if en.next == nil {
			en.next = map[*ssa.Next]nextVal{}
		}
		old, had := en.next[next]
		defer func() {
			if had {
				en.next[next] = old
			} else {
				delete(en.next, next)
			}
		}()
	}
	type pt struct {
		st   *State
		from *ssa.BasicBlock
	}
	cur := []pt{{st, pred}}
	var out []End
	for pass := 0; len(cur) > 0; pass++ {
		if pass > en.passes() || len(cur) > 20000 {
			panic(boundErr{fname(fn), cur[0].st})
		}
		if next != nil {
			nv := nextVal{at: Tuple{BoolC(false), NilV{}, NilV{}}}
			if pass < len(known) {
				nv = nextVal{ok: true, at: known[pass]}
			}
			en.next[next] = nv
		}
		var back []pt
		for _, c := range cur {
			en.phis(h, c.from, c.st)
			sts, ends := en.instrs(fn, h, 0, c.st)
			out = append(out, ends...)
			for _, s := range sts {
				succs, ends := en.term(fn, h, s, nil)
				out = append(out, ends...)
				for _, sc := range succs {
					if !l.blocks[sc.b] {
						out = append(out, End{kind: "exit", to: sc.b, from: h, st: sc.st})
						continue
					}
					if sc.b == h {
						back = append(back, pt{sc.st, h})
						continue
					}
					for _, e := range en.block(fn, sc.b, h, sc.st, l, false) {
						if e.kind == "back" {
							back = append(back, pt{e.st, e.from})
						} else {
							out = append(out, e)
						}
					}
				}
			}
		}
		cur = back
	}
	return out, true
}

// boundErr ends a run in which a loop does not come to an end.
type boundErr struct {
	fn string
	st *State
}

// --- floating point

func floatConst(v Val) (float64, bool) {
	t, ok := v.(Term)
	if !ok || !strings.HasPrefix(t.k, "c:") {
		return 0, false
	}
	if strings.HasPrefix(t.k, "c:-") {
		f, ok := floatConst(Term{"c:" + t.k[3:], t.typ})
		return -f, ok
	}
	x := constant.MakeFromLiteral(t.k[2:], token.FLOAT, 0)
	if strings.Contains(t.k, "/") {
		p := strings.SplitN(t.k[2:], "/", 2)
		a, b := constant.MakeFromLiteral(p[0], token.INT, 0), constant.MakeFromLiteral(p[1], token.INT, 0)
		if a.Kind() == constant.Unknown || b.Kind() == constant.Unknown {
			return 0, false
		}
		x = constant.BinaryOp(a, token.QUO, b)
	}
	if x.Kind() == constant.Unknown {
		return 0, false
	}
	f, _ := constant.Float64Val(x)
	return f, true
}

// floatLess decides a < b for constants and for draws of a random generator.
func (en *Eng) floatLess(a, b Val) (less, ok bool) {
	x, okx := floatConst(a)
	y, oky := floatConst(b)
	if okx && oky {
		return x < y, true
	}
	t, isDraw := a.(Term)
	if isDraw && strings.HasPrefix(t.k, "draw#") && en.draw != nil {
		if oky && y <= 0 {
			return false, true
		}
		if oky && y >= 1 {
			return true, true
		}
		return en.draw(t.k), true
	}
	u, isDraw := b.(Term)
	if isDraw && strings.HasPrefix(u.k, "draw#") && en.draw != nil {
		if okx && x < 0 {
			return true, true
		}
		if okx && x >= 1 {
			return false, true
		}
		return !en.draw(u.k), true
	}
	return false, false
}

// runesOf are the positions and characters of a constant text.
func runesOf(s string) (pos []int, rs []rune) {
	for i, r := range s {
		pos = append(pos, i)
		rs = append(rs, r)
	}
	return
}

func (en *Eng) constConvert(st *State, x *ssa.Convert, v Val) (Val, bool) {
	if i, ok := v.(Int); ok && isStrT(x.Type()) {
		if k, ok := i.p.konst(); ok && k >= 0 && k <= utf8.MaxRune {
			return strVal(string(rune(k))), true
		}
		return nil, false
	}
	if _, ok := v.(NilV); ok && isStrT(x.Type()) {
		return strVal(""), true
	}
	s, ok := strOf(v)
	if !ok || len(s) > 256 {
		if sl, isS := v.(Slice); isS && isStrT(x.Type()) {
			vs, ok := unitVals(en.content(st, sl))
			if !ok {
				return nil, false
			}
			out := ""
			elem := shortType(x.X.Type().Underlying())
			for _, y := range vs {
				i, ok := y.(Int)
				if !ok {
					return nil, false
				}
				k, ok := i.p.konst()
				if !ok {
					return nil, false
				}
				if strings.HasSuffix(elem, "byte") || strings.HasSuffix(elem, "uint8") {
					out += string([]byte{byte(k)})
				} else {
					out += string(rune(k))
				}
			}
			return strVal(out), true
		}
		return nil, false
	}
	switch shortType(x.Type().Underlying()) {
	case "[]rune", "[]int32":
		var vs []Val
		_, rs := runesOf(s)
		for _, r := range rs {
			vs = append(vs, Int{pc(int64(r))})
		}
		return en.mkSlice(st, x.Type().Underlying().(*types.Slice).Elem(), vs...), true
	case "[]byte", "[]uint8":
		var vs []Val
		for i := 0; i < len(s); i++ {
			vs = append(vs, Int{pc(int64(s[i]))})
		}
		return en.mkSlice(st, x.Type().Underlying().(*types.Slice).Elem(), vs...), true
	}
	return nil, false
}

// normVal rewrites the integers of a value to their known values.
func (en *Eng) normVal(st *State, v Val) Val {
	switch x := en.force(v).(type) {
	case Int:
		return Int{st.norm(x.p)}
	case Struct:
		n := Struct{typ: x.typ}
		for _, f := range x.f {
			n.f = append(n.f, en.normVal(st, f))
		}
		return n
	default:
		return x
	}
}

// passes is how often a loop is followed before it counts as endless.
func (en *Eng) passes() int {
	if en.longLoops > 0 {
		return en.longLoops
	}
	return maxPathPasses
}
