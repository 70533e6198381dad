package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Canonical expressions: a value as a string over the parameters of the function the
// analysis started in; one-block helpers of the module are inlined. "?" marks a part that
// could not be resolved.

type xenv struct {
	c    *Ctx
	sub  map[ssa.Value]string
	up   *xenv
	deep int
}

func newX(c *Ctx, fn *ssa.Function) *xenv {
	e := &xenv{c: c, sub: map[ssa.Value]string{}}
	for i, p := range fn.Params {
		e.sub[p] = fmt.Sprintf("$%d", i)
	}
	return e
}

func (e *xenv) into(g *ssa.Function, args []string) *xenv {
	n := &xenv{c: e.c, sub: map[ssa.Value]string{}, up: e, deep: e.deep + 1}
	for i, p := range g.Params {
		if i < len(args) {
			n.sub[p] = args[i]
		}
	}
	return n
}

func (e *xenv) args(cc *ssa.CallCommon) []string {
	var out []string
	for _, a := range cc.Args {
		out = append(out, e.x(a))
	}
	return out
}

func (e *xenv) x(v ssa.Value) string { return e.xd(v, 0) }

func (e *xenv) xd(v ssa.Value, d int) string {
	if s, ok := e.sub[v]; ok {
		return s
	}
	if d > 25 {
		return "?deep"
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.Function:
		return "fn:" + x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := soleStore(al); s != nil {
					return e.xd(s, d+1)
				}
				return "?" + al.Name()
			}
			s := e.xd(x.X, d+1)
			if strings.HasPrefix(s, "&") {
				return s[1:]
			}
			return "*" + s
		}
		return x.Op.String() + "(" + e.xd(x.X, d+1) + ")"
	case *ssa.FieldAddr:
		return "&" + strings.TrimPrefix(e.base(x.X, d+1), "&") + "." + fieldName(derefT(x.X.Type()), x.Field)
	case *ssa.Field:
		return e.base(x.X, d+1) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return "&" + strings.TrimPrefix(e.base(x.X, d+1), "&") + "[" + e.xd(x.Index, d+1) + "]"
	case *ssa.Index:
		return e.base(x.X, d+1) + "[" + e.xd(x.Index, d+1) + "]"
	case *ssa.Lookup:
		return e.base(x.X, d+1) + "[" + e.xd(x.Index, d+1) + "]"
	case *ssa.BinOp:
		return "(" + e.xd(x.X, d+1) + x.Op.String() + e.xd(x.Y, d+1) + ")"
	case *ssa.ChangeType:
		return e.xd(x.X, d+1)
	case *ssa.ChangeInterface:
		return e.xd(x.X, d+1)
	case *ssa.MakeInterface:
		return e.xd(x.X, d+1)
	case *ssa.TypeAssert:
		return e.xd(x.X, d+1)
	case *ssa.Convert:
		return types.TypeString(x.Type(), nil) + "(" + e.xd(x.X, d+1) + ")"
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := derefT(al.Type()).Underlying().(*types.Array); ok && at.Len() == 0 {
				return "[]"
			}
		}
		lo, hi := "", ""
		if x.Low != nil {
			lo = e.xd(x.Low, d+1)
		}
		if x.High != nil {
			hi = e.xd(x.High, d+1)
		}
		if lo == "" && hi == "" {
			return e.base(x.X, d+1)
		}
		return e.base(x.X, d+1) + "[" + lo + ":" + hi + "]"
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return e.xd(ta.X, d+1)
		}
		if s, ok := e.sub[x.Tuple]; ok {
			return s + fmt.Sprintf("#%d", x.Index)
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if s, ok := e.inline(c, x.Index, d); ok {
				return s
			}
		}
		return e.xd(x.Tuple, d+1) + fmt.Sprintf("#%d", x.Index)
	case *ssa.Call:
		if s, ok := e.inline(x, 0, d); ok {
			return s
		}
		cc := x.Common()
		var as []string
		if cc.IsInvoke() {
			as = append(as, e.xd(cc.Value, d+1))
		}
		for _, a := range cc.Args {
			as = append(as, e.xd(a, d+1))
		}
		return calleeName(cc) + "(" + strings.Join(as, ",") + ")"
	case *ssa.Phi:
		s := ""
		for i, ed := range x.Edges {
			if ed == x {
				continue
			}
			t := e.xd(ed, d+6)
			if i > 0 && s != "" && t != s {
				return "?" + x.Name()
			}
			s = t
		}
		return s
	case *ssa.Alloc:
		if s := soleStore(x); s != nil {
			return "&(" + e.xd(s, d+1) + ")"
		}
		return "?" + x.Name()
	}
	return "?" + v.Name()
}

// base drops the star of an automatic dereference.
func (e *xenv) base(v ssa.Value, d int) string { return e.xd(v, d) }

func (e *xenv) inline(c *ssa.Call, i, d int) (string, bool) {
	g := c.Common().StaticCallee()
	if g == nil || e.deep > 4 || len(g.Blocks) != 1 || !e.c.inModule(g) || len(g.FreeVars) > 0 {
		return "", false
	}
	for _, in := range g.Blocks[0].Instrs {
		switch y := in.(type) {
		case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send:
			return "", false
		case *ssa.Return:
			if i < len(y.Results) {
				var as []string
				for _, a := range c.Common().Args {
					as = append(as, e.xd(a, d+1))
				}
				s := e.into(g, as).xd(y.Results[i], d+1)
				if !strings.Contains(s, "?") {
					return s, true
				}
			}
		}
	}
	return "", false
}

// candidates: the expressions a value may have, one per phi edge.
func (e *xenv) candidates(v ssa.Value) []string {
	seen := map[ssa.Value]bool{}
	var out []string
	var rec func(ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok {
			for _, ed := range p.Edges {
				rec(ed)
			}
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := u.X.(*ssa.Alloc); ok && soleStore(al) == nil {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						rec(st.Val)
					}
				}
				return
			}
		}
		out = append(out, e.x(v))
	}
	rec(v)
	return out
}
