package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- control flow helpers

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func loopsOf(fn *ssa.Function) []*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	var out []*loopInfo
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
					out = append(out, l)
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].blocks) < len(out[j].blocks) })
	return out
}

// innermostLoop returns the smallest loop containing b, or nil.
func innermostLoop(b *ssa.BasicBlock) *loopInfo {
	for _, l := range loopsOf(b.Parent()) {
		if l.blocks[b] {
			return l
		}
	}
	return nil
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// dominatesInstr: a executes before b on every path to b (same function).
func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// reachableFrom lists the instructions reachable after start without passing
// through an instruction for which stop returns true.
func reachableFrom(start ssa.Instruction, stop func(ssa.Instruction) bool) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var st []pt
	st = append(st, pt{start.Block(), instrIndex(start) + 1})
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		stopped := false
		for k := p.i; k < len(p.b.Instrs); k++ {
			in := p.b.Instrs[k]
			if stop != nil && stop(in) {
				stopped = true
				break
			}
			out[in] = true
		}
		if stopped {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				st = append(st, pt{s, 0})
			}
		}
	}
	return out
}

func eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			f(i)
		}
	}
}

// ---------- calls

func callOf(i ssa.Instruction) *ssa.CallCommon {
	if c, ok := i.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// calleeName: "pkg/path.Func", "(*pkg/path.T).M", or "invoke pkg.I.M", "builtin append".
func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "invoke " + types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return "builtin " + v.Name()
	case *ssa.Function:
		if v.Origin() != nil {
			return v.Origin().String()
		}
		return v.String()
	case *ssa.MakeClosure:
		return v.Fn.String()
	}
	return "dynamic"
}

func isBuiltin(cc *ssa.CallCommon, name string) bool {
	b, ok := cc.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

func staticFn(cc *ssa.CallCommon) *ssa.Function {
	return cc.StaticCallee()
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n, ok := constant.Int64Val(c.Value)
		return n, ok
	}
	return 0, false
}

func constStr(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = derefT(t)
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func fieldName(t types.Type, i int) string {
	st, ok := derefT(t).Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return fmt.Sprint(i)
	}
	return st.Field(i).Name()
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

// ---------- access paths

// accessPath renders a value as root + selectors ("param:t.addedVocabulary.addedTokenMap"),
// chasing loads, field and element selection and conversions. Phis give "phi".
func accessPath(v ssa.Value) (root ssa.Value, path string) {
	seen := map[ssa.Value]bool{}
	for {
		if seen[v] {
			return v, path
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			v = x.X
		case *ssa.Field:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			v = x.X
		case *ssa.IndexAddr:
			path = "[]" + path
			v = x.X
		case *ssa.Index:
			path = "[]" + path
			v = x.X
		case *ssa.Lookup:
			path = "[]" + path
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, path
			}
			path = "*" + path
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = ta.X
				continue
			}
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
				path = "[]" + path
				v = lk.X
				continue
			}
			return v, path
		default:
			return v, path
		}
	}
}

func rootName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return "param:" + x.Name()
	case *ssa.FreeVar:
		return "free:" + x.Name()
	case *ssa.Global:
		return "global:" + x.Name()
	case *ssa.Alloc:
		return "local:" + x.Comment
	}
	return fmt.Sprintf("%T", v)
}

// sameExpr: structural equality of two pure SSA expressions in one function.
func sameExpr(a, b ssa.Value) bool { return sameExprD(a, b, 0) }

func sameExprD(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 8 || a == nil || b == nil {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExprD(x.X, y.X, d+1) && sameExprD(x.Y, y.Y, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExprD(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExprD(x.X, y.X, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExprD(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExprD(x.X, y.X, d+1) && sameExprD(x.Index, y.Index, d+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && sameExprD(x.X, y.X, d+1)
	case *ssa.ChangeType:
		y, ok := b.(*ssa.ChangeType)
		return ok && sameExprD(x.X, y.X, d+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		cx, cy := x.Common(), y.Common()
		if calleeName(cx) != calleeName(cy) || len(cx.Args) != len(cy.Args) {
			return false
		}
		if !(isBuiltin(cx, "len") || (len(cx.Args) <= 1 && strings.HasPrefix(calleeName(cx), "(*"+modPath+".Encoding).Get"))) {
			return false
		}
		for i := range cx.Args {
			if !sameExprD(cx.Args[i], cy.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------- must-hold locks

// heldLocks computes, for every instruction, the set of lock paths that are
// certainly held just before it. Deferred unlocks do not release early.
func heldLocks(fn *ssa.Function, entry map[string]bool) map[ssa.Instruction]map[string]bool {
	in := map[*ssa.BasicBlock]map[string]bool{}
	out := map[ssa.Instruction]map[string]bool{}
	cp := func(m map[string]bool) map[string]bool {
		n := map[string]bool{}
		for k := range m {
			n[k] = true
		}
		return n
	}
	if len(fn.Blocks) == 0 {
		return out
	}
	in[fn.Blocks[0]] = cp(entry)
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		cur := cp(in[b])
		for _, i := range b.Instrs {
			out[i] = cp(cur)
			if _, isDefer := i.(*ssa.Defer); isDefer {
				continue
			}
			if cc := callOf(i); cc != nil && !cc.IsInvoke() && len(cc.Args) > 0 {
				name := calleeName(cc)
				if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
					m := name[strings.LastIndex(name, ".")+1:]
					r, p := accessPath(cc.Args[0])
					key := rootName(r) + strings.ReplaceAll(p, "*", "")
					switch m {
					case "Lock":
						cur["W:"+key] = true
						cur["R:"+key] = true
					case "RLock":
						cur["R:"+key] = true
					case "Unlock":
						delete(cur, "W:"+key)
						delete(cur, "R:"+key)
					case "RUnlock":
						delete(cur, "R:"+key)
					}
				}
			}
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				in[s] = cp(cur)
				work = append(work, s)
				continue
			}
			ch := false
			for k := range old {
				if !cur[k] {
					delete(old, k)
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return out
}

func exportedRoot(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// referrers that use v transitively through phi / conversion / extract.
func flowsTo(v ssa.Value, visit func(ssa.Instruction) bool) {
	seen := map[ssa.Value]bool{}
	var rec func(ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			return
		}
		for _, r := range *rs {
			if !visit(r) {
				continue
			}
			switch x := r.(type) {
			case *ssa.Phi:
				rec(x)
			case *ssa.ChangeType:
				rec(x)
			case *ssa.Convert:
				rec(x)
			case *ssa.MakeInterface:
				rec(x)
			case *ssa.ChangeInterface:
				rec(x)
			case *ssa.Extract:
				rec(x)
			}
		}
	}
	rec(v)
}
