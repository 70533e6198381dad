package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// E04: nothing observable depends on map iteration order, time or randomness.
//
// Every iteration over a map that is reachable from the API (training excepted) is
// classified by what leaves it: keyed updates, commutative accumulation and extrema are
// order-independent; a list built in map order must be sorted before anything else looks
// at it; "last entry wins" and order-dependent exits are violations.

type orderChk struct {
	c     *Ctx
	r     *Rep
	calls map[*ssa.Function][]ssa.CallInstruction
}

func e04Roots(c *Ctx, r *Rep) []*ssa.Function {
	roots := readRoots(c, r)
	for _, fn := range c.moduleFuncs() {
		if fn.Parent() != nil || !token.IsExported(fn.Name()) || isTraining(fn) {
			continue
		}
		p := fnPkgPath(fn)
		if strings.HasSuffix(p, "/util") || strings.Contains(p, "/util/") || strings.Contains(p, "/example") || strings.Contains(p, "/cmd") {
			continue
		}
		roots = append(roots, fn)
	}
	return roots
}

func isTraining(fn *ssa.Function) bool {
	n := fn.Name()
	if strings.Contains(n, "Train") {
		return true
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return strings.Contains(shortType(recv.Type()), "Trainer")
	}
	return false
}

// a value fixed by the current map entry (and loop-invariant values)
type mapLoop struct {
	next   *ssa.Next
	loop   *loopInfo
	derive map[ssa.Value]bool
}

func (m *mapLoop) in(b *ssa.BasicBlock) bool { return m.loop.blocks[b] }

func (m *mapLoop) computeDerived() {
	m.derive = map[ssa.Value]bool{m.next: true}
	for ch := true; ch; {
		ch = false
		for b := range m.loop.blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && m.derive[st.Val] {
					if root, _ := accessPath(st.Addr); m.local(root) && !m.derive[root] {
						m.derive[root] = true
						ch = true
					}
				}
				v, ok := i.(ssa.Value)
				if !ok || m.derive[v] {
					continue
				}
				if ph, ok := i.(*ssa.Phi); ok && ph.Block() == m.loop.header {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && m.derive[*op] {
						m.derive[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
}

func constLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return constLike(x.X)
	case *ssa.ChangeType:
		return constLike(x.X)
	case *ssa.Convert:
		return constLike(x.X)
	}
	return false
}

func (o *orderChk) mapRange(fn *ssa.Function, rg *ssa.Range) {
	key := fname(fn)
	var m *mapLoop
	for _, ref := range *rg.Referrers() {
		if nx, ok := ref.(*ssa.Next); ok {
			for _, l := range loopsOf(fn) {
				if l.header == nx.Block() {
					m = &mapLoop{next: nx, loop: l}
				}
			}
		}
	}
	o.r.Add("map iterations", 1)
	if m == nil {
		o.r.OK("map-order", key, rg.Pos(), "no loop")
		return
	}
	m.computeDerived()
	var bad []string
	say := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }

	// values carried from one entry to the next
	for _, i := range m.loop.header.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if isErr(ph.Type()) {
			continue
		}
		if w := o.carried(m, ph); w != "" {
			say("%s", w)
		}
	}
	// exits taken because of an entry
	constExits := map[string]bool{}
	for b := range m.loop.blocks {
		for _, s := range b.Succs {
			if m.in(s) || b == m.loop.header {
				continue
			}
			for _, w := range o.exit(m, b, s, constExits) {
				say("%s", w)
			}
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			_ = ret
		}
	}
	// effects
	for b := range m.loop.blocks {
		for _, i := range b.Instrs {
			if w := o.effect(m, i); w != "" {
				say("%s", w)
			}
		}
	}
	// a list kept in a variable (captured or address-taken)
	if len(bad) == 0 {
		o.r.OK("map-order", key, rg.Pos(), "what leaves the loop does not depend on the order of the entries")
		return
	}
	sort.Strings(bad)
	o.r.Bad("map-order", key, rg.Pos(), bad[0])
}

// leaves of the value a header phi takes on the back edges
func (m *mapLoop) updates(ph *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{ph: true}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && m.in(p.Block()) {
			for _, e := range p.Edges {
				rec(e)
			}
			return
		}
		out = append(out, v)
	}
	for k, pred := range ph.Block().Preds {
		if m.in(pred) {
			rec(ph.Edges[k])
		}
	}
	return out
}

func (m *mapLoop) isAcc(v ssa.Value, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && m.in(p.Block()) && p.Block() != m.loop.header {
			for _, e := range p.Edges {
				if rec(e) {
					return true
				}
			}
		}
		if c, ok := v.(*ssa.Call); ok && (isBuiltin(c.Common(), "append") || isBuiltin(c.Common(), "min") || isBuiltin(c.Common(), "max")) {
			for _, a := range c.Common().Args {
				if rec(a) {
					return true
				}
			}
		}
		if b, ok := v.(*ssa.BinOp); ok {
			return rec(b.X) || rec(b.Y)
		}
		return false
	}
	return rec(v)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (o *orderChk) carried(m *mapLoop, ph *ssa.Phi) string {
	for _, u := range m.updates(ph) {
		if constLike(u) {
			continue
		}
		switch x := u.(type) {
		case *ssa.BinOp:
			if m.isAcc(x, ph) {
				switch x.Op {
				case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB, token.AND_NOT:
					if isFloat(x.Type()) {
						return "floating-point sum in map order: the rounding depends on the order of the entries"
					}
					if isStrT(x.Type()) {
						return "string concatenated in map order"
					}
					continue
				}
			}
		case *ssa.Call:
			if isBuiltin(x.Common(), "min") || isBuiltin(x.Common(), "max") {
				continue
			}
			if isBuiltin(x.Common(), "append") && m.isAcc(x, ph) {
				if w := o.listUse(ph.Parent(), ph, m, 0); w != "" {
					return w
				}
				continue
			}
		}
		if !m.derive[u] {
			continue // loop-invariant
		}
		if m.compared(ph, u) {
			continue
		}
		return fmt.Sprintf("the variable %s keeps the value of whichever entry comes last", ph.Comment)
	}
	return ""
}

// the carried value is compared with its replacement (or with the value the replacement is
// computed from): an extremum
func (m *mapLoop) compared(ph *ssa.Phi, u ssa.Value) bool {
	for b := range m.loop.blocks {
		for _, i := range b.Instrs {
			bo, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
			default:
				continue
			}
			if m.isAcc(bo.X, ph) && sameExpr(bo.Y, u) || m.isAcc(bo.Y, ph) && sameExpr(bo.X, u) {
				return true
			}
			if bo.X == ssa.Value(ph) && bo.Y == u || bo.Y == ssa.Value(ph) && bo.X == u {
				return true
			}
			if m.comparedOffset(bo, ph, u) {
				return true
			}
		}
	}
	return false
}

// intOffset splits v into a value and a constant added to it.
func intOffset(v ssa.Value) (ssa.Value, int64) {
	k := int64(0)
	for {
		bo, ok := v.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
			return v, k
		}
		if b, ok := bo.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return v, k
		}
		if c, ok := bo.Y.(*ssa.Const); ok {
			if bo.Op == token.ADD {
				k += c.Int64()
			} else {
				k -= c.Int64()
			}
			v = bo.X
			continue
		}
		if c, ok := bo.X.(*ssa.Const); ok && bo.Op == token.ADD {
			k += c.Int64()
			v = bo.Y
			continue
		}
		return v, k
	}
}

// comparedOffset: the largest (or smallest) value plus a constant is kept, the test having
// the same bound ("if v >= id { id = v + 1 }").
func (m *mapLoop) comparedOffset(bo *ssa.BinOp, ph *ssa.Phi, u ssa.Value) bool {
	base, k := intOffset(u)
	if base == u {
		return false
	}
	x, kx := intOffset(bo.X)
	y, ky := intOffset(bo.Y)
	op := bo.Op
	if !m.isAcc(y, ph) && y != ssa.Value(ph) {
		x, kx, y, ky = y, ky, x, kx
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
	}
	if !m.isAcc(y, ph) && y != ssa.Value(ph) || !sameExpr(x, base) && x != base {
		return false
	}
	d := kx - ky
	if op == token.GEQ || op == token.LSS {
		return k == d || k == d+1
	}
	return k == d || k == d-1
}

// leaving the loop early: the results must not depend on which entry was met first
func (o *orderChk) exit(m *mapLoop, from, to *ssa.BasicBlock, consts map[string]bool) (bad []string) {
	guarded := func() bool { // taken on a test of the entry itself
		for b := from; b != nil && m.in(b) && b != m.loop.header; b = b.Idom() {
			id := b.Idom()
			if id == nil || !m.in(id) || id == m.loop.header {
				// the branch in the header is the end of the map
				continue
			}
			if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && m.derive[iff.Cond] {
				return true
			}
		}
		if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && m.derive[iff.Cond] {
			return true
		}
		return false
	}
	check := func(what string, v ssa.Value) {
		if isErr(v.Type()) {
			return
		}
		if constLike(v) {
			return
		}
		if !m.derive[v] {
			return
		}
		if guarded() {
			return // a unique entry satisfies the test (assumption)
		}
		bad = append(bad, "leaves the loop with "+what+" of whichever entry comes first")
	}
	// follow straight-line blocks to a return or a join
	pred, b := from, to
	for n := 0; n < 6; n++ {
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				for k, p := range b.Preds {
					if p == pred {
						check("a value", ph.Edges[k])
					}
				}
			}
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n := len(ret.Results)
			if n > 0 && isErr(ret.Results[n-1].Type()) && !isNilConst(ret.Results[n-1]) {
				return bad
			}
			for _, v := range ret.Results {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
					continue
				}
				check("the result", v)
			}
			return bad
		}
		if len(b.Succs) != 1 || len(b.Preds) > 1 && n > 0 {
			return bad
		}
		pred, b = b, b.Succs[0]
	}
	return bad
}

func (o *orderChk) invariantAddr(m *mapLoop, v ssa.Value) bool { return !m.derive[v] }

// allocated inside the loop: belongs to the entry
func (m *mapLoop) local(root ssa.Value) bool {
	i, ok := root.(ssa.Instruction)
	return ok && i.Block() != nil && m.in(i.Block())
}

func (o *orderChk) effect(m *mapLoop, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		root, _ := accessPath(x.Map)
		if m.local(root) {
			return ""
		}
		if m.derive[x.Key] {
			return ""
		}
		if m.derive[x.Value] {
			if lk, ok := accOf(x.Value, x); ok && lk {
				return ""
			}
			return "one map key receives the value of whichever entry comes last"
		}
	case *ssa.Send:
		return "sends on a channel in map order"
	case *ssa.Store:
		root, _ := accessPath(x.Addr)
		if m.local(root) && !m.derive[root] {
			return ""
		}
		if al, ok := root.(*ssa.Alloc); ok && m.in(al.Block()) {
			return ""
		}
		if m.derive[x.Addr] || constLike(x.Val) {
			return ""
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && m.derive[x.Val] {
			if al, ok := ia.X.(*ssa.Alloc); ok && m.in(al.Block()) {
				return "" // argument list
			}
			// list filled by a counter
			return o.listUse(in.Parent(), ia.X, m, 0)
		}
		if !m.derive[x.Val] && !m.mentionsAddr(x.Val, x.Addr) {
			return ""
		}
		if isErr(x.Val.Type()) {
			return ""
		}
		// accumulate in memory: *p = *p + v
		switch y := x.Val.(type) {
		case *ssa.BinOp:
			if m.mentionsAddr(y, x.Addr) && !isFloat(y.Type()) && !isStrT(y.Type()) {
				return ""
			}
		case *ssa.Call:
			if isBuiltin(y.Common(), "append") {
				return o.listAddr(in.Parent(), x.Addr, m)
			}
		}
		if al, ok := x.Addr.(*ssa.Alloc); ok && m.in(al.Block()) {
			return ""
		}
		return "a variable keeps the value of whichever entry comes last"
	case *ssa.Call:
		cc := x.Common()
		n := calleeName(cc)
		for _, p := range []string{"(*strings.Builder).Write", "(*bytes.Buffer).Write", "(*bufio.Writer).Write", "(*os.File).Write", "(io.Writer).Write", "io.WriteString", "fmt.Fprint"} {
			if strings.HasPrefix(n, p) {
				if len(cc.Args) > 0 {
					root, _ := accessPath(cc.Args[0])
					if m.local(root) {
						return ""
					}
				}
				return "output is written in map order (" + n + ")"
			}
		}
		if g := staticFn(cc); g != nil && o.c.inModule(g) {
			o.r.Add("calls inside map iterations (callee assumed order-free)", 1)
		}
	}
	return ""
}

func accOf(v ssa.Value, mu *ssa.MapUpdate) (bool, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || isFloat(v.Type()) || isStrT(v.Type()) {
		return false, false
	}
	for _, s := range []ssa.Value{b.X, b.Y} {
		if l, ok := s.(*ssa.Lookup); ok && sameExpr(l.Index, mu.Key) {
			return true, true
		}
	}
	return false, false
}

func (m *mapLoop) mentionsAddr(v, addr ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && (u.X == addr || sameExpr(u.X, addr)) {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok || !m.in(i.Block()) {
			return false
		}
		for _, op := range i.Operands(nil) {
			if rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func isSortCall(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// sorter: a module function that sorts its i-th parameter before anything else
func (o *orderChk) sortsParam(g *ssa.Function, i, depth int) bool {
	if depth > 2 || i >= len(g.Params) || len(g.Blocks) == 0 {
		return false
	}
	return o.uses(g, g.Params[i], nil, depth+1, true) == "sorted"
}

// listUse: the list (a phi of the loop, or the slice filled in it) built in map order. ""
// when every look at it outside the loop comes after a sort.
func (o *orderChk) listUse(fn *ssa.Function, list ssa.Value, m *mapLoop, depth int) string {
	w := o.uses(fn, list, m, depth, false)
	if w == "sorted" {
		return ""
	}
	return w
}

type useAt struct {
	in  ssa.Instruction
	via ssa.Value
}

func (o *orderChk) uses(fn *ssa.Function, list ssa.Value, m *mapLoop, depth int, sorter bool) string {
	var us []useAt
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			inside := m != nil && ref.Block() != nil && m.in(ref.Block())
			switch y := ref.(type) {
			case *ssa.Phi:
				rec(y)
				continue
			case *ssa.ChangeType:
				rec(y)
				continue
			case *ssa.Convert:
				rec(y)
				continue
			case *ssa.MakeInterface:
				rec(y)
				continue
			case *ssa.Slice:
				if !inside {
					rec(y)
					continue
				}
			case *ssa.Call:
				if isBuiltin(y.Common(), "append") && y.Common().Args[0] == v {
					rec(y)
					continue
				}
			case *ssa.Store:
				if y.Addr == v {
					continue
				}
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v {
					us = append(us, o.allocUses(al, m)...)
					continue
				}
			case *ssa.MakeClosure:
				continue
			}
			if !inside {
				us = append(us, useAt{ref, v})
			}
		}
	}
	rec(list)
	if al, ok := list.(*ssa.Alloc); ok {
		us = append(us, o.allocUses(al, m)...)
	}
	if u, ok := list.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			us = append(us, o.allocUses(al, m)...)
		}
	}
	return o.judge(fn, us, depth, sorter)
}

func (o *orderChk) allocUses(al *ssa.Alloc, m *mapLoop) []useAt {
	var us []useAt
	var fromLoad func(v ssa.Value)
	fromLoad = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			switch y := ref.(type) {
			case *ssa.MakeInterface:
				fromLoad(y)
				continue
			case *ssa.ChangeType:
				fromLoad(y)
				continue
			}
			if m != nil && m.in(ref.Block()) {
				continue
			}
			us = append(us, useAt{ref, v})
		}
	}
	for _, ref := range *al.Referrers() {
		if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
			fromLoad(u)
		}
	}
	return us
}

func (o *orderChk) listAddr(fn *ssa.Function, addr ssa.Value, m *mapLoop) string {
	if al, ok := addr.(*ssa.Alloc); ok {
		w := o.judge(fn, o.allocUses(al, m), 0, false)
		if w == "sorted" {
			return ""
		}
		return w
	}
	return "a list is collected in map order into a variable that outlives the call"
}

func (o *orderChk) judge(fn *ssa.Function, us []useAt, depth int, sorter bool) string {
	var sorts []ssa.Instruction
	for _, u := range us {
		if cc := callOf(u.in); cc != nil {
			if isSortCall(cc) {
				sorts = append(sorts, u.in)
			} else if g := staticFn(cc); g != nil && o.c.inModule(g) {
				for k, a := range cc.Args {
					if a == u.via && o.sortsParam(g, k, depth) {
						sorts = append(sorts, u.in)
					}
				}
			}
		}
	}
	for _, u := range us {
		ok := false
		for _, s := range sorts {
			if s == u.in || dominatesInstr(s, u.in) {
				ok = true
			}
		}
		if ok {
			continue
		}
		switch y := u.in.(type) {
		case *ssa.Return:
			if sorter {
				continue
			}
			if token.IsExported(fn.Name()) && fn.Parent() == nil || depth > 2 {
				return "returns a list in map order"
			}
			for _, ci := range o.calls[fn] {
				v, okv := ci.(ssa.Value)
				if !okv {
					continue
				}
				if fn.Signature.Results().Len() > 1 {
					continue
				}
				if w := o.uses(ci.Parent(), v, nil, depth+1, false); w != "" && w != "sorted" {
					return w + " (in " + fname(ci.Parent()) + ", list built by " + fname(fn) + ")"
				}
			}
			continue
		case *ssa.Call:
			cc := y.Common()
			if isBuiltin(cc, "len") || isBuiltin(cc, "cap") {
				continue
			}
			if n := calleeName(cc); strings.HasPrefix(n, "strings.Join") {
				return "a list built in map order is joined unsorted"
			}
			if g := staticFn(cc); g != nil && o.c.inModule(g) && depth < 3 {
				for k, a := range cc.Args {
					if a == u.via && k < len(g.Params) {
						if w := o.uses(g, g.Params[k], nil, depth+1, false); w != "" && w != "sorted" {
							return w
						}
					}
				}
				continue
			}
		case *ssa.Store:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok && y.Val == u.via {
				return "a list in map order is stored in " + shortType(derefT(fa.X.Type())) + "." + fieldName(derefT(fa.X.Type()), fa.Field)
			}
			if _, ok := y.Addr.(*ssa.Global); ok {
				return "a list in map order is stored in a package variable"
			}
		case *ssa.IndexAddr:
			if sorter {
				continue
			}
			if k, ok := constInt(y.Index); ok {
				return fmt.Sprintf("element %d of a list in map order is used", k)
			}
			if w := o.iterated(fn, y, depth); w != "" {
				return w
			}
			o.r.Add("loops over unsorted lists", 1)
		}
	}
	if len(sorts) > 0 {
		return "sorted"
	}
	return ""
}

// iterated: a loop over a list in map order; definite violations are appends to a list
// that is looked at unsorted, writes to a stream.
func (o *orderChk) iterated(fn *ssa.Function, ia *ssa.IndexAddr, depth int) string {
	var l *loopInfo
	for _, x := range loopsOf(fn) {
		if x.blocks[ia.Block()] && (l == nil || len(x.blocks) < len(l.blocks)) {
			l = x
		}
	}
	if l == nil || depth > 3 {
		return ""
	}
	m := &mapLoop{loop: l}
	m.derive = map[ssa.Value]bool{ia: true}
	for ch := true; ch; {
		ch = false
		for b := range l.blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || m.derive[v] {
					continue
				}
				if ph, ok := i.(*ssa.Phi); ok && ph.Block() == l.header {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && m.derive[*op] {
						m.derive[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	for _, i := range l.header.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for _, u := range m.updates(ph) {
			if c, ok := u.(*ssa.Call); ok && isBuiltin(c.Common(), "append") && m.isAcc(c, ph) {
				if w := o.uses(fn, ph, m, depth+1, false); w != "" && w != "sorted" {
					return w
				}
			}
		}
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				n := calleeName(c.Common())
				for _, p := range []string{"(*strings.Builder).Write", "(*bytes.Buffer).Write", "(*bufio.Writer).Write", "(*os.File).Write", "io.WriteString", "fmt.Fprint"} {
					if strings.HasPrefix(n, p) {
						for _, a := range c.Common().Args {
							if m.derive[a] {
								return "a list in map order is written unsorted (" + n + ")"
							}
						}
					}
				}
			}
		}
	}
	return ""
}

func e04(c *Ctx, r *Rep) {
	res := newResolver(c)
	roots := e04Roots(c, r)
	pred := res.reachable(roots, isTraining)
	o := &orderChk{c: c, r: r, calls: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, fn := range c.moduleFuncs() {
		eachInstr(fn, func(i ssa.Instruction) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if g := staticFn(ci.Common()); g != nil {
					o.calls[g] = append(o.calls[g], ci)
				}
			}
		})
	}
	var fns []*ssa.Function
	for f := range pred {
		fns = append(fns, f)
	}
	for _, f := range c.moduleFuncs() { // package variable initialisers
		if f.Name() == "init" || f.Parent() != nil && exportedRoot(f).Name() == "init" {
			if _, ok := pred[f]; !ok {
				fns = append(fns, f)
			}
		}
	}
	sortFns(fns)
	r.Add("functions", len(fns))
	readOnly := res.reachable(append(readRoots(c, r), loaderRoots(c)...), isTraining)
	for _, fn := range fns {
		if isTraining(fn) || strings.Contains(fnPkgPath(fn), "/example") {
			continue
		}
		_, rd := readOnly[fn]
		eachInstr(fn, func(i ssa.Instruction) {
			if x, ok := i.(*ssa.Range); ok {
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					o.mapRange(fn, x)
				}
			}
			c2 := callOf(i)
			if c2 == nil {
				return
			}
			n := calleeName(c2)
			g := n
			if k := strings.IndexByte(g, '['); k > 0 {
				g = g[:k]
			}
			switch g {
			case "slices.Collect", "(reflect.Value).MapKeys", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
				if v, ok := i.(ssa.Value); ok && (g != "slices.Collect" || fromMapIter(c2.Args[0])) {
					w := o.uses(fn, v, nil, 0, false)
					if w == "sorted" {
						w = ""
					}
					r.Check(w == "", "map-order", fname(fn)+"|"+g, i.Pos(), "sorted before use", w)
				}
			}
			if rd {
				o.entropy(fn, i, c2, n, pred)
			}
		})
	}
	r.Min("map iterations", 10)
}

func fromMapIter(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && (strings.HasPrefix(calleeName(c.Common()), "maps.Keys") || strings.HasPrefix(calleeName(c.Common()), "maps.Values"))
}

func loaderRoots(c *Ctx) (out []*ssa.Function) {
	for _, fn := range c.moduleFuncs() {
		if fn.Parent() == nil && token.IsExported(fn.Name()) && !isTraining(fn) {
			p := fnPkgPath(fn)
			if strings.HasSuffix(p, "/pretrained") || strings.Contains(p, "/model/") {
				out = append(out, fn)
			}
		}
	}
	return out
}

// entropy: time and random sources reachable from encode, decode and loading
func (o *orderChk) entropy(fn *ssa.Function, i ssa.Instruction, cc *ssa.CallCommon, n string, pred map[*ssa.Function]*ssa.Function) {
	switch {
	case n == "time.Now":
		v, ok := i.(ssa.Value)
		if !ok {
			return
		}
		only := true
		for _, ref := range *v.Referrers() {
			if c2 := callOf(ref); c2 != nil && calleeName(c2) == "time.Since" {
				continue
			}
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			only = false
		}
		o.r.Check(only, "clock", fname(fn), i.Pos(), "only measures elapsed time", "the clock is read while encoding, decoding or loading; reached by "+pathTo(pred, fn))
	case strings.HasPrefix(n, "math/rand.New("), n == "math/rand.New", n == "math/rand/v2.New":
	case n == "math/rand.NewSource", n == "math/rand/v2.NewPCG":
	case strings.HasPrefix(n, "math/rand.") || strings.HasPrefix(n, "math/rand/v2.") || strings.HasPrefix(n, "crypto/rand."):
		o.r.Check(o.dropoutOnly(i), "random", fname(fn)+"|"+n, i.Pos(), "only decides a probability comparison", "an unseeded random source is used; reached by "+pathTo(pred, fn))
	case strings.HasPrefix(n, "(*math/rand.Rand).") || strings.HasPrefix(n, "(*math/rand/v2.Rand)."):
		seeded := o.constSeed(cc.Args[0], 0)
		o.r.Check(seeded || o.dropoutOnly(i), "random", fname(fn)+"|"+n, i.Pos(), "fixed seed, or only decides a probability comparison", "a random value with no fixed seed influences the result; reached by "+pathTo(pred, fn))
	}
}

func (o *orderChk) constSeed(v ssa.Value, d int) bool {
	c, ok := v.(*ssa.Call)
	if !ok || d > 4 {
		return false
	}
	n := calleeName(c.Common())
	if n == "math/rand.New" || n == "math/rand/v2.New" {
		s := c.Common().Args[0]
		if mi, ok := s.(*ssa.MakeInterface); ok {
			s = mi.X
		}
		return o.constSeed(s, d+1)
	}
	if n == "math/rand.NewSource" || n == "math/rand/v2.NewPCG" {
		for _, a := range c.Common().Args {
			if !constLike(a) {
				return false
			}
		}
		return true
	}
	return false
}

// every use of the random number is "number < probability" with a configured probability
func (o *orderChk) dropoutOnly(i ssa.Instruction) bool {
	v, ok := i.(ssa.Value)
	if !ok || !isFloat(v.Type()) {
		return false
	}
	n := 0
	okAll := true
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Convert:
				rec(y)
			case *ssa.BinOp:
				n++
				other := y.Y
				op := y.Op
				if other == v {
					other = y.X
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS}[op]
				}
				if op != token.LSS || constLike(other) {
					okAll = false
				}
			default:
				okAll = false
			}
		}
	}
	rec(v)
	return okAll && n > 0
}

func init() {
	props["E04"] = propMeta{
		run:     e04,
		explain: "Every iteration over a map in functions reachable from the exported API (training excepted) is classified by what leaves it: updates keyed by the entry, commutative integer accumulation and extrema are order-independent; lists built in map order must be sorted before any other look at them (followed through returns and into callees); last-entry-wins variables, writes to streams and channels in map order are violations. Reads of the clock and of random sources reachable from encode, decode and loading must have a constant seed or only decide a comparison with a configured probability.",
		assume:  []string{"a search that returns the entry satisfying a test assumes at most one entry satisfies it (Unicode script tables and sequence ranges are disjoint)", "callees invoked for each entry are assumed order-free unless they write to a stream", "ids of a vocabulary are distinct", "goroutine ordering is decided by E02"},
	}
}
