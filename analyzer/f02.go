package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F02: every acquired resource is released on every path to an exit of the function: a
// forward walk from each acquisition, with summaries of the functions that acquire or release
// for their callers.

type tri int // 0 never, 1 maybe, 2 always

type resource struct {
	c    *Ctx
	memo map[string]tri
	// functions that hand an open resource to their caller: result index
	opens map[*ssa.Function]int
	// functions that leave a lock held / the directory changed for their caller
	holds  map[*ssa.Function]string
	chdirs map[*ssa.Function]bool
	back   map[*ssa.Function]bool
}

// values is the set of values (and cells) that are the resource.
type values struct {
	is    map[ssa.Value]bool
	cells map[ssa.Value]bool
	wraps map[ssa.Value]bool // results of calls that were given it
}

func (v *values) any(x ssa.Value) bool { return v.is[x] || v.cells[x] }

func refs(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// derive closes the set over moves, boxing, local cells and the body of a response.
func derive(start []ssa.Value, cells []ssa.Value) *values {
	v := &values{is: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, wraps: map[ssa.Value]bool{}}
	var work []ssa.Value
	add := func(x ssa.Value) {
		if !v.is[x] {
			v.is[x] = true
			work = append(work, x)
		}
	}
	var cell func(x ssa.Value)
	cell = func(x ssa.Value) {
		if v.cells[x] {
			return
		}
		v.cells[x] = true
		for _, r := range refs(x) {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				add(u)
			}
		}
	}
	for _, x := range start {
		add(x)
	}
	for _, x := range cells {
		cell(x)
	}
	defer func() { // closures that hold it
		for _, m := range []map[ssa.Value]bool{v.is, v.cells} {
			for x := range m {
				for _, r := range refs(x) {
					if mc, ok := r.(*ssa.MakeClosure); ok {
						v.wraps[mc] = true
					}
				}
			}
		}
	}()
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, r := range refs(x) {
			switch y := r.(type) {
			case *ssa.Phi:
				add(y)
			case *ssa.MakeInterface:
				add(y)
			case *ssa.ChangeInterface:
				add(y)
			case *ssa.ChangeType:
				add(y)
			case *ssa.TypeAssert:
				add(y)
			case *ssa.Extract:
				if _, ok := x.(*ssa.TypeAssert); ok && y.Index == 0 {
					add(y)
				}
			case *ssa.Store:
				if a, ok := y.Addr.(*ssa.Alloc); ok && y.Val == x {
					cell(a)
				}
			case *ssa.FieldAddr:
				if st, ok := derefT(x.Type()).Underlying().(*types.Struct); ok && st.Field(y.Field).Name() == "Body" {
					cell(y)
				}
			case *ssa.Call:
				for _, a := range y.Call.Args {
					if a == x {
						v.wraps[y] = true
					}
				}
			}
		}
	}
	return v
}

type leak struct {
	at  ssa.Instruction
	why string
}

// walk follows control from (b, i); step says what an instruction does: 0 goes on, 1 ends the
// path well, 2 ends it undecided, 3 leaks. skip prunes branches.
type walker struct {
	step func(in ssa.Instruction) (int, string)
	skip func(f *ssa.If) int
	// cells of errors: overwritten cells prune nothing any more
	stale func(in ssa.Instruction) bool
}

func (w *walker) walk(b *ssa.BasicBlock, i int) (leaks []leak, unknown bool) {
	type st struct {
		b     *ssa.BasicBlock
		i     int
		stale bool
	}
	seen := map[st]bool{}
	work := []st{{b, i, false}}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		ended := false
		stale := s.stale
		for _, in := range s.b.Instrs[s.i:] {
			k, why := w.step(in)
			if k == 3 {
				leaks = append(leaks, leak{in, why})
			}
			if k == 2 {
				unknown = true
			}
			if k != 0 {
				ended = true
				break
			}
			if w.stale != nil && w.stale(in) {
				stale = true
			}
			if cc := callOf(in); cc != nil {
				if n := calleeName(cc); n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") {
					if _, isDefer := in.(*ssa.Defer); !isDefer {
						ended = true
						break
					}
				}
			}
		}
		if ended {
			continue
		}
		no := -1
		if f, ok := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If); ok && !stale && w.skip != nil {
			no = w.skip(f)
		}
		for j, x := range s.b.Succs {
			if j != no {
				work = append(work, st{x, 0, stale})
			}
		}
	}
	return
}

func closeName(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close"
	}
	f := cc.StaticCallee()
	return f != nil && f.Name() == "Close" && f.Signature.Recv() != nil
}

// releasesArg: does the call close the resource?
func (q *resource) closes(v *values, cc *ssa.CallCommon, depth int) tri {
	if closeName(cc) {
		if cc.IsInvoke() && v.is[cc.Value] {
			return 2
		}
		if !cc.IsInvoke() && len(cc.Args) > 0 && v.is[cc.Args[0]] {
			return 2
		}
	}
	if cc.IsInvoke() {
		for _, a := range cc.Args {
			if v.any(a) {
				return 0
			}
		}
		return 0
	}
	best := tri(0)
	up := func(t tri) {
		if t > best {
			best = t
		}
	}
	// closures given to a function that may run them
	for _, a := range cc.Args {
		if mc := closureOf(a); mc != nil && v.wraps[mc] {
			fn := mc.Fn.(*ssa.Function)
			for i, x := range mc.Bindings {
				if v.any(x) && q.closeSummary(fn, fn.FreeVars[i], v.cells[x], depth) > 0 {
					up(1)
				}
			}
		}
	}
	// a method value: f.Close
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		if f := mc.Fn.(*ssa.Function); strings.HasSuffix(f.Name(), "Close$bound") {
			for _, x := range mc.Bindings {
				if v.any(x) {
					return 2
				}
			}
		}
	}
	callee, binds := cc.StaticCallee(), []ssa.Value(nil)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		binds = mc.Bindings
	} else if callee == nil {
		// a function value of this function
		if mc := closureOf(cc.Value); mc != nil {
			callee, binds = mc.Fn.(*ssa.Function), mc.Bindings
		} else {
			for _, a := range cc.Args {
				if v.is[a] {
					up(1)
				}
			}
			if handed(cc.Value) {
				up(1)
			}
			return best
		}
	}
	if callee == nil || !q.c.inModule(callee) || len(callee.Blocks) == 0 || depth > 4 {
		return best
	}
	for i, a := range cc.Args {
		if v.is[a] && i < len(callee.Params) {
			up(q.closeSummary(callee, callee.Params[i], false, depth))
		}
	}
	for i, a := range binds {
		if v.cells[a] {
			up(q.closeSummary(callee, callee.FreeVars[i], true, depth))
		} else if v.is[a] {
			up(q.closeSummary(callee, callee.FreeVars[i], false, depth))
		}
	}
	return best
}

// handed: a function value that a call yielded.
func handed(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return handed(x.Tuple)
	case *ssa.Call:
		return true
	}
	return false
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if s := soleStore(a); s != nil {
				return closureOf(s)
			}
		}
	}
	return nil
}

func (q *resource) closeSummary(fn *ssa.Function, p ssa.Value, cell bool, depth int) tri {
	k := fmt.Sprintf("%p/%p", fn, p)
	if t, ok := q.memo[k]; ok {
		return t
	}
	q.memo[k] = 0
	var v *values
	if cell {
		v = derive(nil, []ssa.Value{p})
	} else {
		v = derive([]ssa.Value{p}, nil)
	}
	may := false
	w := &walker{step: func(in ssa.Instruction) (int, string) {
		if cc := callOf(in); cc != nil {
			switch q.closes(v, cc, depth+1) {
			case 2:
				may = true
				return 1, ""
			case 1:
				may = true
				return 2, ""
			}
		}
		if q.escapes(v, in) {
			may = true
			return 2, ""
		}
		if _, ok := in.(*ssa.Return); ok {
			return 3, ""
		}
		return 0, ""
	}, skip: func(f *ssa.If) int { return nilBranch(v, f) }}
	leaks, unknown := w.walk(fn.Blocks[0], 0)
	t := tri(0)
	switch {
	case may && len(leaks) == 0 && !unknown:
		t = 2
	case may:
		t = 1
	}
	q.memo[k] = t
	return t
}

// nilBranch is the successor on which the resource is nil.
func nilBranch(v *values, f *ssa.If) int {
	b, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) || !v.is[x] {
		return -1
	}
	if b.Op == token.EQL {
		return 0
	}
	if b.Op == token.NEQ {
		return 1
	}
	return -1
}

// escapes: the resource is kept by something else.
func (q *resource) escapes(v *values, in ssa.Instruction) bool {
	held := func(x ssa.Value) bool { return v.is[x] || v.wraps[x] }
	switch x := in.(type) {
	case *ssa.Store:
		if !held(x.Val) {
			return false
		}
		_, local := x.Addr.(*ssa.Alloc)
		if fv, ok := x.Addr.(*ssa.FreeVar); ok && v.cells[fv] {
			local = true
		}
		return !local
	case *ssa.MapUpdate:
		return held(x.Value) || held(x.Key)
	case *ssa.Send:
		return held(x.X)
	case *ssa.Go:
		for _, a := range x.Call.Args {
			if v.any(a) {
				return true
			}
		}
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			for _, a := range mc.Bindings {
				if v.any(a) {
					return true
				}
			}
		}
	case *ssa.Return:
		for _, a := range x.Results {
			if held(a) {
				return true
			}
		}
	}
	return false
}

// opened lists the acquisitions of fn: the call and the index of the resource among its results.
func (q *resource) opened(in ssa.Instruction) (idx int, what string) {
	call, ok := in.(*ssa.Call)
	if !ok {
		return -1, ""
	}
	cc := call.Common()
	f := cc.StaticCallee()
	if f == nil {
		return -1, ""
	}
	if i, ok := q.opens[f]; ok {
		return i, "what " + f.Name() + " opens"
	}
	if q.c.inModule(f) {
		return -1, ""
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch rs.At(i).Type().String() {
		case "*os.File":
			return i, "the file"
		case "*net/http.Response":
			return i, "the response body"
		}
	}
	return -1, ""
}

func (q *resource) files(r *Rep, fn *ssa.Function, report bool) (changed bool) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			idx, what := q.opened(in)
			if idx < 0 {
				continue
			}
			call := in.(*ssa.Call)
			var res, errs []ssa.Value
			if call.Call.Signature().Results().Len() == 1 {
				res = append(res, call)
			}
			for _, u := range refs(call) {
				if e, ok := u.(*ssa.Extract); ok {
					if e.Index == idx {
						res = append(res, e)
					} else if isErr(e.Type()) {
						errs = append(errs, e)
					}
				}
			}
			v := derive(res, nil)
			ev := derive(errs, nil)
			first := map[ssa.Instruction]bool{}
			for c := range ev.cells {
				for _, u := range refs(c) {
					if s, ok := u.(*ssa.Store); ok && s.Addr == c && ev.is[s.Val] {
						first[s] = true
					}
				}
			}
			escaped := false
			w := &walker{
				step: func(x ssa.Instruction) (int, string) {
					if x == in {
						return 3, "is reached again"
					}
					if cc := callOf(x); cc != nil {
						switch q.closes(v, cc, 0) {
						case 2:
							return 1, ""
						case 1:
							if d, ok := x.(*ssa.Defer); ok {
								if cell := q.onError(v, d); cell != nil {
									if l := errNilExit(in, d, cell); l != nil {
										return 3, "is closed on errors only"
									}
									return 1, ""
								}
							}
							return 2, ""
						}
					}
					if q.escapes(v, x) {
						escaped = true
						if ret, ok := x.(*ssa.Return); ok {
							for k, y := range ret.Results {
								if v.is[y] {
									if _, had := q.opens[fn]; !had && q.c.inModule(fn) {
										q.opens[fn] = k
										changed = true
									}
								}
							}
						}
						return 1, ""
					}
					if _, ok := x.(*ssa.Return); ok {
						return 3, "is returned from"
					}
					return 0, ""
				},
				skip: func(f *ssa.If) int {
					if n := nilBranch(v, f); n >= 0 {
						return n
					}
					if n := nilBranch(ev, f); n >= 0 {
						return 1 - n
					}
					return -1
				},
				stale: func(x ssa.Instruction) bool {
					s, ok := x.(*ssa.Store)
					return ok && ev.cells[s.Addr] && !first[s]
				},
			}
			leaks, unknown := w.walk(b, i+1)
			if !report {
				continue
			}
			r.Add("acquisitions", 1)
			key := fname(fn) + "|" + calleeName(call.Common())
			switch {
			case len(leaks) > 0:
				r.Bad("close", key, in.Pos(), fmt.Sprintf("%s opened here is not closed on the path that ends at %s", what, q.c.pos(leakPos(leaks[0].at))))
			case unknown:
				r.Undecided("close", key, "closed by code that closes conditionally")
			case escaped:
				r.OK("close", key, in.Pos(), "handed on, or closed on every path")
			default:
				r.OK("close", key, in.Pos(), "closed on every path")
			}
		}
	}
	return
}

// onError: the deferred closure closes exactly when a captured error is not nil; the cell of it.
func (q *resource) onError(v *values, d *ssa.Defer) ssa.Value {
	mc := closureOf(d.Call.Value)
	if mc == nil {
		return nil
	}
	fn := mc.Fn.(*ssa.Function)
	var inner *values
	for i, a := range mc.Bindings {
		if v.cells[a] {
			inner = derive(nil, []ssa.Value{fn.FreeVars[i]})
		} else if v.is[a] {
			inner = derive([]ssa.Value{fn.FreeVars[i]}, nil)
		}
	}
	if inner == nil {
		return nil
	}
	for i, a := range mc.Bindings {
		if !isErr(derefT(a.Type())) {
			continue
		}
		ev := derive(nil, []ssa.Value{fn.FreeVars[i]})
		run := func(isNil bool) (closed, left bool) {
			w := &walker{step: func(in ssa.Instruction) (int, string) {
				if cc := callOf(in); cc != nil && q.closes(inner, cc, 1) == 2 {
					closed = true
					return 1, ""
				}
				if _, ok := in.(*ssa.Return); ok {
					left = true
					return 1, ""
				}
				return 0, ""
			}, skip: func(f *ssa.If) int {
				n := nilBranch(ev, f)
				if n >= 0 && isNil {
					n = 1 - n
				}
				return n
			}}
			w.walk(fn.Blocks[0], 0)
			return
		}
		c1, l1 := run(false)
		c0, l0 := run(true)
		if c1 && !l1 && !c0 && l0 {
			return a
		}
	}
	return nil
}

// errNilExit: an exit reached from the acquisition through the defer at which the error is nil.
func errNilExit(from ssa.Instruction, d *ssa.Defer, cell ssa.Value) ssa.Instruction {
	ev := derive(nil, []ssa.Value{cell})
	type st struct {
		b      *ssa.BasicBlock
		i      int
		nilErr int // 0 unknown, 1 nil, 2 not nil
		passed bool
	}
	seen := map[st]bool{}
	work := []st{{from.Block(), instrIndex(from) + 1, 0, false}}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		if terminates(s.b) {
			continue
		}
		for _, in := range s.b.Instrs[s.i:] {
			switch x := in.(type) {
			case *ssa.Defer:
				if x == d {
					s.passed = true
				}
			case *ssa.Store:
				if x.Addr == cell {
					s.nilErr = 0
					if isNilConst(x.Val) {
						s.nilErr = 1
					}
				}
			case *ssa.Return:
				if s.passed && s.nilErr == 1 {
					return x
				}
			}
		}
		no := -1
		if f, ok := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If); ok {
			no = nilBranch(ev, f)
		}
		for j, x := range s.b.Succs {
			n := s.nilErr
			if no >= 0 {
				n = 2
				if j == no {
					n = 1
				}
			}
			work = append(work, st{x, 0, n, s.passed})
		}
	}
	return nil
}

func leakPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	b := in.Block()
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return in.Parent().Pos()
}

// locks

func lockCall(cc *ssa.CallCommon) (op, key string) {
	if cc == nil || cc.IsInvoke() || len(cc.Args) == 0 {
		return "", ""
	}
	n := calleeName(cc)
	if !strings.HasPrefix(n, "(*sync.Mutex).") && !strings.HasPrefix(n, "(*sync.RWMutex).") {
		return "", ""
	}
	rt, p := accessPath(cc.Args[0])
	return n[strings.LastIndexByte(n, '.')+1:], rootKey(rt) + strings.ReplaceAll(p, "*", "")
}

func rootKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("#%d", i)
			}
		}
	case *ssa.Global:
		return "global:" + x.String()
	case *ssa.FreeVar:
		// the captured variable of the enclosing function
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv == x && fn.Parent() != nil {
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							rt, p := accessPath(mc.Bindings[i])
							return rootKey(rt) + strings.ReplaceAll(p, "*", "")
						}
					}
				}
			}
		}
	case *ssa.Alloc:
		// a local that holds one value stands for it (receivers that are captured)
		if s := soleStore(x); s != nil {
			rt, p := accessPath(s)
			if _, isAlloc := rt.(*ssa.Alloc); !isAlloc {
				return rootKey(rt) + strings.ReplaceAll(p, "*", "")
			}
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

// translate a key of the callee to the caller's.
func callerKey(key string, cc *ssa.CallCommon) (string, bool) {
	if strings.HasPrefix(key, "global:") {
		return key, true
	}
	if !strings.HasPrefix(key, "#") || cc.IsInvoke() {
		return "", false
	}
	n := 1
	for n < len(key) && key[n] >= '0' && key[n] <= '9' {
		n++
	}
	i := 0
	fmt.Sscanf(key[1:n], "%d", &i)
	if i >= len(cc.Args) {
		return "", false
	}
	rt, p := accessPath(cc.Args[i])
	return rootKey(rt) + strings.ReplaceAll(p, "*", "") + key[n:], true
}

func unlockOf(op string) string {
	if op == "RLock" {
		return "RUnlock"
	}
	return "Unlock"
}

// unlocks: does the call release the lock of this key?
func (q *resource) unlocks(cc *ssa.CallCommon, op, key string, depth int) tri {
	if o, k := lockCall(cc); o != "" {
		if o == unlockOf(op) && k == key {
			return 2
		}
		return 0
	}
	f := cc.StaticCallee()
	if !cc.IsInvoke() && handed(cc.Value) {
		return 1
	}
	if mc := closureOf(cc.Value); mc != nil {
		f = mc.Fn.(*ssa.Function)
		if strings.HasSuffix(f.Name(), "nlock$bound") && len(mc.Bindings) == 1 {
			rt, p := accessPath(mc.Bindings[0])
			want := unlockOf(op) + "$bound"
			if f.Name() == want && rootKey(rt)+strings.ReplaceAll(p, "*", "") == key {
				return 2
			}
		}
	}
	if f == nil || len(f.Blocks) == 0 || !q.c.inModule(f) || depth > 3 {
		return 0
	}
	var inner string
	if f.Parent() != nil {
		inner = key // closures: keys are those of the enclosing function
	} else {
		// which key of the callee is this one?
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if o, k := lockCall(callOf(in)); o == unlockOf(op) {
					if ck, ok := callerKey(k, cc); ok && ck == key {
						inner = k
					}
				}
			}
		}
		if inner == "" {
			return 0
		}
	}
	memo := fmt.Sprintf("unlock %p %s %s", f, op, inner)
	if t, ok := q.memo[memo]; ok {
		return t
	}
	q.memo[memo] = 0
	may := false
	w := &walker{step: func(in ssa.Instruction) (int, string) {
		if o, k := lockCall(callOf(in)); o == op && k == inner {
			return 1, "" // takes it itself
		}
		if cc := callOf(in); cc != nil {
			if t := q.unlocks(cc, op, inner, depth+1); t > 0 {
				may = true
				return int(3 - t), ""
			}
		}
		if _, ok := in.(*ssa.Return); ok {
			return 3, ""
		}
		return 0, ""
	}}
	leaks, unknown := w.walk(f.Blocks[0], 0)
	t := tri(0)
	if may {
		t = 1
		if len(leaks) == 0 && !unknown {
			t = 2
		}
	}
	q.memo[memo] = t
	return t
}

// takes: the locks a function takes on its way, by key, directly or through its callees.
func (q *resource) takes(f *ssa.Function, depth int) map[string]string {
	out := map[string]string{}
	if depth > 5 {
		return out
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			cc := callOf(in)
			if cc == nil {
				continue
			}
			if o, k := lockCall(cc); o == "Lock" || o == "RLock" {
				if strings.HasPrefix(k, "#") || strings.HasPrefix(k, "global:") {
					out[k] = o
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil && g != f && q.c.inModule(g) && g.Parent() == nil {
				for k, o := range q.takes(g, depth+1) {
					if ck, ok := callerKey(k, cc); ok && (strings.HasPrefix(ck, "#") || strings.HasPrefix(ck, "global:")) {
						out[ck] = o
					}
				}
			}
		}
	}
	return out
}

func (q *resource) locks(r *Rep, fn *ssa.Function, report bool) (changed bool) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			cc := callOf(in)
			if cc == nil {
				continue
			}
			op, key := lockCall(cc)
			if op != "Lock" && op != "RLock" {
				op, key = "", ""
				if f := cc.StaticCallee(); f != nil {
					if h, ok := q.holds[f]; ok {
						o, k, _ := strings.Cut(h, " ")
						if ck, ok := callerKey(k, cc); ok {
							op, key = o, ck
						}
					}
				}
			}
			if op == "" {
				continue
			}
			exits := 0
			deferred := false
			w := &walker{step: func(x ssa.Instruction) (int, string) {
				cc := callOf(x)
				_, isDefer := x.(*ssa.Defer)
				_, isGo := x.(*ssa.Go)
				if cc != nil && !isGo {
					if t := q.unlocks(cc, op, key, 0); t > 0 {
						if isDefer {
							deferred = true
						}
						return int(3 - t), ""
					}
					if !isDefer {
						if o, k := lockCall(cc); k == key && (o == "Lock" || (o == "RLock" && op == "Lock")) {
							return 3, "again"
						}
						if f := cc.StaticCallee(); f != nil && q.c.inModule(f) && f.Parent() == nil {
							for k, o := range q.takes(f, 0) {
								if ck, ok := callerKey(k, cc); ok && ck == key && (op == "Lock" || o == "Lock") {
									return 3, "again"
								}
							}
						}
					}
				}
				if _, ok := x.(*ssa.Return); ok {
					exits++
					return 3, "exit"
				}
				return 0, ""
			}}
			leaks, unknown := w.walk(b, i+1)
			again := leak{}
			for _, l := range leaks {
				if l.why == "again" {
					again = l
				}
			}
			// unlocked by a defer: still held while the rest runs
			if deferred && again.at == nil {
				if x := q.lockedAgain(in, op, key); x != nil {
					again = leak{x, "again"}
				}
			}
			if again.at == nil && len(leaks) > 0 && !unknown && q.allHold(fn, in, op, key) && (strings.HasPrefix(key, "#") || strings.HasPrefix(key, "global:")) && !exportedFunc(fn) {
				if _, ok := q.holds[fn]; !ok {
					q.holds[fn] = op + " " + key
					changed = true
				}
				if report {
					r.OK("unlock", fname(fn)+"|"+op, in.Pos(), "taken for the caller")
				}
				continue
			}
			if !report {
				continue
			}
			r.Add("locks taken", 1)
			k := fname(fn) + "|" + op
			switch {
			case again.at != nil:
				r.Bad("unlock", k, in.Pos(), fmt.Sprintf("the lock is taken again at %s while it is held", q.c.pos(leakPos(again.at))))
			case len(leaks) > 0:
				r.Bad("unlock", k, in.Pos(), fmt.Sprintf("the lock taken here is still held where the function ends at %s", q.c.pos(leakPos(leaks[0].at))))
			case unknown:
				r.Undecided("unlock", k, "released by code that releases conditionally")
			default:
				r.OK("unlock", k, in.Pos(), "released on every path")
			}
		}
	}
	return
}

// lockedAgain looks for a second acquisition on the paths on which only a defer releases.
func (q *resource) lockedAgain(in ssa.Instruction, op, key string) ssa.Instruction {
	var found ssa.Instruction
	w := &walker{step: func(x ssa.Instruction) (int, string) {
		cc := callOf(x)
		if cc == nil {
			return 0, ""
		}
		if _, isDefer := x.(*ssa.Defer); isDefer {
			return 0, ""
		}
		if _, isGo := x.(*ssa.Go); isGo {
			return 0, ""
		}
		if q.unlocks(cc, op, key, 0) > 0 {
			return 1, ""
		}
		if o, k := lockCall(cc); k == key && (o == "Lock" || (o == "RLock" && op == "Lock")) {
			found = x
			return 1, ""
		}
		if f := cc.StaticCallee(); f != nil && q.c.inModule(f) && f.Parent() == nil {
			for k, o := range q.takes(f, 0) {
				if ck, ok := callerKey(k, cc); ok && ck == key && (op == "Lock" || o == "Lock") {
					found = x
					return 1, ""
				}
			}
		}
		return 0, ""
	}}
	w.walk(in.Block(), instrIndex(in)+1)
	return found
}

// allHold: every path from the entry to an exit takes the lock and keeps it.
func (q *resource) allHold(fn *ssa.Function, in ssa.Instruction, op, key string) bool {
	ok := true
	w := &walker{step: func(x ssa.Instruction) (int, string) {
		if x == in {
			return 1, ""
		}
		if _, isRet := x.(*ssa.Return); isRet {
			ok = false
		}
		return 0, ""
	}}
	w.walk(fn.Blocks[0], 0)
	w = &walker{step: func(x ssa.Instruction) (int, string) {
		if cc := callOf(x); cc != nil && q.unlocks(cc, op, key, 0) > 0 {
			ok = false
		}
		return 0, ""
	}}
	w.walk(in.Block(), instrIndex(in)+1)
	return ok
}

func exportedFunc(fn *ssa.Function) bool {
	return fn.Parent() == nil && token.IsExported(fn.Name())
}

// the working directory

// fromGetwd: the value is a directory asked for, a parameter, or comes from a function of the module.
func (q *resource) fromGetwd(v ssa.Value, seen map[ssa.Value]bool) (getwd []ssa.Instruction, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		return q.fromGetwd(x.Tuple, seen)
	case *ssa.Call:
		if calleeName(x.Common()) == "os.Getwd" {
			return []ssa.Instruction{x}, true
		}
		if f := x.Call.StaticCallee(); f != nil && q.c.inModule(f) {
			return nil, true
		}
		return nil, false
	case *ssa.Phi:
		ok = true
		for _, e := range x.Edges {
			g, o := q.fromGetwd(e, seen)
			getwd = append(getwd, g...)
			ok = ok && o
		}
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				if s := soleStore(a); s != nil {
					return q.fromGetwd(s, seen)
				}
				return nil, true
			case *ssa.FreeVar:
				fn := a.Parent()
				for i, fv := range fn.FreeVars {
					if fv != a || fn.Parent() == nil {
						continue
					}
					for _, b := range fn.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
								if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
									if s := soleStore(al); s != nil {
										return q.fromGetwd(s, seen)
									}
								}
							}
						}
					}
				}
				return nil, true
			}
		}
		return nil, true
	case *ssa.Const:
		return nil, false
	case *ssa.Parameter, *ssa.FreeVar:
		return nil, true
	}
	return nil, true
}

// restores: the call changes to a directory that was asked for before.
func (q *resource) restores(cc *ssa.CallCommon, depth int) (tri, []ssa.Instruction) {
	if calleeName(cc) == "os.Chdir" {
		g, ok := q.fromGetwd(cc.Args[0], map[ssa.Value]bool{})
		if ok && (len(g) > 0 || depth > 0) {
			return 2, g
		}
		if ok {
			if _, isParam := cc.Args[0].(*ssa.Parameter); isParam {
				return 2, g
			}
		}
		return 0, nil
	}
	f := cc.StaticCallee()
	if !cc.IsInvoke() && handed(cc.Value) {
		return 1, nil
	}
	if mc := closureOf(cc.Value); mc != nil {
		f = mc.Fn.(*ssa.Function)
	}
	if f == nil || len(f.Blocks) == 0 || !q.c.inModule(f) || depth > 3 {
		return 0, nil
	}
	may, leaks := false, 0
	var gs []ssa.Instruction
	w := &walker{step: func(in ssa.Instruction) (int, string) {
		if c2 := callOf(in); c2 != nil {
			if calleeName(c2) == "os.Chdir" {
				if p, ok := c2.Args[0].(*ssa.Parameter); ok {
					for i, fp := range f.Params {
						if fp == p && i < len(cc.Args) {
							if g, ok := q.fromGetwd(cc.Args[i], map[ssa.Value]bool{}); ok {
								gs = append(gs, g...)
								may = true
								return 1, ""
							}
						}
					}
					return 0, ""
				}
			}
			if t, g := q.restores(c2, depth+1); t > 0 {
				gs = append(gs, g...)
				may = true
				return 1, ""
			}
		}
		if _, ok := in.(*ssa.Return); ok {
			leaks++
			return 3, ""
		}
		return 0, ""
	}}
	w.walk(f.Blocks[0], 0)
	if !may {
		return 0, nil
	}
	if leaks > 0 {
		return 1, gs
	}
	return 2, gs
}

func (q *resource) directory(r *Rep, fn *ssa.Function, report bool) (changed bool) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			cc := call.Common()
			direct := calleeName(cc) == "os.Chdir"
			f := cc.StaticCallee()
			if !direct && (f == nil || !q.chdirs[f]) {
				continue
			}
			if t, _ := q.restores(cc, 0); t > 0 {
				continue
			}
			w := &walker{step: func(x ssa.Instruction) (int, string) {
				if c2 := callOf(x); c2 != nil {
					switch t, gs := q.restores(c2, 0); t {
					case 2:
						for _, g := range gs {
							if g.Parent() == fn && (g.Block() == b && instrIndex(g) > i || g.Block() != b && b.Dominates(g.Block())) {
								return 3, "wrong"
							}
						}
						return 1, ""
					case 1:
						return 2, ""
					}
				}
				if _, ok := x.(*ssa.Return); ok {
					return 3, "exit"
				}
				return 0, ""
			}, skip: func(f *ssa.If) int {
				if !isErr(call.Type()) {
					return -1
				}
				if n := nilBranch(derive([]ssa.Value{call}, nil), f); n >= 0 {
					return 1 - n
				}
				return -1
			}}
			leaks, unknown := w.walk(b, i+1)
			wrong := false
			for _, l := range leaks {
				wrong = wrong || l.why == "wrong"
			}
			if len(leaks) > 0 && !wrong && (direct || !exportedFunc(fn) || onlyEffect(fn)) && (!q.asksDir(fn) || !exportedFunc(fn)) {
				if !q.chdirs[fn] {
					q.chdirs[fn] = true
					changed = true
				}
				continue
			}
			if !report {
				continue
			}
			r.Add("directory changes", 1)
			key := fname(fn) + "|" + calleeName(cc)
			switch {
			case wrong:
				r.Bad("directory", key, in.Pos(), "the directory gone back to is asked for after the change")
			case len(leaks) > 0:
				r.Bad("directory", key, in.Pos(), fmt.Sprintf("the working directory is still changed where the function ends at %s", q.c.pos(leakPos(leaks[0].at))))
			case unknown:
				r.Undecided("directory", key, "restored conditionally")
			default:
				r.OK("directory", key, in.Pos(), "restored on every path")
			}
		}
	}
	return
}

// onlyEffect: a function without results other than an error exists for what it does.
func onlyEffect(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 0 || rs.Len() == 1 && isErr(rs.At(0).Type())
}

func (q *resource) asksDir(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc := callOf(in); cc != nil && calleeName(cc) == "os.Getwd" {
				return true
			}
		}
	}
	return false
}

func f02(c *Ctx, r *Rep) {
	q := &resource{c: c, memo: map[string]tri{}, opens: map[*ssa.Function]int{}, holds: map[*ssa.Function]string{}, chdirs: map[*ssa.Function]bool{}, back: map[*ssa.Function]bool{}}
	fns := append([]*ssa.Function{}, c.Funcs...)
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	for n := 0; n < 6; n++ {
		again := false
		for _, f := range fns {
			a, b, d := q.files(r, f, false), q.locks(r, f, false), q.directory(r, f, false)
			again = again || a || b || d
		}
		q.memo = map[string]tri{}
		if !again {
			break
		}
	}
	for _, f := range fns {
		q.files(r, f, true)
		q.locks(r, f, true)
		q.directory(r, f, true)
		r.Add("functions", 1)
	}
	r.Min("functions", 300)
	r.Min("acquisitions", 8)
	r.Min("locks taken", 4)
	r.Min("directory changes", 2)
}

func init() {
	props["F02"] = propMeta{run: f02,
		explain: "Every function of the library is walked, from each acquisition (a call outside the module that yields an open file or a response, a Lock or RLock, a change of the working directory; or a function of the module that hands one on) along all control-flow paths. Branches on which the acquisition failed are left out. Each path must close, unlock or change back - directly, in a defer, in a closure, or in a function that does so on all of its paths - or hand the resource on, before the function ends or acquires again. A lock must not be taken again while it is held, also not through the functions called; the directory gone back to must have been asked for before the change.",
		assume:  []string{"a resource stored in a field, map, slice or channel, or returned, is its holder's to release", "functions outside the module do not close what they are given", "a function that ends the process releases everything"},
	}
}
