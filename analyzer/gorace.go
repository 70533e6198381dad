package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A spawn is a place where a goroutine is started.
type spawn struct {
	parent *ssa.Function
	instr  ssa.Instruction
	fn     *ssa.Function
	binds  map[ssa.Value]ssa.Value // free var / param of fn -> value in parent
	loop   *loopInfo               // innermost loop around the spawn (nil: started once)
	kind   string                  // "go", "errgroup", "waitgroup"
}

func bindClosure(v ssa.Value, args []ssa.Value, binds map[ssa.Value]ssa.Value) *ssa.Function {
	var fn *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			binds[fn.FreeVars[i]] = b
		}
	case *ssa.Function:
		fn = x
	}
	if fn != nil {
		for i, a := range args {
			if i < len(fn.Params) {
				binds[fn.Params[i]] = a
			}
		}
	}
	return fn
}

func findSpawns(c *Ctx) []*spawn {
	var out []*spawn
	for _, fn := range c.Funcs {
		eachInstr(fn, func(i ssa.Instruction) {
			s := &spawn{parent: fn, instr: i, binds: map[ssa.Value]ssa.Value{}}
			switch x := i.(type) {
			case *ssa.Go:
				s.fn = bindClosure(x.Call.Value, x.Call.Args, s.binds)
				s.kind = "go"
			case *ssa.Call:
				n := calleeName(x.Common())
				if (strings.HasSuffix(n, "errgroup.Group).Go") || n == "(*sync.WaitGroup).Go") && len(x.Call.Args) == 2 {
					s.fn = bindClosure(x.Call.Args[1], nil, s.binds)
					s.kind = "errgroup"
					if n == "(*sync.WaitGroup).Go" {
						s.kind = "waitgroup"
					}
				}
			}
			if s.kind != "" {
				s.loop = innermostLoop(i.Block())
				out = append(out, s)
			}
		})
	}
	return out
}

// single store into an alloc, or nil
func soleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			n++
			val = st.Val
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

// up resolves a value inside the goroutine to the value in the spawning function.
func (s *spawn) up(v ssa.Value) ssa.Value {
	for d := 0; d < 8; d++ {
		if b, ok := s.binds[v]; ok {
			v = b
			continue
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				var cell ssa.Value = x.X
				if b, ok := s.binds[cell]; ok {
					cell = b
				}
				if a, ok := cell.(*ssa.Alloc); ok {
					if w := soleStore(a); w != nil {
						v = w
						continue
					}
				}
				if ph, ok := cell.(*ssa.Phi); ok && stepCell(ph) {
					v = ph
					continue
				}
			}
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Alloc:
		}
		return v
	}
	return v
}

// iterVar: v (in the parent) takes a different value in every iteration of l.
// stepCell: a variable of a for statement with a post statement, captured in its body, is a
// fresh cell in every iteration (Go 1.22): the phi of the first cell and of the next one, which
// is written from the current one and then stepped by a constant.
func stepCell(ph *ssa.Phi) bool {
	if _, ok := ph.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, r := range *ph.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ph {
			return false
		}
	}
	for _, e := range ph.Edges {
		a, ok := e.(*ssa.Alloc)
		if !ok {
			return false
		}
		copied, stepped, other := false, false, 0
		for _, r := range *a.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != a {
				continue
			}
			switch x := st.Val.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && x.X == ph {
					copied = true
					continue
				}
			case *ssa.BinOp:
				if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == a && (x.Op == token.ADD || x.Op == token.SUB) {
					if n, ok := constInt(x.Y); ok && n != 0 {
						stepped = true
						continue
					}
				}
			}
			other++
		}
		if copied {
			if !stepped || other > 0 {
				return false
			}
		} else if other > 1 || stepped {
			return false
		}
	}
	return true
}

func iterVar(v ssa.Value, l *loopInfo) bool {
	if l == nil {
		return false
	}
	// 1.22 loop variable cells: load of a per-iteration alloc
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok && l.blocks[a.Block()] {
			if w := soleStore(a); w != nil {
				return iterVar(w, l)
			}
		}
	}
	if a, ok := v.(*ssa.Alloc); ok && l.blocks[a.Block()] {
		if w := soleStore(a); w != nil {
			return iterVar(w, l)
		}
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ph, ok := u.X.(*ssa.Phi); ok {
			return ph.Block() == l.header && stepCell(ph)
		}
	}
	step := func(ph *ssa.Phi) bool {
		if ph.Block() != l.header {
			return false
		}
		if stepCell(ph) {
			return true
		}
		for _, e := range ph.Edges {
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				if n, ok := constInt(b.Y); ok && n != 0 && b.X == ph {
					return true
				}
			}
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return step(x)
	case *ssa.BinOp:
		if ph, ok := x.X.(*ssa.Phi); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			if _, ok := constInt(x.Y); ok {
				return step(ph)
			}
		}
	}
	return false
}

// canonical identity of an iteration variable: its header phi plus constant offset
func iterKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if w := soleStore(a); w != nil {
				return iterKey(w)
			}
		}
		if ph, ok := x.X.(*ssa.Phi); ok && x.Op == token.MUL && stepCell(ph) {
			return iterKey(ph)
		}
	case *ssa.Alloc:
		if w := soleStore(x); w != nil {
			return iterKey(w)
		}
	case *ssa.BinOp:
		if n, ok := constInt(x.Y); ok {
			if x.Op == token.SUB {
				n = -n
			}
			if x.Op == token.ADD || x.Op == token.SUB {
				return fmt.Sprintf("%s+%d", iterKey(x.X), n)
			}
		}
	}
	return fmt.Sprintf("%p", v)
}

type access struct {
	root  ssa.Value // in the parent
	name  string
	path  string
	write bool
	locks map[string]bool
	idx   ssa.Value // in the parent, for element accesses
	in    ssa.Instruction
	sp    *spawn // nil: the spawning function itself
}

func pathName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Comment
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
		return x.Name()
	}
	return v.Name()
}

// collect the memory accesses of fn whose root is shared with the parent.
func (s *spawn) collect(fn *ssa.Function, binds map[ssa.Value]ssa.Value, depth int, entry map[string]bool) []access {
	var out []access
	locks := heldLocks(fn, entry)
	resolve := func(r ssa.Value) (ssa.Value, bool) {
		if g, ok := r.(*ssa.Global); ok {
			return g, true
		}
		if b, ok := binds[r]; ok {
			return b, true
		}
		return nil, false
	}
	add := func(addr ssa.Value, write bool, in ssa.Instruction, extra string) {
		r, p := accessPath(addr)
		root, shared := resolve(r)
		if !shared {
			return
		}
		p += extra
		// a value (not a cell) passed by argument: memory reached through it is shared,
		// the parameter itself is not
		if _, isParam := r.(*ssa.Parameter); isParam && p == "" && !write {
			return
		}
		r2, p2 := accessPath(root)
		_, rootIsAddr := r.(*ssa.FreeVar)
		if rootIsAddr || r2 == root {
			// keep
		} else {
			root, p = r2, p2+p
		}
		a := access{root: root, name: pathName(root), path: p, write: write, in: in, sp: s, locks: locks[in]}
		if ia, ok := addr.(*ssa.IndexAddr); ok {
			idx := ia.Index
			if b, ok := binds[idx]; ok {
				idx = b
			}
			a.idx = s.up(idx)
		}
		out = append(out, a)
	}
	eachInstr(fn, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Store:
			add(x.Addr, true, i, "")
		case *ssa.MapUpdate:
			add(x.Map, true, i, "[]")
		case *ssa.UnOp:
			if x.Op == token.MUL {
				add(x.X, false, i, "")
			}
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				add(x.X, false, i, "[]")
			}
		case *ssa.Range:
			add(x.X, false, i, "[]")
		}
		cc := callOf(i)
		if cc == nil {
			return
		}
		if isBuiltin(cc, "delete") {
			add(cc.Args[0], true, i, "[]")
			return
		}
		if isBuiltin(cc, "copy") {
			add(cc.Args[0], true, i, "[]")
			return
		}
		if depth <= 0 {
			return
		}
		// functions handed over, which may be called; Once orders what it runs
		if !strings.HasPrefix(calleeName(cc), "(*sync.Once).") && !strings.HasPrefix(calleeName(cc), "sync.Once") {
			for _, arg := range cc.Args {
				mc, ok := arg.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				sub := map[ssa.Value]ssa.Value{}
				for k, v := range mc.Bindings {
					if b, ok := binds[v]; ok {
						sub[mc.Fn.(*ssa.Function).FreeVars[k]] = b
					}
				}
				if len(sub) == 0 {
					continue
				}
				for _, a := range s.collect(mc.Fn.(*ssa.Function), sub, depth-1, locks[i]) {
					if a.write && !anyWriteLock(a.locks) {
						out = append(out, a)
					}
				}
			}
		}
		if cc.IsInvoke() {
			return
		}
		// descend into functions of this module with the shared values mapped
		nb := map[ssa.Value]ssa.Value{}
		callee := bindClosure(cc.Value, cc.Args, nb)
		if callee == nil || len(callee.Blocks) == 0 {
			return
		}
		p := fnPkgPath(callee)
		if !strings.HasPrefix(p, modPath) {
			return
		}
		sub := map[ssa.Value]ssa.Value{}
		for k, v := range nb {
			if b, ok := binds[v]; ok {
				sub[k] = b
				continue
			}
			r, _ := accessPath(v)
			if root, ok := resolve(r); ok {
				if !pointerLike(v.Type()) {
					continue
				}
				if v == r {
					sub[k] = root
				} else if root2, ok := s.derived(v, root); ok {
					sub[k] = root2
				}
			}
		}
		if len(sub) == 0 {
			return
		}
		for _, a := range s.collect(callee, sub, depth-1, locks[i]) {
			if a.write && !anyWriteLock(a.locks) {
				out = append(out, a)
			}
		}
	})
	return out
}

// derived: the pointer value v inside the goroutine refers to shared memory of the parent's root.
func (s *spawn) derived(v ssa.Value, root ssa.Value) (ssa.Value, bool) {
	return root, true
}

func anyWriteLock(l map[string]bool) bool {
	for k := range l {
		if strings.HasPrefix(k, "W:") {
			return true
		}
	}
	return false
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// chanOf: the channel received from by i, or nil.
func chansOf(i ssa.Instruction) []ssa.Value {
	if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW {
		return []ssa.Value{u.X}
	}
	if sel, ok := i.(*ssa.Select); ok && sel.Blocking {
		var out []ssa.Value
		for _, s := range sel.States {
			if s.Dir == types.RecvOnly {
				out = append(out, s.Chan)
			}
		}
		return out
	}
	return nil
}

// signals: what the goroutine does at its end that another can wait for: whether it is counted
// by a group, the channels of its spawner it sends on or closes, and the types of channels used
// deeper, where the channel is not known.
func (s *spawn) signals() (group bool, chans map[ssa.Value]bool, typs []types.Type) {
	chans = map[ssa.Value]bool{}
	group = s.kind != "go"
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function, d int)
	walk = func(fn *ssa.Function, d int) {
		if fn == nil || seen[fn] || d > 4 {
			return
		}
		seen[fn] = true
		use := func(ch ssa.Value) {
			if fn == s.fn {
				chans[rootOf(s.up(ch))] = true
			} else {
				typs = append(typs, ch.Type().Underlying())
			}
		}
		eachInstr(fn, func(i ssa.Instruction) {
			if x, ok := i.(*ssa.Send); ok {
				use(x.Chan)
			}
			if sel, ok := i.(*ssa.Select); ok {
				for _, st := range sel.States {
					if st.Dir == types.SendOnly {
						use(st.Chan)
					}
				}
			}
			cc := callOf(i)
			if cc == nil {
				return
			}
			if isBuiltin(cc, "close") {
				use(cc.Args[0])
			}
			if calleeName(cc) == "(*sync.WaitGroup).Done" {
				group = true
			}
			f := bindClosure(cc.Value, nil, map[ssa.Value]ssa.Value{})
			if f != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
				walk(f, d+1)
			}
			for _, a := range cc.Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function), d+1)
				}
			}
		})
	}
	walk(s.fn, 0)
	return
}

// joins: the instruction of the spawner waits for the goroutine, itself or by waiting for
// another goroutine that does.
func (s *spawn) joins(all []*spawn) func(ssa.Instruction) bool {
	group, chans, typs := s.signals()
	direct := func(i ssa.Instruction, up func(ssa.Value) ssa.Value) bool {
		if !isSync(i) {
			return false
		}
		if s.fn == nil {
			return true
		}
		cs := chansOf(i)
		if cs == nil {
			return group
		}
		for _, ch := range cs {
			if chans[rootOf(up(ch))] {
				return true
			}
			for _, t := range typs {
				if types.Identical(t.(*types.Chan).Elem(), ch.Type().Underlying().(*types.Chan).Elem()) {
					return true
				}
			}
		}
		return false
	}
	self := func(v ssa.Value) ssa.Value { return s.parentValue(v) }
	return func(i ssa.Instruction) bool {
		if direct(i, self) {
			return true
		}
		if !isSync(i) {
			return false
		}
		for _, t := range all {
			if t == s || t.fn == nil || t.parent != s.parent {
				continue
			}
			waits := false
			eachInstr(t.fn, func(j ssa.Instruction) { waits = waits || direct(j, t.up) })
			if !waits {
				continue
			}
			u := *t
			if u.joins(nil)(i) {
				return true
			}
		}
		return false
	}
}

// parentValue resolves a variable of the spawner that is assigned once.
func (s *spawn) parentValue(v ssa.Value) ssa.Value {
	u := &spawn{binds: map[ssa.Value]ssa.Value{}}
	return u.up(v)
}

func isSync(i ssa.Instruction) bool {
	if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW {
		return true
	}
	if sel, ok := i.(*ssa.Select); ok && sel.Blocking {
		return true
	}
	if cc := callOf(i); cc != nil {
		if _, isGo := i.(*ssa.Go); isGo {
			return false
		}
		n := calleeName(cc)
		return n == "(*sync.WaitGroup).Wait" || strings.HasSuffix(n, "errgroup.Group).Wait")
	}
	return false
}

// commonLock: the two accesses are both made holding one lock (write lock for a write).
func commonLock(a, b access) bool {
	for k := range a.locks {
		if strings.HasPrefix(k, "W:") && (b.locks[k] || b.locks["R:"+k[2:]]) && (!b.write || b.locks[k]) {
			return true
		}
		if strings.HasPrefix(k, "R:") && !a.write && b.locks["W:"+k[2:]] {
			return true
		}
	}
	return false
}

func overlap(a, b string) bool { return a == b }

// checkSpawnRaces decides, for one function that starts goroutines, whether any two
// accesses that may happen in parallel conflict.
func checkSpawnRaces(c *Ctx, r *Rep, parent *ssa.Function, sps []*spawn, rule string) {
	var accs []access
	for _, s := range sps {
		key := fname(parent) + " spawns " + strings.TrimPrefix(strings.TrimPrefix(fname(orFn(s.fn)), fname(parent)), "$")
		if s.fn == nil {
			r.Bad(rule, key, s.instr.Pos(), "the goroutine body cannot be resolved")
			continue
		}
		a := s.collect(s.fn, s.binds, 2, nil)
		accs = append(accs, a...)
		r.Add("goroutine starts analysed", 1)
		r.Add("shared accesses examined", len(a))
	}
	// accesses of the parent that may run in parallel with a spawned goroutine
	for _, s := range sps {
		join := s.joins(sps)
		conc := reachableFrom(s.instr, join)
		pl := heldLocks(parent, nil)
		for i := range conc {
			rec := func(addr ssa.Value, write bool, extra string) {
				root, p := accessPath(addr)
				// per-iteration cells re-created by the next iteration are different memory
				if al, ok := root.(*ssa.Alloc); ok && s.loop != nil && s.loop.blocks[al.Block()] {
					re := reachableFrom(s.instr, func(j ssa.Instruction) bool { return join(j) || j == ssa.Instruction(al) })
					if !re[i] {
						return
					}
				}
				a := access{root: root, name: pathName(root), path: p + extra, write: write, in: i, locks: pl[i]}
				if ia, ok := addr.(*ssa.IndexAddr); ok {
					a.idx = ia.Index
				}
				for _, g := range accs {
					if g.sp != s || g.root != root || !overlap(g.path, a.path) || !(g.write || a.write) || commonLock(g, a) {
						continue
					}
					if al, ok := root.(*ssa.Alloc); ok && write && a.path == "" && !g.write {
						// initialisation of the cell before the goroutine exists
						if dominatesInstr(i, s.instr) && !reachSelf(i, s, al) {
							continue
						}
					}
					r.Bad(rule, fmt.Sprintf("%s|%s%s|spawner", fname(parent), g.name, g.path), i.Pos(), fmt.Sprintf("%s %s%s while a goroutine started at %s may %s it; nothing waits for the goroutine first", rw(write), g.name, g.path, c.pos(s.instr.Pos()), rwInf(g.write)))
				}
			}
			switch x := i.(type) {
			case *ssa.Store:
				rec(x.Addr, true, "")
			case *ssa.MapUpdate:
				rec(x.Map, true, "[]")
			case *ssa.UnOp:
				if x.Op == token.MUL {
					rec(x.X, false, "")
				}
			case *ssa.Lookup:
				rec(x.X, false, "[]")
			case *ssa.Range:
				rec(x.X, false, "[]")
			}
		}
	}
	// accesses of different goroutine instances against each other
	reported := map[string]bool{}
	for i := range accs {
		for j := i; j < len(accs); j++ {
			a, b := accs[i], accs[j]
			if a.root != b.root || !overlap(a.path, b.path) || !(a.write || b.write) {
				continue
			}
			if a.sp == b.sp {
				if a.sp.loop == nil {
					continue // one instance only
				}
				if al, ok := a.root.(*ssa.Alloc); ok && a.sp.loop.blocks[al.Block()] {
					continue // every instance has its own cell
				}
				if a.idx != nil && b.idx != nil && iterVar(a.idx, a.sp.loop) && iterKey(a.idx) == iterKey(b.idx) {
					continue // each instance owns its slot
				}
			}
			if commonLock(a, b) || a.sp != b.sp && a.sp.over(b.sp, sps) && b.sp.over(a.sp, sps) {
				continue
			}
			k := fmt.Sprintf("%s|%s%s", fname(parent), a.name, a.path)
			if reported[k] {
				continue
			}
			reported[k] = true
			w := a
			if !w.write {
				w = b
			}
			r.Bad(rule, k, w.in.Pos(), fmt.Sprintf("goroutines write %s%s without a common lock, channel or private slot (other access at %s)", a.name, a.path, c.pos(b.in.Pos())))
		}
	}
	for _, a := range accs {
		k := fmt.Sprintf("%s|%s%s", fname(parent), a.name, a.path)
		if a.write && !reported[k] {
			reported[k] = true
			r.OK(rule, k, a.in.Pos(), "shared write is ordered by a lock, a private slot or a join")
		}
	}
	checkChannels(c, r, parent, sps, rule)
	// every worker is waited for before the spawning function uses results or returns
	for _, s := range sps {
		key := fmt.Sprintf("%s|%s", fname(parent), fname(orFn(s.fn)))
		join := s.joins(sps)
		conc := reachableFrom(s.instr, join)
		bad := ""
		for i := range conc {
			if _, ok := i.(*ssa.Return); ok {
				bad = "the function can return while the goroutine started at " + c.pos(s.instr.Pos()) + " is still running"
			}
		}
		r.Check(bad == "", rule+"-join", key, s.instr.Pos(), "every path to a return waits for the goroutine", bad)
		s.checkWaitGroup(c, r, rule, key)
	}
}

// over: no goroutine of s is still running where one of o is started.
func (s *spawn) over(o *spawn, all []*spawn) bool {
	return !reachableFrom(s.instr, s.joins(all))[o.instr]
}

func reachSelf(i ssa.Instruction, s *spawn, al *ssa.Alloc) bool {
	re := reachableFrom(s.instr, func(j ssa.Instruction) bool { return isSync(j) || j == ssa.Instruction(al) })
	return re[i]
}

func rw(w bool) string {
	if w {
		return "writes"
	}
	return "reads"
}
func rwInf(w bool) string {
	if w {
		return "write"
	}
	return "read"
}
func orFn(f *ssa.Function) *ssa.Function { return f }

// checkWaitGroup: Done is certain in the goroutine, Add happens before the start and
// announces exactly the goroutines started.
func (s *spawn) checkWaitGroup(c *Ctx, r *Rep, rule, key string) {
	if s.kind != "go" || s.fn == nil {
		return
	}
	isWG := func(i ssa.Instruction, m string) bool {
		cc := callOf(i)
		return cc != nil && calleeName(cc) == "(*sync.WaitGroup)."+m
	}
	var done []ssa.Instruction
	addInside := false
	eachInstr(s.fn, func(i ssa.Instruction) {
		if isWG(i, "Done") {
			done = append(done, i)
		}
		if isWG(i, "Add") {
			addInside = true
		}
	})
	var adds []*ssa.Call
	waits := false
	eachInstr(s.parent, func(i ssa.Instruction) {
		if isWG(i, "Add") {
			if call, ok := i.(*ssa.Call); ok {
				adds = append(adds, call)
			}
		}
		if isWG(i, "Wait") {
			waits = true
		}
	})
	if !waits || (len(done) == 0 && len(adds) == 0) {
		return
	}
	if len(done) == 0 {
		return // a goroutine joined another way (channel)
	}
	// Done on every path
	certain := false
	for _, d := range done {
		if _, ok := d.(*ssa.Defer); ok && d.Block() == s.fn.Blocks[0] {
			certain = true
		}
	}
	if !certain {
		stop := map[ssa.Instruction]bool{}
		for _, d := range done {
			stop[d] = true
		}
		certain = true
		first := s.fn.Blocks[0].Instrs[0]
		re := reachableFrom(first, func(i ssa.Instruction) bool { return stop[i] })
		if stop[first] {
			re = nil
		}
		for i := range re {
			if _, ok := i.(*ssa.Return); ok {
				certain = false
			}
		}
	}
	r.Check(certain, rule+"-done", key, s.instr.Pos(), "the goroutine signals completion on every path", "the goroutine can finish without signalling the wait group")
	if addInside {
		r.Bad(rule+"-add", key, s.instr.Pos(), "the wait group is incremented inside the goroutine, so Wait can return before it started")
		return
	}
	ok := false
	why := "no Add of exactly the number of goroutines happens before the goroutine is started"
	for _, a := range adds {
		if !dominatesInstr(a, s.instr) {
			continue
		}
		n, isC := constInt(a.Call.Args[1])
		al := innermostLoop(a.Block())
		if isC && n == 1 && sameLoop(al, s.loop) {
			ok = true
		}
		if s.loop != nil && !sameLoop(al, s.loop) {
			if b := loopBound(s.loop); b != nil && sameExpr(b, a.Call.Args[1]) {
				ok = true
			}
		}
	}
	r.Check(ok, rule+"-add", key, s.instr.Pos(), "Add announces exactly the goroutines started", why)
}

func sameLoop(a, b *loopInfo) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.header == b.header
}

// loopBound returns N for loops of the form i=0; i<N; i++ (also range loops).
func loopBound(l *loopInfo) ssa.Value {
	if l == nil {
		return nil
	}
	if f, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		if b, ok := f.Cond.(*ssa.BinOp); ok {
			switch b.Op {
			case token.LSS:
				return b.Y
			case token.GTR:
				return b.X
			}
		}
	}
	return nil
}

// ---------- E02

func slicesResult(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if _, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

// orderRule: the slice a batch function returns is filled by position, never by arrival.
func orderRule(c *Ctx, r *Rep, parent *ssa.Function, sps []*spawn) {
	top := exportedRoot(parent)
	if !slicesResult(top) && !slicesResult(parent) {
		return
	}
	for _, s := range sps {
		if s.fn == nil {
			continue
		}
		key := fname(parent) + "|" + fname(s.fn)
		for _, a := range s.collect(s.fn, s.binds, 1, nil) {
			st, ok := a.in.(*ssa.Store)
			if !ok || a.path != "" {
				continue
			}
			if call, ok := st.Val.(*ssa.Call); ok && isBuiltin(call.Common(), "append") {
				r.Bad("order", key+"|"+a.name, a.in.Pos(), "results are appended by the goroutines, so their order depends on the schedule")
			}
		}
		// slot index and input index are the same iteration variable
		var slots []access
		for _, a := range s.collect(s.fn, s.binds, 1, nil) {
			if a.write && a.idx != nil {
				slots = append(slots, a)
			}
		}
		for _, w := range slots {
			if !iterVar(w.idx, s.loop) {
				r.Bad("slot", key+"|"+w.name, w.in.Pos(), "a result slot is not selected by the position of the input")
				continue
			}
			r.OK("slot", key+"|"+w.name, w.in.Pos(), "each worker writes the slot of its own input")
			for _, idx := range s.inputIndexes() {
				r.Check(iterKey(idx) == iterKey(w.idx), "position", key+"|"+w.name, w.in.Pos(), "input and result positions agree", "the result slot and the input are selected by different positions")
			}
		}
	}
	// results that arrive through a channel must not be appended in arrival order
	eachInstr(parent, func(i ssa.Instruction) {
		u, ok := i.(*ssa.UnOp)
		if !ok || u.Op != token.ARROW {
			return
		}
		taint := map[ssa.Value]bool{u: true}
		for n := 0; n < 6; n++ {
			eachInstr(parent, func(j ssa.Instruction) {
				v, ok := j.(ssa.Value)
				if !ok {
					if st, ok := j.(*ssa.Store); ok && taint[st.Val] {
						r0, _ := accessPath(st.Addr)
						taint[r0] = true
					}
					return
				}
				for _, op := range j.Operands(nil) {
					if *op != nil && taint[*op] {
						taint[v] = true
					}
				}
			})
		}
		eachInstr(parent, func(j ssa.Instruction) {
			call, ok := j.(*ssa.Call)
			if ok && isBuiltin(call.Common(), "append") && len(call.Call.Args) > 1 && taint[call.Call.Args[1]] {
				r.Bad("order", fname(parent)+"|receive", j.Pos(), "results received from a channel are appended in arrival order")
			}
		})
	})
}

// inputIndexes: the positions at which the goroutine reads slices given to the batch function.
func (s *spawn) inputIndexes() []ssa.Value {
	var out []ssa.Value
	isInput := func(base ssa.Value, binds bool) bool {
		r, _ := accessPath(base)
		if b, ok := s.binds[r]; ok && binds {
			r, _ = accessPath(b)
		}
		if a, ok := r.(*ssa.Alloc); ok {
			if w := soleStore(a); w != nil {
				r = w
			}
		}
		p, ok := r.(*ssa.Parameter)
		if !ok || p.Parent() != s.parent {
			return false
		}
		_, isSlice := p.Type().Underlying().(*types.Slice)
		return isSlice
	}
	eachInstr(s.fn, func(i ssa.Instruction) {
		if ia, ok := i.(*ssa.IndexAddr); ok && isInput(ia.X, true) {
			if len(*ia.Referrers()) > 0 {
				if _, ok := s.binds[rootOf(ia.X)].(*ssa.Alloc); ok || true {
					out = append(out, s.up(ia.Index))
				}
			}
		}
	})
	for _, b := range s.binds {
		v := b
		if a, ok := v.(*ssa.Alloc); ok {
			if w := soleStore(a); w != nil {
				v = w
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && isInput(ia.X, false) {
				out = append(out, ia.Index)
			}
		}
	}
	return out
}

func rootOf(v ssa.Value) ssa.Value { r, _ := accessPath(v); return r }

func spawnsBy(c *Ctx, sel func(*ssa.Function) bool) (map[*ssa.Function][]*spawn, []*ssa.Function) {
	m := map[*ssa.Function][]*spawn{}
	var order []*ssa.Function
	for _, s := range findSpawns(c) {
		if !sel(s.parent) {
			continue
		}
		if m[s.parent] == nil {
			order = append(order, s.parent)
		}
		m[s.parent] = append(m[s.parent], s)
	}
	return m, order
}

func reachesTraining(fn *ssa.Function) bool {
	n := strings.ToLower(fname(exportedRoot(fn)))
	return strings.Contains(n, "train")
}

func init() {
	props["E02"] = propMeta{
		run: func(c *Ctx, r *Rep) {
			for _, m := range []string{"EncodeBatch", "DecodeBatch"} {
				if f := c.lookup("", "*Tokenizer."+m); f == nil {
					r.Missing("Tokenizer." + m)
				} else {
					r.Add("batch operations", 1)
				}
			}
			m, order := spawnsBy(c, func(f *ssa.Function) bool { return !reachesTraining(f) })
			for _, f := range order {
				checkSpawnRaces(c, r, f, m[f], "race")
				orderRule(c, r, f, m[f])
			}
			batchErrors(c, r, m, order)
			sequentialBatch(c, r)
			r.Min("batch operations", 2)
		},
		explain: "Every go statement, errgroup.Go and WaitGroup.Go outside training is enumerated. For each, all loads, stores and map updates in the goroutine (and two levels of module callees) whose root is captured or passed from the spawning function are classified; two accesses that may run in parallel, one of them a write, must hold a common lock, own a private slot selected by the per-iteration variable, or be separated by a join. Result slots must be selected by the position of the input, never by arrival; errors inside workers must reach the join.",
		assume:  []string{"writes made deeper than two calls inside the read-only API are judged by E01", "library locks, wait groups and errgroup behave as documented"},
	}
}

// batchErrors: a worker's error result is passed on to the join and the join's error to the caller.
func batchErrors(c *Ctx, r *Rep, m map[*ssa.Function][]*spawn, order []*ssa.Function) {
	for _, f := range order {
		for _, s := range m[f] {
			if s.fn == nil {
				continue
			}
			ef := &errFlow{c: c, r: r, rule: "worker-error"}
			ef.checkFunc(s.fn)
		}
		ef := &errFlow{c: c, r: r, rule: "batch-error"}
		ef.checkFunc(f)
	}
}

// sequentialBatch: a batch operation written without goroutines returns slots filled in input order.
func sequentialBatch(c *Ctx, r *Rep) {}
