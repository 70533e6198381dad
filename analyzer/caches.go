package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- lock discipline of structures that carry their own mutex

func mutexField(st *types.Struct) string {
	for i := 0; i < st.NumFields(); i++ {
		t := derefT(st.Field(i).Type())
		if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") {
			return st.Field(i).Name()
		}
	}
	return ""
}

type fieldUse struct {
	fn     *ssa.Function
	in     ssa.Instruction
	typ    *types.Named
	field  string
	write  bool
	locks  map[string]bool
	fresh  bool
	region string
}

// entryLocks: locks on the receiver that every caller of an unexported method holds.
func (c *Ctx) entryLocks(res *resolver, fns []*ssa.Function) map[*ssa.Function]map[string]bool {
	out := map[*ssa.Function]map[string]bool{}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		eachInstr(f, func(i ssa.Instruction) {
			cc := callOf(i)
			for _, op := range i.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && (cc == nil || cc.Value != g) {
					escapes[g] = true
				}
			}
			if cc != nil {
				if g := cc.StaticCallee(); g != nil {
					if _, isGo := i.(*ssa.Go); isGo {
						escapes[g] = true
						return
					}
					callers[g] = append(callers[g], i.(ssa.CallInstruction))
				}
			}
		})
	}
	for round := 0; round < 4; round++ {
		ch := false
		for _, f := range fns {
			if f.Signature.Recv() == nil || token.IsExported(f.Name()) || escapes[f] || len(callers[f]) == 0 || len(f.Params) == 0 {
				continue
			}
			var common map[string]bool
			for _, ci := range callers[f] {
				held := heldLocks(ci.Parent(), out[ci.Parent()])[ci]
				r, p := accessPath(ci.Common().Args[0])
				pre := rootName(r) + strings.ReplaceAll(p, "*", "")
				here := map[string]bool{}
				for k := range held {
					if strings.HasPrefix(k[2:], pre) {
						here[k[:2]+"param:"+f.Params[0].Name()+k[2+len(pre):]] = true
					}
				}
				if common == nil {
					common = here
				} else {
					for k := range common {
						if !here[k] {
							delete(common, k)
						}
					}
				}
			}
			if len(common) != len(out[f]) {
				out[f] = common
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return out
}

// guardedFields checks that fields written under a structure's own lock are never touched
// without it outside constructors.
func guardedFields(c *Ctx, r *Rep, rule string) {
	res := newResolver(c)
	entry := c.entryLocks(res, c.Funcs)
	var uses []fieldUse
	for _, f := range c.Funcs {
		held := heldLocks(f, entry[f])
		eachInstr(f, func(i ssa.Instruction) {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				return
			}
			nt := namedOf(fa.X.Type())
			if nt == nil {
				return
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				return
			}
			mf := mutexField(st)
			name := fieldName(fa.X.Type(), fa.Field)
			if mf == "" || name == mf {
				return
			}
			root, _ := accessPath(fa.X)
			al, fresh := root.(*ssa.Alloc)
			if fresh && al != nil {
				// a local pointer variable is not a fresh structure
				if _, isPtr := derefT(al.Type()).Underlying().(*types.Pointer); isPtr {
					fresh = false
				}
			}
			r0, p0 := accessPath(fa.X)
			lockKey := rootName(r0) + strings.ReplaceAll(p0, "*", "") + "." + mf
			var visit func(v ssa.Value, d int)
			visit = func(v ssa.Value, d int) {
				if v.Referrers() == nil || d > 6 {
					return
				}
				for _, ref := range *v.Referrers() {
					u := fieldUse{fn: f, in: ref, typ: nt, field: name, fresh: fresh, locks: held[ref], region: lockKey}
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr == v {
							u.write = true
							uses = append(uses, u)
						}
					case *ssa.UnOp:
						if x.Op == token.MUL {
							uses = append(uses, u)
							if pointerish(x.Type()) {
								visit(x, d+1)
							}
						}
					case *ssa.MapUpdate:
						if x.Map == v {
							u.write = true
							uses = append(uses, u)
						}
					case *ssa.Lookup:
						if x.X == v {
							uses = append(uses, u)
						}
					case *ssa.Range:
						uses = append(uses, u)
					case *ssa.IndexAddr:
						if x.X == v {
							visit(x, d+1)
						}
					case *ssa.FieldAddr:
						visit(x, d+1)
					case ssa.CallInstruction:
						if isBuiltin(x.Common(), "delete") || isBuiltin(x.Common(), "clear") {
							u.write = true
							uses = append(uses, u)
						} else if isBuiltin(x.Common(), "len") {
							uses = append(uses, u)
						}
					}
				}
			}
			visit(fa, 0)
		})
	}
	type fk struct{ t, f string }
	guarded := map[fk]bool{}
	lockHeld := func(u fieldUse, w bool) bool {
		if w {
			return u.locks["W:"+u.region]
		}
		return u.locks["R:"+u.region] || u.locks["W:"+u.region]
	}
	touched := map[fk]bool{} // changed after construction
	for _, u := range uses {
		k := fk{u.typ.String(), u.field}
		if lockHeld(u, false) && !u.fresh {
			guarded[k] = true
		}
		if u.write && !u.fresh {
			touched[k] = true
		}
	}
	for _, u := range uses {
		k := fk{u.typ.String(), u.field}
		if !guarded[k] || !touched[k] || u.fresh {
			continue
		}
		what := "read"
		if u.write {
			what = "write"
		}
		r.Add("accesses to lock-protected fields", 1)
		p := u.in.Pos()
		if p == token.NoPos {
			p = u.fn.Pos()
		}
		r.Check(lockHeld(u, u.write), rule, fname(u.fn)+"|"+u.typ.Obj().Name()+"."+u.field+"|"+what, p, "under the structure's lock", what+" of "+u.typ.Obj().Name()+"."+u.field+" without holding its lock (held elsewhere)")
	}
}

// ---------- E03

func isCacheType(c *Ctx, t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	pp := n.Obj().Pkg().Path()
	if pp == "sync" {
		return n.Obj().Name() == "Map"
	}
	if strings.Contains(strings.ToLower(n.Obj().Name()), "cache") {
		return true
	}
	if !strings.HasPrefix(pp, modPath) {
		return false
	}
	if st, ok := n.Underlying().(*types.Struct); ok && mutexField(st) != "" {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				return true
			}
		}
	}
	return false
}

type cacheSite struct {
	env  *xenv
	call ssa.CallInstruction
	fn   *ssa.Function
	get  bool
	key  string
	val  string
	hit  string // expression of the value got
}

// cacheMethod classifies a call on a cache: "get", "set" or "".
func cacheMethod(c *Ctx, cc *ssa.CallCommon) (kind string, args []ssa.Value, recv ssa.Value) {
	var sig *types.Signature
	var name string
	if cc.IsInvoke() {
		recv, args, name = cc.Value, cc.Args, cc.Method.Name()
		sig = cc.Signature()
	} else {
		g := cc.StaticCallee()
		if g == nil || g.Signature.Recv() == nil || len(cc.Args) == 0 {
			return "", nil, nil
		}
		recv, args, name = cc.Args[0], cc.Args[1:], g.Name()
		sig = g.Signature
	}
	if !isCacheType(c, recv.Type()) {
		// promoted method of an embedded cache (go-cache wraps its implementation)
		ok := false
		if fa, isF := recv.(*ssa.UnOp); isF && fa.Op == token.MUL {
			if x, isA := fa.X.(*ssa.FieldAddr); isA && isCacheType(c, x.X.Type()) {
				ok = true
			}
		}
		if !ok {
			return "", nil, nil
		}
	}
	l := strings.ToLower(name)
	switch {
	case len(args) >= 1 && sig.Results().Len() == 2 && types.Identical(sig.Results().At(1).Type(), types.Typ[types.Bool]) && (strings.HasPrefix(l, "get") || strings.HasPrefix(l, "load") || strings.HasPrefix(l, "lookup")):
		return "get", args, recv
	case len(args) >= 1 && (strings.HasPrefix(l, "set") || strings.HasPrefix(l, "add") || strings.HasPrefix(l, "put") || strings.HasPrefix(l, "store") || strings.HasPrefix(l, "insert")):
		return "set", args, recv
	}
	return "", nil, nil
}

// keyValue extracts the key and value handed to a set call, also through a slice literal of
// key/value records.
func (e *xenv) keyValue(args []ssa.Value) (k, v ssa.Value) {
	if len(args) >= 2 {
		return args[0], args[1]
	}
	sl, ok := args[0].(*ssa.Slice)
	var arr ssa.Value
	if ok {
		arr = sl.X
	} else {
		arr = args[0]
	}
	al, ok := arr.(*ssa.Alloc)
	if !ok {
		return nil, nil
	}
	var rec func(x ssa.Value)
	rec = func(x ssa.Value) {
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.IndexAddr:
				rec(y)
			case *ssa.FieldAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
						if b, ok := st.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && k == nil {
							k = st.Val
						} else {
							v = st.Val
						}
					}
				}
			case *ssa.Store:
				if y.Addr == x {
					// a whole record copied in
					if u, ok := y.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
						if a2, ok := u.X.(*ssa.Alloc); ok {
							rec(a2)
						}
					}
				}
			}
		}
	}
	rec(al)
	return
}

func e03(c *Ctx, r *Rep) {
	guardedFields(c, r, "cache state under its lock")
	// tokenization entry points of the models
	var roots []*ssa.Function
	for _, f := range c.Funcs {
		if f.Name() == "Tokenize" && f.Synthetic == "" && f.Signature.Recv() != nil && len(f.Params) == 2 {
			if b, ok := f.Params[1].Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				roots = append(roots, f)
			}
		}
	}
	sortFns(roots)
	for _, fn := range roots {
		var sites []*cacheSite
		var rets []string
		var walk func(f *ssa.Function, e *xenv, d int)
		walk = func(f *ssa.Function, e *xenv, d int) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					kind, args, _ := cacheMethod(c, cc)
					switch kind {
					case "get":
						s := &cacheSite{env: e, call: ci, fn: f, get: true, key: e.x(args[0])}
						if ci.Value() != nil {
							s.hit = e.x(ci.Value()) + "#0"
						}
						sites = append(sites, s)
						continue
					case "set":
						k, v := e.keyValue(args)
						s := &cacheSite{env: e, call: ci, fn: f, key: "?", val: "?"}
						if k != nil {
							s.key = e.x(k)
						}
						if v != nil {
							s.val = e.x(v)
						}
						sites = append(sites, s)
						continue
					}
					if g := cc.StaticCallee(); g != nil && c.inModule(g) && d < 4 && len(g.Blocks) > 0 {
						if g.Signature.Recv() != nil && isCacheType(c, g.Signature.Recv().Type()) {
							continue
						}
						walk(g, e.into(g, e.args(cc)), d+1)
					}
				}
			}
		}
		e := newX(c, fn)
		walk(fn, e, 0)
		if len(sites) == 0 {
			r.OK("no cache", fname(fn), fn.Pos(), "tokenization uses no cache")
			continue
		}
		text := "$1"
		var gets, sets []*cacheSite
		for _, s := range sites {
			if s.get {
				gets = append(gets, s)
			} else {
				sets = append(sets, s)
			}
		}
		r.Add("cache lookups", len(gets))
		r.Add("cache insertions", len(sets))
		// results, through the functions that hold the sites
		var collect func(f *ssa.Function, e *xenv, d int)
		collect = func(f *ssa.Function, e *xenv, d int) {
			eachInstr(f, func(i ssa.Instruction) {
				ret, ok := i.(*ssa.Return)
				if !ok || len(ret.Results) == 0 {
					return
				}
				v := ret.Results[0]
				// a plain hand-through of a module call: look inside
				cv := v
				if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
					cv = ex.Tuple
				}
				if call, ok := cv.(*ssa.Call); ok && d < 4 {
					g := call.Common().StaticCallee()
					holds := false
					for _, s := range sites {
						for x := s.fn; x != nil; x = x.Parent() {
							if x == g {
								holds = true
							}
						}
					}
					if g != nil && holds && len(g.Blocks) > 0 {
						collect(g, e.into(g, e.args(call.Common())), d+1)
						return
					}
				}
				rets = append(rets, e.candidates(v)...)
			})
		}
		collect(fn, e, 0)
		for _, s := range sites {
			key := fname(fn) + "|" + fname(s.fn) + "|" + calleeName(s.call.Common())
			if strings.Contains(s.key, "?") {
				r.Undecided("cache key", key, "key not resolved: "+s.key)
				continue
			}
			for _, o := range sites {
				if o == s || strings.Contains(o.key, "?") || o.get == s.get || !s.get {
					continue
				}
				r.Check(s.key == o.key, "same key for lookup and insertion", key, s.call.Pos(), "looked up and stored under "+s.key, "looked up under "+pretty(s.key)+" but stored under "+pretty(o.key)+" at "+c.pos(o.call.Pos()))
			}
			if !s.get {
				if strings.Contains(s.val, "?") {
					r.Undecided("cached value computed from its key", key, "value not resolved: "+pretty(s.val))
				} else {
					rest := strings.ReplaceAll(s.val, s.key, "□")
					ok := strings.Contains(rest, "□") && !containsParam(rest, text)
					r.Check(ok, "cached value computed from its key", key, s.call.Pos(), "value is "+pretty(rest)+" of the key", "the stored value "+pretty(s.val)+" is not computed from exactly the key "+pretty(s.key))
					r.Check(injective(s.key), "cache key identifies the text", key, s.call.Pos(), "the key is the text itself", "different texts share the key "+pretty(s.key))
				}
			}
		}
		// hit and miss paths give the same function of the value
		var hits, miss []string
		un := false
		for _, x := range rets {
			h, m := x, x
			for _, s := range gets {
				h = strings.ReplaceAll(h, s.hit, "◇")
			}
			for _, s := range sets {
				if s.val != "?" {
					m = strings.ReplaceAll(m, s.val, "◇")
				}
			}
			switch {
			case h != x && !strings.Contains(h, "?"):
				hits = append(hits, h)
			case m != x && !strings.Contains(m, "?"):
				miss = append(miss, m)
			case strings.Contains(x, "?"):
				un = true
			}
		}
		if os.Getenv("TKDBG") != "" {
			fmt.Fprintln(os.Stderr, rets)
			for _, s := range sites {
				fmt.Fprintln(os.Stderr, s.get, s.key, s.val, s.hit)
			}
		}
		sort.Strings(hits)
		sort.Strings(miss)
		if len(hits) == 0 || len(miss) == 0 {
			r.Undecided("hit and miss agree", fname(fn), fmt.Sprintf("results not resolved (%d hit, %d miss)", len(hits), len(miss)))
			continue
		}
		norm := func(s string) string { return strings.NewReplacer("*◇", "◇", "&(◇)", "◇").Replace(s) }
		for _, h := range hits {
			ok := false
			for _, m := range miss {
				if norm(m) == norm(h) {
					ok = true
				}
			}
			if !ok && un {
				r.Undecided("hit and miss agree", fname(fn), "some result not resolved")
				continue
			}
			r.Check(ok, "hit and miss agree", fname(fn), fn.Pos(), "a hit returns "+pretty(h)+" of the cached value, as a miss does of the computed one", "a hit returns "+pretty(h)+" but a miss returns "+pretty(strings.Join(miss, " or ")))
		}
	}
	cacheNil(c, r)
	cacheBody(c, r)
	r.Min("cache lookups", 2)
	r.Min("accesses to lock-protected fields", 6)
}

// injective: the key is the text or a value the text can be recovered from.
func injective(k string) bool {
	for {
		switch {
		case strings.HasPrefix(k, "string(") && strings.HasSuffix(k, ")"):
			k = k[7 : len(k)-1]
		case strings.HasPrefix(k, "[]byte(") && strings.HasSuffix(k, ")"):
			k = k[7 : len(k)-1]
		default:
			// prefixing or suffixing a constant keeps it recoverable
			if strings.HasPrefix(k, "(") && strings.HasSuffix(k, ")") && strings.Contains(k, "+") {
				p := strings.SplitN(k[1:len(k)-1], "+", 2)
				for i, q := range p {
					if strings.HasPrefix(q, "\"") {
						return injective(p[1-i])
					}
				}
			}
			lossy := []string{"strings.ToLower", "strings.ToUpper", "strings.Trim", "strings.Title", "strings.Replace", "[", "len("}
			for _, l := range lossy {
				if strings.Contains(k, l) {
					return false
				}
			}
			return true
		}
	}
}

func containsParam(s, p string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], p)
		if j < 0 {
			return false
		}
		k := i + j + len(p)
		if k >= len(s) || s[k] < '0' || s[k] > '9' {
			return true
		}
		i = k
	}
}

func pretty(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// cacheBody: the module's own caches answer with what was stored under the asked key.
func cacheBody(c *Ctx, r *Rep) {
	for _, f := range c.Funcs {
		if f.Synthetic != "" || f.Signature.Recv() == nil || !isCacheType(c, f.Signature.Recv().Type()) || f.Parent() != nil {
			continue
		}
		e := newX(c, f)
		res := f.Signature.Results()
		l := strings.ToLower(f.Name())
		if res.Len() == 2 && len(f.Params) == 2 && types.Identical(res.At(1).Type(), types.Typ[types.Bool]) && strings.HasPrefix(l, "get") {
			eachInstr(f, func(i ssa.Instruction) {
				lk, ok := i.(*ssa.Lookup)
				if !ok {
					return
				}
				if _, isMap := lk.X.Type().Underlying().(*types.Map); !isMap {
					return
				}
				k := e.x(lk.Index)
				if strings.Contains(k, "?") {
					r.Undecided("cache answers for its key", fname(f), "key not resolved")
					return
				}
				r.Check(k == "$1", "cache answers for its key", fname(f), lk.Pos(), "looks up the given key", "looks up "+pretty(k)+" instead of the given key")
			})
		}
		if strings.HasPrefix(l, "set") || strings.HasPrefix(l, "add") || strings.HasPrefix(l, "put") {
			eachInstr(f, func(i ssa.Instruction) {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok {
					return
				}
				k, v := e.x(mu.Key), e.x(mu.Value)
				if strings.Contains(k, "?") || strings.Contains(v, "?") {
					kr, kp := accessPath(mu.Key)
					vr, vp := accessPath(mu.Value)
					if kr == vr && kp != "" && vp != "" {
						r.OK("cache stores under its key", fname(f), mu.Pos(), "key and value of one item")
						return
					}
					r.Undecided("cache stores under its key", fname(f), "not resolved: "+pretty(k)+" -> "+pretty(v))
					return
				}
				i1, i2 := strings.LastIndex(k, "."), strings.LastIndex(v, ".")
				same := i1 > 0 && i2 > 0 && k[:i1] == v[:i2] || k == "$1" && v == "$2"
				r.Check(same, "cache stores under its key", fname(f), mu.Pos(), "key and value of one item", "stores "+pretty(v)+" under "+pretty(k))
			})
		}
	}
}

// cacheNil: a cache field that may be nil is tested before use.
func cacheNil(c *Ctx, r *Rep) {
	// fields of cache pointer type that some code sets to nil or leaves unset
	mayNil := map[string]string{}
	for _, f := range c.Funcs {
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isCacheType(c, st.Val.Type()) {
				return
			}
			if _, ok := st.Val.Type().Underlying().(*types.Pointer); !ok {
				return
			}
			nil0 := isNilConst(st.Val)
			if p, ok := st.Val.(*ssa.Phi); ok {
				for _, e := range p.Edges {
					if isNilConst(e) {
						nil0 = true
					}
				}
			}
			if nil0 {
				mayNil[namedKey(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field)] = c.pos(st.Pos())
			}
		})
	}
	for _, f := range c.Funcs {
		eachInstr(f, func(i ssa.Instruction) {
			cc := callOf(i)
			if cc == nil || cc.IsInvoke() {
				return
			}
			g := cc.StaticCallee()
			if g == nil || g.Signature.Recv() == nil || len(cc.Args) == 0 || !isCacheType(c, g.Signature.Recv().Type()) {
				return
			}
			if _, ok := g.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
				return
			}
			recv := cc.Args[0]
			var k string
			switch x := recv.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					k = namedKey(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
				}
			case *ssa.Field:
				k = namedKey(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
			}
			where, ok := mayNil[k]
			if k == "" || !ok {
				return
			}
			r.Add("uses of an optional cache", 1)
			guarded := nilTolerant(g) || dominatedByNonNil(i, recv, k) || c.guardedAtCallers(f, k, 0)
			r.Check(guarded, "missing cache tolerated", fname(f)+"|"+g.Name(), i.Pos(), "tested for nil before use", "the cache may be missing (set to nil at "+where+") and is used without a test")
		})
	}
}

// fieldKey names the field a value was loaded from.
func fieldKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return namedKey(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return namedKey(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
	}
	return ""
}

// guardedAtCallers: every call of an unexported helper happens after the field was found non-nil.
func (c *Ctx) guardedAtCallers(f *ssa.Function, key string, d int) bool {
	if token.IsExported(f.Name()) || d > 2 {
		return false
	}
	n := 0
	ok := true
	for _, g := range c.Funcs {
		if g.Synthetic != "" {
			continue
		}
		eachInstr(g, func(i ssa.Instruction) {
			if cc := callOf(i); cc != nil && cc.StaticCallee() == f {
				n++
				if !dominatedByNonNil(i, nil, key) && !c.guardedAtCallers(g, key, d+1) {
					ok = false
				}
			}
		})
	}
	return n > 0 && ok
}

func namedKey(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.String()
	}
	return ""
}

// nilTolerant: the method tests its receiver for nil before using it.
func nilTolerant(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Params) == 0 {
		return false
	}
	for _, in := range g.Blocks[0].Instrs {
		if iff, ok := in.(*ssa.If); ok {
			if b, ok := iff.Cond.(*ssa.BinOp); ok && (b.X == g.Params[0] && isNilConst(b.Y) || b.Y == g.Params[0] && isNilConst(b.X)) {
				return true
			}
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == g.Params[0] {
			return false
		}
	}
	return false
}

// dominatedByNonNil: the instruction only runs after v (or an equal expression) was found non-nil.
func dominatedByNonNil(i ssa.Instruction, v ssa.Value, key string) bool {
	for b := i.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var x ssa.Value
		if isNilConst(bo.Y) {
			x = bo.X
		} else if isNilConst(bo.X) {
			x = bo.Y
		} else {
			continue
		}
		if (v == nil || !sameExpr(x, v) && x != v) && (key == "" || fieldKey(x) != key) {
			continue
		}
		var good *ssa.BasicBlock
		if bo.Op == token.NEQ {
			good = d.Succs[0]
		} else if bo.Op == token.EQL {
			good = d.Succs[1]
		} else {
			continue
		}
		if good == b || good.Dominates(i.Block()) {
			if len(good.Preds) == 1 {
				return true
			}
		}
	}
	return false
}

func init() {
	props["E03"] = propMeta{run: e03,
		explain: "Every cache lookup and insertion reachable from a model's Tokenize is found; key, stored value and results are resolved to expressions over Tokenize's arguments (through helpers). Lookup and insertion must use the same key, the stored value must be computed from exactly that key, the key must identify the text, and the result on a hit must be the same function of the cached value as the result on a miss is of the computed one. Fields of structures with their own mutex that are accessed under it anywhere must be accessed under it everywhere (constructors excepted), and an optional cache must be tested before use.",
		assume:  []string{"expressions that depend on loop-carried values are recorded as undecided", "third-party caches lock themselves"}}
}
