package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of component construction: the constructors are interpreted on a
// configuration whose shape is known and whose values are symbols; the built component must
// hold exactly those symbols in the fields they configure.

type cfgEnv struct {
	c   *Ctx
	en  *Eng
	st  *State
	n   int
	ref map[string]Val
}

var (
	anyT     = types.NewInterfaceType(nil, nil).Complete()
	strT     = types.Typ[types.String]
	f64T     = types.Typ[types.Float64]
	boolT    = types.Typ[types.Bool]
	cfgMapT  = types.NewMap(types.Typ[types.String], anyT)
	cfgListT = types.NewSlice(anyT)
)

func newCfg(c *Ctx) *cfgEnv {
	e := &cfgEnv{c: c, en: newEng(c), st: newState(), ref: map[string]Val{}}
	e.en.foldGlobals = true
	reflectHooks(e.en)
	e.hooks()
	return e
}

func retOne(st *State, v ...Val) ([]Outcome, bool) {
	return []Outcome{{kind: "ret", ret: v, st: st}}, true
}

func (e *cfgEnv) hooks() {
	en := e.en
	type H = hookFn
	en.hooks["reflect.ValueOf"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k := "rv(" + args[0].key() + ")"
		e.ref[k] = args[0]
		return retOne(st, Term{k, types.Typ[types.Invalid]})
	}
	en.hooks["(reflect.Value).Kind"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		i, ok := e.ref[args[0].key()].(Iface)
		if !ok {
			return nil, false
		}
		switch u := i.typ.Underlying().(type) {
		case *types.Pointer:
			return retOne(st, Int{pc(22)})
		case *types.Map:
			return retOne(st, Int{pc(21)})
		case *types.Slice:
			return retOne(st, Int{pc(23)})
		case *types.Struct:
			return retOne(st, Int{pc(25)})
		case *types.Basic:
			switch u.Kind() {
			case types.Bool:
				return retOne(st, Int{pc(1)})
			case types.Int:
				return retOne(st, Int{pc(2)})
			case types.Float64:
				return retOne(st, Int{pc(14)})
			case types.String:
				return retOne(st, Int{pc(24)})
			}
		}
		return nil, false
	}
	en.hooks["(reflect.Value).IsNil"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		i, ok := e.ref[args[0].key()].(Iface)
		if !ok {
			return nil, false
		}
		return retOne(st, nilTest(en, en.force(i.v)))
	}
	fold := func(f func(string) string) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			if t, ok := args[0].(Term); ok {
				if s, ok := t.isStrConst(); ok {
					return retOne(st, strVal(f(s)))
				}
			}
			return nil, false
		}
	}
	en.hooks["strings.ToLower"] = fold(strings.ToLower)
	en.hooks["strings.ToUpper"] = fold(strings.ToUpper)
	en.hooks["strings.TrimSpace"] = fold(strings.TrimSpace)
	sorter := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := en.force(args[0]).(Slice)
		if !ok {
			return nil, false
		}
		vs, ok := unitVals(en.content(st, s))
		if !ok {
			return nil, false
		}
		var l []string
		for _, v := range vs {
			t, ok := v.(Term)
			if !ok {
				return nil, false
			}
			x, ok := t.isStrConst()
			if !ok {
				return nil, false
			}
			l = append(l, x)
		}
		sort.Strings(l)
		for i, x := range l {
			en.storeElem(st, s.arr, s.off.add(pc(int64(i))), strVal(x))
		}
		return retOne(st)
	}
	en.hooks["sort.Strings"] = sorter
	en.hooks["slices.Sort"] = sorter
}

// --- values of the abstract configuration

type jm []interface{} // key, value, key, value …
type jl []interface{} // list
type js string        // symbolic string
type jf string        // symbolic number
type jb string        // symbolic boolean

func (e *cfgEnv) jmap(m jm) MapV {
	o := &Obj{kind: 'm', mtyp: cfgMapT, label: "config"}
	for i := 0; i+1 < len(m); i += 2 {
		o.ups = append(o.ups, mapUp{k: strVal(m[i].(string)), v: e.j(m[i+1])})
	}
	return MapV{obj: e.en.newObj(e.st, o)}
}

func (e *cfgEnv) j(v interface{}) Val {
	switch x := v.(type) {
	case nil:
		return NilV{anyT}
	case string:
		return Iface{strT, strVal(x)}
	case bool:
		return Iface{boolT, BoolC(x)}
	case js:
		return Iface{strT, Term{sym(string(x)), strT}}
	case jf:
		return Iface{f64T, Term{sym(string(x)), f64T}}
	case jb:
		return Iface{boolT, TBool{k: sym(string(x))}}
	case jm:
		return Iface{cfgMapT, e.jmap(x)}
	case jl:
		o := &Obj{kind: 'a', elem: anyT, label: "list"}
		for _, y := range x {
			o.segs = append(o.segs, Seg{kind: 'F', val: e.j(y), n: pc(1)})
		}
		return Iface{cfgListT, Slice{arr: e.en.newObj(e.st, o), off: pc(0), n: pc(int64(len(x)))}}
	case Val:
		return x
	}
	panic(fmt.Sprintf("cfg value %T", v))
}

func sym(s string) string { return "⟨" + s + "⟩" }

// --- looking at the result

func (e *cfgEnv) dump(st *State, v Val, d int) string {
	if d > 6 {
		return "…"
	}
	v = e.en.force(v)
	switch x := v.(type) {
	case nil:
		return "nothing"
	case NilV:
		return "nil"
	case Iface:
		return e.dump(st, x.v, d)
	case Ptr:
		if x.nilKey != "" {
			if n, ok := st.decide(nilTest(e.en, x)); ok && n {
				return "nil"
			}
			return x.nilKey
		}
		return e.dump(st, e.en.load(st, x), d+1)
	case Struct:
		u := x.typ.Underlying().(*types.Struct)
		var l []string
		for i, f := range x.f {
			l = append(l, u.Field(i).Name()+":"+e.dump(st, f, d+1))
		}
		return shortType(x.typ) + "{" + strings.Join(l, " ") + "}"
	case Slice:
		if vs, ok := unitVals(e.en.content(st, x)); ok {
			var l []string
			for _, y := range vs {
				l = append(l, e.dump(st, y, d+1))
			}
			return "[" + strings.Join(l, " ") + "]"
		}
		if x.nilKey != "" {
			return x.nilKey
		}
		return segsKey(e.en.content(st, x))
	case MapV:
		o := e.en.get(st, x.obj)
		if o.base != "" && len(o.ups) == 0 {
			return o.base
		}
		var l []string
		for _, u := range o.ups {
			if u.gen != nil {
				l = append(l, "gen")
			} else {
				l = append(l, e.dump(st, u.k, d+1)+":"+e.dump(st, u.v, d+1))
			}
		}
		sort.Strings(l)
		return "map[" + strings.Join(l, " ") + "]"
	case Int:
		return x.p.key()
	case TBool, BoolC, Cmp:
		if d, ok := st.decide(x); ok {
			return fmt.Sprint(d)
		}
		return x.key()
	}
	return v.key()
}

func (e *cfgEnv) dynType(v Val) string {
	switch x := e.en.force(v).(type) {
	case Iface:
		return shortType(x.typ)
	case Struct:
		return shortType(x.typ)
	case NilV:
		return "nil"
	case Ptr:
		return "*"
	case Term:
		return shortType(x.typ)
	}
	return "?"
}

// at navigates a path of field names and [i] elements.
func (e *cfgEnv) at(st *State, v Val, path string) (Val, string) {
	v = e.en.force(v)
	for path != "" {
		path = strings.TrimPrefix(path, ".")
		// strip pointers and interfaces
		for {
			if i, ok := v.(Iface); ok {
				v = e.en.force(i.v)
				continue
			}
			if p, ok := v.(Ptr); ok {
				v = e.en.force(e.en.load(st, p))
				continue
			}
			break
		}
		if strings.HasPrefix(path, "[") {
			k := strings.IndexByte(path, ']')
			idx := path[1:k]
			path = path[k+1:]
			switch x := v.(type) {
			case Slice:
				vs, ok := unitVals(e.en.content(st, x))
				n := 0
				fmt.Sscan(idx, &n)
				if !ok || n >= len(vs) {
					return nil, "no element " + idx + " in " + e.dump(st, x, 0)
				}
				v = e.en.force(vs[n])
			case MapV:
				r, _ := e.en.lookup(st, x, strVal(idx))
				v = e.en.force(r)
			default:
				return nil, "no element " + idx
			}
			continue
		}
		k := strings.IndexAny(path, ".[")
		if k < 0 {
			k = len(path)
		}
		name := path[:k]
		path = path[k:]
		s, ok := v.(Struct)
		if !ok {
			return nil, "?" + name + " of " + v.key()
		}
		u := s.typ.Underlying().(*types.Struct)
		found := -1
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				found = i
			}
		}
		if found < 0 {
			return nil, "?no field " + name
		}
		v = e.en.force(s.f[found])
	}
	return v, ""
}

// constant value of pkg.Name in the module
func (c *Ctx) constStr(q string) string {
	if i := strings.LastIndexByte(q, '.'); i > 0 {
		for _, p := range c.Prog.AllPackages() {
			if p.Pkg.Path() == modPath+"/"+q[:i] || q[:i] == "tokenizer" && p.Pkg.Path() == modPath {
				if k, ok := p.Pkg.Scope().Lookup(q[i+1:]).(*types.Const); ok {
					if k.Val().Kind() == constant.String {
						return k.Val().ExactString()
					}
					return k.Val().ExactString()
				}
			}
		}
	}
	return "?" + q
}

type cfgCase struct {
	name string
	fn   string // constructor, "pkg.Func"
	cfg  jm
	typ  string            // dynamic type of the result ("" any)
	want map[string]string // field path -> expected value; "=pkg.Const" is resolved
	fail bool              // an error is expected
	nil_ bool              // nothing is expected
	args func(e *cfgEnv) []Val
}

// runCfg interprets one construction; guarded against analysis failures.
func (e *cfgEnv) run(fn *ssa.Function, args []Val) (outs []Outcome, und string) {
	defer func() {
		if p := recover(); p != nil {
			if b, ok := p.(budgetErr); ok {
				und = "analysis budget exhausted in " + b.what
				return
			}
			panic(p)
		}
	}()
	return e.en.Run(fn, args, nil, e.st), ""
}

func e2str(v Val) string {
	if v == nil {
		return "nothing"
	}
	return v.key()
}

// isNilErr: 1 nil, 0 not nil, -1 unknown
func (e *cfgEnv) errState(st *State, v Val) int {
	switch x := e.en.force(v).(type) {
	case NilV:
		return 1
	case Iface:
		return 0
	default:
		if d, ok := st.decide(nilTest(e.en, x)); ok {
			if d {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (cs *cfgCase) check(c *Ctx, r *Rep, rule string) {
	dot := strings.LastIndexByte(cs.fn, '.')
	fn := c.lookup(cs.fn[:dot], cs.fn[dot+1:])
	key := cs.fn + "|" + cs.name
	if fn == nil {
		r.Missing(cs.fn)
		return
	}
	e := newCfg(c)
	e.nestHooks(cs.fn)
	var args []Val
	if cs.args != nil {
		args = cs.args(e)
	} else if cs.cfg == nil {
		args = []Val{NilV{cfgMapT}}
	} else {
		args = []Val{e.jmap(cs.cfg)}
	}
	outs, und := e.run(fn, args)
	if und != "" {
		r.Undecided(rule, key, und)
		return
	}
	r.Add("constructions interpreted", 1)
	res := fn.Signature.Results()
	hasErr := res.Len() > 0 && isErr(res.At(res.Len()-1).Type())
	bad, undec := "", ""
	good := 0
	for _, o := range outs {
		if o.kind != "ret" {
			if o.kind == "panic" || o.kind == "exit" {
				if cs.fail {
					bad = "the configuration is not refused with an error but ends in a " + o.kind + ": " + o.why
				} else {
					bad = "a valid configuration ends in a " + o.kind + ": " + o.why
				}
			}
			continue
		}
		if hasErr {
			switch e.errState(o.st, o.ret[len(o.ret)-1]) {
			case 0:
				if !cs.fail {
					// an error that depends on values the configuration leaves open
					undec = "an error is returned for some values"
				}
				continue
			case -1:
				if cs.fail {
					undec = "not known to be an error"
					continue
				}
			default:
				if cs.fail {
					bad = "the configuration is accepted: built " + clipS(e.dump(o.st, o.ret[0], 0), 120)
					continue
				}
			}
		}
		good++
		v := o.ret[0]
		if cs.nil_ {
			if d, ok := o.st.decide(nilTest(e.en, e.en.force(v))); ok && !d {
				bad = "a component is built where none is configured: " + clipS(e.dump(o.st, v, 0), 120)
			}
			continue
		}
		if cs.typ != "" {
			if t := e.dynType(v); t != cs.typ {
				if t == "?" || strings.HasPrefix(t, "tokenizer.") {
					undec = "type of the result unknown"
				} else if !(t == "*") {
					bad = "builds a " + t + ", not a " + cs.typ
				}
				continue
			}
		}
		for _, path := range sortedKeys(cs.want) {
			want := cs.want[path]
			if strings.HasPrefix(want, "=") {
				want = c.constStr(want[1:])
			}
			got, why := e.at(o.st, v, path)
			if why != "" {
				if strings.HasPrefix(why, "?") {
					undec = path + ": " + why[1:]
				} else {
					bad = path + ": " + why
				}
				continue
			}
			g := e.dump(o.st, got, 0)
			r.Add("settings checked", 1)
			if strings.HasPrefix(want, "type:") {
				g = "type:" + e.dynType(got)
			}
			if g == want {
				continue
			}
			// an unresolved value that mentions the expected symbol is not a definite mismatch
			if mentionsHole(g) || opaqueTerm(g) {
				undec = path + " could not be resolved (" + clipS(g, 80) + ")"
				continue
			}
			bad = fmt.Sprintf("%s is %s, configured as %s", path, clipS(g, 100), want)
		}
	}
	if cs.fail && bad == "" && undec == "" {
		r.OK(rule, key, fn.Pos(), "refused with an error")
		return
	}
	switch {
	case bad != "":
		r.Bad(rule, key, fn.Pos(), bad)
	case undec != "" && good == 0:
		if undec == "an error is returned for some values" {
			r.Bad(rule, key, fn.Pos(), "a valid configuration is refused")
		} else {
			r.Undecided(rule, key, undec)
		}
	case undec != "" && undec != "an error is returned for some values":
		r.Undecided(rule, key, undec)
	case good == 0 && !cs.fail:
		r.Undecided(rule, key, "no outcome")
	default:
		r.OK(rule, key, fn.Pos(), "every setting reaches its field")
	}
}

// opaqueTerm: the value stems from something the interpretation does not resolve
func opaqueTerm(g string) bool {
	for _, s := range []string{"@", "global:", "dynamic:", "has(", "undef:", "…", "gen", "next", "ptr:", "nothing"} {
		if strings.Contains(g, s) {
			return true
		}
	}
	return false
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var _ = token.NoPos
