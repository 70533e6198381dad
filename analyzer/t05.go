package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T05: announced special tokens = inserted special tokens, and truncation reserves that room.

// procHooks gives post-processors behind an interface their contract: N(added by p,isPair)
// tokens are inserted when asked, none otherwise.
func procHooks(en *Eng) {
	added := func(en *Eng, st *State, recv, isPair Val) *Poly {
		k := isPair.key()
		if d, ok := st.decide(isPair); ok {
			k = fmt.Sprint(d)
		}
		return pa("N(added by " + recv.key() + " pair=" + k + ")")
	}
	en.hooks["invoke tokenizer.PostProcessor.AddedTokens"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if len(args) != 2 {
			return nil, false
		}
		return []Outcome{{kind: "ret", ret: []Val{Int{added(en, st, args[0], args[1])}}, st: st}}, true
	}
	en.hooks["invoke tokenizer.PostProcessor.Process"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		ep, ok := en.force(args[1]).(Ptr)
		if !ok {
			return nil, false
		}
		es, ok := en.load(st, ep).(Struct)
		if !ok || !isEncoding(es.typ) {
			return nil, false
		}
		var ps *Struct
		isPair := BoolC(false)
		switch p := en.force(args[2]).(type) {
		case NilV:
		case Ptr:
			d, known := st.decide(nilTest(en, p))
			if !known {
				return nil, false
			}
			if !d {
				s, ok := en.load(st, p).(Struct)
				if !ok {
					return nil, false
				}
				ps = &s
				isPair = true
			}
		default:
			return nil, false
		}
		add, known := st.decide(args[3])
		if !known {
			return nil, false
		}
		u := es.typ.Underlying().(*types.Struct)
		out := Struct{typ: es.typ}
		tag := en.fresh("processed")
		for i := range es.f {
			f := u.Field(i)
			if !encFields[f.Name()] {
				out.f = append(out.f, en.symv(tag+"."+f.Name(), f.Type()))
				continue
			}
			a, ok := en.asSlice(es.f[i], f.Type())
			if !ok {
				return nil, false
			}
			segs := append([]Seg(nil), en.content(st, a)...)
			n := a.n
			if ps != nil {
				b, ok := en.asSlice(ps.f[i], f.Type())
				if !ok {
					return nil, false
				}
				segs = append(segs, en.content(st, b)...)
				n = n.add(b.n)
			}
			if add {
				m := added(en, st, args[0], isPair)
				segs = append(segs, Seg{kind: 'U', base: "special tokens of " + args[0].key(), n: m})
				n = n.add(m)
			}
			o := &Obj{kind: 'a', segs: segs, elem: f.Type().Underlying().(*types.Slice).Elem(), alias: map[int]bool{}}
			out.f = append(out.f, Slice{arr: en.newObj(st, o), off: pc(0), n: st.norm(n)})
		}
		id := en.newObj(st, &Obj{kind: 'c', val: out, elem: es.typ})
		return []Outcome{{kind: "ret", ret: []Val{Ptr{obj: id}}, st: st}}, true
	}
}

// reflectHooks resolves reflect.TypeOf on interface values of known dynamic type.
func reflectHooks(en *Eng) {
	rt := map[string]types.Type{}
	val := func(t types.Type) Val {
		k := "rtype:" + t.String()
		rt[k] = t
		return Term{k, types.Typ[types.Invalid]}
	}
	get := func(v Val) types.Type { return rt[v.key()] }
	en.hooks["reflect.TypeOf"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		i, ok := args[0].(Iface)
		if !ok {
			return nil, false
		}
		return []Outcome{{kind: "ret", ret: []Val{val(i.typ)}, st: st}}, true
	}
	ret := func(st *State, v Val) ([]Outcome, bool) {
		return []Outcome{{kind: "ret", ret: []Val{v}, st: st}}, true
	}
	en.hooks["invoke reflect.Type.Kind"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		switch get(args[0]).(type) {
		case nil:
			return nil, false
		case *types.Pointer:
			return ret(st, Int{pc(22)})
		}
		if _, ok := get(args[0]).Underlying().(*types.Struct); ok {
			return ret(st, Int{pc(25)})
		}
		return nil, false
	}
	en.hooks["invoke reflect.Type.Elem"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if p, ok := get(args[0]).(*types.Pointer); ok {
			return ret(st, val(p.Elem()))
		}
		return nil, false
	}
	en.hooks["invoke reflect.Type.Name"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if n, ok := get(args[0]).(*types.Named); ok {
			return ret(st, strVal(n.Obj().Name()))
		}
		return nil, false
	}
}

type procCase struct {
	id   string
	fn   *ssa.Function // Process
	en   *Eng
	recv Val
	st   *State
	pair bool
	err  string
}

func (c *Ctx) typeNamed(short, name string) *types.Named {
	sp := c.SPkgs[short]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (en *Eng) mkSlice(st *State, el types.Type, vs ...Val) Slice {
	var segs []Seg
	for _, v := range vs {
		segs = append(segs, Seg{kind: 'F', val: v, n: pc(1)})
	}
	id := en.newObj(st, &Obj{kind: 'a', segs: segs, elem: el, alias: map[int]bool{}})
	return Slice{arr: id, off: pc(0), n: pc(int64(len(vs)))}
}

// mkStruct builds a struct value of type n from field name → value; others symbolic.
func (en *Eng) mkStruct(key string, n types.Type, fs map[string]Val) Struct {
	u := n.Underlying().(*types.Struct)
	s := Struct{typ: n}
	for i := 0; i < u.NumFields(); i++ {
		if v, ok := fs[u.Field(i).Name()]; ok {
			s.f = append(s.f, v)
		} else {
			s.f = append(s.f, en.lazy(key+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
	}
	return s
}

func (en *Eng) cell(st *State, v Struct) Ptr {
	return Ptr{obj: en.newObj(st, &Obj{kind: 'c', val: v, elem: v.typ})}
}

func field(s Struct, name string) (Val, types.Type) {
	u := s.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.f[i], u.Field(i).Type()
		}
	}
	return nil, nil
}

// templatePieces builds a concrete template: letters A/B are sequences, anything else a special token.
func (en *Eng) templatePieces(c *Ctx, st *State, spec string) (Slice, bool) {
	sq, sp := c.typeNamed("processor", "SequencePiece"), c.typeNamed("processor", "SpecialTokenPiece")
	pi := c.typeNamed("processor", "Piece")
	if sq == nil || sp == nil || pi == nil {
		return Slice{}, false
	}
	var vs []Val
	for i, w := range strings.Fields(spec) {
		switch w {
		case "A", "B":
			n := c.constInt("processor", w)
			p := en.cell(st, en.mkStruct(fmt.Sprintf("piece%d", i), sq, map[string]Val{"Id": Int{pc(n)}}))
			vs = append(vs, Iface{types.NewPointer(sq), p})
		default:
			p := en.cell(st, en.mkStruct(fmt.Sprintf("piece%d", i), sp, map[string]Val{"Id": strVal(w)}))
			vs = append(vs, Iface{types.NewPointer(sp), p})
		}
	}
	return en.mkSlice(st, pi, vs...), true
}

// t05cases lists the receivers with which Process is interpreted.
func (c *Ctx) t05cases(r *Rep) []procCase {
	var out []procCase
	sp := c.SPkgs["processor"]
	if sp == nil {
		r.Missing("package processor")
		return nil
	}
	for _, m := range sortedKeys(sp.Members) {
		tn, ok := sp.Members[m].(*ssa.Type)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := named.Underlying().(*types.Interface); isI {
			continue
		}
		fn := c.lookup("processor", "*"+m+".Process")
		at := c.lookup("processor", "*"+m+".AddedTokens")
		if fn == nil || at == nil || len(fn.Blocks) == 0 {
			continue
		}
		add := func(tag string, mk func(en *Eng, st *State) (Val, bool)) {
			for _, pair := range []bool{false, true} {
				en := newEng(c)
				contractHooks(en)
				procHooks(en)
				reflectHooks(en)
				st := newState()
				recv, ok := mk(en, st)
				if !ok {
					r.Undecided("announced=inserted", m+tag, "receiver could not be built")
					continue
				}
				out = append(out, procCase{id: m + tag, fn: fn, en: en, recv: recv, st: st, pair: pair})
			}
		}
		switch {
		case m == "Sequence":
			for n := 1; n <= 3; n++ {
				n := n
				add(fmt.Sprintf(" of %d processors", n), func(en *Eng, st *State) (Val, bool) {
					v := en.symArgs(fn, true)[0]
					p, ok := v.(Ptr)
					if !ok {
						return nil, false
					}
					s, ok := en.load(st, p).(Struct)
					if !ok {
						return nil, false
					}
					for i := range s.f {
						if sl, ok := en.force(s.f[i]).(Slice); ok {
							st.addEQ(sl.n.addc(-int64(n)))
						}
					}
					return v, true
				})
			}
		case m == "TemplateProcessing":
			ctor := c.lookup("processor", "NewTemplateProcessing")
			for _, tp := range [][2]string{{"A", "A B"}, {"S1 A S2", "S1 A S2 B S3"}, {"A S1", "B S2 A"}} {
				tp := tp
				add(" single ["+tp[0]+"] pair ["+tp[1]+"]", func(en *Eng, st *State) (Val, bool) {
					if ctor == nil || len(ctor.Params) != 3 {
						return nil, false
					}
					a, ok1 := en.templatePieces(c, st, tp[0])
					b, ok2 := en.templatePieces(c, st, tp[1])
					if !ok1 || !ok2 {
						return nil, false
					}
					toks := en.symArgs(ctor, true)[2]
					outs, err := en.safeRun(ctor, []Val{a, b, toks}, st)
					if err != "" {
						return nil, false
					}
					// every special token known
					for _, o := range outs {
						if o.kind != "ret" {
							continue
						}
						okAll := true
						for k, v := range o.st.truth {
							if strings.HasPrefix(k, "has(") && !v {
								okAll = false
							}
						}
						if okAll {
							*st = *o.st
							return o.ret[0], true
						}
					}
					return nil, false
				})
			}
		default:
			add("", func(en *Eng, st *State) (Val, bool) { return en.symArgs(fn, true)[0], true })
		}
	}
	return out
}

func t05(c *Ctx, r *Rep) {
	cases := c.t05cases(r)
	r.parallel(len(cases), func(ci int, r *Rep) {
		pc0 := cases[ci]
		at := c.lookup("processor", "*"+strings.Fields(pc0.id)[0]+".AddedTokens")
		en := pc0.en
		for _, add := range []bool{true, false} {
			st := pc0.st.clone()
			args := en.symArgs(pc0.fn, true)
			if len(args) != 4 {
				r.Missing(fname(pc0.fn) + " with 4 parameters")
				continue
			}
			args[0] = pc0.recv
			if !pc0.pair {
				args[2] = NilV{pc0.fn.Params[2].Type()}
			}
			args[3] = BoolC(add)
			key := fmt.Sprintf("%s pair=%v add=%v", pc0.id, pc0.pair, add)
			outs, err := en.safeRun(pc0.fn, args, st)
			if err != "" {
				r.Undecided("announced=inserted", key, err)
				continue
			}
			r.Add("functions interpreted", 1)
			nret := 0
			for _, o := range outs {
				if o.kind != "ret" {
					continue
				}
				nret++
				w := en.view(o.st, o.ret[0], "ret0")
				if w.bad != "" {
					r.Undecided("announced=inserted", key, w.bad)
					continue
				}
				base := pa("N(p:" + pc0.fn.Params[1].Name() + ")")
				if pc0.pair {
					base = base.add(pa("N(p:" + pc0.fn.Params[2].Name() + ")"))
				}
				ins := w.n["Ids"].sub(base)
				if !add {
					r.Judge(judgeEQ(o.st, ins), "none when not asked", key, pc0.fn.Pos(), "no token added", "adds "+o.st.norm(ins).key()+" tokens without being asked ("+cond(o)+")")
					continue
				}
				ao, err := en.safeRun(at, []Val{pc0.recv, BoolC(pc0.pair)}, o.st.clone())
				if err != "" {
					r.Undecided("announced=inserted", key, err)
					continue
				}
				for _, a := range ao {
					if a.kind != "ret" {
						continue
					}
					ann := en.toInt(a.ret[0])
					if ann == nil {
						r.Undecided("announced=inserted", key, "announced count unknown")
						continue
					}
					d := ins.sub(ann)
					r.Judge(judgeEQ(a.st, d), "announced=inserted", key, pc0.fn.Pos(), "adds exactly the announced "+a.st.norm(ann).key(),
						"adds "+a.st.norm(ins).key()+" tokens but announces "+a.st.norm(ann).key()+" ("+cond(o)+")")
					// overflow windows
					if w.over != nil {
						for _, x := range en.views(a.st, w.over, "Overflowing", 1) {
							if x.bad != "" || x.owner != "" {
								continue
							}
							n := inserted(x)
							if n == nil {
								continue
							}
							r.Judge(judgeGE(x.st, ann.sub(n)), "windows", key+" "+genericWhere(x.where), pc0.fn.Pos(), "no window gets more than the announced tokens",
								"a window gets "+n.key()+" tokens, announced are "+ann.key())
						}
					}
				}
			}
			if nret == 0 {
				r.Bad("announced=inserted", key, pc0.fn.Pos(), "no input is processed successfully")
			}
		}
	})
	t05trunc(c, r)
	t05builder(c, r)
	r.Min("functions interpreted", 20)
	r.Min("truncation calls checked", 4)
}

// inserted counts the tokens of a view that do not come from a text sequence.
func inserted(w *encView) *Poly {
	n := pc(0)
	for _, s := range w.segs["Ids"] {
		switch s.kind {
		case 'F':
			n = n.add(s.n)
		case 'S':
			if strings.HasSuffix(s.base, ".Id") || strings.Contains(s.base, "TokenMap") {
				n = n.add(s.n)
			}
		default:
			return nil
		}
	}
	return n
}

// t05trunc: the room reserved before truncation.
func t05trunc(c *Ctx, r *Rep) {
	fn := c.lookup("", "*Tokenizer.postProcess")
	if fn == nil {
		fn = c.lookup("", "*Tokenizer.PostProcess")
	}
	if fn == nil {
		r.Missing("(*Tokenizer).PostProcess")
		return
	}
	tp := c.typeNamed("", "TruncationParams")
	for _, pair := range []bool{false, true} {
		for _, add := range []bool{true, false} {
			for _, proc := range []bool{true, false} {
				en := newEng(c)
				contractHooks(en)
				procHooks(en)
				var calls []Event
				trunc := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
					res := cc.Signature().Results()
					var ret []Val
					tag := en.fresh("truncated")
					for i := 0; i < res.Len(); i++ {
						t := res.At(i).Type()
						switch {
						case isErr(t):
							ret = append(ret, NilV{t})
						case isEncPtr(t):
							if _, isNil := en.force(args[i]).(NilV); isNil {
								ret = append(ret, args[i])
							} else {
								v := en.symv(fmt.Sprintf("%s#%d", tag, i), t).(Ptr)
								v.nilKey = ""
								ret = append(ret, v)
							}
						default:
							ret = append(ret, en.symv(fmt.Sprintf("%s#%d", tag, i), t))
						}
					}
					calls = append(calls, Event{name: "truncate", args: args, res: ret, st: st.clone()})
					return []Outcome{{kind: "ret", ret: ret, st: st}}, true
				}
				en.hooks["tokenizer.truncateEncodings"] = trunc
				en.hooks["tokenizer.TruncateEncodings"] = trunc
				var procs []Event
				h := en.hooks["invoke tokenizer.PostProcessor.Process"]
				en.hooks["invoke tokenizer.PostProcessor.Process"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
					procs = append(procs, Event{name: "process", args: args, st: st.clone()})
					return h(en, st, cc, args)
				}
				st := newState()
				args := en.symArgs(fn, true)
				if !pair {
					args[2] = NilV{fn.Params[2].Type()}
				}
				args[3] = BoolC(add)
				tk, ok := en.load(st, args[0].(Ptr)).(Struct)
				if !ok {
					continue
				}
				var maxLen, stride *Poly
				var strategy string
				var procKey string
				u := tk.typ.Underlying().(*types.Struct)
				for i := range tk.f {
					ft := u.Field(i).Type()
					if n, ok := derefT(ft).(*types.Named); ok && tp != nil && n.Obj() == tp.Obj() {
						if p, ok := en.force(tk.f[i]).(Ptr); ok {
							p.nilKey = ""
							tk.f[i] = p
							s := en.load(st, p).(Struct)
							m, _ := field(s, "MaxLength")
							sd, _ := field(s, "Stride")
							sg, _ := field(s, "Strategy")
							maxLen, stride, strategy = en.toInt(m), en.toInt(sd), en.force(sg).key()
						}
					}
					if strings.HasSuffix(ft.String(), "tokenizer.PostProcessor") {
						if proc {
							procKey = tk.f[i].key()
							st.assume(nilTest(en, tk.f[i]), false)
						} else {
							tk.f[i] = NilV{ft}
						}
					}
					if strings.HasSuffix(ft.String(), "*"+modPath+".PaddingParams") {
						tk.f[i] = NilV{ft}
					}
				}
				if maxLen == nil {
					r.Missing("truncation parameters of Tokenizer")
					return
				}
				en.store(st, args[0].(Ptr), tk)
				st.assume(Cmp{">=0", maxLen.addc(-1)}, true)
				outs, err := en.safeRun(fn, args, st)
				key := fmt.Sprintf("pair=%v add=%v processor=%v", pair, add, proc)
				if err != "" {
					r.Undecided("room", key, err)
					continue
				}
				want := maxLen
				if proc && add {
					want = maxLen.sub(pa(fmt.Sprintf("N(added by %s pair=%v)", procKey, pair)))
				}
				for _, o := range outs {
					r.Add("outcomes", 1)
					if o.kind == "panic" {
						continue
					}
				}
				if len(calls) == 0 {
					r.Undecided("room", key, "no truncation call recognised")
				}
				for _, e := range calls {
					if e.st.infeasible() || len(e.args) != 3 {
						continue
					}
					s, ok := en.deref(e.st, e.args[2]).(Struct)
					if !ok {
						r.Undecided("room", key, "truncation parameters unknown")
						continue
					}
					r.Add("truncation calls checked", 1)
					m, _ := field(s, "MaxLength")
					sd, _ := field(s, "Stride")
					sg, _ := field(s, "Strategy")
					mp, sp := en.toInt(m), en.toInt(sd)
					r.Judge(judgeEQ(e.st, mp.sub(want)), "room", key, fn.Pos(), "truncates to "+want.key(), "truncates to "+e.st.norm(mp).key()+" instead of "+e.st.norm(want).key())
					r.Judge(judgeEQ(e.st, sp.sub(stride)), "stride kept", key, fn.Pos(), "configured stride", "truncates with stride "+sp.key())
					if en.force(sg).key() != strategy {
						if opaqueRx.MatchString(en.force(sg).key()) {
							r.Undecided("strategy kept", key, en.force(sg).key())
						} else {
							r.Bad("strategy kept", key, fn.Pos(), "truncates with strategy "+en.force(sg).key()+" instead of the configured one")
						}
					} else {
						r.OK("strategy kept", key, fn.Pos(), "configured strategy")
					}
					for i, what := range []string{"first", "second"} {
						if e.args[i].key() != args[i+1].key() {
							r.Bad("truncation input", key+" "+what, fn.Pos(), "truncation is given "+e.args[i].key()+" as the "+what+" sequence")
						} else {
							r.OK("truncation input", key+" "+what, fn.Pos(), "the "+what+" sequence")
						}
					}
				}
				for _, p := range procs {
					var last *Event
					for i := range calls {
						last = &calls[i]
						if last.res[0].key() == p.args[1].key() {
							break
						}
					}
					if last == nil {
						continue
					}
					for i, what := range []string{"first", "second"} {
						if p.args[i+1].key() == last.res[i].key() {
							r.OK("processor input", key+" "+what, fn.Pos(), "the truncated "+what+" sequence")
						} else {
							r.Bad("processor input", key+" "+what, fn.Pos(), "the post-processor is given "+p.args[i+1].key()+" as the "+what+" sequence, not the truncated one")
						}
					}
					if d, ok := p.st.decide(p.args[3]); ok && d == add {
						r.OK("processor flag", key, fn.Pos(), "asked as requested")
					} else if ok {
						r.Bad("processor flag", key, fn.Pos(), "the post-processor is asked to add special tokens contrary to the request")
					}
				}
			}
		}
	}
}

func (en *Eng) deref(st *State, v Val) Val {
	v = en.force(v)
	if p, ok := v.(Ptr); ok {
		return en.load(st, p)
	}
	return v
}

// t05builder: whoever sets a template or its tokens recounts.
func t05builder(c *Ctx, r *Rep) {
	sp := c.SPkgs["processor"]
	if sp == nil {
		return
	}
	tpl := c.typeNamed("processor", "TemplateProcessing")
	if tpl == nil {
		r.Missing("processor.TemplateProcessing")
		return
	}
	// functions storing the fields
	seen := map[*ssa.Function]bool{}
	for _, fn := range c.moduleFuncs() {
		if len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) == nil || namedOf(fa.X.Type()).Obj() != tpl.Obj() {
					continue
				}
				seen[fn] = true
			}
		}
	}
	var fns []*ssa.Function
	for fn := range seen {
		fns = append(fns, fn)
	}
	sortFns(fns)
	for _, fn := range fns {
		if !token0(fn.Name()) {
			continue
		}
		en := newEng(c)
		countKey := func(en *Eng, st *State, a, b Val) *Poly {
			return pa("N(countAdded(" + en.argKey(st, a) + "," + en.argKey(st, b) + "))")
		}
		en.hooks["processor.countAdded"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			if len(args) != 2 {
				return nil, false
			}
			return []Outcome{{kind: "ret", ret: []Val{Int{countKey(en, st, args[0], args[1])}}, st: st}}, true
		}
		st := newState()
		args := en.symArgs(fn, true)
		var tplPtr Val
		for _, a := range args {
			if p, ok := a.(Ptr); ok {
				o := en.get(st, p.obj)
				n := namedOf(o.elem)
				switch {
				case n != nil && n.Obj() == tpl.Obj():
					tplPtr = p
				case n != nil && n.Obj().Name() == "TemplateProcessingBuilder":
					s := en.load(st, p).(Struct)
					for _, f := range s.f {
						if q, ok := en.force(f).(Ptr); ok {
							if m := namedOf(en.get(st, q.obj).elem); m != nil && m.Obj() == tpl.Obj() {
								q.nilKey = ""
								tplPtr = q
							}
						}
					}
				}
			}
		}
		type tv struct{ tpl, toks, n Val }
		get := func(st *State, v Val) (out []tv, ok bool) {
			s, ok := en.deref(st, v).(Struct)
			if !ok {
				return nil, false
			}
			tk, _ := field(s, "SpecialTokens")
			for _, f := range [][2]string{{"Single", "AddedSingle"}, {"Pair", "AddedPair"}} {
				a, _ := field(s, f[0])
				n, _ := field(s, f[1])
				if a == nil || n == nil || tk == nil {
					return nil, false
				}
				out = append(out, tv{en.force(a), en.force(tk), n})
			}
			return out, true
		}
		var before []tv
		if tplPtr != nil {
			before, _ = get(st, tplPtr)
			for _, b := range before {
				st.addEQ(en.toInt(b.n).sub(countKey(en, st, b.tpl, b.toks)))
			}
		}
		outs, err := en.safeRun(fn, args, st)
		if err != "" {
			r.Undecided("recount", fname(fn), err)
			continue
		}
		for _, o := range outs {
			if o.kind != "ret" {
				continue
			}
			var vs []Val
			if tplPtr != nil {
				vs = append(vs, tplPtr)
			}
			for _, v := range o.ret {
				if p, ok := en.force(v).(Ptr); ok {
					if n := namedOf(en.get(o.st, p.obj).elem); n != nil && n.Obj() == tpl.Obj() {
						vs = append(vs, p)
					}
				}
			}
			for _, v := range vs {
				after, ok := get(o.st, v)
				if !ok {
					r.Undecided("recount", fname(fn), "fields unknown")
					continue
				}
				for i, what := range []string{"single", "pair"} {
					a := after[i]
					want := countKey(en, o.st, a.tpl, a.toks)
					n := en.toInt(a.n)
					key := fname(fn) + " " + what
					switch {
					case n == nil:
						r.Undecided("recount", key, "count unknown")
					case o.st.provesEQ(n.sub(want)):
						r.OK("recount", key, fn.Pos(), "announced count belongs to the template and its tokens")
					case before != nil && o.st.provesEQ(n.sub(en.toInt(before[i].n))) && (en.argKey(o.st, a.tpl) != en.argKey(o.st, before[i].tpl) || en.argKey(o.st, a.toks) != en.argKey(o.st, before[i].toks)):
						r.Bad("recount", key, fn.Pos(), "changes the template or its special tokens without recounting the announced tokens for the "+what+" template")
					case concretePoly(o.st.norm(n)) && concretePoly(want) && strings.Contains(o.st.norm(n).key(), "countAdded("):
						r.Bad("recount", key, fn.Pos(), "announces "+o.st.norm(n).key()+" for the "+what+" template")
					default:
						r.Undecided("recount", key, "announced "+o.st.norm(n).key())
					}
				}
			}
		}
	}
}

func token0(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func init() {
	props["T05"] = propMeta{run: t05, explain: "Every post-processor's Process is interpreted with and without a second sequence, asked and not asked to add special tokens; the number of tokens its result has beyond its inputs is compared with what its AddedTokens returns on the same receiver. The call to truncation inside post-processing is interpreted with a symbolic processor and its maximum is compared with the configured maximum minus the announced tokens."}
}
