package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V02 and V03: a script of public calls on a tokenizer over an abstract model is interpreted;
// the answers of the public queries afterwards are compared with the specification.

type script struct {
	c     *Ctx
	en    *Eng
	tk    Val
	size  *Poly // the model's vocabulary size
	mid   map[string]*Poly
	regs  []string // pattern lists the matcher was built from, in order
	err   string
	crash string     // a call that can not return
	all   bool       // a call must not end in a crash on any path
	dec   [][]string // token lists handed to the decoder
}

const vsizeAtom = "vsize"

// newScript makes a tokenizer around a model with symbolic vocabulary size; the ids of the
// model's tokens are given.
func newScript(c *Ctx, ids map[string]*Poly) (*script, *State) {
	s := &script{c: c, en: newEng(c), size: pa(vsizeAtom), mid: ids}
	st := newState()
	s.en.foldGlobals = true
	s.en.noMerge = true
	s.en.maxDepth = 40
	reflectHooks(s.en)
	st.ge = append(st.ge, s.size.addc(-int64(len(ids))))
	strR := func(st *State, t string, ok bool) ([]Outcome, bool) {
		return retOne(st, strVal(t), BoolC(ok))
	}
	s.en.hooks["invoke tokenizer.Model.TokenToId"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		t, ok := args[1].(Term)
		if !ok {
			return nil, false
		}
		k, ok := t.isStrConst()
		if !ok {
			return nil, false
		}
		if p := s.mid[k]; p != nil {
			return retOne(st, Int{p}, BoolC(true))
		}
		return retOne(st, Int{pc(0)}, BoolC(false))
	}
	s.en.hooks["invoke tokenizer.Model.IdToToken"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		i, ok := args[1].(Int)
		if !ok {
			return nil, false
		}
		for _, k := range sortedKeys2(s.mid) {
			if st.provesEQ(i.p.sub(s.mid[k])) {
				return strR(st, k, true)
			}
			if !st.provesNE(i.p.sub(s.mid[k])) && !st.provesGE(i.p.sub(s.mid[k]).addc(-1)) && !st.provesGE(s.mid[k].sub(i.p).addc(-1)) {
				return nil, false
			}
		}
		return strR(st, "", false)
	}
	s.en.hooks["invoke tokenizer.Model.GetVocabSize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return retOne(st, Int{s.size})
	}
	s.en.hooks["invoke tokenizer.Model.GetVocab"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		o := &Obj{kind: 'm', mtyp: types.NewMap(strT, types.Typ[types.Int]), label: "vocab"}
		for _, k := range sortedKeys2(s.mid) {
			o.ups = append(o.ups, mapUp{k: strVal(k), v: Int{s.mid[k]}})
		}
		return retOne(st, MapV{obj: en.newObj(st, o)})
	}
	s.en.hooks["invoke tokenizer.Decoder.Decode"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return retOne(st, Term{"decoded(" + (&cfgEnv{c: c, en: en}).dump(st, args[1], 0) + ")", strT})
	}
	s.en.hooks["strings.Join"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		e := &cfgEnv{c: c, en: en}
		return retOne(st, Term{"joined(" + e.dump(st, args[0], 0) + "," + e.dump(st, args[1], 0) + ")", strT})
	}
	return s, st
}

func sortedKeys2(m map[string]*Poly) (l []string) {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return sortedKeys(x)
}

// do interprets one public call; f continues on every returning path.
func (s *script) do(st *State, short, name string, args []Val, f func(st *State, ret []Val)) {
	fn := s.c.lookup(short, name)
	if fn == nil {
		s.err = "missing " + name
		return
	}
	outs, err := s.en.safeRun(fn, args, st)
	if err != "" {
		s.err = err
		return
	}
	crash := ""
	for _, o := range outs {
		if o.kind == "ret" {
			f(o.st, o.ret)
		}
		if s.all && (o.kind == "panic" || o.kind == "exit") {
			s.crash = fmt.Sprintf("%s ends in a %s: %s", name, o.kind, o.why)
			return
		}
		if crash == "" && (o.kind == "panic" || o.kind == "exit") {
			crash = fmt.Sprintf("%s ends in a %s on every path: %s", name, o.kind, o.why)
		} else if o.kind != "panic" && o.kind != "exit" {
			crash = "-"
		}
	}
	if crash != "" && crash != "-" {
		s.crash = crash
	}
}

func (s *script) start(st *State, f func(st *State)) {
	mt := s.c.typeNamed("", "Model")
	if mt == nil {
		s.err = "missing Model"
		return
	}
	m := Term{"model", mt}
	st.assume(nilTest(s.en, m), false)
	s.do(st, "", "NewTokenizer", []Val{m}, func(st *State, ret []Val) {
		s.tk = ret[0]
		f(st)
	})
}

type atok struct {
	text       string
	normalized bool
}

func (s *script) tokens(st *State, l []atok) Val {
	at := s.c.typeNamed("", "AddedToken")
	var vs []Val
	for _, t := range l {
		vs = append(vs, s.en.mkStruct("tok:"+t.text, at, map[string]Val{"Content": strVal(t.text), "SingleWord": BoolC(false), "LStrip": BoolC(false), "RStrip": BoolC(false), "Normalized": BoolC(t.normalized)}))
	}
	return s.en.mkSlice(st, at, vs...)
}

type vstep struct {
	special bool
	toks    []atok
	added   int // expected return value, -1: not checked
}

type vcase struct {
	name    string
	ids     map[string]*Poly
	steps   []vstep
	special []string
	known   map[string]*Poly // expected ids; nil: a new one
	matched []string         // tokens the matcher must know
	size    int              // new tokens
}

func vcases() []vcase {
	a := func(l ...string) (r []atok) {
		for _, x := range l {
			r = append(r, atok{x, false})
		}
		return
	}
	mod := map[string]*Poly{"m0": pc(0), "m1": pc(1)}
	nw := (*Poly)(nil)
	return []vcase{
		{"one new token", mod, []vstep{{false, a("x"), 1}}, nil, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"one new normalized token", mod, []vstep{{false, []atok{{"x", true}}, 1}}, nil, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"one new special token", mod, []vstep{{true, a("x"), 1}}, []string{"x"}, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"two new tokens", mod, []vstep{{false, a("x", "y"), 2}}, nil, map[string]*Poly{"x": nw, "y": nw}, []string{"x", "y"}, 2},
		{"two new special tokens", mod, []vstep{{true, a("x", "y"), 2}}, []string{"x", "y"}, map[string]*Poly{"x": nw, "y": nw}, []string{"x", "y"}, 2},
		{"a token twice in one call", mod, []vstep{{false, a("x", "x"), 1}}, nil, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"a special token twice in one call", mod, []vstep{{true, a("x", "x"), 1}}, []string{"x"}, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"a token again", mod, []vstep{{false, a("x"), 1}, {false, a("x"), 0}}, nil, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"tokens in two calls", mod, []vstep{{false, a("x"), 1}, {false, a("y"), 1}}, nil, map[string]*Poly{"x": nw, "y": nw}, []string{"x", "y"}, 2},
		{"special then ordinary tokens", mod, []vstep{{true, a("s", "t"), 2}, {false, a("x", "y"), 2}}, []string{"s", "t"}, map[string]*Poly{"s": nw, "t": nw, "x": nw, "y": nw}, []string{"s", "t", "x", "y"}, 4},
		{"ordinary then special tokens", mod, []vstep{{false, a("x", "y"), 2}, {true, a("s", "t"), 2}}, []string{"s", "t"}, map[string]*Poly{"s": nw, "t": nw, "x": nw, "y": nw}, []string{"s", "t", "x", "y"}, 4},
		{"an ordinary token becomes special", mod, []vstep{{false, a("x"), 1}, {true, a("x"), 0}}, []string{"x"}, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"a special token stays special", mod, []vstep{{true, a("x"), 1}, {false, a("x"), 0}}, []string{"x"}, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"a token of the model", mod, []vstep{{false, a("m1"), 0}}, nil, map[string]*Poly{"m1": pc(1)}, nil, 0},
		{"a special token of the model", mod, []vstep{{true, a("m1"), 0}}, []string{"m1"}, map[string]*Poly{"m1": pc(1)}, []string{"m1"}, 0},
		{"a token of the model before a new one", mod, []vstep{{true, a("m1", "x", "y"), 2}}, []string{"m1", "x", "y"}, map[string]*Poly{"m1": pc(1), "x": nw, "y": nw}, []string{"m1", "x", "y"}, 2},
		{"a token of the model between new ones", mod, []vstep{{false, a("x", "m0", "y"), 2}}, nil, map[string]*Poly{"m0": pc(0), "x": nw, "y": nw}, []string{"x", "y"}, 2},
		{"an empty token", mod, []vstep{{false, a("", "x"), 1}}, nil, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"an empty special token", mod, []vstep{{true, a("", "x"), 1}}, []string{"x"}, map[string]*Poly{"x": nw}, []string{"x"}, 1},
		{"a model with an id at its vocabulary size", map[string]*Poly{"m0": pc(0), "far": pa(vsizeAtom)}, []vstep{{false, a("x", "y"), 2}}, nil, map[string]*Poly{"x": nw, "y": nw}, []string{"x", "y"}, 2},
		{"a model with a later id past its vocabulary size", map[string]*Poly{"m0": pc(0), "far": pa(vsizeAtom).addc(1)}, []vstep{{true, a("x", "y"), 2}}, []string{"x", "y"}, map[string]*Poly{"x": nw, "y": nw}, []string{"x", "y"}, 2},
		{"normalized and raw tokens", mod, []vstep{{false, []atok{{"x", true}, {"y", false}}, 2}}, nil, map[string]*Poly{"x": nw, "y": nw}, []string{"x", "y"}, 2},
	}
}

// verdicts of a scenario
type vv struct{ bad, und []string }

func (v *vv) b(f string, a ...interface{}) { v.bad = append(v.bad, fmt.Sprintf(f, a...)) }
func (v *vv) u(f string, a ...interface{}) { v.und = append(v.und, fmt.Sprintf(f, a...)) }

func (v *vv) settle(r *Rep, rule, key string, p token.Pos, paths int, err string) {
	switch {
	case len(v.bad) > 0:
		r.Bad(rule, key, p, v.bad[0])
	case err != "":
		r.Undecided(rule, key, err)
	case len(v.und) > 0:
		r.Undecided(rule, key, v.und[0])
	case paths == 0:
		r.Undecided(rule, key, "no returning path")
	default:
		r.OK(rule, key, p, fmt.Sprintf("%d paths", paths))
	}
}

// steps runs the additions and continues on every path.
func (s *script) steps(st *State, steps []vstep, v *vv, f func(st *State)) {
	if len(steps) == 0 {
		f(st)
		return
	}
	name := "Tokenizer.AddTokens"
	if steps[0].special {
		name = "Tokenizer.AddSpecialTokens"
	}
	s.do(st, "", name, []Val{s.tk, s.tokens(st, steps[0].toks)}, func(st *State, ret []Val) {
		if i, ok := ret[0].(Int); !ok || steps[0].added < 0 {
		} else if judgeEQ(st, i.p.addc(-int64(steps[0].added))) < 0 {
			v.b("%s of %d tokens, %d of them new, reports %s", name, len(steps[0].toks), steps[0].added, st.norm(i.p).key())
		}
		s.steps(st, steps[1:], v, f)
	})
}

func (s *script) str(st *State, v Val) (string, bool) {
	t, ok := v.(Term)
	if !ok {
		return "", false
	}
	return t.isStrConst()
}

func v02(c *Ctx, r *Rep) {
	cs := vcases()
	fn := c.lookup("", "Tokenizer.AddTokens")
	if fn == nil || c.lookup("", "Tokenizer.AddSpecialTokens") == nil {
		r.Missing("Tokenizer.AddTokens")
		return
	}
	r.parallel(len(cs), func(i int, r *Rep) {
		cs := cs[i]
		s, st := newScript(c, cs.ids)
		v := &vv{}
		paths := 0
		s.start(st, func(st *State) {
			s.steps(st, cs.steps, v, func(st *State) {
				paths++
				s.observe(st, cs, v)
			})
		})
		r.Add("scripts interpreted", 1)
		v.settle(r, "added tokens", cs.name, fn.Pos(), paths, s.err)
	})
	r.Min("scripts interpreted", 15)
}

func (s *script) observe(st *State, cs vcase, v *vv) {
	ids := map[string]*Poly{}
	for _, t := range sortedKeys2(cs.known) {
		want := cs.known[t]
		s.do(st, "", "Tokenizer.TokenToId", []Val{s.tk, strVal(t)}, func(st *State, ret []Val) {
			ok, known := st.decide(ret[1])
			i, isInt := ret[0].(Int)
			switch {
			case !known || !isInt:
				v.u("lookup of %q unknown", t)
			case !ok:
				v.b("%q is not found after it was added", t)
			case want != nil && judgeEQ(st, i.p.sub(want)) < 0:
				v.b("%q has id %s in the model and %s after it was added", t, want.key(), i.p.key())
			case want == nil:
				for _, m := range sortedKeys2(s.mid) {
					if judgeNE(st, i.p.sub(s.mid[m])) < 0 {
						v.b("new token %q gets id %s, the id of model token %q", t, i.p.key(), m)
					}
				}
				if judgeGE(st, i.p.sub(s.size)) < 0 {
					v.b("new token %q gets id %s below the model's vocabulary size", t, i.p.key())
				}
				for o, p := range ids {
					if judgeNE(st, i.p.sub(p)) < 0 {
						v.b("%q and %q both get id %s", o, t, i.p.key())
					}
				}
				fallthrough
			default:
				ids[t] = i.p
				s.do(st, "", "Tokenizer.IdToToken", []Val{s.tk, i}, func(st *State, ret []Val) {
					ok, known := st.decide(ret[1])
					x, isStr := s.str(st, ret[0])
					switch {
					case !known || ok && !isStr:
						v.u("token of id %s unknown", i.p.key())
					case !ok:
						v.b("id %s of %q is not found", i.p.key(), t)
					case x != t:
						v.b("id %s of %q maps to %q", i.p.key(), t, x)
					}
				})
			}
		})
	}
	// the model's own tokens are found as before
	for _, m := range sortedKeys2(s.mid) {
		s.do(st, "", "Tokenizer.IdToToken", []Val{s.tk, Int{s.mid[m]}}, func(st *State, ret []Val) {
			if x, isStr := s.str(st, ret[0]); isStr && x != m {
				v.b("id %s of model token %q maps to %q", s.mid[m].key(), m, x)
			}
		})
	}
	for _, t := range []string{"x", "y", "s", "t", "m0", "m1"} {
		s.do(st, "", "AddedVocabulary.IsSpecialToken", []Val{s.av(), strVal(t)}, func(st *State, ret []Val) {
			d, ok := st.decide(ret[0])
			want := false
			for _, x := range cs.special {
				want = want || x == t
			}
			if !ok {
				v.u("special or not unknown")
			} else if d != want {
				v.b("%q: registered as special %v, reported as %v", t, want, d)
			}
		})
	}
	s.do(st, "", "Tokenizer.GetVocabSize", []Val{s.tk, BoolC(true)}, func(st *State, ret []Val) {
		if i, ok := ret[0].(Int); !ok {
			v.u("size unknown")
		} else if judgeEQ(st, i.p.sub(s.size).addc(-int64(cs.size))) < 0 {
			v.b("%d tokens were added to a model of %s, the size is %s", cs.size, s.size.key(), i.p.key())
		}
	})
	s.do(st, "", "Tokenizer.GetVocab", []Val{s.tk, BoolC(true)}, func(st *State, ret []Val) {
		for _, t := range sortedKeys2(ids) {
			g, has := s.en.lookup(st, ret[0], strVal(t))
			d, ok := st.decide(has)
			switch {
			case !ok:
				v.u("vocabulary entry of %q unknown", t)
			case !d:
				v.b("%q is missing from the vocabulary", t)
			default:
				if i, ok := g.(Int); ok && judgeEQ(st, i.p.sub(ids[t])) < 0 {
					v.b("%q has id %s, the vocabulary says %s", t, ids[t].key(), i.p.key())
				}
			}
		}
	})
	// the matcher
	if len(cs.matched) == 0 {
		return
	}
	e := &cfgEnv{c: s.c, en: s.en}
	d := e.dump(st, s.en.load(st, s.tk.(Ptr)), -20)
	if !strings.Contains(d, "regexpset.NewRegexpSet(") {
		if s.c.callsNamed(rx+".NewRegexpSet") && !strings.Contains(d, "(") {
			v.b("no matcher was built after adding %s", strings.Join(cs.matched, ", "))
		} else {
			v.u("matcher not recognised")
		}
		return
	}
	for _, t := range cs.matched {
		if !strings.Contains(d, "regexp.QuoteMeta("+quote(t)+")") {
			v.b("the matcher kept after adding %q does not know it", t)
		}
	}
}

func quote(s string) string { return strVal(s).k }

// av is the address of the tokenizer's added vocabulary.
func (s *script) av() Val {
	p := s.tk.(Ptr)
	tt := s.c.typeNamed("", "Tokenizer")
	u := tt.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if n, ok := u.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "AddedVocabulary" {
			return Ptr{obj: p.obj, path: append(append([]Sel{}, p.path...), Sel{field: i})}
		}
	}
	return nil
}

func judgeNE(st *State, d *Poly) int {
	if st.provesNE(d) || st.provesGE(d.addc(-1)) || st.provesGE(d.neg().addc(-1)) {
		return 1
	}
	d = st.norm(d)
	if concretePoly(d) && refutable(st, d, func(v int64) bool { return v != 0 }) {
		return -1
	}
	return 0
}

// ---- V03

func v03(c *Ctx, r *Rep) {
	fn := c.lookup("", "Tokenizer.Decode")
	if fn == nil {
		r.Missing("Tokenizer.Decode")
		return
	}
	type tcase struct {
		name   string
		tokens []string // tokens whose ids are decoded; "?" an unknown id
	}
	cs := []tcase{
		{"model tokens", []string{"m0", "m1", "m0"}},
		{"added tokens", []string{"x", "m0", "y"}},
		{"special tokens", []string{"s", "m0", "t"}},
		{"only special tokens", []string{"s", "s"}},
		{"model token registered as special", []string{"m1", "m0"}},
		{"unknown id", []string{"m0", "?", "x"}},
		{"mixed", []string{"s", "x", "?", "m0", "t", "y", "m1"}},
		{"nothing", nil},
	}
	r.parallel(len(cs)*4, func(i int, r *Rep) {
		tc, skip, dec := cs[i/4], i%2 == 1, i/2%2 == 1
		s, st := newScript(c, map[string]*Poly{"m0": pc(0), "m1": pc(1)})
		v := &vv{}
		paths := 0
		setup := []vstep{{true, []atok{{"s", false}, {"m1", false}}, -1}, {false, []atok{{"x", false}}, -1}, {true, []atok{{"t", false}}, -1}, {false, []atok{{"y", true}}, -1}}
		special := map[string]bool{"s": true, "t": true, "m1": true}
		s.start(st, func(st *State) {
			s.steps(st, setup, v, func(st *State) {
				ids := make([]Val, len(tc.tokens))
				miss := false
				for k, t := range tc.tokens {
					if t == "?" {
						ids[k] = Int{s.size.addc(50)}
						continue
					}
					s.do(st, "", "Tokenizer.TokenToId", []Val{s.tk, strVal(t)}, func(_ *State, ret []Val) { ids[k] = ret[0] })
					miss = miss || ids[k] == nil
				}
				if miss {
					v.u("ids unknown")
					return
				}
				go3 := func(st *State) {
					var want []string
					for _, t := range tc.tokens {
						if t == "?" || skip && special[t] {
							continue
						}
						want = append(want, quote(t))
					}
					exp := "joined([" + strings.Join(want, " ") + `]," ")`
					if dec {
						exp = "decoded([" + strings.Join(want, " ") + "])"
					}
					s.do(st, "", "Tokenizer.Decode", []Val{s.tk, s.en.mkSlice(st, types.Typ[types.Int], ids...), BoolC(skip)}, func(st *State, ret []Val) {
						paths++
						got := ret[0].key()
						norm := strings.ReplaceAll(got, "(nil", "([]")
						switch {
						case norm == exp:
						case len(want) == 0 && got == `""`:
						case opaqueTerm(got) || mentionsHole(got) || strings.Contains(got, "‹"):
							v.u("decoded text unknown: %s", clipS(got, 80))
						default:
							v.b("expected %s, got %s", exp, clipS(got, 160))
						}
					})
				}
				if !dec {
					go3(st)
					return
				}
				dt := s.c.typeNamed("", "Decoder")
				if dt == nil {
					v.u("no Decoder type")
					return
				}
				d := Term{"decoder", dt}
				st.assume(nilTest(s.en, d), false)
				s.do(st, "", "Tokenizer.WithDecoder", []Val{s.tk, d}, func(st *State, ret []Val) { go3(st) })
			})
		})
		r.Add("decodings interpreted", 1)
		v.settle(r, "decode", fmt.Sprintf("%s|skip special %v|decoder %v", tc.name, skip, dec), fn.Pos(), paths, s.err)
	})
	r.Min("decodings interpreted", 30)
}

func init() {
	props["V02"] = propMeta{run: v02,
		explain: "Scripts of public calls (NewTokenizer, then AddTokens and AddSpecialTokens in mixed orders with new, repeated, empty and model tokens) are interpreted abstractly over a model of symbolic vocabulary size, including models with ids past their size. On every path afterwards: each added token is found by text, its id maps back to it, ids of new tokens differ from every model token and from each other and are not below the model's size, a token the model knows keeps its id, exactly the tokens added as special are reported special, the announced count, the vocabulary and its size agree, and the matcher kept by the tokenizer was built from all of them.",
		assume:  []string{"the model answers its lookups consistently (V01)", "the scenarios stand for the histories: the code does not distinguish token texts other than by equality and emptiness"},
	}
	props["V03"] = propMeta{run: v03,
		explain: "Tokenizer.Decode is interpreted abstractly, with and without decoder and with both skip settings, on id lists of model tokens, added tokens, special tokens and unknown ids: on every path the list handed to the decoder, or joined by single spaces, is exactly the tokens of the known ids in order without the special ones if and only if these are to be skipped.",
		assume:  []string{"the model answers its lookups consistently (V01)"},
	}
}

// callsNamed says whether the module calls the function of that name.
func (c *Ctx) callsNamed(name string) bool {
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc, ok := i.(ssa.CallInstruction); ok {
					if f := cc.Common().StaticCallee(); f != nil && fname(f) == name {
						return true
					}
				}
			}
		}
	}
	return false
}
