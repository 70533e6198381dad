package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V01: every construction of a model is interpreted on a vocabulary of known tokens with
// symbolic ids; its four views of the vocabulary are then compared entry by entry.

type vmodel struct {
	short, typ string
	v          Val
}

type vrun struct {
	*script
	std *stdEnv
}

func newVrun(c *Ctx, st *State) *vrun {
	s := &script{c: c, en: newEng(c)}
	s.en.foldGlobals = true
	s.en.noMerge = true
	s.en.maxDepth = 40
	reflectHooks(s.en)
	(&cfgEnv{c: c, en: s.en, ref: map[string]Val{}}).hooks()
	sortHooks(s.en)
	r := &vrun{script: s, std: newStdEnv(s.en, st)}
	s.en.hooks["fmt.Println"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return retOne(st, Int{pa(en.fresh("written"))}, NilV{errType})
	}
	return r
}

// vocab makes a map of the tokens, entered in that order.
func (s *vrun) vocab(st *State, t types.Type, toks []string, ids []Val) MapV {
	o := &Obj{kind: 'm', mtyp: t.Underlying().(*types.Map), label: "vocab"}
	for i, k := range toks {
		o.ups = append(o.ups, mapUp{k: strVal(k), v: ids[i]})
	}
	return MapV{obj: s.en.newObj(st, o)}
}

// m calls a method; the receiver is adapted to what the method wants.
func (s *vrun) m(st *State, short, typ, name string, recv Val, args []Val, f func(st *State, ret []Val)) {
	fn := s.c.lookup(short, typ+"."+name)
	if fn == nil {
		s.err = "missing " + typ + "." + name
		return
	}
	recv = s.en.force(recv)
	_, wantPtr := fn.Signature.Recv().Type().(*types.Pointer)
	switch x := recv.(type) {
	case Struct:
		if wantPtr {
			recv = s.en.cell(st, x)
		}
	case Ptr:
		if !wantPtr {
			recv = s.en.load(st, x)
		}
	}
	s.do(st, short, typ+"."+name, append([]Val{recv}, args...), f)
}

// okErr continues when the last result is no error.
func (s *vrun) okErr(v *vv, what string, f func(st *State, m Val)) func(st *State, ret []Val) {
	return func(st *State, ret []Val) {
		switch (&cfgEnv{c: s.c, en: s.en}).errState(st, ret[len(ret)-1]) {
		case 0:
			v.b("%s fails on a valid vocabulary", what)
		case 1:
			f(st, ret[0])
		default:
			v.u("%s: error unknown", what)
		}
	}
}

type vconstr struct {
	name       string
	short, typ string
	run        func(s *vrun, st *State, v *vv, f func(st *State, m Val, want []vent))
}

type vent struct {
	tok string
	id  *Poly
}

var vtoks = []string{"b", "ab", "[UNK]", "a"}

func (s *vrun) symIds(st *State) ([]Val, []vent) {
	var l []Val
	var e []vent
	for i, t := range vtoks {
		p := pa(fmt.Sprintf("id%d", i))
		st.ge = append(st.ge, p)
		for _, o := range e {
			st.ne = append(st.ne, p.sub(o.id))
		}
		l = append(l, Int{p})
		e = append(e, vent{t, p})
	}
	return l, e
}

func (s *vrun) strPtr(st *State, x string) Val {
	id := s.en.newObj(st, &Obj{kind: 'c', val: strVal(x)})
	return Ptr{obj: id}
}

func mapT(c *Ctx, short, name string) types.Type {
	if t := c.typeNamed(short, name); t != nil {
		return t
	}
	return types.NewMap(strT, types.Typ[types.Int])
}

func constructions(c *Ctx) []vconstr {
	plain := types.NewMap(strT, types.Typ[types.Int])
	vocabT := mapT(c, "model", "Vocab")
	mergesT := c.typeNamed("model/bpe", "Merges")
	bpe, wp, wl, un := "model/bpe", "model/wordpiece", "model/wordlevel", "model/unigram"
	emptyMerges := func(s *vrun, st *State) Val {
		return MapV{obj: s.en.newObj(st, &Obj{kind: 'm', mtyp: mergesT.Underlying().(*types.Map), label: "merges"})}
	}
	textFile := func(s *vrun, st *State) (want []vent) {
		s.std.put(st, "file:vocab.txt", strVal(strings.Join(vtoks, "\n")+"\n"))
		for i, t := range vtoks {
			want = append(want, vent{t, pc(int64(i))})
		}
		return
	}
	builder := func(s *vrun, st *State, v *vv, f func(st *State, b Val, want []vent)) {
		ids, want := s.symIds(st)
		s.do(st, bpe, "NewBpeBuilder", nil, func(st *State, ret []Val) {
			b := ret[0]
			s.m(st, bpe, "BpeBuilder", "VocabAndMerges", b, []Val{s.vocab(st, vocabT, vtoks, ids), emptyMerges(s, st)}, func(st *State, _ []Val) { f(st, b, want) })
		})
	}
	return []vconstr{
		{"BPE builder", bpe, "BPE", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			builder(s, st, v, func(st *State, b Val, want []vent) {
				s.m(st, bpe, "BpeBuilder", "UnkToken", b, []Val{strVal("[UNK]")}, func(st *State, _ []Val) {
					s.m(st, bpe, "BpeBuilder", "Build", b, nil, s.okErr(v, "Build", func(st *State, m Val) { f(st, m, want) }))
				})
			})
		}},
		{"BPE without cache", bpe, "BPE", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			builder(s, st, v, func(st *State, b Val, want []vent) {
				s.m(st, bpe, "BpeBuilder", "CacheCapacity", b, []Val{Int{pc(0)}}, func(st *State, _ []Val) {
					s.m(st, bpe, "BpeBuilder", "Build", b, nil, s.okErr(v, "Build", func(st *State, m Val) { f(st, m, want) }))
				})
			})
		}},
		{"NewBPE", bpe, "BPE", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, bpe, "NewBPE", []Val{s.vocab(st, vocabT, vtoks, ids), emptyMerges(s, st)}, func(st *State, ret []Val) { f(st, ret[0], want) })
		}},
		{"BPE from configuration", bpe, "BPE", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			nilS := NilV{types.NewPointer(strT)}
			merges := s.en.mkSlice(st, strT, strVal("a b"))
			s.do(st, bpe, "New", []Val{s.vocab(st, vocabT, vtoks, ids), merges, NilV{types.NewPointer(types.Typ[types.Float32])}, nilS, nilS, nilS}, s.okErr(v, "New", func(st *State, m Val) { f(st, m, want) }))
		}},
		{"BPE from files", bpe, "BPE", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.std.json["vocab"] = s.vocab(st, vocabT, vtoks, ids)
			s.std.put(st, "file:vocab.json", Term{"vocab", strT})
			s.std.put(st, "file:merges.txt", strVal("#version: 0.2\na b\n"))
			s.do(st, bpe, "NewBpeFromFiles", []Val{strVal("vocab.json"), strVal("merges.txt")}, s.okErr(v, "NewBpeFromFiles", func(st *State, m Val) { f(st, m, want) }))
		}},
		{"BPE default", bpe, "BPE", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			s.do(st, bpe, "DefaultBPE", nil, s.okErr(v, "DefaultBPE", func(st *State, m Val) { f(st, m, nil) }))
		}},
		{"WordPiece builder", wp, "WordPiece", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, wp, "NewWordPieceBuilder", nil, func(st *State, ret []Val) {
				vo := Ptr{obj: s.en.newObj(st, &Obj{kind: 'c', val: s.vocab(st, vocabT, vtoks, ids)})}
				s.m(st, wp, "WordPieceBuilder", "Vocab", ret[0], []Val{vo}, func(st *State, ret []Val) {
					s.m(st, wp, "WordPieceBuilder", "UnkToken", ret[0], []Val{strVal("[UNK]")}, func(st *State, ret []Val) {
						s.m(st, wp, "WordPieceBuilder", "Build", ret[0], nil, func(st *State, ret []Val) { f(st, ret[0], want) })
					})
				})
			})
		}},
		{"WordPiece builder from file", wp, "WordPiece", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			want := textFile(s, st)
			s.do(st, wp, "NewWordPieceBuilderFromFile", []Val{strVal("vocab.txt")}, func(st *State, ret []Val) {
				s.m(st, wp, "WordPieceBuilder", "Build", ret[0], nil, func(st *State, ret []Val) { f(st, ret[0], want) })
			})
		}},
		{"WordPiece from file", wp, "WordPiece", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			want := textFile(s, st)
			s.do(st, wp, "NewWordPieceFromFile", []Val{strVal("vocab.txt"), strVal("[UNK]"), NilV{types.NewSlice(types.Typ[types.Int])}}, s.okErr(v, "NewWordPieceFromFile", func(st *State, m Val) { f(st, m, want) }))
		}},
		{"WordPiece from BPE", wp, "WordPiece", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, bpe, "NewBPE", []Val{s.vocab(st, vocabT, vtoks, ids), emptyMerges(s, st)}, func(st *State, ret []Val) {
				b := s.en.force(ret[0])
				if p, ok := b.(Ptr); ok {
					b = s.en.load(st, p)
				}
				s.do(st, wp, "NewWordPieceFromBPE", []Val{b}, func(st *State, ret []Val) { f(st, ret[0], want) })
			})
		}},
		{"WordPiece default", wp, "WordPiece", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			s.do(st, wp, "NewWordPiece", nil, func(st *State, ret []Val) { f(st, ret[0], nil) })
		}},
		{"WordLevel builder", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, wl, "NewWordLevelBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				s.m(st, wl, "WordLevelBuilder", "Vocab", b, []Val{s.vocab(st, plain, vtoks, ids)}, func(st *State, _ []Val) {
					s.m(st, wl, "WordLevelBuilder", "Build", b, nil, func(st *State, ret []Val) { f(st, ret[0], want) })
				})
			})
		}},
		{"WordLevel builder, unknown token of the vocabulary", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, wl, "NewWordLevelBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				s.m(st, wl, "WordLevelBuilder", "Vocab", b, []Val{s.vocab(st, plain, vtoks, ids)}, func(st *State, _ []Val) {
					s.m(st, wl, "WordLevelBuilder", "UnkToken", b, []Val{strVal("[UNK]")}, func(st *State, _ []Val) {
						s.m(st, wl, "WordLevelBuilder", "Build", b, nil, func(st *State, ret []Val) { f(st, ret[0], want) })
					})
				})
			})
		}},
		{"WordLevel builder, new unknown token", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, wl, "NewWordLevelBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				s.m(st, wl, "WordLevelBuilder", "Vocab", b, []Val{s.vocab(st, plain, vtoks, ids)}, func(st *State, _ []Val) {
					s.m(st, wl, "WordLevelBuilder", "UnkToken", b, []Val{strVal("<unk>")}, func(st *State, _ []Val) {
						s.m(st, wl, "WordLevelBuilder", "Build", b, nil, func(st *State, ret []Val) {
							s.m(st, wl, "WordLevel", "TokenToId", ret[0], []Val{strVal("<unk>")}, func(st *State, r2 []Val) {
								w := want
								if has, known := st.decide(r2[1]); known && has {
									w = append(append([]vent{}, want...), vent{"<unk>", s.en.toInt(r2[0])})
								} else if !known {
									v.u("lookup of the unknown token undecided")
									return
								}
								f(st, ret[0], w)
							})
						})
					})
				})
			})
		}},
		{"WordLevel builder, new unknown token, ids with a gap", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			far := pc(int64(len(vtoks))) // the id after the last one of a vocabulary without gap
			for i := range want {
				want[i].id = far.addc(int64(-i))
				ids[i] = Int{want[i].id}
			}
			s.do(st, wl, "NewWordLevelBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				s.m(st, wl, "WordLevelBuilder", "Vocab", b, []Val{s.vocab(st, plain, vtoks, ids)}, func(st *State, _ []Val) {
					s.m(st, wl, "WordLevelBuilder", "UnkToken", b, []Val{strVal("<unk>")}, func(st *State, _ []Val) {
						s.m(st, wl, "WordLevelBuilder", "Build", b, nil, func(st *State, ret []Val) {
							s.m(st, wl, "WordLevel", "TokenToId", ret[0], []Val{strVal("<unk>")}, func(st *State, r2 []Val) {
								w := want
								if has, known := st.decide(r2[1]); known && has {
									w = append(append([]vent{}, want...), vent{"<unk>", s.en.toInt(r2[0])})
								} else if !known {
									v.u("lookup of the unknown token undecided")
									return
								}
								f(st, ret[0], w)
							})
						})
					})
				})
			})
		}},
		{"WordLevel from configuration", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			ids, want := s.symIds(st)
			s.do(st, wl, "New", []Val{s.vocab(st, plain, vtoks, ids), strVal("[UNK]")}, s.okErr(v, "New", func(st *State, m Val) { f(st, m, want) }))
		}},
		{"WordLevel from file", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			want := textFile(s, st)
			s.do(st, wl, "NewWorldLevelFromFile", []Val{strVal("vocab.txt"), strVal("[UNK]")}, s.okErr(v, "NewWorldLevelFromFile", func(st *State, m Val) { f(st, m, want) }))
		}},
		{"WordLevel default", wl, "WordLevel", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			s.do(st, wl, "NewWordLevel", nil, func(st *State, ret []Val) { f(st, ret[0], []vent{{"<unk>", pc(0)}}) })
		}},
		{"Unigram builder", un, "Unigram", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			vo, want := s.scores(st)
			s.do(st, un, "NewUnigramBuilder", nil, func(st *State, ret []Val) {
				s.m(st, un, "UnigramBuilder", "Vocab", ret[0], []Val{vo}, func(st *State, ret []Val) {
					s.m(st, un, "UnigramBuilder", "Build", ret[0], nil, s.okErr(v, "Build", func(st *State, m Val) { f(st, m, want) }))
				})
			})
		}},
		{"Unigram from configuration", un, "Unigram", func(s *vrun, st *State, v *vv, f func(*State, Val, []vent)) {
			vo, want := s.scores(st)
			s.do(st, un, "New", []Val{vo, NilV{types.NewPointer(c.typeNamed("util", "Params"))}}, s.okErr(v, "New", func(st *State, m Val) { f(st, m, want) }))
		}},
	}
}

func (s *vrun) scores(st *State) (Val, []vent) {
	t := s.c.typeNamed("model/unigram", "TokenScore")
	var vs []Val
	var want []vent
	for i, x := range vtoks {
		vs = append(vs, s.en.mkStruct("score:"+x, t, map[string]Val{"Token": strVal(x)}))
		want = append(want, vent{x, pc(int64(i))})
	}
	return s.en.mkSlice(st, t, vs...), want
}

// views compares the four views of a model's vocabulary with the expected entries.
func (s *vrun) views(st *State, short, typ string, m Val, want []vent, v *vv) {
	e := &cfgEnv{c: s.c, en: s.en}
	for _, w := range want {
		s.m(st, short, typ, "TokenToId", m, []Val{strVal(w.tok)}, func(st *State, ret []Val) {
			ok, known := st.decide(ret[1])
			i, isInt := ret[0].(Int)
			switch {
			case !known || ok && !isInt:
				v.u("id of %q unknown", w.tok)
			case !ok:
				v.b("vocabulary token %q has no id", w.tok)
			case judgeEQ(st, i.p.sub(w.id)) < 0:
				v.b("vocabulary token %q has the id %s, not %s", w.tok, st.norm(i.p).key(), w.id.key())
			case judgeEQ(st, i.p.sub(w.id)) == 0:
				v.u("id of %q unknown", w.tok)
			}
		})
		s.m(st, short, typ, "IdToToken", m, []Val{Int{w.id}}, func(st *State, ret []Val) {
			ok, known := st.decide(ret[1])
			x, isStr := s.str(st, ret[0])
			switch {
			case !known || ok && !isStr:
				v.u("token of id %s unknown", w.id.key())
			case !ok:
				v.b("the id %s of token %q has no token", w.id.key(), w.tok)
			case x != w.tok:
				v.b("the id %s of token %q maps to %q", w.id.key(), w.tok, x)
			}
		})
	}
	s.m(st, short, typ, "TokenToId", m, []Val{strVal("nowhere")}, func(st *State, ret []Val) {
		if ok, known := st.decide(ret[1]); !known {
			v.u("id of an unknown token unknown")
		} else if ok {
			v.b("a token that is not in the vocabulary has an id")
		}
	})
	// ids no token has
	for _, x := range []string{"negative", "other"} {
		st2 := st.clone()
		p := pa("some id")
		if x == "negative" {
			st2.ge = append(st2.ge, p.neg().addc(-1))
		} else {
			st2.ge = append(st2.ge, p.addc(-int64(len(want))))
		}
		for _, w := range want {
			st2.ne = append(st2.ne, p.sub(w.id))
		}
		s.m(st2, short, typ, "IdToToken", m, []Val{Int{p}}, func(st *State, ret []Val) {
			if ok, known := st.decide(ret[1]); !known {
				v.u("token of an unknown id unknown")
			} else if ok {
				v.b("an id no token has maps to a token")
			}
		})
	}
	s.m(st, short, typ, "GetVocabSize", m, nil, func(st *State, ret []Val) {
		if i, ok := ret[0].(Int); !ok || judgeEQ(st, i.p.addc(-int64(len(want)))) == 0 {
			v.u("size unknown")
		} else if judgeEQ(st, i.p.addc(-int64(len(want)))) < 0 {
			v.b("the vocabulary has %d entries, the size reported is %s", len(want), st.norm(i.p).key())
		}
	})
	s.m(st, short, typ, "GetVocab", m, nil, func(st *State, ret []Val) {
		for _, w := range want {
			g, has := s.en.lookup(st, ret[0], strVal(w.tok))
			d, ok := st.decide(has)
			i, isInt := g.(Int)
			switch {
			case !ok || d && !isInt:
				v.u("vocabulary entry of %q unknown", w.tok)
			case !d:
				v.b("%q is missing from the vocabulary", w.tok)
			case judgeEQ(st, i.p.sub(w.id)) < 0:
				v.b("the vocabulary gives %q the id %s, not %s", w.tok, st.norm(i.p).key(), w.id.key())
			}
		}
		mv, ok := s.en.force(ret[0]).(MapV)
		if !ok {
			if _, isNil := s.en.force(ret[0]).(NilV); !isNil {
				v.u("vocabulary unknown")
			}
			return
		}
		es := s.en.mapEntries(st, s.en.get(st, mv.obj))
		if es == nil && len(want) > 0 {
			v.u("vocabulary unknown: %s", e.dump(st, mv, 0))
		} else if len(es) > len(want) {
			v.b("the vocabulary has %d entries, not %d", len(es), len(want))
		}
	})
}

func v01(c *Ctx, r *Rep) {
	cs := constructions(c)
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	for _, k := range cs {
		st := newState()
		s := newVrun(c, st)
		v := &vv{}
		paths := 0
		k.run(s, st, v, func(st *State, m Val, want []vent) {
			paths++
			s.views(st, k.short, k.typ, m, want, v)
		})
		if s.crash != "" {
			v.b("%s", s.crash)
		}
		fn := c.lookup(k.short, k.typ+".TokenToId")
		if fn == nil {
			r.Missing(k.typ + ".TokenToId")
			continue
		}
		r.Add("constructions interpreted", 1)
		v.settle(r, "vocabulary views", k.name, fn.Pos(), paths, s.err)
	}
	r.Min("constructions interpreted", 15)
}

func init() {
	props["V01"] = propMeta{run: v01,
		explain: "Every public construction of a model (BPE, WordPiece, WordLevel and Unigram; builders with and without options, constructors, vocabulary files, one model from another) is interpreted abstractly on a vocabulary of four tokens with symbolic pairwise different ids (files: ids by line), files being the text written to them. Afterwards TokenToId gives every token its id, IdToToken gives every id its token and no other id any, an unknown token has no id, GetVocab has exactly the entries and GetVocabSize their number.",
		assume:  []string{"the caller's vocabulary has pairwise different non-negative ids (Unigram: different tokens)", "token texts are distinguished by equality only", "the trainer hands the builder such a vocabulary"},
	}
}
