package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// S01: saving a model is interpreted on scripted files, the files are loaded again, and the
// loaded model is compared with the saved one; then every operation on files fails in turn.

type smerge struct{ a, b, rank, id int }

type smodel struct {
	name       string
	short, typ string
	toks       []string // by id
	merges     []smerge
	make       func(s *vrun, st *State, v *vv, f func(st *State, m Val))
	load       func(s *vrun, st *State, v *vv, files map[string]string, f func(st *State, m Val, err Val))
}

// vocabBy makes a vocabulary whose entries were entered in an order other than that of ids.
func (s *vrun) vocabBy(st *State, t types.Type, toks []string) MapV {
	var ids []Val
	var ks []string
	for i := range toks {
		j := (i*3 + 2) % len(toks)
		if len(toks)%3 == 0 {
			j = len(toks) - 1 - i
		}
		ks = append(ks, toks[j])
		ids = append(ids, Int{pc(int64(j))})
	}
	return s.vocab(st, t, ks, ids)
}

func (s *vrun) mergesOf(st *State, ms []smerge) Val {
	mt := s.c.typeNamed("model/bpe", "Merges").Underlying().(*types.Map)
	o := &Obj{kind: 'm', mtyp: mt, label: "merges"}
	n := func(i int) Val { return Int{pc(int64(i))} }
	for i := len(ms) - 1; i >= 0; i-- {
		m := ms[(i+1)%len(ms)]
		o.ups = append(o.ups, mapUp{
			k: s.en.mkStruct("pair", mt.Key(), map[string]Val{"C1": n(m.a), "C2": n(m.b)}),
			v: s.en.mkStruct("pairval", mt.Elem(), map[string]Val{"Rank": n(m.rank), "NewId": n(m.id)})})
	}
	return MapV{obj: s.en.newObj(st, o)}
}

func smodels(c *Ctx) []smodel {
	vocabT := mapT(c, "model", "Vocab")
	plain := types.NewMap(strT, types.Typ[types.Int])
	bpe, wp, wl, un := "model/bpe", "model/wordpiece", "model/wordlevel", "model/unigram"
	nilS := NilV{types.NewPointer(strT)}
	nilF := NilV{types.NewPointer(types.Typ[types.Float32])}
	got := func(f func(st *State, m Val, err Val)) func(st *State, ret []Val) {
		return func(st *State, ret []Val) { f(st, ret[0], ret[len(ret)-1]) }
	}
	bpeOf := func(toks []string, ms []smerge, prefix string) func(s *vrun, st *State, v *vv, f func(st *State, m Val)) {
		return func(s *vrun, st *State, v *vv, f func(st *State, m Val)) {
			s.do(st, bpe, "NewBpeBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				build := func(st *State) {
					s.m(st, bpe, "BpeBuilder", "VocabAndMerges", b, []Val{s.vocabBy(st, vocabT, toks), s.mergesOf(st, ms)}, func(st *State, _ []Val) {
						s.m(st, bpe, "BpeBuilder", "Build", b, nil, s.okErr(v, "Build", f))
					})
				}
				if prefix == "" {
					build(st)
					return
				}
				s.m(st, bpe, "BpeBuilder", "ContinuingSubwordPrefix", b, []Val{strVal(prefix)}, func(st *State, _ []Val) { build(st) })
			})
		}
	}
	plainToks := []string{"a", "b", "c", "ab", "abc", "A", "\"é", "<& "}
	plainMerges := []smerge{{0, 1, 0, 3}, {3, 2, 1, 4}}
	// more merges, ranks unlike ids
	moreToks := []string{"z", "y", "xyz", "x", "yz", "<s>", "xy"}
	moreMerges := []smerge{{3, 1, 0, 6}, {1, 0, 1, 4}, {6, 0, 2, 2}, {3, 4, 3, 2}}
	pToks := []string{"a", "##b", "ab", "##bb", "abb"}
	pMerges := []smerge{{0, 1, 0, 2}, {1, 1, 1, 3}, {2, 1, 2, 4}}
	fromFiles := func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
		s.do(st, bpe, "NewBpeFromFiles", []Val{strVal(fs["vocab.json"]), strVal(fs["merges.txt"])}, got(f))
	}
	// neighbouring lines that differ by their first letter, by case, by a space
	texts := [][]string{
		{"[UNK]", "the", "The", "##ing", "##Ing", "a", "A", "世"},
		{"[UNK]", "##", "#", "e\u0301", "é", "É", "%d", "\\n"},
		{"[UNK]", "x", "##x", "x\ty", "1", "01", "\"", "X"},
	}
	var textModels []smodel
	for i, text := range texts {
		text, no := text, fmt.Sprintf(", vocabulary %d", i+1)
		textModels = append(textModels,
			smodel{"WordPiece" + no, wp, "WordPiece", text, nil, func(s *vrun, st *State, v *vv, f func(st *State, m Val)) {
				s.do(st, wp, "NewWordPieceBuilder", nil, func(st *State, ret []Val) {
					vo := Ptr{obj: s.en.newObj(st, &Obj{kind: 'c', val: s.vocabBy(st, vocabT, text)})}
					s.m(st, wp, "WordPieceBuilder", "Vocab", ret[0], []Val{vo}, func(st *State, ret []Val) {
						s.m(st, wp, "WordPieceBuilder", "Build", ret[0], nil, func(st *State, ret []Val) { f(st, ret[0]) })
					})
				})
			}, func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
				s.do(st, wp, "NewWordPieceFromFile", []Val{strVal(fs["vocab.txt"]), strVal("[UNK]"), NilV{types.NewSlice(types.Typ[types.Int])}}, got(f))
			}},
			smodel{"WordLevel" + no, wl, "WordLevel", text, nil, func(s *vrun, st *State, v *vv, f func(st *State, m Val)) {
				s.do(st, wl, "New", []Val{s.vocabBy(st, plain, text), strVal("[UNK]")}, s.okErr(v, "New", f))
			}, func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
				s.do(st, wl, "NewWorldLevelFromFile", []Val{strVal(fs["vocab.txt"]), strVal("[UNK]")}, got(f))
			}},
		)
	}
	return append(textModels, []smodel{
		{"BPE", bpe, "BPE", plainToks, plainMerges, bpeOf(plainToks, plainMerges, ""), fromFiles},
		{"BPE, ranks unlike ids", bpe, "BPE", moreToks, moreMerges, bpeOf(moreToks, moreMerges, ""), fromFiles},
		{"BPE, builder reading the files", bpe, "BPE", plainToks, plainMerges, bpeOf(plainToks, plainMerges, ""), func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
			s.do(st, bpe, "NewBpeBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				s.m(st, bpe, "BpeBuilder", "Files", b, []Val{strVal(fs["vocab.json"]), strVal(fs["merges.txt"])}, func(st *State, _ []Val) {
					s.m(st, bpe, "BpeBuilder", "Build", b, nil, got(f))
				})
			})
		}},
		{"BPE with a continuing subword prefix", bpe, "BPE", pToks, pMerges, bpeOf(pToks, pMerges, "##"), func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
			s.do(st, bpe, "NewBpeBuilder", nil, func(st *State, ret []Val) {
				b := ret[0]
				s.m(st, bpe, "BpeBuilder", "ContinuingSubwordPrefix", b, []Val{strVal("##")}, func(st *State, _ []Val) {
					s.m(st, bpe, "BpeBuilder", "Files", b, []Val{strVal(fs["vocab.json"]), strVal(fs["merges.txt"])}, func(st *State, _ []Val) {
						s.m(st, bpe, "BpeBuilder", "Build", b, nil, got(f))
					})
				})
			})
		}},
		{"BPE, merges as a list", bpe, "BPE", plainToks, plainMerges, bpeOf(plainToks, plainMerges, ""), s01New(bpe, vocabT, plainToks, "", nilF, nilS, got)},
		{"BPE with a continuing subword prefix, merges as a list", bpe, "BPE", pToks, pMerges, bpeOf(pToks, pMerges, "##"), s01New(bpe, vocabT, pToks, "##", nilF, nilS, got)},
		{"Unigram", un, "Unigram", vtoks, nil, s01Unigram(un, true), s01LoadUnigram},
		{"Unigram without unknown token", un, "Unigram", vtoks, nil, s01Unigram(un, false), s01LoadUnigram},
	}...)
}

// s01New loads the merges file as the list of merges of a configuration.
func s01New(bpe string, vocabT types.Type, toks []string, prefix string, nilF, nilS Val, got func(func(st *State, m Val, err Val)) func(*State, []Val)) func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
	return func(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
		x, ok := s.std.text(st, "file:"+fs["merges.txt"])
		if !ok {
			v.u("merges file unknown")
			return
		}
		var l []Val
		for _, line := range strings.Split(strings.TrimSuffix(x, "\n"), "\n") {
			if !strings.HasPrefix(line, "#version") {
				l = append(l, strVal(line))
			}
		}
		p := nilS
		if prefix != "" {
			p = s.strPtr(st, prefix)
		}
		s.do(st, bpe, "New", []Val{s.vocabBy(st, vocabT, toks), s.en.mkSlice(st, strT, l...), nilF, nilS, p, nilS}, got(f))
	}
}

func s01Unigram(un string, unk bool) func(s *vrun, st *State, v *vv, f func(st *State, m Val)) {
	return func(s *vrun, st *State, v *vv, f func(st *State, m Val)) {
		vo, _ := s.scores(st)
		s.do(st, un, "NewUnigramBuilder", nil, func(st *State, ret []Val) {
			s.m(st, un, "UnigramBuilder", "Vocab", ret[0], []Val{vo}, func(st *State, ret []Val) {
				s.m(st, un, "UnigramBuilder", "BytesFallback", ret[0], []Val{BoolC(unk)}, func(st *State, ret []Val) {
					s.m(st, un, "UnigramBuilder", "FuseUnk", ret[0], []Val{BoolC(!unk)}, func(st *State, ret []Val) {
						build := func(st *State, b Val) {
							s.m(st, un, "UnigramBuilder", "Build", b, nil, s.okErr(v, "Build", f))
						}
						if !unk {
							build(st, ret[0])
							return
						}
						s.m(st, un, "UnigramBuilder", "UnkID", ret[0], []Val{Int{pc(2)}}, func(st *State, ret []Val) { build(st, ret[0]) })
					})
				})
			})
		})
	}
}

func s01LoadUnigram(s *vrun, st *State, v *vv, fs map[string]string, f func(*State, Val, Val)) {
	x, ok := s.std.get(st, "file:"+fs["vocab.json"])
	if !ok {
		v.b("no vocabulary file is saved")
		return
	}
	g, ok := s.std.gen[x.key()]
	gi, isObj := g.(Iface)
	if !ok || !isObj {
		v.u("saved file unknown")
		return
	}
	ct := s.c.typeNamed("", "Config")
	nilM := NilV{cfgMapT}
	cfg := s.en.cell(st, s.en.mkStruct("config", ct, map[string]Val{"Model": gi.v, "Decoder": nilM}))
	s.do(st, "pretrained", "CreateModel", []Val{cfg}, func(st *State, ret []Val) { f(st, unIface(ret[0]), ret[1]) })
}

// files maps the documented file names to the files saved.
func (s *vrun) files(st *State) map[string]string {
	out := map[string]string{}
	for _, u := range s.en.get(st, s.std.fs).ups {
		k, _ := strOf(u.k)
		if !strings.HasPrefix(k, "file:") {
			continue
		}
		k = k[5:]
		for _, n := range []string{"vocab.json", "merges.txt", "vocab.txt"} {
			if strings.HasSuffix(k, n) {
				out[n] = k
			}
		}
	}
	return out
}

// settings are the plain fields of a model.
func (s *vrun) settings(st *State, m Val) map[string]string {
	out := map[string]string{}
	m = s.en.force(m)
	if p, ok := m.(Ptr); ok {
		m = s.en.load(st, p)
	}
	x, ok := m.(Struct)
	if !ok {
		return out
	}
	t := x.typ.Underlying().(*types.Struct)
	e := &cfgEnv{c: s.c, en: s.en}
	for i := 0; i < t.NumFields(); i++ {
		ft := t.Field(i).Type()
		v := s.en.force(x.f[i])
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			if _, basic := p.Elem().Underlying().(*types.Basic); !basic {
				continue
			}
		} else if _, basic := ft.Underlying().(*types.Basic); !basic {
			continue
		}
		if p, ok := v.(Ptr); ok {
			v = s.en.load(st, p)
		}
		out[t.Field(i).Name()] = e.dump(st, v, 0)
	}
	return out
}

// tables are the merges of a BPE model and the scores of a Unigram model.
func (s *vrun) merged(st *State, m Val, want []smerge, v *vv) {
	m = s.en.force(m)
	if p, ok := m.(Ptr); ok {
		m = s.en.load(st, p)
	}
	x, ok := m.(Struct)
	if !ok {
		v.u("model unknown")
		return
	}
	f, _ := field(x, "Merges")
	if f == nil {
		v.u("the model has no merges")
		return
	}
	f = s.en.force(f)
	if p, ok := f.(Ptr); ok {
		f = s.en.load(st, p)
	}
	mt := s.c.typeNamed("model/bpe", "Merges").Underlying().(*types.Map)
	for _, w := range want {
		k := s.en.mkStruct("pair", mt.Key(), map[string]Val{"C1": Int{pc(int64(w.a))}, "C2": Int{pc(int64(w.b))}})
		g, has := s.en.lookup(st, f, k)
		d, known := st.decide(has)
		if !known {
			v.u("merge unknown: %s", has.key())
			continue
		}
		if !d {
			v.b("the merge of rank %d (ids %d %d) is lost", w.rank, w.a, w.b)
			continue
		}
		y, ok := s.en.force(g).(Struct)
		if !ok {
			v.u("merge unknown")
			continue
		}
		for n, z := range map[string]int{"Rank": w.rank, "NewId": w.id} {
			q, _ := field(y, n)
			if i, ok := q.(Int); !ok || judgeEQ(st, i.p.addc(int64(-z))) == 0 {
				v.u("%s of a merge unknown", n)
			} else if judgeEQ(st, i.p.addc(int64(-z))) < 0 {
				v.b("the merge of ids %d %d has the %s %s after loading, %d before", w.a, w.b, n, st.norm(i.p).key(), z)
			}
		}
	}
	if mv, ok := s.en.force(f).(MapV); ok {
		if es := s.en.mapEntries(st, s.en.get(st, mv.obj)); len(es) > len(want) {
			v.b("%d merges are loaded, %d were saved", len(es), len(want))
		}
	}
}

func (s *vrun) nameOpt(st *State, name string) Val {
	if name == "" {
		return NilV{types.NewSlice(strT)}
	}
	return s.en.mkSlice(st, strT, strVal(name))
}

func s01(c *Ctx, r *Rep) {
	ms := smodels(c)
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].name < ms[j].name })
	for _, k := range ms {
		k := k
		save := c.lookup(k.short, k.typ+".Save")
		if save == nil {
			r.Missing(k.typ + ".Save")
			continue
		}
		for _, name := range []string{"", "my", "missing directory"} {
			st := newState()
			s := newVrun(c, st)
			dir := "out"
			if name == "missing directory" {
				s.std.fail, dir, name = name, "out/new", ""
			}
			what := k.name + " in " + dir
			if name != "" {
				what += " under a name"
			}
			v := &vv{}
			paths := 0
			k.make(s, st, v, func(st *State, m Val) {
				before := s.settings(st, m)
				s.m(st, k.short, k.typ, "Save", m, []Val{strVal(dir), s.nameOpt(st, name)}, func(st *State, ret []Val) {
					switch (&cfgEnv{c: c, en: s.en}).errState(st, ret[0]) {
					case 0:
						if s.std.fail != "" {
							v.b("a directory that is missing is not created: saving fails")
						} else {
							v.b("saving fails although nothing failed")
						}
						return
					case -1:
						v.u("saving: error unknown")
						return
					}
					fs := s.files(st)
					if len(fs) == 0 {
						v.u("no file of a known name is saved")
						return
					}
					for _, n := range sortedText(fs) {
						if filepath.Dir(fs[n]) != dir {
							v.b("the file %s is saved outside of the directory", fs[n])
						}
						if name != "" && !strings.HasPrefix(filepath.Base(fs[n]), name) {
							v.b("the file %s is not saved under the name given", fs[n])
						}
						if x, ok := s.std.get(st, "file:"+fs[n]); ok && strings.HasPrefix(x.key(), "cat(") {
							v.u("content of %s unknown", n)
						}
					}
					k.load(s, st, v, fs, func(st *State, m2 Val, err Val) {
						paths++
						switch (&cfgEnv{c: c, en: s.en}).errState(st, err) {
						case 0:
							v.b("the saved files can not be loaded")
							return
						case -1:
							if _, isErr := err.(NilV); !isErr && err.key() != m2.key() {
								v.u("loading: error unknown")
								return
							}
						}
						var want []vent
						for i, t := range k.toks {
							want = append(want, vent{t, pc(int64(i))})
						}
						s.views(st, k.short, k.typ, m2, want, v)
						if k.merges != nil {
							s.merged(st, m2, k.merges, v)
						}
						if k.typ == "Unigram" {
							after := s.settings(st, m2)
							for _, n := range sortedText(before) {
								if a, ok := after[n]; ok && a != before[n] && !opaqueTerm(a) && !opaqueTerm(before[n]) {
									v.b("the setting %s is %s after loading, %s before", n, a, before[n])
								}
							}
						}
					})
				})
			})
			if s.crash != "" {
				v.b("%s", s.crash)
			}
			r.Add("models saved and loaded", 1)
			v.settle(r, "reload", what, save.Pos(), paths, s.err)
		}
		// faults
		for _, op := range []string{"create directory", "create", "create#2", "write", "write#2", "marshal", "sync", "close", "close#2"} {
			st := newState()
			s := newVrun(c, st)
			v := &vv{}
			paths, failed := 0, 0
			k.make(s, st, v, func(st *State, m Val) {
				s.std.fail = op
				s.m(st, k.short, k.typ, "Save", m, []Val{strVal("out"), s.nameOpt(st, "")}, func(st *State, ret []Val) {
					paths++
					if _, f := s.std.get(st, "failed"); !f {
						return
					}
					failed++
					switch (&cfgEnv{c: c, en: s.en}).errState(st, ret[0]) {
					case 1:
						v.b("%s fails while saving, and no error is reported", op)
					case -1:
						v.u("error unknown")
					}
				})
			})
			if failed > 0 {
				r.Add("failing saves", 1)
			}
			v.settle(r, "write failure", k.name+": "+op, save.Pos(), paths, s.err)
		}
	}
	r.Min("models saved and loaded", 20)
	r.Min("failing saves", 15)
	// failing reads
	for _, k := range ms {
		for _, op := range []string{"open", "read", "missing file"} {
			if strings.HasPrefix(k.name, "Unigram") || strings.Contains(k.name, "list") {
				continue
			}
			st := newState()
			s := newVrun(c, st)
			v := &vv{}
			paths := 0
			s.std.fail = op
			fs := map[string]string{"vocab.json": "vocab.json", "merges.txt": "merges.txt", "vocab.txt": "vocab.txt"}
			s.std.json["vocab"] = s.vocabBy(st, mapT(c, "model", "Vocab"), k.toks)
			s.std.put(st, "file:vocab.json", Term{"vocab", strT})
			if op != "missing file" {
				s.std.put(st, "file:merges.txt", strVal("a b\n"))
				s.std.put(st, "file:vocab.txt", strVal("[UNK]\na\nb\n"))
			}
			k.load(s, st, v, fs, func(st *State, m Val, err Val) {
				paths++
				if _, f := s.std.get(st, "failed"); !f && op != "missing file" {
					return
				}
				if err.key() == m.key() {
					return
				}
				if (&cfgEnv{c: c, en: s.en}).errState(st, err) == 1 {
					v.b("a file that can not be read (%s) is taken for a complete one", op)
				}
			})
			fn := c.lookup(k.short, k.typ+".Save")
			if fn == nil {
				continue
			}
			if paths == 0 && s.err == "" && s.crash != "" {
				paths = 1 // the process ends instead
			}
			v.settle(r, "read failure", k.name+": "+op, fn.Pos(), paths, s.err)
		}
	}
}

func init() {
	props["S01"] = propMeta{run: s01,
		explain: "Save of every model kind is interpreted abstractly on vocabularies (and merge tables) entered in an order other than that of ids and ranks, files being the text written to them; the files are then given to the model's own loader (for BPE: constructor, builder, and the merges as the list of a configuration; with and without a continuing subword prefix) and the loaded model is compared with the saved one: both views of every token, merges with rank and merged id, for Unigram the plain settings. A missing directory must be created. Then each operation on files (create directory, create, write, marshal, sync, close) fails in turn and Save must report an error; files that can not be opened or read must not be taken for complete ones.",
		assume:  []string{"ids are 0..n-1 (text vocabularies number their lines)", "tokens contain no line break and tokens of merges no space: the formats have no escape for them", "a buffered writer keeps its first error until Flush (documented)"},
	}
}

func sortedText(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
