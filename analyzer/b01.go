package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// B01: the merging of a word is interpreted on all paths for words of a few symbols with
// symbolic ids, lengths and merge table, and compared with the definition.

type bsym struct {
	id, n *Poly
}

type bword struct {
	*vrun
	v      *vv
	merges Val
	pairT  types.Type
	heap   *heapModel
}

func newBword(c *Ctx, st *State) *bword {
	b := &bword{vrun: newVrun(c, st), v: &vv{}}
	b.en.pathMode = true
	b.en.budget = 6000000
	b.heap = heapHooks(b.en)
	b.std.builderHooks()
	mt := types.NewMap(c.typeNamed("model/bpe", "Pair"), c.typeNamed("model/bpe", "PairVal"))
	b.pairT = mt.Key()
	b.merges = b.en.symv("merges", mt)
	st.assume(nilTest(b.en, b.merges), false)
	draw := func(t types.Type) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			k := "draws"
			x, _ := b.std.text(st, k)
			b.std.put(st, k, strVal(x+"+"))
			return retOne(st, Term{fmt.Sprintf("draw#%d", len(x)), t})
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		b.en.hooks[p+"Float32"] = draw(types.Typ[types.Float32])
		b.en.hooks[p+"Float64"] = draw(types.Typ[types.Float64])
	}
	return b
}

// at is the entry of the merge table for two symbols.
func (b *bword) at(st *State, x, y *Poly) (rank, id *Poly, has Val) {
	k := b.en.mkStruct("pair", b.pairT, map[string]Val{"C1": Int{x}, "C2": Int{y}})
	g, has := b.en.lookup(st, b.merges, k)
	s, ok := b.en.force(g).(Struct)
	if !ok {
		return nil, nil, has
	}
	r, _ := field(s, "Rank")
	i, _ := field(s, "NewId")
	return b.en.toInt(b.en.force(r)), b.en.toInt(b.en.force(i)), has
}

// split continues on both outcomes of a condition, where possible.
func (b *bword) split(st *State, cond Val, f func(st *State, yes bool)) {
	if d, ok := st.decide(cond); ok {
		f(st, d)
		return
	}
	s2 := st.clone()
	if st.assume(cond, true) && !st.infeasible() {
		f(st, true)
	}
	if s2.assume(cond, false) && !s2.infeasible() {
		f(s2, false)
	}
}

// want merges by definition: the lowest rank first, the leftmost of equal ones.
func (b *bword) want(st *State, l []bsym, f func(st *State, l []bsym)) {
	var scan func(st *State, i, best int)
	scan = func(st *State, i, best int) {
		if i+1 >= len(l) {
			if best < 0 {
				f(st, l)
				return
			}
			_, id, _ := b.at(st, l[best].id, l[best+1].id)
			m := append([]bsym{}, l[:best]...)
			m = append(m, bsym{id, l[best].n.add(l[best+1].n)})
			b.want(st, append(m, l[best+2:]...), f)
			return
		}
		r, _, has := b.at(st, l[i].id, l[i+1].id)
		b.split(st, has, func(st *State, yes bool) {
			if !yes {
				scan(st, i+1, best)
				return
			}
			if best < 0 {
				scan(st, i+1, i)
				return
			}
			r0, _, _ := b.at(st, l[best].id, l[best+1].id)
			b.split(st, Cmp{"<0", r.sub(r0)}, func(st *State, less bool) {
				if less {
					scan(st, i+1, i)
				} else {
					scan(st, i+1, best)
				}
			})
		})
	}
	scan(st, 0, -1)
}

func (b *bword) word(st *State, l []bsym, f func(st *State, w Val)) {
	b.do(st, "model/bpe", "NewWord", nil, func(st *State, ret []Val) {
		w := ret[0]
		var add func(st *State, i int)
		add = func(st *State, i int) {
			if i == len(l) {
				f(st, w)
				return
			}
			b.m(st, "model/bpe", "Word", "Add", w, []Val{Int{l[i].id}, Int{l[i].n}}, func(st *State, _ []Val) { add(st, i+1) })
		}
		add(st, 0)
	})
}

// result reads the symbols of a word back.
func (b *bword) result(st *State, w Val, f func(st *State, ids []*Poly, offs [][2]*Poly)) {
	b.m(st, "model/bpe", "Word", "GetChars", w, nil, func(st *State, ret []Val) {
		vs, ok := b.list(st, ret[0])
		if !ok {
			b.v.u("symbols unknown")
			return
		}
		var ids []*Poly
		for _, x := range vs {
			ids = append(ids, b.en.toInt(x))
		}
		b.m(st, "model/bpe", "Word", "GetOffsets", w, nil, func(st *State, ret []Val) {
			os, ok := b.list(st, ret[0])
			if !ok {
				b.v.u("offsets unknown")
				return
			}
			var offs [][2]*Poly
			for _, o := range os {
				p, ok := b.list(st, o)
				if !ok || len(p) != 2 {
					b.v.u("offsets unknown")
					return
				}
				offs = append(offs, [2]*Poly{b.en.toInt(p[0]), b.en.toInt(p[1])})
			}
			f(st, ids, offs)
		})
	})
}

func (b *bword) list(st *State, v Val) ([]Val, bool) {
	switch x := b.en.force(v).(type) {
	case NilV:
		return nil, true
	case Slice:
		return b.en.allVals(st, x)
	}
	return nil, false
}

// same tells whether two values agree on the path; if not, the path with them different
// must be possible.
func same(st *State, p, q *Poly) bool {
	d := p.sub(q)
	if st.provesEQ(d) {
		return true
	}
	s := st.clone()
	s.ne = append(s.ne, d)
	return s.infeasible()
}

func symText(st *State, l []*Poly) string {
	s := "["
	for i, p := range l {
		if i > 0 {
			s += " "
		}
		s += st.norm(p).key()
	}
	return s + "]"
}

func (b *bword) check(st *State, l []bsym, w Val, paths *int, def func(*State, []bsym, func(*State, []bsym))) {
	b.result(st, w, func(st *State, ids []*Poly, offs [][2]*Poly) {
		def(st, l, func(st *State, want []bsym) {
			*paths++
			var wi []*Poly
			for _, x := range want {
				wi = append(wi, x.id)
			}
			if len(ids) != len(want) {
				b.v.b("merging gives %s, the lowest ranks first give %s (%s)", symText(st, ids), symText(st, wi), b.facts(st))
				return
			}
			at := pc(0)
			for i := range ids {
				if !same(st, ids[i], want[i].id) {
					b.v.b("merging gives %s, the lowest ranks first give %s (%s)", symText(st, ids), symText(st, wi), b.facts(st))
					return
				}
				if i >= len(offs) || !same(st, offs[i][0], at) || !same(st, offs[i][1], at.add(want[i].n)) {
					b.v.b("symbol %d does not cover the characters merged into it", i)
					return
				}
				at = at.add(want[i].n)
			}
			if len(offs) != len(ids) {
				b.v.b("%d offsets for %d symbols", len(offs), len(ids))
			}
		})
	})
}

func (b *bword) facts(st *State) string {
	s := ""
	for _, f := range st.ge {
		k := st.norm(f).key()
		if len(s) < 160 && len(k) > 12 {
			s += k + ">=0; "
		}
	}
	return s
}

// syms makes the symbols of a word. Every text has an id of its own, the one the table
// gives to all pairs that make it up; which pairs are in the table and their ranks are open.
func (b *bword) syms(st *State, pat string) []bsym {
	ids := map[string]int{}
	id := func(s string) *Poly {
		if _, ok := ids[s]; !ok {
			ids[s] = len(ids)
		}
		return pc(int64(ids[s]))
	}
	var l []bsym
	for i := range pat {
		l = append(l, bsym{id(pat[i : i+1]), pc(1 << uint(i))}) // sums tell which were merged
	}
	done := map[string]bool{}
	for n := 2; n <= len(pat); n++ {
		for i := 0; i+n <= len(pat); i++ {
			s := pat[i : i+n]
			if done[s] {
				continue
			}
			done[s] = true
			for j := 1; j < n; j++ {
				_, p, _ := b.at(st, id(s[:j]), id(s[j:]))
				st.addEQ(p.sub(id(s)))
			}
		}
	}
	return l
}

// runs interprets MergeAll with the given dropout argument and continues on every path; a
// path that panics or does not end is a finding.
func (b *bword) runs(st *State, w Val, dropout Val, f func(st *State)) {
	fn := b.c.lookup("model/bpe", "Word.MergeAll")
	outs, err := b.en.safeRun(fn, []Val{w, b.merges, dropout}, st)
	if b.en.bound != "" {
		b.v.b("the merging does not end")
		return
	}
	if err != "" {
		b.err = err
		return
	}
	for _, o := range outs {
		switch o.kind {
		case "ret":
			f(o.st)
		case "panic", "exit":
			b.v.b("merging ends in a %s: %s (%s)", o.kind, o.why, b.facts(o.st))
		}
	}
}

// table tells which neighbours of a word are in the merge table, and continues.
func (b *bword) table(st *State, l []bsym, i int, in []int, f func(st *State, in []int)) {
	if i+1 >= len(l) {
		f(st, in)
		return
	}
	_, _, has := b.at(st, l[i].id, l[i+1].id)
	b.split(st, has, func(st *State, yes bool) {
		if yes {
			b.table(st, l, i+1, append(append([]int{}, in...), i), f)
		} else {
			b.table(st, l, i+1, in, f)
		}
	})
}

// byRank orders the pairs that are in the table, the lowest rank first, the leftmost of
// equal ones.
func (b *bword) byRank(st *State, l []bsym, in []int, f func(st *State, in []int)) {
	if len(in) < 2 {
		f(st, in)
		return
	}
	var scan func(st *State, k, best int)
	scan = func(st *State, k, best int) {
		if k == len(in) {
			rest := append(append([]int{}, in[:best]...), in[best+1:]...)
			b.byRank(st, l, rest, func(st *State, more []int) { f(st, append([]int{in[best]}, more...)) })
			return
		}
		r, _, _ := b.at(st, l[in[k]].id, l[in[k]+1].id)
		r0, _, _ := b.at(st, l[in[best]].id, l[in[best]+1].id)
		b.split(st, Cmp{"<0", r.sub(r0)}, func(st *State, less bool) {
			if less {
				scan(st, k+1, k)
			} else {
				scan(st, k+1, best)
			}
		})
	}
	scan(st, 1, 0)
}

// dropped merges by definition when the first n merges that come up are dropped and no
// other: the next one is applied, and then the dropped ones are taken up again.
func (b *bword) dropped(st *State, l []bsym, n int, f func(st *State, l []bsym)) {
	b.table(st, l, 0, nil, func(st *State, in []int) {
		b.byRank(st, l, in, func(st *State, in []int) {
			if len(in) <= n {
				f(st, l)
				return
			}
			at := in[n]
			_, id, _ := b.at(st, l[at].id, l[at+1].id)
			m := append([]bsym{}, l[:at]...)
			m = append(m, bsym{id, l[at].n.add(l[at+1].n)})
			b.want(st, append(m, l[at+2:]...), f)
		})
	})
}

type dropCase struct {
	name string
	pats []string
	p    string // the probability; "" for none
	n    int    // so many draws are below it, the ones after not; -1 for all of them
}

func b01(c *Ctx, r *Rep) {
	fn := c.lookup("model/bpe", "Word.MergeAll")
	if fn == nil {
		r.Missing("Word.MergeAll")
		return
	}
	f32 := types.Typ[types.Float32]
	type job struct {
		d   dropCase
		pat string
	}
	var jobs []job
	for _, d := range []dropCase{
		{"no dropout", []string{"", "a", "ab", "aa", "abc", "aaa", "aba", "abcd", "aaaa", "abab", "aaaaa"}, "", 0},
		{"dropout 0", []string{"ab", "abc", "aaa"}, "0", 0},
		{"dropout 1", []string{"", "a", "ab", "abc", "aaaa"}, "1", -1},
		{"dropout 0.5, none dropped", []string{"ab", "abc", "aaa"}, "1/2", 0},
		{"dropout 0.5, one dropped", []string{"a", "ab", "abc", "aaa", "abab"}, "1/2", 1},
		{"dropout 0.5, two dropped", []string{"ab", "abc", "aaaa", "abab"}, "1/2", 2},
		{"dropout 0.5, all dropped", []string{"a", "ab", "abc", "aaaa"}, "1/2", -1},
	} {
		for _, p := range d.pats {
			jobs = append(jobs, job{d, p})
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		d, pat := jobs[i].d, jobs[i].pat
		st := newState()
		b := newBword(c, st)
		b.en.draw = func(k string) bool {
			n, _ := strconv.Atoi(strings.TrimPrefix(k, "draw#"))
			return d.n < 0 || n < d.n
		}
		l := b.syms(st, pat)
		arg := Val(NilV{types.NewSlice(f32)})
		if d.p != "" {
			arg = b.en.mkSlice(st, f32, Term{"c:" + d.p, f32})
		}
		paths := 0
		b.word(st, l, func(st *State, w Val) {
			b.runs(st, w, arg, func(st *State) {
				switch {
				case d.n < 0:
					b.check(st, l, w, &paths, func(st *State, l []bsym, f func(*State, []bsym)) { f(st, l) })
				case d.n > 0:
					b.check(st, l, w, &paths, func(st *State, l []bsym, f func(*State, []bsym)) { b.dropped(st, l, d.n, f) })
				default:
					b.check(st, l, w, &paths, b.want)
				}
			})
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("words", 1)
		r.Add("paths", paths)
		b.v.settle(r, "merge order", d.name+", word "+strconv.Quote(pat), fn.Pos(), paths, b.err)
	})
	b01models(c, r)
	trainings(c, r, "equally frequent pairs", []tcase{
		{name: "two pairs", words: "ab cd", size: 5},
		{name: "two pairs with the same first letter", words: "ab ac", size: 4},
		{name: "three pairs", words: "ab cd ef", size: 8},
		{name: "three pairs in a word", words: "abcd", size: 20},
	})
	r.Min("words", len(jobs))
}

type wantTok struct {
	val  string
	a, b int
}

// b01models checks how a model makes words of a text: the affixes of the characters and
// the tokens of the symbols, whether or not the word was met before.
func b01models(c *Ctx, r *Rep) {
	bpe := "model/bpe"
	vocabT := mapT(c, "model", "Vocab")
	type mcase struct {
		name    string
		toks    []string
		merges  []smerge
		set     [][2]string // settings of the builder
		text    string
		want    []wantTok
		dropout string
	}
	plain := []string{"c", "a", "bc", "b", "abc", "é", "aé", "<unk>"}
	pm := []smerge{{3, 0, 0, 2}, {1, 2, 1, 4}, {1, 5, 2, 6}}
	aff := []string{"a", "##b", "##c", "##c</w>", "a</w>", "##b</w>", "##bc</w>", "abc</w>", "é", "##é</w>"}
	am := []smerge{{1, 3, 0, 6}, {0, 6, 1, 7}}
	pre := []string{"a", "##b", "##a", "##c", "ab", "c"}
	suf := []string{"a", "b", "b</w>", "a</w>", "ab</w>"}
	both := [][2]string{{"ContinuingSubwordPrefix", "##"}, {"EndOfWordSuffix", "</w>"}}
	unk := [][2]string{{"UnkToken", "<unk>"}}
	cases := []mcase{
		{"plain", plain, pm, nil, "abc", []wantTok{{"abc", 0, 3}}, ""},
		{"plain, repeated", plain, pm, nil, "bcabc", []wantTok{{"bc", 0, 2}, {"abc", 2, 5}}, ""},
		{"plain, no merges apply", plain, pm, nil, "cba", []wantTok{{"c", 0, 1}, {"b", 1, 2}, {"a", 2, 3}}, ""},
		{"wide character", plain, pm, nil, "caéb", []wantTok{{"c", 0, 1}, {"aé", 1, 4}, {"b", 4, 5}}, ""},
		{"unknown character", plain, pm, unk, "bzbc", []wantTok{{"b", 0, 1}, {"<unk>", 1, 2}, {"bc", 2, 4}}, ""},
		{"unknown wide character", plain, pm, unk, "bc世a", []wantTok{{"bc", 0, 2}, {"<unk>", 2, 5}, {"a", 5, 6}}, ""},
		{"prefix and suffix", aff, am, both, "abc", []wantTok{{"abc</w>", 0, 3}}, ""},
		{"prefix and suffix, one character", aff, am, both, "a", []wantTok{{"a</w>", 0, 1}}, ""},
		{"prefix and suffix, two characters", aff, am, both, "ab", []wantTok{{"a", 0, 1}, {"##b</w>", 1, 2}}, ""},
		{"prefix and suffix, wide last character", aff, am, both, "aé", []wantTok{{"a", 0, 1}, {"##é</w>", 1, 3}}, ""},
		{"prefix and suffix, wide first character", aff, am, both, "éc", []wantTok{{"é", 0, 2}, {"##c</w>", 2, 3}}, ""},
		{"prefix", pre, []smerge{{0, 1, 0, 4}}, both[:1], "aba", []wantTok{{"ab", 0, 2}, {"##a", 2, 3}}, ""},
		{"prefix, one character", pre, []smerge{{0, 1, 0, 4}}, both[:1], "c", []wantTok{{"c", 0, 1}}, ""},
		{"suffix", suf, []smerge{{0, 2, 0, 4}}, both[1:], "abab", []wantTok{{"a", 0, 1}, {"b", 1, 2}, {"ab</w>", 2, 4}}, ""},
		{"suffix, one character", suf, []smerge{{0, 2, 0, 4}}, both[1:], "b", []wantTok{{"b</w>", 0, 1}}, ""},
		{"dropout 1", plain, pm, nil, "abc", []wantTok{{"a", 0, 1}, {"b", 1, 2}, {"c", 2, 3}}, "1"},
		{"dropout 0.5, one dropped", plain, pm, nil, "abc", []wantTok{{"a", 0, 1}, {"b", 1, 2}, {"c", 2, 3}}, "1/2"},
		{"no text", plain, pm, nil, "", nil, ""},
	}
	f32 := types.Typ[types.Float32]
	r.parallel(len(cases), func(i int, r *Rep) {
		k := cases[i]
		st := newState()
		b := newBword(c, st)
		b.en.draw = func(key string) bool { return key == "draw#0" }
		v := b.v
		paths := 0
		check := func(st *State, n string, ret []Val) {
			toks, ok := b.list(st, ret[0])
			if !ok {
				v.u("%s: tokens unknown", n)
				return
			}
			var got []wantTok
			text := ""
			for _, t := range toks {
				s, ok := b.en.force(t).(Struct)
				if !ok {
					v.u("%s: token unknown", n)
					return
				}
				id, _ := field(s, "Id")
				val, _ := field(s, "Value")
				off, _ := field(s, "Offsets")
				o, ok := b.list(st, off)
				if !ok || len(o) != 2 {
					v.u("%s: offsets unknown", n)
					return
				}
				iv, ok1 := st.norm(b.en.toInt(b.en.force(id))).konst()
				av, ok2 := st.norm(b.en.toInt(o[0])).konst()
				bv, ok3 := st.norm(b.en.toInt(o[1])).konst()
				x, ok4 := b.en.force(val).(Term)
				vs, ok5 := "", false
				if ok4 {
					vs, ok5 = x.isStrConst()
				}
				if !ok1 || !ok2 || !ok3 || !ok5 {
					v.u("%s: token unknown: %s %s %v %v", n, b.en.force(id).key(), b.en.force(val).key(), ok2, ok3)
					return
				}
				if iv < 0 || int(iv) >= len(k.toks) || k.toks[iv] != vs {
					v.b("%s: token %q has id %d", n, vs, iv)
					return
				}
				got = append(got, wantTok{vs, int(av), int(bv)})
				text += fmt.Sprintf("%s(%d,%d) ", vs, av, bv)
			}
			if fmt.Sprint(got) != fmt.Sprint(k.want) {
				v.b("%s: %q gives the tokens %s", n, k.text, text)
			}
		}
		b.do(st, bpe, "NewBpeBuilder", nil, func(st *State, ret []Val) {
			bb := ret[0]
			var set func(st *State, i int)
			set = func(st *State, i int) {
				if i < len(k.set) {
					b.m(st, bpe, "BpeBuilder", k.set[i][0], bb, []Val{strVal(k.set[i][1])}, func(st *State, _ []Val) { set(st, i+1) })
					return
				}
				if i == len(k.set) && k.dropout != "" {
					b.m(st, bpe, "BpeBuilder", "Dropout", bb, []Val{Term{"c:" + k.dropout, f32}}, func(st *State, _ []Val) { set(st, i+1) })
					return
				}
				b.m(st, bpe, "BpeBuilder", "VocabAndMerges", bb, []Val{b.vocabBy(st, vocabT, k.toks), b.mergesOf(st, k.merges)}, func(st *State, _ []Val) {
					b.m(st, bpe, "BpeBuilder", "Build", bb, nil, b.okErr(v, "Build", func(st *State, m Val) {
						b.m(st, bpe, "BPE", "Tokenize", m, []Val{strVal(k.text)}, func(st *State, ret []Val) {
							check(st, "first call", ret)
							b.m(st, bpe, "BPE", "Tokenize", m, []Val{strVal(k.text)}, func(st *State, ret []Val) {
								paths++
								if k.dropout == "" {
									check(st, "second call", ret)
								}
							})
						})
					}))
				})
			}
			set(st, 0)
		})
		if b.crash != "" {
			v.b("%s", b.crash)
		}
		r.Add("models", 1)
		v.settle(r, "words of a model", k.name, token.NoPos, paths, b.err)
	})
	r.Min("models", len(cases))
}

func init() {
	props["B01"] = propMeta{run: b01,
		explain: "the merging of a word is interpreted on every path for words of up to five symbols, with the merge table symbolic: which pairs are in it and their ranks are open, so the paths are all its orders; the symbols left must be those of the definition (the lowest rank first, the leftmost of equal ones), each covering the characters merged into it; with dropout the random draws are given: none, the first, the first two or all below the bound, where dropped merges are taken up again after the next one applied, and a run that does not end is a violation. The words a BPE model makes of texts are interpreted from the builder on: affixes of characters, unknown characters, ids, texts and offsets, again on a second call. Trainings of equally frequent pairs are compared with the definition",
		assume:  []string{"the priority queue of the gods library, and container/heap, pop a least element by the comparator given", "longer words merge as the shorter ones do", "pairs making up the same text have the same new id, other texts other ids"},
	}
}
