package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// X05: training is interpreted on all paths for a few words with symbolic counts and
// compared with the definition of byte-pair training.

type tcase struct {
	name    string
	words   string  // in any order
	counts  []int64 // nil: any
	size    int64
	minFreq int64
	special []string
	initial []string
	shrink  bool // the words are counted in parts
	limit   int64
	prefix  string
	suffix  string
	wp      bool // a WordPiece trainer; its prefix is ## unless set
}

type tpair struct{ a, b int }

// start makes the tokens there are before merging: the special ones, the alphabet, and the
// characters with what marks their place in a word.
func (k tcase) start(words []string) (toks []string, ws [][]int) {
	id := map[string]int{}
	add := func(s string) int {
		if _, ok := id[s]; !ok {
			id[s] = len(toks)
			toks = append(toks, s)
		}
		return id[s]
	}
	for _, s := range k.special {
		add(s)
	}
	freq := map[string]int64{}
	for i, w := range words {
		for _, r := range w {
			if k.counts != nil {
				freq[string(r)] += k.counts[i]
			} else {
				freq[string(r)]++
			}
		}
	}
	for _, s := range k.initial {
		freq[s] = 1 << 40
	}
	var al []string
	for s := range freq {
		al = append(al, s)
	}
	sort.Slice(al, func(i, j int) bool { return freq[al[i]] > freq[al[j]] })
	if k.limit > 0 && len(al) > int(k.limit) {
		al = al[:k.limit]
	}
	sort.Strings(al)
	kept := map[string]bool{}
	for _, s := range al {
		kept[s] = true
		add(s)
	}
	for _, w := range words {
		l := strings.Split(w, "")
		var x []int
		for i, s := range l {
			if !kept[s] {
				continue
			}
			if i > 0 {
				s = k.prefix + s
			}
			if i == len(l)-1 {
				s += k.suffix
			}
			x = append(x, add(s))
		}
		ws = append(ws, x)
	}
	return
}

// trained is the definition: the most frequent pair first, the smaller one of equally
// frequent pairs.
func (b *bword) trained(st *State, k tcase, words [][]int, ns []*Poly, toks []string, merges []smerge, f func(st *State, toks []string, merges []smerge)) {
	count := map[tpair]*Poly{}
	var ps []tpair
	for i, w := range words {
		for j := 0; j+1 < len(w); j++ {
			p := tpair{w[j], w[j+1]}
			if count[p] == nil {
				count[p] = pc(0)
				ps = append(ps, p)
			}
			count[p] = count[p].add(ns[i])
		}
	}
	if len(toks) >= int(k.size) || len(ps) == 0 {
		f(st, toks, merges)
		return
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a || ps[i].a == ps[j].a && ps[i].b < ps[j].b })
	var scan func(st *State, i, best int)
	scan = func(st *State, i, best int) {
		if i < len(ps) {
			b.split(st, Cmp{"<0", count[ps[best]].sub(count[ps[i]])}, func(st *State, more bool) {
				if more {
					scan(st, i+1, i)
				} else {
					scan(st, i+1, best)
				}
			})
			return
		}
		p := ps[best]
		min := k.minFreq
		if min < 1 {
			min = 1
		}
		b.split(st, Cmp{"<0", count[p].addc(-min)}, func(st *State, stop bool) {
			if stop {
				f(st, toks, merges)
				return
			}
			id := len(toks)
			nt := append([]string{}, toks...)
			text := toks[p.a] + strings.TrimPrefix(toks[p.b], k.prefix)
			for i, t := range toks {
				if t == text {
					id = i
				}
			}
			if id == len(toks) {
				nt = append(nt, text)
			}
			var nw [][]int
			for _, w := range words {
				var x []int
				for j := 0; j < len(w); j++ {
					if j+1 < len(w) && w[j] == p.a && w[j+1] == p.b {
						x = append(x, id)
						j++
					} else {
						x = append(x, w[j])
					}
				}
				nw = append(nw, x)
			}
			b.trained(st, k, nw, ns, nt, append(append([]smerge{}, merges...), smerge{p.a, p.b, len(merges), id}), f)
		})
	}
	scan(st, 1, 0)
}

func x05(c *Ctx, r *Rep) {
	trainings(c, r, "training", []tcase{
		{name: "no words", size: 9},
		{name: "two pairs", words: "ab cd", size: 5},
		{name: "two pairs, all merged", words: "ab cd", size: 9},
		{name: "three pairs", words: "ab cd ef", size: 8},
		{name: "a shared pair", words: "abc bcd", size: 6},
		{name: "a shared pair, all merged", words: "abc bcd", size: 20},
		{name: "a longer word", words: "abcd", size: 20},
		{name: "a repeated pair", words: "abab ab", size: 20},
		{name: "a word within a word", words: "ab abc c", size: 20},
		{name: "the end of a word", words: "bc abc", size: 20},
		{name: "a pair formed in two words", words: "abc dabc", size: 20},
		{name: "counts that go down", words: "ab abc bc", size: 20, minFreq: 2},
		{name: "equal letters", words: "aa baa", size: 20},
		{name: "three equal letters", words: "aaa", size: 20},
		{name: "wide characters", words: "éa éb", size: 20},
		{name: "least frequency", words: "ab cd", size: 20, minFreq: 5},
		{name: "least frequency, sum", words: "abc abd", size: 20, minFreq: 5},
		{name: "size reached before merging", words: "abc", size: 2},
		{name: "size counts all tokens", words: "abc abd", size: 6, special: []string{"<s>"}},
		{name: "special tokens", words: "ab cd", size: 20, special: []string{"<s>", "<pad>"}},
		{name: "special token of one letter", words: "ab ba", size: 20, special: []string{"b"}},
		{name: "initial alphabet", words: "ab", size: 20, initial: []string{"z", "a"}},
		{name: "limited alphabet", words: "abc ab a", counts: []int64{2, 4, 5}, size: 20, limit: 2},
		{name: "limited alphabet, rare first letter", words: "abc bc c", counts: []int64{2, 4, 5}, size: 20, limit: 2},
		{name: "limited alphabet, initial one kept", words: "ab b", counts: []int64{3, 4}, size: 20, limit: 2, initial: []string{"z"}},
		{name: "limit above the alphabet", words: "ab", size: 20, limit: 7},
		{name: "prefix", words: "abc ab", size: 20, prefix: "##"},
		{name: "suffix", words: "ab cab", size: 20, suffix: "</w>"},
		{name: "prefix and suffix", words: "ab abc a", size: 20, prefix: "##", suffix: "</w>"},
		{name: "WordPiece", words: "abc ab", size: 20, prefix: "##", wp: true},
		{name: "WordPiece, all settings", words: "abc ab c", counts: []int64{7, 4, 1}, size: 7, minFreq: 5, prefix: "@", suffix: "$", special: []string{"[UNK]"}, initial: []string{"z"}, limit: 3, wp: true},
	})
}

// trainings interprets trainings and compares the models with the definition.
func trainings(c *Ctx, r *Rep, rule string, cases []tcase) {
	mapT := types.NewMap(strT, types.Typ[types.Int])
	r.parallel(len(cases), func(i int, r *Rep) {
		k := cases[i]
		v := &vv{}
		paths := 0
		err := ""
		for rev := 0; rev < 4; rev++ {
			st := newState()
			b := newBword(c, st)
			b.en.schedule(st)
			b.en.mapRev = rev
			if k.shrink { // thresholds on the number of words are passed
				b.en.shrink, b.en.shrunk = 512, 3
			}
			b.v = v
			o := &Obj{kind: 'm', mtyp: mapT, label: "counts"}
			words := strings.Fields(k.words)
			ns := map[string]*Poly{}
			for i, w := range words {
				n := pa("n:" + w)
				if k.counts != nil {
					n = pc(k.counts[i])
				} else {
					st.ge = append(st.ge, n.addc(-1))
				}
				ns[w] = n
				o.ups = append(o.ups, mapUp{k: strVal(w), v: Int{n}})
			}
			counts := MapV{obj: b.en.newObj(st, o)}
			type setting struct {
				name string
				arg  Val
			}
			set := []setting{{"VocabSize", Int{pc(k.size)}}, {"MinFrequency", Int{pc(k.minFreq)}}, {"ShowProgress", BoolC(false)}}
			if k.special != nil {
				at := c.typeNamed("", "AddedToken")
				var l []Val
				for _, s := range k.special {
					l = append(l, b.en.mkStruct("special:"+s, at, map[string]Val{"Content": strVal(s)}))
				}
				set = append(set, setting{"SpecialTokens", b.en.mkSlice(st, at, l...)})
			}
			if k.initial != nil {
				ct := c.typeNamed("model/bpe", "CharSet")
				ao := &Obj{kind: 'm', mtyp: ct.Underlying().(*types.Map), label: "alphabet"}
				for _, s := range k.initial {
					ao.ups = append(ao.ups, mapUp{k: strVal(s), v: b.en.zero(st, ao.mtyp.Elem())})
				}
				set = append(set, setting{"InitialAlphabet", MapV{obj: b.en.newObj(st, ao)}})
			}
			if k.limit > 0 {
				set = append(set, setting{"LimitAlphabet", Int{pc(k.limit)}})
			}
			if k.prefix != "" && !(k.wp && k.prefix == "##") {
				set = append(set, setting{"ContinuingSubwordPrefix", strVal(k.prefix)})
			}
			if k.suffix != "" {
				set = append(set, setting{"EndOfWordSuffix", strVal(k.suffix)})
			}
			sort.Strings(words)
			bpe, make, builder, trainer := "model/bpe", "NewBPETrainerBuilder", "BpeTrainerBuilder", "BpeTrainer"
			if k.wp {
				bpe, make, builder, trainer = "model/wordpiece", "NewWordPieceTrainerBuilder", "WordPieceTrainerBuilder", "WordPieceTrainer"
			}
			b.do(st, bpe, make, nil, func(st *State, ret []Val) {
				tb := ret[0]
				var next func(st *State, i int)
				next = func(st *State, i int) {
					if i < len(set) {
						b.m(st, bpe, builder, set[i].name, tb, []Val{set[i].arg}, func(st *State, ret []Val) {
							if len(ret) == 1 {
								tb = ret[0]
							}
							next(st, i+1)
						})
						return
					}
					b.m(st, bpe, builder, "Build", tb, nil, func(st *State, ret []Val) {
						b.all = true
						b.m(st, bpe, trainer, "Train", ret[0], []Val{counts}, func(st *State, ret []Val) {
							b.all = false
							k2 := k
							if k.counts != nil { // in the order of the words
								k2.counts = nil
								for _, w := range words {
									n, _ := ns[w].konst()
									k2.counts = append(k2.counts, n)
								}
							}
							toks, ws := k2.start(words)
							var l []*Poly
							for _, w := range words {
								l = append(l, ns[w])
							}
							b.trained(st, k2, ws, l, toks, nil, func(st *State, toks []string, merges []smerge) {
								paths++
								b.trainedModel(st, k2, ret[0], toks, merges)
							})
						})
					})
				}
				next(st, 0)
			})
			if b.en.bound != "" {
				v.b("the training does not end")
			} else if b.err != "" {
				err = b.err
			}
			if b.crash != "" {
				v.b("%s", b.crash)
			}
		}
		r.Add("trainings", 1)
		r.Add("paths", paths)
		v.settle(r, rule, k.name, token.NoPos, paths, err)
	})
	r.Min("trainings", len(cases))
}

// trainedModel compares the model of a training with the definition.
func (b *bword) trainedModel(st *State, k tcase, m Val, toks []string, merges []smerge) {
	if i, ok := b.en.force(m).(Iface); ok {
		m = i.v
	}
	m = b.en.force(m)
	if p, ok := m.(Ptr); ok {
		m = b.en.load(st, p)
	}
	x, ok := m.(Struct)
	if !ok {
		b.v.u("model unknown")
		return
	}
	table := func(name string) ([]Tuple, bool) {
		f, _ := field(x, name)
		if f == nil {
			b.v.u("the model has no %s", name)
			return nil, false
		}
		f = b.en.force(f)
		if p, ok := f.(Ptr); ok {
			f = b.en.force(b.en.load(st, p))
		}
		mv, ok := f.(MapV)
		if !ok {
			b.v.u("%s unknown", name)
			return nil, false
		}
		es := b.en.mapEntries(st, b.en.get(st, mv.obj))
		if es == nil {
			b.v.u("%s unknown", name)
		}
		return es, es != nil
	}
	num := func(v Val) (int, bool) {
		i, ok := b.en.force(v).(Int)
		if !ok {
			return 0, false
		}
		n, ok := st.norm(i.p).konst()
		return int(n), ok
	}
	var es []Tuple
	if k.wp {
		b.m(st, "model/wordpiece", "WordPiece", "GetVocab", m, nil, func(_ *State, ret []Val) {
			if mv, ok := b.en.force(ret[0]).(MapV); ok {
				es = b.en.mapEntries(st, b.en.get(st, mv.obj))
			}
		})
		if es == nil {
			b.v.u("vocabulary unknown")
			return
		}
	} else if es, ok = table("Vocab"); !ok {
		return
	}
	var got []string
	for _, e := range es {
		s, ok1 := strOf(e[1])
		n, ok2 := num(e[2])
		if !ok1 || !ok2 {
			b.v.u("vocabulary unknown")
			return
		}
		got = append(got, fmt.Sprintf("%3d:%s", n, s))
	}
	sort.Strings(got)
	var want []string
	for i, s := range toks {
		want = append(want, fmt.Sprintf("%3d:%s", i, s))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		b.v.b("the vocabulary is [%s], by definition [%s] (%s)", spaced(got), spaced(want), b.facts(st))
		return
	}
	if k.wp {
		return
	}
	if es, ok = table("Merges"); !ok {
		return
	}
	got, want = nil, nil
	for _, e := range es {
		ps, ok1 := b.en.force(e[1]).(Struct)
		vs, ok2 := b.en.force(e[2]).(Struct)
		if !ok1 || !ok2 {
			b.v.u("merges unknown")
			return
		}
		var ns []interface{}
		for _, f := range []struct {
			s Struct
			n string
		}{{vs, "Rank"}, {ps, "C1"}, {ps, "C2"}, {vs, "NewId"}} {
			y, _ := field(f.s, f.n)
			n, ok := num(y)
			if !ok {
				b.v.u("merge unknown")
				return
			}
			ns = append(ns, n)
		}
		got = append(got, fmt.Sprintf("%3d:(%d,%d)=%d", ns...))
	}
	sort.Strings(got)
	for _, w := range merges {
		want = append(want, fmt.Sprintf("%3d:(%d,%d)=%d", w.rank, w.a, w.b, w.id))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		b.v.b("the merges are [%s], by definition [%s] (%s)", spaced(got), spaced(want), b.facts(st))
	}
}

func spaced(l []string) string {
	return strings.Join(strings.Fields(strings.Join(l, " ")), " ")
}

func init() {
	props["X05"] = propMeta{run: x05,
		explain: "training is interpreted on every path for sets of a few words whose counts are symbolic, through the builder and the trainer's Train, with the goroutines that count pairs, the priority queue and its comparator included, ranges over maps taken in four orders; on each path the vocabulary and the merge table of the model must be those of byte-pair training by definition: special tokens first, then the alphabet in order (a limited one keeps the most frequent characters), marked characters, then one token for each merge, the most frequent pair first and the smaller of equally frequent ones, counted anew on the merged words, until the size or the least frequency is reached",
		assume:  []string{"the priority queue of the gods library pops a least element by the comparator given", "goroutines are run in one order; that others give the same is left to the check on shared state", "sets of more, longer or other words train alike; the split of ten thousand words or more among several workers is not reached"},
	}
}
