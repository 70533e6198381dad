package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// X03: the segmenting of a text by a unigram model is interpreted on every path for
// vocabularies of a few pieces with symbolic scores, and compared with the definition: no
// other segmentation may have a greater score on the path.

type unicase struct {
	text   string
	pieces string // separated by blanks
	unk    int    // place of the unknown token; -1 for none
	bytes  bool   // byte fallback
	fuse   bool
}

func (k unicase) name() string {
	s := fmt.Sprintf("text %s, pieces %s", short(k.text), short(k.pieces))
	if k.unk < 0 {
		s += ", no unknown token"
	}
	if k.bytes {
		s += ", byte fallback"
	}
	if k.fuse {
		s += ", unknowns fused"
	}
	return s
}

func (k unicase) toks() []string { return strings.Fields(k.pieces) }

func (k unicase) at(s string) int {
	for i, t := range k.toks() {
		if t == s {
			return i
		}
	}
	return -1
}

// useg is a segmentation: the ends of its pieces, how many of them are unknown
// characters, and which tokens its other pieces are.
type useg struct {
	ends []int
	unk  int
	ids  []int
}

// byBytes tells whether a character becomes its bytes.
func (k unicase) byBytes(s string) bool {
	if !k.bytes {
		return false
	}
	for i := 0; i < len(s); i++ {
		if k.at(fmt.Sprintf("<0x%02X>", s[i])) < 0 {
			return false
		}
	}
	return true
}

// segmentations of a text by the definition: pieces of the vocabulary, and single
// characters that are not in it.
func (k unicase) segmentations() []useg {
	var out []useg
	var from func(at int, s useg)
	from = func(at int, s useg) {
		if at == len(k.text) {
			out = append(out, s)
			return
		}
		_, n := utf8.DecodeRuneInString(k.text[at:])
		for i, t := range k.toks() {
			if strings.HasPrefix(k.text[at:], t) {
				from(at+len(t), useg{append(append([]int{}, s.ends...), at+len(t)), s.unk, append(append([]int{}, s.ids...), i)})
			}
		}
		if k.at(k.text[at:at+n]) < 0 && (k.unk >= 0 || k.bytes) {
			from(at+n, useg{append(append([]int{}, s.ends...), at+n), s.unk + 1, append([]int{}, s.ids...)})
		}
	}
	from(0, useg{})
	return out
}

// toks of a segmentation by the definition: the bytes of an unknown character if they are
// tokens, the unknown token otherwise, one for several in a row if these are to be fused.
// An unknown token has its own text or the one it covers.
func (k unicase) want(s useg) (l []gotTok, fails bool) {
	at, wasUnk := 0, false
	for _, e := range s.ends {
		t := k.text[at:e]
		i := k.at(t)
		switch {
		case i >= 0:
			l = append(l, gotTok{t, pc(int64(i)), at, e})
			wasUnk = i == k.unk
		case k.byBytes(t):
			for j := 0; j < len(t); j++ {
				b := fmt.Sprintf("<0x%02X>", t[j])
				l = append(l, gotTok{b, pc(int64(k.at(b))), at, e})
			}
			wasUnk = false
		case k.unk < 0:
			return nil, true
		case k.fuse && wasUnk:
			l[len(l)-1].b = e
		default:
			l = append(l, gotTok{"", pc(int64(k.unk)), at, e})
			wasUnk = true
		}
		at = e
	}
	return l, false
}

func (k unicase) sameToks(st *State, got, want []gotTok) bool {
	if len(got) != len(want) {
		return false
	}
	for i, g := range got {
		w := want[i]
		if g.a != w.a || g.b != w.b || w.val != "" && g.val != w.val || w.val == "" && g.val != k.text[w.a:w.b] && g.val != k.toks()[k.unk] || !same(st, g.id, w.id) {
			return false
		}
	}
	return true
}

// score of a segmentation, the least score being that of piece min.
func (s useg) score(scores []*Poly, min int) *Poly {
	p := pc(0)
	for _, i := range s.ids {
		p = p.add(scores[i])
	}
	for i := 0; i < s.unk; i++ {
		p = p.add(scores[min]).sub(pc(10 * realUnit))
	}
	return p
}

// best checks the result of a path.
func (b *bword) best(st *State, k unicase, scores []*Poly, ret []Val) {
	all := k.segmentations()
	failed := false
	switch (&cfgEnv{c: b.c, en: b.en}).errState(st, ret[1]) {
	case 0:
		failed = true
	case 1:
	default:
		b.v.u("error unknown")
		return
	}
	var got []gotTok
	if !failed {
		l, why := b.tokens(st, ret[0])
		if why != "" {
			b.v.u("%s", why)
			return
		}
		got = l
	}
	var mine []useg
	for _, s := range all {
		want, fails := k.want(s)
		if fails == failed && (fails || k.sameToks(st, got, want)) {
			mine = append(mine, s)
		}
	}
	if len(all) == 0 && failed {
		return
	}
	if len(mine) == 0 {
		if failed {
			b.v.b("the text is refused though the vocabulary makes it up")
		} else {
			b.v.b("the tokens %s are of no segmentation", tokText(got))
		}
		return
	}
	open := false // the least score matters
	for _, s := range all {
		open = open || s.unk != all[0].unk
	}
	for min := range scores {
		if !open && min > 0 {
			break
		}
		st := st.clone()
		ok := true
		for j := 0; j < len(scores) && open; j++ {
			ok = ok && st.assume(Cmp{">=0", scores[j].sub(scores[min])}, true)
		}
		if !ok || st.contradicts() {
			continue
		}
		worst := ""
		for _, m := range mine {
			worst = ""
			for _, s := range all {
				d := m.score(scores, min).sub(s.score(scores, min))
				t := st.clone()
				if t.assume(Cmp{"<0", d}, true) && !t.contradicts() {
					worst = k.ends(s)
					break
				}
			}
			if worst == "" {
				break
			}
		}
		if worst != "" {
			b.v.b("%s is chosen where %s can have a greater score", k.ends(mine[0]), worst)
			return
		}
	}
}

func (k unicase) ends(s useg) string {
	out, at := "", 0
	for _, e := range s.ends {
		out += " " + short(k.text[at:e])
		at = e
	}
	return "[" + strings.TrimSpace(out) + "]"
}

func x03(c *Ctx, r *Rep) {
	un := "model/unigram"
	fn := c.lookup(un, "Unigram.Tokenize")
	if fn == nil {
		r.Missing("Unigram.Tokenize")
		return
	}
	long := strings.Repeat("ab", 12)
	cases := []unicase{
		{"", "<unk> a", 0, false, false},
		{"a", "<unk> a", 0, false, false},
		{"ab", "<unk> a b ab", 0, false, false},
		{"aa", "<unk> a aa", 0, false, false},
		{"aaa", "<unk> a aa aaa", 0, false, false},
		{"abc", "<unk> a b c ab bc", 0, false, false},
		{"abc", "<unk> a b c ab bc abc", 0, false, false},
		{"abcd", "a ab bc cd d", -1, false, false},
		{"abab", "<unk> a b ab ba bab", 0, false, false},
		{"abc", "a ab <unk> bc c", 2, false, false},
		{"abc", "ab <unk> bc", 1, false, false},
		{"ab", "<unk> c", 0, false, false},
		{"ab", "c", -1, false, false},
		{"ab", "a ab", -1, false, false},
		{"abc", "a ab bc", -1, false, false},
		{"éa", "<unk> é éa a", 0, false, false},
		{"aéb", "<unk> a éb b", 0, false, false},
		{"é世", "<unk> a", 0, false, false},
		{"é世", "<unk> a", 0, false, true},
		{"é世", "é世", -1, false, false},
		{"世界a世", "世 世界 a世 u", 3, false, true},
		{"axya", "a u", 1, false, true},
		{"xya", "<unk> a ya", 0, false, true},
		{"axyb", "<unk> a b", 0, false, true},
		{"axb", "<unk> a b", 0, false, true},
		{"<unk>", "<unk> a", 0, false, false},
		{"aé", "<unk> a <0xC3> <0xA9>", 0, true, false},
		{"éab", "<unk> a ab <0xC3> <0xA9> b", 0, true, false},
		{"é", "<0xC3> <0xA9>", -1, true, false},
		{"éa", "<unk> a <0xC3>", 0, true, false},
		{"éa", "a <0xC3>", -1, true, false},
		{"?é", "<unk> <0xC3> <0xA9>", 0, true, true},
		{"xyé", "<unk> <0xC3> <0xA9>", 0, true, true},
		{long, "<unk> " + long, 0, false, false},
		{long, long[:21] + " " + long[21:] + " " + long, -1, false, false},
	}
	scoreT := c.typeNamed(un, "TokenScore")
	r.parallel(len(cases), func(i int, r *Rep) {
		k := cases[i]
		st := newState()
		b := newBword(c, st)
		realHooks(b.en)
		cacheHooks(b.en)
		paths := 0
		var scores []*Poly
		var vs []Val
		for j, t := range k.toks() {
			p := pa(fmt.Sprintf("score%d", j))
			scores = append(scores, p)
			vs = append(vs, b.en.mkStruct("score:"+t, scoreT, map[string]Val{"Token": strVal(t), "Score": Int{p}}))
		}
		vocab := b.en.mkSlice(st, scoreT, vs...)
		type set struct {
			name string
			arg  Val
		}
		sets := []set{{"Vocab", vocab}, {"BytesFallback", BoolC(k.bytes)}, {"FuseUnk", BoolC(k.fuse)}}
		if k.unk >= 0 {
			sets = append(sets, set{"UnkID", Int{pc(int64(k.unk))}})
		}
		b.do(st, un, "NewUnigramBuilder", nil, func(st *State, ret []Val) {
			var step func(st *State, bb Val, i int)
			step = func(st *State, bb Val, i int) {
				if i < len(sets) {
					b.m(st, un, "UnigramBuilder", sets[i].name, bb, []Val{sets[i].arg}, func(st *State, ret []Val) {
						if len(ret) > 0 {
							bb = ret[0]
						}
						step(st, bb, i+1)
					})
					return
				}
				b.m(st, un, "UnigramBuilder", "Build", bb, nil, b.okErr(b.v, "Build", func(st *State, m Val) {
					b.m(st, un, "Unigram", "Tokenize", m, []Val{strVal(k.text)}, func(st *State, ret []Val) {
						paths++
						b.best(st, k, scores, ret)
						b.m(st, un, "Unigram", "Tokenize", m, []Val{strVal(k.text)}, func(st *State, ret []Val) {
							b.best(st, k, scores, ret)
						})
					})
				}))
			}
			step(st, ret[0], 0)
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("texts", 1)
		r.Add("paths", paths)
		b.v.settle(r, "best segmentation", k.name(), fn.Pos(), paths, b.err)
	})
	r.Min("texts", len(cases))
}

func init() {
	props["X03"] = propMeta{run: x03,
		explain: "the segmenting of a text by a unigram model is interpreted on every path from the builder on, for small vocabularies with symbolic scores: the paths are all orders of the scores of the ways to make up the text; on each, no segmentation by the definition (pieces of the vocabulary, and characters not in it counting ten less than the least score) may have a greater score than the one chosen, and the tokens must be its pieces with their ids and byte offsets; unknown characters become the tokens of their bytes with byte fallback, the unknown token otherwise, fused if set, and an error without one. A second call must give as good a segmentation",
		assume:  []string{"sums of scores are not rounded", "unknown characters in a row do not together make up a piece that scores less than they do", "the cache library keeps what it is given", "longer texts are segmented as the shorter ones are"},
	}
}
