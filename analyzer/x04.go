package main

import (
	"fmt"
	"go/token"
	"strings"
	"unicode/utf8"
)

// X04: the tokenizing of a word by the models that look words up is interpreted on every
// path for a vocabulary of which nothing is known, and compared with the definition.

type wpcase struct {
	prefix, unk string
	text        string
	max         int  // the most characters of a word; -1 for the default
	whole       bool // the vocabulary has the text
}

// tokOf reads a token back: value and offsets as they are, the id as a term.
type gotTok struct {
	val  string
	id   *Poly
	a, b int
}

func (b *bword) tokens(st *State, l Val) ([]gotTok, string) {
	vs, ok := b.list(st, l)
	if !ok {
		return nil, "tokens unknown"
	}
	var out []gotTok
	for _, t := range vs {
		t = b.en.force(t)
		if p, ok := t.(Ptr); ok {
			t = b.en.force(b.en.load(st, p))
		}
		s, ok := t.(Struct)
		if !ok {
			return nil, "token unknown"
		}
		id, _ := field(s, "Id")
		val, _ := field(s, "Value")
		off, _ := field(s, "Offsets")
		o, ok := b.list(st, off)
		if !ok || len(o) != 2 {
			return nil, "offsets unknown"
		}
		x, ok := b.en.force(val).(Term)
		if !ok {
			return nil, "value unknown"
		}
		v, ok := x.isStrConst()
		av, ok1 := st.norm(b.en.toInt(o[0])).konst()
		bv, ok2 := st.norm(b.en.toInt(o[1])).konst()
		if !ok || !ok1 || !ok2 {
			return nil, "token unknown"
		}
		out = append(out, gotTok{v, b.en.toInt(b.en.force(id)), int(av), int(bv)})
	}
	return out, ""
}

func tokText(l []gotTok) string {
	s := ""
	for _, t := range l {
		s += fmt.Sprintf(" %s(%d,%d)", t.val, t.a, t.b)
	}
	return "[" + strings.TrimSpace(s) + "]"
}

// known asks a model for a token and continues on both answers.
func (b *bword) known(st *State, short, typ string, m Val, tok string, f func(st *State, id *Poly, yes bool)) {
	b.m(st, short, typ, "TokenToId", m, []Val{strVal(tok)}, func(st *State, ret []Val) {
		b.split(st, ret[1], func(st *State, yes bool) {
			f(st, b.en.toInt(b.en.force(ret[0])), yes)
		})
	})
}

// greedy is the definition: the longest piece of the vocabulary at each position.
func (b *bword) greedy(st *State, m Val, k wpcase, f func(st *State, l []gotTok, fails bool)) {
	wp := "model/wordpiece"
	var bounds []int
	for i := range k.text {
		bounds = append(bounds, i)
	}
	bounds = append(bounds, len(k.text))
	unk := func(st *State) {
		b.known(st, wp, "WordPiece", m, k.unk, func(st *State, id *Poly, yes bool) {
			if !yes {
				f(st, nil, true)
				return
			}
			f(st, []gotTok{{k.unk, id, 0, len(k.text)}}, false)
		})
	}
	if n := utf8.RuneCountInString(k.text); k.max >= 0 && n > k.max || k.max < 0 && n > 100 {
		unk(st)
		return
	}
	var from func(st *State, at, end int, l []gotTok)
	from = func(st *State, at, end int, l []gotTok) {
		if at == len(bounds)-1 {
			f(st, l, false)
			return
		}
		if at == end {
			unk(st)
			return
		}
		s := k.text[bounds[at]:bounds[end]]
		if at > 0 {
			s = k.prefix + s
		}
		b.known(st, wp, "WordPiece", m, s, func(st *State, id *Poly, yes bool) {
			if !yes {
				from(st, at, end-1, l)
				return
			}
			n := append(append([]gotTok{}, l...), gotTok{s, id, bounds[at], bounds[end]})
			from(st, end, len(bounds)-1, n)
		})
	}
	from(st, 0, len(bounds)-1, nil)
}

// compare tells whether a call gives the tokens of the definition.
func (b *bword) compare(st *State, k string, ret []Val, want []gotTok, fails bool) {
	switch (&cfgEnv{c: b.c, en: b.en}).errState(st, ret[1]) {
	case 0:
		if !fails {
			b.v.b("%s is refused, the definition gives %s", k, tokText(want))
		}
		return
	case 1:
	default:
		b.v.u("error unknown")
		return
	}
	got, why := b.tokens(st, ret[0])
	if why != "" {
		b.v.u("%s", why)
		return
	}
	if fails {
		b.v.b("%s gives %s though neither its pieces nor the unknown token are in the vocabulary", k, tokText(got))
		return
	}
	if len(got) != len(want) {
		b.v.b("%s gives %s, the definition %s", k, tokText(got), tokText(want))
		return
	}
	for i, g := range got {
		w := want[i]
		if g.val != w.val || g.a != w.a || g.b != w.b {
			b.v.b("%s gives %s, the definition %s", k, tokText(got), tokText(want))
			return
		}
		if !same(st, g.id, w.id) {
			b.v.b("%s: token %q has the id %s, not its own", k, g.val, st.norm(g.id).key())
			return
		}
	}
}

func x04(c *Ctx, r *Rep) {
	wp := "model/wordpiece"
	fn := c.lookup(wp, "WordPiece.Tokenize")
	if fn == nil {
		r.Missing("WordPiece.Tokenize")
		return
	}
	var cases []wpcase
	for _, t := range []string{"", "a", "ab", "abc", "aba", "aaa", "abcd", "é", "éa", "aé", "aéb", "世界a", "a##", "[UNK]"} {
		cases = append(cases, wpcase{"##", "[UNK]", t, -1, false})
	}
	for _, t := range []string{"", "ab", "aab", "aéb"} {
		cases = append(cases, wpcase{"", "<unk>", t, -1, false}, wpcase{"@", "[UNK]", t, -1, false})
		for n := 0; n < 5; n++ {
			cases = append(cases, wpcase{"##", "<unk>", t, n, false})
		}
	}
	for _, n := range []int{100, 101} {
		cases = append(cases, wpcase{"##", "[UNK]", strings.Repeat("é", n), -1, true})
	}
	r.parallel(len(cases), func(i int, r *Rep) {
		k := cases[i]
		st := newState()
		b := newBword(c, st)
		paths := 0
		vt := mapT(c, "model", "Vocab")
		vocab := b.en.symv("vocab", vt)
		st.assume(nilTest(b.en, vocab), false)
		if k.whole {
			_, has := b.en.lookup(st, vocab, strVal(k.text))
			st.assume(has, true)
		}
		vp := Ptr{obj: b.en.newObj(st, &Obj{kind: 'c', val: vocab})}
		type set struct {
			name string
			arg  Val
		}
		var sets []set
		sets = append(sets, set{"Vocab", vp}, set{"UnkToken", strVal(k.unk)}, set{"ContinuingSubwordPrefix", strVal(k.prefix)})
		if k.max >= 0 {
			sets = append(sets, set{"MaxInputCharsPerWord", Int{pc(int64(k.max))}})
		}
		b.do(st, wp, "NewWordPieceBuilder", nil, func(st *State, ret []Val) {
			var step func(st *State, bb Val, i int)
			step = func(st *State, bb Val, i int) {
				if i < len(sets) {
					b.m(st, wp, "WordPieceBuilder", sets[i].name, bb, []Val{sets[i].arg}, func(st *State, ret []Val) {
						if len(ret) > 0 {
							bb = ret[0]
						}
						step(st, bb, i+1)
					})
					return
				}
				b.m(st, wp, "WordPieceBuilder", "Build", bb, nil, func(st *State, ret []Val) {
					m := ret[0]
					b.m(st, wp, "WordPiece", "Tokenize", m, []Val{strVal(k.text)}, func(st *State, ret []Val) {
						b.greedy(st, m, k, func(st *State, want []gotTok, fails bool) {
							paths++
							b.compare(st, short(k.text), ret, want, fails)
						})
					})
				})
			}
			step(st, ret[0], 0)
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("words", 1)
		r.Add("paths", paths)
		b.v.settle(r, "greedy longest match", fmt.Sprintf("word %s, prefix %q, unknown token %q, at most %d", short(k.text), k.prefix, k.unk, k.max), fn.Pos(), paths, b.err)
	})
	x04words(c, r)
	r.Min("words", len(cases))
}

// x04words checks the model that looks whole words up.
func x04words(c *Ctx, r *Rep) {
	wl := "model/wordlevel"
	cases := []wpcase{{unk: "<unk>", text: "ab"}, {unk: "[UNK]", text: "é"}, {unk: "<unk>", text: "<unk>"}, {unk: "u", text: "世界 a"}}
	r.parallel(len(cases), func(i int, r *Rep) {
		k := cases[i]
		st := newState()
		b := newBword(c, st)
		paths := 0
		vocab := b.en.symv("vocab", mapT(c, wl, "Vocab"))
		st.assume(nilTest(b.en, vocab), false)
		b.do(st, wl, "New", []Val{vocab, strVal(k.unk)}, b.okErr(b.v, "New", func(st *State, m Val) {
			b.m(st, wl, "WordLevel", "Tokenize", m, []Val{strVal(k.text)}, func(st *State, ret []Val) {
				check := func(st *State, tok string, id *Poly, yes bool) {
					paths++
					b.compare(st, short(k.text), ret, []gotTok{{tok, id, 0, len(k.text)}}, !yes)
				}
				b.known(st, wl, "WordLevel", m, k.text, func(st *State, id *Poly, yes bool) {
					if yes {
						check(st, k.text, id, true)
						return
					}
					b.known(st, wl, "WordLevel", m, k.unk, func(st *State, id *Poly, yes bool) { check(st, k.unk, id, yes) })
				})
			})
		}))
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("whole words", 1)
		b.v.settle(r, "whole words", fmt.Sprintf("word %q, unknown token %q", k.text, k.unk), token.NoPos, paths, b.err)
	})
	r.Min("whole words", len(cases))
}

func init() {
	props["X04"] = propMeta{run: x04,
		explain: "the tokenizing of words of up to four characters by a WordPiece model is interpreted on every path from the builder on, with a vocabulary of which nothing is known: the paths are all answers to which pieces it has; on each the tokens must be those of the definition: the longest piece at each position, pieces after the first with the prefix, each with its own id and the bytes it covers, the unknown token for the whole word if a position has no piece or the word is too long, and an error if that is not in the vocabulary either. The word-level model is interpreted in the same way",
		assume:  []string{"longer words are matched as the shorter ones are"},
	}
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}
