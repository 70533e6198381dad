package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// P01: patterns and splitting are interpreted on every path, with the matches open.

// pseg is a piece of a text and whether the pattern matches it.
type pseg struct {
	a, b  int
	match bool
}

// segments are the matches and what is between them.
func segments(text string, ms [][2]int) []pseg {
	var out []pseg
	at := 0
	for _, m := range ms {
		if at < m[0] {
			out = append(out, pseg{at, m[0], false})
		}
		out = append(out, pseg{m[0], m[1], true})
		at = m[1]
	}
	if at < len(text) {
		out = append(out, pseg{at, len(text), false})
	}
	return out
}

type ppat struct {
	name string
	make func(b *bword, st *State, f func(st *State, p Val))
	segs func(b *bword, st *State, text string, f func(st *State, l []pseg))
}

func ppats(c *Ctx) []ppat {
	mk := func(name string, args func() []Val, typ string) func(b *bword, st *State, f func(st *State, p Val)) {
		return func(b *bword, st *State, f func(st *State, p Val)) {
			b.do(st, "normalizer", name, args(), func(st *State, ret []Val) {
				f(st, Iface{types.NewPointer(c.typeNamed("normalizer", typ)), ret[0]})
			})
		}
	}
	expr := func(e string) func(b *bword, st *State, text string, f func(st *State, l []pseg)) {
		return func(b *bword, st *State, text string, f func(st *State, l []pseg)) {
			b.regexpMatches(st, e, text, func(st *State, ms [][2]int) { f(st, segments(text, ms)) })
		}
	}
	fn := Term{"fn:keep", c.typeNamed("normalizer", "PatternFn")}
	byRune := func(b *bword, st *State, text string, f func(st *State, l []pseg)) {
		nkept("keep", true)(b, st, ncells(text), func(st *State, l []ncell) {
			var ms [][2]int
			for _, c := range l {
				ms = append(ms, [2]int{c.lo, c.hi})
			}
			f(st, segments(text, ms))
		})
	}
	l := []ppat{
		{"an expression", mk("NewRegexpPattern", func() []Val { return []Val{strVal(symRegexp)} }, "RegexpPattern"), expr(symRegexp)},
		{"the string \"é\"", mk("NewStringPattern", func() []Val { return []Val{strVal("é")} }, "StringPattern"), expr("é")},
		{"the string \"a.\"", mk("NewStringPattern", func() []Val { return []Val{strVal("a.")} }, "StringPattern"), expr(`a\.`)},
		{"the empty string", mk("NewStringPattern", func() []Val { return []Val{strVal("")} }, "StringPattern"), func(b *bword, st *State, text string, f func(st *State, l []pseg)) {
			f(st, segments(text, nil))
		}},
		{"the character é", mk("NewRunePattern", func() []Val { return []Val{Int{pc('é')}} }, "RunePattern"), expr("é")},
		{"a function", mk("NewFnPattern", func() []Val { return []Val{fn} }, "FnPattern"), byRune},
	}
	for _, p := range l[:len(l):len(l)] {
		p := p
		l = append(l, ppat{"not " + p.name, func(b *bword, st *State, f func(st *State, p Val)) {
			p.make(b, st, func(st *State, v Val) {
				b.do(st, "normalizer", "NewInvertPattern", []Val{v}, func(st *State, ret []Val) {
					f(st, Iface{types.NewPointer(c.typeNamed("normalizer", "Invert")), ret[0]})
				})
			})
		}, func(b *bword, st *State, text string, f func(st *State, l []pseg)) {
			p.segs(b, st, text, func(st *State, l []pseg) {
				var out []pseg
				for _, s := range l {
					s.match = !s.match
					out = append(out, s)
				}
				f(st, out)
			})
		}})
	}
	return l
}

var behaviours = []string{"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}

// splitPieces are the ranges a behaviour makes of the segments.
func splitPieces(beh string, l []pseg) [][2]int {
	var out [][2]int
	switch beh {
	case "Removed":
		for _, s := range l {
			if !s.match {
				out = append(out, [2]int{s.a, s.b})
			}
		}
	case "Isolated":
		for _, s := range l {
			out = append(out, [2]int{s.a, s.b})
		}
	case "MergedWithPrevious":
		for i, s := range l {
			if s.match && i > 0 && !l[i-1].match {
				out[len(out)-1][1] = s.b
			} else {
				out = append(out, [2]int{s.a, s.b})
			}
		}
	case "MergedWithNext":
		for i := 0; i < len(l); i++ {
			if l[i].match && i+1 < len(l) && !l[i+1].match {
				out = append(out, [2]int{l[i].a, l[i+1].b})
				i++
			} else {
				out = append(out, [2]int{l[i].a, l[i].b})
			}
		}
	case "Contiguous":
		for i, s := range l {
			if i > 0 && s.match == l[i-1].match {
				out[len(out)-1][1] = s.b
			} else {
				out = append(out, [2]int{s.a, s.b})
			}
		}
	}
	return out
}

// pcompare compares the pieces of a split.
func (b *bword) pcompare(st *State, list Val, cells []ncell, orig string, want [][2]int, f func(st *State)) {
	vs, ok := b.list(st, list)
	if !ok {
		b.v.u("pieces unknown")
		return
	}
	text := cellText(cells)
	show := func(l [][2]int) string {
		var s []string
		for _, w := range l {
			s = append(s, fmt.Sprintf("%q", text[w[0]:w[1]]))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	// empty pieces say nothing
	var at func(st *State, i int, want [][2]int, got []string)
	at = func(st *State, i int, left [][2]int, got []string) {
		for len(left) > 0 && left[0][0] == left[0][1] {
			left = left[1:]
		}
		if i == len(vs) {
			if len(left) > 0 {
				b.v.b("%q is split into [%s], not %s", text, strings.Join(got, " "), show(want))
				return
			}
			f(st)
			return
		}
		v := b.en.force(vs[i])
		if s, ok := v.(Struct); ok {
			v = b.en.cell(st, s)
		}
		b.nread(st, v, func(st *State, x nstr) {
			got = append(append([]string{}, got...), fmt.Sprintf("%q", x.text))
			if x.text == "" {
				if x.shift < 0 || x.shift+len(x.orig) > len(orig) || orig[x.shift:x.shift+len(x.orig)] != x.orig {
					b.v.b("an empty piece says its original %q is at %d of %q", x.orig, x.shift, orig)
					return
				}
				at(st, i+1, left, got)
				return
			}
			if len(left) == 0 || x.text != text[left[0][0]:left[0][1]] {
				b.v.b("%q is split into pieces beginning with [%s], not into %s", text, strings.Join(got, " "), show(want))
				return
			}
			w := left[0]
			if len(x.al) != len(x.text) {
				b.v.b("the piece %q of %d bytes has alignments for %d", x.text, len(x.text), len(x.al))
				return
			}
			if x.shift < 0 || x.shift+len(x.orig) > len(orig) || orig[x.shift:x.shift+len(x.orig)] != x.orig {
				b.v.b("the piece %q says its original %q is at %d of %q", x.text, x.orig, x.shift, orig)
				return
			}
			p := 0
			for _, c := range cells {
				if p >= w[0] && p < w[1] && c.exact {
					for j := range []byte(c.s) {
						if a := x.al[p-w[0]+j]; a[0]+x.shift != c.lo || a[1]+x.shift != c.hi {
							b.v.b("in the piece %q of %q the character %q is aligned with [%d,%d] of the original %q, it comes from [%d,%d]", x.text, text, c.s, a[0]+x.shift, a[1]+x.shift, orig, c.lo, c.hi)
							return
						}
					}
				}
				p += len(c.s)
			}
			at(st, i+1, left[1:], got)
		})
	}
	at(st, 0, want, nil)
}

func p01(c *Ctx, r *Rep) {
	nm := "normalizer"
	if c.lookup(nm, "NormalizedString.Split") == nil {
		r.Missing("NormalizedString.Split")
		return
	}
	type job struct {
		pat   ppat
		beh   string
		val   int64
		text  string
		first *nop
		cut   bool
	}
	var jobs []job
	ops := nops(c)
	texts := []string{"", "a", "é", "aé世", "éaé", "aéé", "éa.a"}
	for _, p := range ppats(c) {
		for _, t := range texts {
			jobs = append(jobs, job{p, "", 0, t, nil, false})
		}
		for _, beh := range behaviours {
			k := c.constInt(nm, beh+"Behavior")
			for _, t := range texts {
				jobs = append(jobs, job{p, beh, k, t, nil, false})
			}
			jobs = append(jobs, job{p, beh, k, "aé世", nil, true}, job{p, beh, k, "éaé", nil, true})
			for i := range ops {
				switch ops[i].method {
				case "Filter", "Lowercase", "Prepend", "Append":
					jobs = append(jobs, job{p, beh, k, "aé世", &ops[i], false})
				}
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		k := jobs[i]
		st := newState()
		b := newBword(c, st)
		b.all = true
		b.nhooks()
		b.regexpHooks()
		b.en.budget = 4000000
		paths := 0
		rule := "splitting"
		what := fmt.Sprintf("%s of %q by %s", k.beh, k.text, k.pat.name)
		if k.first != nil {
			what += " after " + k.first.name
		}
		if k.beh == "" {
			rule = "matches"
			what = fmt.Sprintf("%q by %s", k.text, k.pat.name)
			k.pat.make(b, st, func(st *State, p Val) {
				i := p.(Iface)
				b.m(st, nm, strings.TrimPrefix(shortType(i.typ), "*normalizer."), "FindMatches", i.v, []Val{strVal(k.text)}, func(st *State, ret []Val) {
					k.pat.segs(b, st, k.text, func(st *State, want []pseg) {
						paths++
						b.psegs(st, ret[0], k.text, want)
					})
				})
			})
		} else {
			text := k.text
			if k.cut {
				text = "é" + text + "世"
				what += " cut out of a longer text"
			}
			b.nbegin(st, text, func(st *State, n Val, l []ncell) {
				run := func(st *State, n Val, l []ncell) {
					k.pat.make(b, st, func(st *State, p Val) {
						b.m(st, nm, "NormalizedString", "Split", n, []Val{p, Int{pc(k.val)}}, func(st *State, ret []Val) {
							k.pat.segs(b, st, cellText(l), func(st *State, segs []pseg) {
								b.pcompare(st, ret[0], l, text, splitPieces(k.beh, segs), func(st *State) { paths++ })
							})
						})
					})
				}
				if k.cut {
					b.do(st, nm, "NewRange", []Val{Int{pc(2)}, Int{pc(int64(2 + len(k.text)))}, Int{pc(c.constInt(nm, "NormalizedTarget"))}}, func(st *State, ret []Val) {
						b.m(st, nm, "NormalizedString", "Slice", n, []Val{ret[0]}, func(st *State, ret []Val) {
							run(st, ret[0], l[1:len(l)-1])
						})
					})
					return
				}
				if k.first != nil {
					b.napply(st, n, k.text, l, *k.first, run)
				} else {
					run(st, n, l)
				}
			})
		}
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add(rule, 1)
		r.Add("paths", paths)
		b.v.settle(r, rule, what, token.NoPos, paths, b.err)
	})
	r.Min("splitting", 300)
	r.Min("matches", 50)
}

// psegs compares the segments a pattern finds; empty ones say nothing.
func (b *bword) psegs(st *State, list Val, text string, want []pseg) {
	vs, ok := b.list(st, list)
	if !ok {
		b.v.u("matches unknown")
		return
	}
	var got []pseg
	for _, v := range vs {
		s, ok := b.en.force(v).(Struct)
		if !ok {
			b.v.u("match unknown")
			return
		}
		m, _ := field(s, "Match")
		o, _ := field(s, "Offsets")
		l, ok := b.list(st, o)
		y, ok2 := st.decide(b.en.force(m))
		if !ok || !ok2 {
			b.v.u("match unknown")
			return
		}
		rs, ok := b.ranges(st, []Val{b.en.force(o)})
		if !ok || len(l) != 2 {
			b.v.u("match unknown")
			return
		}
		got = append(got, pseg{rs[0][0], rs[0][1], y})
	}
	trim := func(l []pseg) (out []pseg) {
		for _, s := range l {
			if s.a != s.b {
				out = append(out, s)
			}
		}
		return
	}
	if g, w := fmt.Sprint(trim(got)), fmt.Sprint(trim(want)); g != w {
		b.v.b("in %q the pattern finds %s, not %s", text, g, w)
	}
}

func init() {
	props["P01"] = propMeta{run: p01, explain: "Splitting a normalized or pre-tokenized text is interpreted on every path with every kind of pattern (a regular expression with open matches, a string, a character, a predicate, and each inverted) and each of the five behaviours, after operations that let the text grow, shrink or be sliced. Put together in order the pieces are the text (or the text without the removed matches), each piece's place in the original is where its characters come from, and where the borders lie follows the behaviour chosen.", assume: []string{"a regular expression's matches are non-overlapping, ordered and on borders of characters", "predicates are functions of the character", "texts are valid UTF-8"}}
}
