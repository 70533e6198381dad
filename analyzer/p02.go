package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// P02 and B02: the pre-tokenizers a caller can construct are interpreted on every path and
// compared with the pieces they are documented to cut.

// pcut is a piece: its text and where it lies in the original.
type pcut struct {
	s    string
	a, b int
}

type pcell struct {
	s    string
	a, b int
}

func pcells(text string) (out []pcell) {
	for i, r := range text {
		out = append(out, pcell{string(r), i, i + len(string(r))})
	}
	return
}

// runeSegs are the segments of a predicate of characters, each match on its own.
func runeSegs(p func(r rune) bool) func(l []pcell) []pgroup {
	return func(l []pcell) (out []pgroup) {
		for _, c := range l {
			m := p([]rune(c.s)[0])
			if n := len(out); !m && n > 0 && !out[n-1].match {
				out[n-1].l = append(out[n-1].l, c)
			} else {
				out = append(out, pgroup{[]pcell{c}, m})
			}
		}
		return
	}
}

type pgroup struct {
	l     []pcell
	match bool
}

// joined puts segments together as a behaviour says.
func joined(gs []pgroup, beh string) (out [][]pcell) {
	var segs []pseg
	var all []pcell
	for _, g := range gs {
		segs = append(segs, pseg{len(all), len(all) + len(g.l), g.match})
		all = append(all, g.l...)
	}
	for _, w := range splitPieces(beh, segs) {
		if w[0] < w[1] {
			out = append(out, all[w[0]:w[1]])
		}
	}
	return
}

func inverted(gs []pgroup) (out []pgroup) {
	for _, g := range gs {
		out = append(out, pgroup{g.l, !g.match})
	}
	return
}

// runs joins neighbouring characters of one class.
func classRuns(class func(r rune) int) func(l []pcell) []pgroup {
	return func(l []pcell) (out []pgroup) {
		last := -1
		for _, c := range l {
			k := class([]rune(c.s)[0])
			if k == last && k > 0 {
				out[len(out)-1].l = append(out[len(out)-1].l, c)
			} else {
				out = append(out, pgroup{[]pcell{c}, k > 0})
			}
			last = k
		}
		return
	}
}

type pdef = func(first bool, l []pcell) [][]pcell

func pnone(first bool, l []pcell) [][]pcell { return [][]pcell{l} }

type ptok struct {
	name string
	ctor string
	args func(b *bword, st *State, f func(st *State, args []Val))
	def  pdef
	init bool
}

func punct(r rune) bool {
	return r >= 33 && r <= 47 || r >= 58 && r <= 64 || r >= 91 && r <= 96 || r >= 123 && r <= 126 || unicode.Is(unicode.P, r)
}

func asciiSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

func wordRune(r rune) bool {
	return unicode.Is(unicode.Pc, r) || unicode.IsLetter(r) || unicode.IsNumber(r) || unicode.IsMark(r)
}

// gpt2 cuts the words of GPT-2; a space goes with the word after it.
func gpt2(l []pcell) (out [][]pcell) {
	class := func(i int) int {
		r := []rune(l[i].s)[0]
		switch {
		case unicode.IsSpace(r):
			return 0
		case unicode.IsLetter(r):
			return 1
		case unicode.IsNumber(r):
			return 2
		}
		return 3
	}
	for i := 0; i < len(l); {
		j := i
		if l[i].s == "'" {
			rest := ""
			for _, c := range l[i+1:] {
				rest += c.s
			}
			for _, s := range []string{"s", "t", "re", "ve", "m", "ll", "d"} {
				if strings.HasPrefix(rest, s) {
					j = i + 1 + len(s)
					break
				}
			}
		}
		if j == i {
			k := i
			if l[i].s == " " && i+1 < len(l) && class(i+1) > 0 {
				k++
			}
			if c := class(k); c > 0 {
				for j = k; j < len(l) && class(j) == c; j++ {
				}
			}
		}
		if j == i { // white space
			for j = i; j < len(l) && class(j) == 0; j++ {
			}
			if j < len(l) && j-1 > i {
				j-- // the last one before a word
			}
		}
		out = append(out, l[i:j])
		i = j
	}
	return
}

func ptoks(c *Ctx) []ptok {
	n, p := "normalizer", "pretokenizer"
	none := func(b *bword, st *State, f func(st *State, args []Val)) { f(st, nil) }
	given := func(vs ...Val) func(b *bword, st *State, f func(st *State, args []Val)) {
		return func(b *bword, st *State, f func(st *State, args []Val)) { f(st, vs) }
	}
	I := func(k int64) Val { return Int{pc(k)} }
	beh := map[string]Val{}
	for _, x := range behaviours {
		beh[x] = I(c.constInt(n, x+"Behavior"))
	}
	segs := func(f func(l []pcell) []pgroup, b string, inv bool) pdef {
		return func(first bool, l []pcell) [][]pcell {
			gs := f(l)
			if inv {
				gs = inverted(gs)
			}
			return joined(gs, b)
		}
	}
	spaces := runeSegs(unicode.IsSpace)
	var ts []ptok
	add := func(name, ctor string, args func(b *bword, st *State, f func(st *State, args []Val)), def pdef) {
		ts = append(ts, ptok{name, ctor, args, def, ctor == "NewByteLevel"})
	}
	add("NewBertPreTokenizer()", "NewBertPreTokenizer", none, func(first bool, l []pcell) (out [][]pcell) {
		for _, w := range joined(spaces(l), "Removed") {
			out = append(out, joined(runeSegs(punct)(w), "Isolated")...)
		}
		return
	})
	words := classRuns(func(r rune) int {
		if unicode.IsSpace(r) {
			return 0
		} else if wordRune(r) {
			return 1
		}
		return 2
	})
	add("NewWhitespace()", "NewWhitespace", none, segs(words, "Removed", true))
	add("DefaultWhitespace()", "DefaultWhitespace", none, segs(words, "Removed", true))
	add("NewWhitespaceSplit()", "NewWhitespaceSplit", none, segs(runeSegs(asciiSpace), "Removed", false))
	add("DefaultDigits()", "DefaultDigits", none, segs(runeSegs(unicode.IsNumber), "Contiguous", false))
	add("NewDigits(false)", "NewDigits", given(BoolC(false)), segs(runeSegs(unicode.IsNumber), "Contiguous", false))
	add("NewDigits(true)", "NewDigits", given(BoolC(true)), segs(runeSegs(unicode.IsNumber), "Isolated", false))
	add("DefaultPunctuation()", "DefaultPunctuation", none, segs(runeSegs(punct), "Isolated", false))
	for _, x := range behaviours {
		add("NewPunctuation("+x+")", "NewPunctuation", given(beh[x]), segs(runeSegs(punct), x, false))
		for _, inv := range []bool{false, true} {
			x, inv := x, inv
			add(fmt.Sprintf("NewSplit(a string, %s, invert %v)", x, inv), "NewSplit", func(b *bword, st *State, f func(st *State, args []Val)) {
				b.do(st, n, "NewStringPattern", []Val{strVal(".")}, func(st *State, ret []Val) {
					f(st, []Val{Iface{ctorType(c, n, "NewStringPattern"), ret[0]}, beh[x], BoolC(inv)})
				})
			}, segs(runeSegs(func(r rune) bool { return r == '.' }), x, inv))
		}
	}
	for _, d := range []rune{'.', 'é', ' '} {
		d := d
		add(fmt.Sprintf("NewCharDelimiterSplit(%q)", d), "NewCharDelimiterSplit", given(I(int64(d))), segs(runeSegs(func(r rune) bool { return r == d }), "Removed", false))
	}
	script := func(r rune) string {
		switch {
		case r == ' ':
			return "Any"
		case r == 0x30fc:
			return "Han"
		}
		for s, t := range unicode.Scripts {
			if unicode.Is(t, r) {
				if s == "Hiragana" || s == "Katakana" {
					return "Han"
				}
				return s
			}
		}
		return ""
	}
	scripts := func(first bool, l []pcell) (out [][]pcell) {
		last := ""
		for i, c := range l {
			s := script([]rune(c.s)[0])
			if s == "Any" {
				if len(out) > 0 {
					out[len(out)-1] = append(out[len(out)-1], l[i])
				}
				continue
			}
			if len(out) == 0 || s != last {
				out = append(out, []pcell{l[i]})
			} else {
				out[len(out)-1] = append(out[len(out)-1], l[i])
			}
			last = s
		}
		return
	}
	add("NewUnicodeScript()", "NewUnicodeScript", none, scripts)
	add("DefaultUnicodeScript()", "DefaultUnicodeScript", none, scripts)
	meta := func(repl string, scheme string) pdef {
		return func(first bool, l []pcell) [][]pcell {
			var m []pcell
			for _, c := range l {
				if strings.ContainsAny(c.s, " \t\n\r\f") {
					c.s = repl
				}
				m = append(m, c)
			}
			if len(m) > 0 && m[0].s != repl && (scheme == "Always" || scheme == "First" && first) {
				m = append([]pcell{{repl, m[0].a, m[0].b}}, m...)
			}
			return joined(runeSegs(func(r rune) bool { return string(r) == repl })(m), "MergedWithNext")
		}
	}
	add("DefaultMetaspace()", "DefaultMetaspace", none, meta("▁", "Always"))
	for _, x := range []string{"▁", "."} {
		add(fmt.Sprintf("NewMetaspace(%q, true)", x), "NewMetaspace", given(strVal(x), BoolC(true)), meta(x, "Always"))
		add(fmt.Sprintf("NewMetaspace(%q, false)", x), "NewMetaspace", given(strVal(x), BoolC(false)), meta(x, "Never"))
		for _, s := range []string{"Never", "First", "Always"} {
			add(fmt.Sprintf("NewMetaspaceWithScheme(%q, %s)", x, s), "NewMetaspaceWithScheme", given(strVal(x), I(c.constInt(p, s))), meta(x, s))
		}
	}
	of, _ := byteAlphabet()
	add("NewByteLevel()", "NewByteLevel", none, func(first bool, l []pcell) (out [][]pcell) {
		if len(l) > 0 && l[0].s != " " {
			l = append([]pcell{{" ", l[0].a, l[0].b}}, l...)
		}
		for _, w := range gpt2(l) {
			var o []pcell
			for _, c := range w {
				for i := 0; i < len(c.s); i++ {
					o = append(o, pcell{of[c.s[i]], c.a, c.b})
				}
			}
			out = append(out, o)
		}
		return
	})
	return ts
}

// pgot reads the pieces of a pre-tokenized string.
func (b *bword) pgot(st *State, v Val, f func(st *State, l []pcut)) {
	orig := Int{pc(b.c.constInt("normalizer", "OriginalTarget"))}
	b.m(st, "", "PreTokenizedString", "GetSplits", v, []Val{orig, Int{pc(b.c.constInt("", "Byte"))}}, func(st *State, ret []Val) {
		vs, ok := b.list(st, ret[0])
		if !ok {
			b.v.u("pieces unknown")
			return
		}
		var out []pcut
		for _, v := range vs {
			s, ok := b.en.force(v).(Struct)
			if !ok {
				b.v.u("piece unknown")
				return
			}
			val, _ := field(s, "Value")
			offs, _ := field(s, "Offsets")
			text, ok := strOf(b.en.force(val))
			rs, ok2 := b.ranges(st, []Val{b.en.force(offs)})
			if !ok || !ok2 {
				b.v.u("piece unknown")
				return
			}
			out = append(out, pcut{text, rs[0][0], rs[0][1]})
		}
		f(st, out)
	})
}

// pchars compares where each byte of the pieces comes from.
func (b *bword) pchars(st *State, v Val, want [][]pcell) {
	fn := b.c.lookup("", "*PreTokenizedString.Normalize")
	if fn == nil {
		b.err = "missing PreTokenizedString.Normalize"
		return
	}
	var ns []Val
	b.en.hooks["dynamic:piece"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		ns = append(ns, args[0])
		return retOne(st, args[0])
	}
	b.m(st, "", "PreTokenizedString", "Normalize", v, []Val{Term{"piece", fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()}}, func(st *State, ret []Val) {
		var l [][2]int
		for _, w := range want {
			for _, c := range w {
				for range []byte(c.s) {
					l = append(l, [2]int{c.a, c.b})
				}
			}
		}
		var got [][2]int
		var read func(st *State, i int)
		read = func(st *State, i int) {
			if i == len(ns) {
				if fmt.Sprint(got) != fmt.Sprint(l) {
					b.v.b("the bytes of the pieces lie at %v of the original, not %v", got, l)
				}
				return
			}
			b.nread(st, ns[i], func(st *State, x nstr) {
				for _, r := range x.al {
					got = append(got, [2]int{r[0] + x.shift, r[1] + x.shift})
				}
				read(st, i+1)
			})
		}
		read(st, 0)
	})
}

func pwant(l [][]pcell) (out []pcut) {
	for _, w := range l {
		s := ""
		for _, c := range w {
			s += c.s
		}
		if s != "" {
			out = append(out, pcut{s, w[0].a, w[len(w)-1].b})
		}
	}
	return
}

func pshow(l []pcut) string {
	var s []string
	for _, c := range l {
		s = append(s, fmt.Sprintf("%q at [%d,%d]", c.s, c.a, c.b))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// penv is an interpretation with what pre-tokenizers use of the library.
func penv(c *Ctx, st *State) *bword {
	b := newBword(c, st)
	b.all = true
	b.nhooks()
	for _, h := range []string{"unicode.IsSpace", "unicode.IsNumber", "unicode.IsDigit", "unicode.IsPunct", "unicode.IsLetter"} {
		b.en.hooks[h] = b.std.foldOne(reflect.ValueOf(pureFuncs[h]))
	}
	b.tableHooks()
	b.regexpHooks()
	b.scripts(st)
	b.en.longLoops = 2000
	return b
}

// scripts is the table of scripts of the unicode package.
func (b *bword) scripts(st *State) {
	for _, pkg := range b.c.Prog.AllPackages() {
		if pkg.Pkg.Path() != "unicode" {
			continue
		}
		g, ok := pkg.Members["Scripts"].(*ssa.Global)
		if !ok {
			return
		}
		m := &Obj{kind: 'm', mtyp: g.Type().(*types.Pointer).Elem().Underlying().(*types.Map), label: "scripts"}
		var names []string
		for s := range unicode.Scripts {
			names = append(names, s)
		}
		sort.Strings(names)
		for _, s := range names {
			m.ups = append(m.ups, mapUp{k: strVal(s), v: Ptr{obj: b.en.newObj(st, &Obj{kind: 'c', label: "global:unicode." + s})}})
		}
		if p, ok := b.en.val(st, g).(Ptr); ok {
			o := *b.en.get(st, p.obj)
			o.val = MapV{obj: b.en.newObj(st, m)}
			st.objs[p.obj] = &o
		}
	}
}

func (b *bword) pbuild(st *State, t ptok, f func(st *State, v Val)) {
	t.args(b, st, func(st *State, args []Val) {
		b.do(st, "pretokenizer", t.ctor, args, func(st *State, ret []Val) { f(st, ret[0]) })
	})
}

func p02(c *Ctx, r *Rep) {
	type job struct {
		ts   []ptok
		text string
		seq  bool
	}
	texts := []string{"", "a", ".", " ", "a b", " a. b ", "é.世", "a1２b..3", "x \ty\n\nz", "it's we'll '", "Aあーア漢 b!", " .a", "a.é é", "n\u0301 _x", "\u0378a", "ß\u3000k\u00a0l", "a  b  ", "a\u3000\u00a0.", "a \nb\n\n", " \u2003\v. 1", "a\u00ad😀\x00 1", "½aⅣ`~$b。x‿y^"}
	all := ptoks(c)
	var jobs []job
	for _, t := range all {
		for _, s := range texts {
			jobs = append(jobs, job{[]ptok{t}, s, false})
		}
	}
	var parts []ptok
	for _, t := range all {
		switch t.name {
		case "NewWhitespaceSplit()", "NewDigits(true)", "NewPunctuation(MergedWithPrevious)", `NewMetaspaceWithScheme("▁", First)`, "NewBertPreTokenizer()", "NewByteLevel()":
			parts = append(parts, t)
		}
	}
	jobs = append(jobs, job{nil, "a. b", true})
	for i := range parts {
		for j := range parts {
			if parts[i].init { // its pieces are no longer the text
				continue
			}
			for _, s := range []string{"a1. b", "é 22.x  "} {
				jobs = append(jobs, job{[]ptok{parts[i], parts[j]}, s, true})
			}
		}
	}
	preT := c.typeNamed("", "PreTokenizer")
	r.parallel(len(jobs), func(i int, r *Rep) {
		j := jobs[i]
		st := newState()
		b := penv(c, st)
		var names []string
		init := false
		for _, t := range j.ts {
			names = append(names, t.name)
			init = init || t.init
		}
		name := strings.Join(names, ", ")
		if j.seq {
			name = "NewSequence(" + name + ")"
		}
		want := [][]pcell{pcells(j.text)}
		for _, t := range j.ts {
			var next [][]pcell
			for k, l := range want {
				next = append(next, t.def(k == 0, l)...)
			}
			want = next
		}
		paths := 0
		run := func(st *State, v Val, t types.Type) {
			b.do(st, "", "NewPreTokenizedString", []Val{strVal(j.text)}, func(st *State, ret []Val) {
				b.inv(st, v, t, "PreTokenize", ret, b.okErr(b.v, name, func(st *State, m Val) {
					b.pgot(st, m, func(st *State, got []pcut) {
						paths++
						var g []pcut
						for _, x := range got {
							if x.s != "" {
								g = append(g, x)
							}
						}
						if w := pwant(want); pshow(g) != pshow(w) {
							b.v.b("%q is cut into %s, not %s", j.text, pshow(g), pshow(w))
							return
						}
						b.pchars(st, m, want)
					})
				}))
			})
		}
		begin := func(st *State) {
			if !j.seq {
				b.pbuild(st, j.ts[0], func(st *State, v Val) { run(st, v, ctorType(c, "pretokenizer", j.ts[0].ctor)) })
				return
			}
			var mk func(st *State, i int, vs []Val)
			mk = func(st *State, i int, vs []Val) {
				if i == len(j.ts) {
					b.do(st, "pretokenizer", "NewSequence", []Val{b.en.mkSlice(st, preT, vs...)}, func(st *State, ret []Val) {
						run(st, ret[0], ctorType(c, "pretokenizer", "NewSequence"))
					})
					return
				}
				b.pbuild(st, j.ts[i], func(st *State, v Val) {
					if _, ok := b.en.force(v).(Iface); !ok {
						v = Iface{ctorType(c, "pretokenizer", j.ts[i].ctor), v}
					}
					mk(st, i+1, append(append([]Val{}, vs...), v))
				})
			}
			mk(st, 0, nil)
		}
		b.initPkg(st, "normalizer", func(st *State) { b.initPkg(st, "pretokenizer", begin) })
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("cuttings", 1)
		r.Add("paths", paths)
		b.v.settle(r, "documented pieces", fmt.Sprintf("%s of %q", name, j.text), token.NoPos, paths, b.err)
	})
	r.Min("cuttings", len(jobs))
}

func init() {
	props["P02"] = propMeta{run: p02, explain: "Every pre-tokenizer a caller can construct is interpreted on every path on texts that hold every class of character it treats apart; the pieces (texts, and where they lie in the original) must be those documented: nothing else is cut, removed or changed. In a sequence each one cuts the pieces of the one before. The package initialisers are interpreted, so that tables and alphabets are those of the source.", assume: []string{"the unicode and regexp packages are the toolchain's", "texts are valid UTF-8"}}
}
