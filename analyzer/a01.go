package main

import (
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// A01: added tokens are recognised exactly where their options say. The additions and the
// extraction are interpreted on texts; the pieces are compared with the definition.

type aopt struct {
	text                string
	special             bool
	single, left, right bool
	raw                 bool // not normalized (special tokens always are unless norm is set)
	norm                bool
}

type acase struct {
	name    string
	toks    []aopt
	norm    string // the normalizer: "", "lower", "fold" (lower case without accents), "wide" (longer text)
	texts   []string
	ofModel bool // some tokens are those of the model
}

func (t aopt) normalized() bool { return t.norm || !t.special && !t.raw }

var anorms = map[string]func(s string) string{
	"":      nil,
	"lower": strings.ToLower,
	"fold": func(s string) string {
		return strings.NewReplacer("é", "e", "É", "e", "-", "").Replace(strings.ToLower(s))
	},
	"wide": func(s string) string { return strings.NewReplacer("a", "bcd").Replace(s) },
}

func aword(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.Is(unicode.Nd, r) || unicode.In(r, unicode.Pc, unicode.Join_Control)
}

// ahit is a match of token number tok.
type ahit struct{ tok, a, b, ca, cb int }

// ahits are the matches of one token from left to right.
func ahits(s string, i int, t aopt, content string) (l []ahit) {
	for pos := 0; pos < len(s) && content != ""; {
		k := strings.Index(s[pos:], content)
		if k < 0 {
			break
		}
		a := pos + k
		b := a + len(content)
		at := func(p int) bool {
			x, _ := utf8.DecodeLastRuneInString(s[:p])
			y, _ := utf8.DecodeRuneInString(s[p:])
			return aword(x) && aword(y)
		}
		_, n := utf8.DecodeRuneInString(s[a:])
		if t.single && (at(a) || at(b)) {
			pos = a + n
			continue
		}
		h := ahit{i, a, b, a, b}
		if t.left {
			h.a = len(strings.TrimRightFunc(s[:a], unicode.IsSpace))
			if h.a < pos {
				h.a = pos
			}
		}
		if t.right {
			h.b = len(s) - len(strings.TrimLeftFunc(s[b:], unicode.IsSpace))
		}
		l = append(l, h)
		pos = h.b
	}
	return
}

// asplit gives the expected pieces of a text, or that more than one answer is right.
func asplit(s string, toks []aopt, idx []int, f func(string) string) (l []piece, open bool) {
	var hs []ahit
	for _, i := range idx {
		content := toks[i].text
		if f != nil {
			content = f(content)
		}
		hs = append(hs, ahits(s, i, toks[i], content)...)
	}
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].a < hs[j].a || hs[i].a == hs[j].a && hs[i].tok < hs[j].tok })
	// of two overlapping matches the one of the token added first counts
	var keep []ahit
	for i := 0; i < len(hs); {
		j, end := i+1, hs[i].b
		best := i
		for j < len(hs) && hs[j].a < end {
			if hs[j].b > end {
				end = hs[j].b
			}
			if hs[j].tok < hs[best].tok {
				best = j
			}
			j++
		}
		if j-i > 2 {
			return nil, true
		}
		if j-i == 2 { // which of them takes the space between two tokens is left open
			x, y := hs[i], hs[j-1]
			if x.cb <= y.ca || y.cb <= x.ca {
				return nil, true
			}
		}
		keep = append(keep, hs[best])
		i = j
	}
	at := 0
	for _, h := range keep {
		if at < h.a {
			l = append(l, piece{s[at:h.a], ""})
		}
		l = append(l, piece{s[h.a:h.b], fmt.Sprint("#", h.tok)})
		at = h.b
	}
	if at < len(s) {
		l = append(l, piece{s[at:], ""})
	}
	return
}

// awant are the pieces of the whole extraction.
func awant(s string, c acase) (l []piece, open bool) {
	var raw, nrm []int
	for _, special := range []bool{true, false} {
		for i, t := range c.toks {
			if t.special == special && t.normalized() {
				nrm = append(nrm, i)
			} else if t.special == special {
				raw = append(raw, i)
			}
		}
	}
	f := anorms[c.norm]
	// the order of recognition decides among overlapping ones
	renum := func(idx []int) ([]aopt, []int) {
		var ts []aopt
		var is []int
		for k, i := range idx {
			ts = append(ts, c.toks[i])
			is = append(is, k)
		}
		return ts, is
	}
	name := func(l []piece, idx []int) {
		for k := range l {
			if l[k].toks != "" {
				var n int
				fmt.Sscanf(l[k].toks, "#%d", &n)
				l[k].toks = c.toks[idx[n]].text
			}
		}
	}
	ts, is := renum(raw)
	first, open := asplit(s, ts, is, nil)
	if open {
		return nil, true
	}
	name(first, raw)
	for _, x := range first {
		if x.toks != "" {
			l = append(l, x)
			continue
		}
		t := x.label
		if f != nil {
			t = f(t)
		}
		ts, is := renum(nrm)
		rest, open := asplit(t, ts, is, f)
		if open {
			return nil, true
		}
		name(rest, nrm)
		l = append(l, rest...)
	}
	return
}

func acases() []acase {
	cube := []acase{}
	for o := 0; o < 8; o++ {
		t := aopt{text: "mk", special: true, single: o&1 != 0, left: o&2 != 0, right: o&4 != 0}
		u := aopt{text: "[n]", single: o&4 != 0, left: o&1 != 0, right: o&2 != 0}
		cube = append(cube,
			acase{name: fmt.Sprintf("options %d", o), toks: []aopt{t, u}, texts: []string{"mk", "x mk y", "x  mk\n y", " mk", "mk ", "xmk y", "x mky", "mk mk", "x [n] y", "[n]  [n]", "mk[n]", "mk  ", "mkmk [n]"}},
			acase{name: fmt.Sprintf("options %d, lower case", o), norm: "lower", toks: []aopt{t, {text: "MK", single: t.single, left: t.left, right: t.right}}, texts: []string{"x  MK  y", "x Mk", "mK mk", "xMK mky MK"}})
	}
	return append(cube, []acase{
		{name: "plain tokens", toks: []aopt{{text: "ab"}, {text: "[X]", special: true}},
			texts: []string{"", "ab", "xaby", "ab ab", "abab", "[X]", "a[X]b", "[X][X]", "A B", "[X]ab[X]", "aabb", "é[X]é", "[x]"}},
		{name: "a token of the model", ofModel: true, toks: []aopt{{text: "m0", special: true}, {text: "ab"}, {text: "m1", special: true}},
			texts: []string{"m0", "m0abm0", "a m1m0", "m1"}},
		{name: "special characters of expressions", toks: []aopt{{text: "a.b"}, {text: "(c)*", special: true}, {text: "$^"}, {text: `\w`, raw: true}, {text: "x|y"}},
			texts: []string{"a.b", "axb", "(c)*", "c", "$^", `\w`, "w", "x|y", "x", "a.b(c)*$^"}},
		{name: "single word", toks: []aopt{{text: "ing", single: true}},
			texts: []string{"ing", "running", "ingot", "ing ing", "(ing)", "ing.", "ing-ing", "ing_", "9ing", "ing9", "ingaing ing"}},
		{name: "single special word", toks: []aopt{{text: "ing", single: true, special: true}},
			texts: []string{"ing", "running", "ing ingot ing", "-ing-", "inging ing"}},
		{name: "single word that is no word", toks: []aopt{{text: "<m>", single: true, special: true}, {text: "-", single: true}},
			texts: []string{"<m>", "a<m>b", "a <m> b", "<m><m>", "a-b", "-", "a - b"}},
		{name: "single word half a word", toks: []aopt{{text: "@a", single: true, raw: true}, {text: "b!", single: true, raw: true}},
			texts: []string{"@a", "x@a", "@ax", "@a x", "b!", "b!x", "xb!", "x b!x", "@a b!"}},
		{name: "single word of other scripts", toks: []aopt{{text: "été", single: true, raw: true}},
			texts: []string{"été", "un été", "étés", "bété été", "(été)", "été été"}},
		{name: "single word next to other scripts", toks: []aopt{{text: "an", single: true, raw: true}},
			texts: []string{"an", "née an", "éan", "ané", "an é an", "日an", "an日 an"}},
		{name: "single words that overlap", toks: []aopt{{text: "a-a", single: true, raw: true}},
			texts: []string{"a-a", "ba-a-a", "a-ab-a-a", "a-a-a"}},
		{name: "left whitespace", toks: []aopt{{text: "<m>", special: true, left: true}},
			texts: []string{"<m>", " <m>", "a <m>", "a  <m> b", "\t\n<m>", "a<m>", "<m> <m>", "   ", "a <m"}},
		{name: "right whitespace", toks: []aopt{{text: "<m>", special: true, right: true}},
			texts: []string{"<m>", "<m> ", "a <m>  b", "<m>\n\nb", "<m>a", "<m> <m>"}},
		{name: "whitespace on both sides", toks: []aopt{{text: "<m>", special: true, left: true, right: true}},
			texts: []string{"<m>", " <m> ", "a   <m>  b", "a<m>b", "<m>  <m>"}},
		{name: "whitespace of other scripts", toks: []aopt{{text: "<m>", special: true, left: true, right: true}},
			texts: []string{"a\u00a0<m>\u3000b", "a\v<m>\u0085b"}},
		{name: "single word and whitespace", toks: []aopt{{text: "mask", special: true, single: true, left: true}, {text: "sep", raw: true, single: true, right: true}},
			texts: []string{"mask", "a mask", "a  mask", "unmask", "amask  mask", "masks mask", "sep", "sep  a", "seps sep ", "a sep"}},
		{name: "whitespace between two tokens", toks: []aopt{{text: "<m>", special: true, left: true}, {text: "<s>", special: true}},
			texts: []string{"<s> <m>", "<m> <s>", "<s>  <m><s>"}},
		{name: "whitespace claimed by two tokens", toks: []aopt{{text: "<m>", special: true, left: true}, {text: "<s>", special: true, right: true}},
			texts: []string{"<s> <m>", "<m> <s>", "<s><m>", "<m> <m> a"}},
		{name: "normalized", norm: "lower", toks: []aopt{{text: "Yes"}, {text: "NO", raw: true}, {text: "OK", special: true}, {text: "Hi", special: true, norm: true}},
			texts: []string{"Yes", "yes", "YES", "no", "NO", "ok", "OK", "HI", "hi", "a YES NO no b", "A B"}},
		{name: "normalized single words", norm: "lower", toks: []aopt{{text: "Yes", single: true}, {text: "NO", raw: true, single: true}},
			texts: []string{"yes", "YES", "eyes", "Yes!", "NO", "no", "NOT", "NO Yes NO", "YESyes yes"}},
		{name: "normalized to less", norm: "fold", toks: []aopt{{text: "été"}, {text: "É-é", raw: true}, {text: "x-x", single: true}, {text: "z", left: true}},
			texts: []string{"été", "ete", "ÉTÉ", "E-TE", "É-é", "é-é", "xx", "X-X", "axx xx", "a-  -z", "é z"}},
		{name: "normalized to more", norm: "wide", toks: []aopt{{text: "a", raw: true, single: true}, {text: "ea"}, {text: "c", single: true}},
			texts: []string{"a", "ea", "aa", "xea a", "c", "ebcd", "a c a"}},
		{name: "one token within another", toks: []aopt{{text: "abc", raw: true}, {text: "b", raw: true}},
			texts: []string{"abc", "b", "abcb", "ab", "babc"}},
		{name: "one token within another added first", toks: []aopt{{text: "b", raw: true}, {text: "abc", raw: true}},
			texts: []string{"abc", "b", "ab", "cabcb"}},
		{name: "tokens that overlap", toks: []aopt{{text: "ab", raw: true}, {text: "bc", raw: true}},
			texts: []string{"abc", "ab bc", "bcab"}},
		{name: "special tokens come first", toks: []aopt{{text: "ab", raw: true}, {text: "bc", special: true}},
			texts: []string{"abc", "ab bc"}},
		{name: "raw tokens come before normalized ones", norm: "lower", toks: []aopt{{text: "ab"}, {text: "BC", raw: true}},
			texts: []string{"aBC", "abc", "ABC", "ab BC"}},
	}...)
}

// ahooks model normalized strings as texts and the packages of expressions as they are.
func ahooks(p *pieces, std *stdEnv, norm string) {
	en := p.en
	(&bword{vrun: &vrun{script: &script{c: p.c, en: en}, std: std}, v: &vv{}}).tableHooks()
	en.hooks["regexp.QuoteMeta"] = std.foldOne(reflect.ValueOf(regexp.QuoteMeta))
	ns := "(*normalizer.NormalizedString)."
	text := func(v Val) (string, bool) { return p.labelOf(v) }
	for _, n := range []string{"GetNormalized", "GetOriginal"} {
		en.hooks[ns+n] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			l, ok := text(args[0])
			if !ok || n == "GetOriginal" {
				return nil, false
			}
			return retOne(st, strVal(l))
		}
	}
	for _, n := range []string{"IsEmpty", "Len"} {
		en.hooks[ns+n] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			l, ok := text(args[0])
			if !ok {
				return nil, false
			}
			if n == "IsEmpty" {
				return retOne(st, BoolC(l == ""))
			}
			return retOne(st, Int{pc(int64(len(l)))})
		}
	}
	en.hooks["normalizer.NewNormalizedFrom"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		return retOne(st, p.ns(st, s))
	}
	en.hooks["invoke normalizer.Normalizer.Normalize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := text(args[1])
		if !ok {
			return nil, false
		}
		return retOne(st, p.ns(st, anorms[norm](l)), NilV{errType})
	}
	en.hooks[ns+"Slice"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := text(args[0])
		rp, ok2 := en.force(args[1]).(Ptr)
		if !ok || !ok2 {
			return nil, false
		}
		rs, ok := en.load(st, rp).(Struct)
		if !ok {
			return nil, false
		}
		var b []int64
		for _, f := range rs.f {
			if i, ok := en.force(f).(Int); ok && len(b) < 2 {
				k, ok := st.norm(i.p).konst()
				if !ok {
					return nil, false
				}
				b = append(b, k)
			}
		}
		if len(b) < 2 || b[0] < 0 || b[1] < b[0] || int(b[1]) > len(l) {
			return nil, false
		}
		return retOne(st, p.ns(st, l[b[0]:b[1]]))
	}
	// sets of expressions
	en.hooks[rx+".NewRegexpSet"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		vs, ok := std.variadic(st, args[0])
		if !ok {
			return nil, false
		}
		pt, ok := cc.Signature().Results().At(0).Type().(*types.Pointer)
		if !ok {
			return nil, false
		}
		n, ok := pt.Elem().(*types.Named)
		if !ok {
			return nil, false
		}
		key := "set"
		for _, v := range vs {
			s, ok := strOf(v)
			if !ok {
				return nil, false
			}
			if _, err := regexp.Compile(s); err != nil {
				return nil, false
			}
			key += "\x00" + s
		}
		return retOne(st, en.cell(st, en.mkStruct(key+"\x01", n, nil)), NilV{errType})
	}
	list := func(v Val, kind string) ([]string, bool) {
		k := v.key()
		i := strings.Index(k, kind)
		if i < 0 {
			return nil, false
		}
		k = k[i+len(kind):]
		j := strings.Index(k, "\x01")
		if j < 0 {
			return nil, false
		}
		if k = k[:j]; k == "" {
			return nil, true
		}
		return strings.Split(k[1:], "\x00"), true
	}
	en.hooks["("+rx+".RegexpSet).Matches"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		pats, ok := list(args[0], "set")
		s, ok2 := strOf(args[1])
		n, ok3 := cc.Signature().Results().At(0).Type().(*types.Named)
		if !ok || !ok2 || !ok3 {
			return nil, false
		}
		key := "hits"
		for i, q := range pats {
			if regexp.MustCompile(q).MatchString(s) {
				key += fmt.Sprint("\x00", i)
			}
		}
		return retOne(st, en.mkStruct(key+"\x01", n, nil))
	}
	en.hooks["("+rx+".SetMatches).Matches"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := list(args[0], "hits")
		if !ok {
			return nil, false
		}
		var vs []Val
		for _, x := range l {
			var k int64
			fmt.Sscan(x, &k)
			vs = append(vs, Int{pc(k)})
		}
		return retOne(st, en.mkSlice(st, types.Typ[types.Int], vs...))
	}
	en.hooks["("+rx+".RegexpSet).Patterns"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := list(args[0], "set")
		if !ok {
			return nil, false
		}
		var vs []Val
		for _, x := range l {
			vs = append(vs, strVal(x))
		}
		return retOne(st, en.mkSlice(st, strT, vs...))
	}
	// one expression
	rm := func(name string, f func(st *State, cc *ssa.CallCommon, r *regexp.Regexp, s string, args []Val) (Val, bool)) {
		for _, suffix := range []string{"String", ""} {
			n := strings.Replace(name, "$", suffix, 1)
			en.hooks["(*regexp.Regexp)."+n] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				k, _, ok := std.of(args[0])
				s, ok2 := strOf(en.force(args[1]))
				if sl, isS := en.force(args[1]).(Slice); isS {
					if x, ok := std.goVal(st, sl, reflect.TypeOf([]byte{})); ok {
						s, ok2 = string(x.Bytes()), true
					}
				}
				r, err := regexp.Compile(k)
				if !ok || !ok2 || err != nil {
					return nil, false
				}
				v, ok := f(st, cc, r, s, args[2:])
				if !ok {
					return nil, false
				}
				return retOne(st, v)
			}
		}
	}
	it := types.Typ[types.Int]
	ints := func(st *State, l []int) Val {
		if l == nil {
			return NilV{types.NewSlice(it)}
		}
		var vs []Val
		for _, x := range l {
			vs = append(vs, Int{pc(int64(x))})
		}
		return en.mkSlice(st, it, vs...)
	}
	all := func(f func(r *regexp.Regexp, s string, n int) [][]int) func(st *State, cc *ssa.CallCommon, r *regexp.Regexp, s string, args []Val) (Val, bool) {
		return func(st *State, cc *ssa.CallCommon, r *regexp.Regexp, s string, args []Val) (Val, bool) {
			n, ok := st.norm(en.toInt(args[0])).konst()
			if !ok {
				return nil, false
			}
			l := f(r, s, int(n))
			if l == nil {
				return NilV{cc.Signature().Results().At(0).Type()}, true
			}
			var vs []Val
			for _, x := range l {
				vs = append(vs, ints(st, x))
			}
			return en.mkSlice(st, types.NewSlice(it), vs...), true
		}
	}
	rm("FindAll$Index", all(func(r *regexp.Regexp, s string, n int) [][]int { return r.FindAllStringIndex(s, n) }))
	rm("FindAll$SubmatchIndex", all(func(r *regexp.Regexp, s string, n int) [][]int { return r.FindAllStringSubmatchIndex(s, n) }))
	rm("Find$Index", func(st *State, cc *ssa.CallCommon, r *regexp.Regexp, s string, args []Val) (Val, bool) {
		return ints(st, r.FindStringIndex(s)), true
	})
	rm("Find$SubmatchIndex", func(st *State, cc *ssa.CallCommon, r *regexp.Regexp, s string, args []Val) (Val, bool) {
		return ints(st, r.FindStringSubmatchIndex(s)), true
	})
	funcHooks(en)
}

// funcHooks model the functions of package strings that take a test of characters.
func funcHooks(en *Eng) {
	test := func(st *State, f Val, r rune) (bool, bool) {
		cl, ok := en.force(f).(Closure)
		if !ok {
			return false, false
		}
		fn, ok := cl.fn.(*ssa.Function)
		if !ok {
			return false, false
		}
		if pf, ok := pureFuncs[fn.String()].(func(rune) bool); ok {
			return pf(r), true
		}
		if len(fn.Blocks) == 0 {
			return false, false
		}
		outs := en.Run(fn, []Val{Int{pc(int64(r))}}, cl.b, st.clone())
		if len(outs) != 1 || outs[0].kind != "ret" {
			return false, false
		}
		return outs[0].st.decide(outs[0].ret[0])
	}
	with := func(f func(s string, p func(rune) bool) Val) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			s, ok := strOf(en.force(args[0]))
			if !ok {
				return nil, false
			}
			v := f(s, func(r rune) bool {
				b, k := test(st, args[1], r)
				ok = ok && k
				return b
			})
			if !ok {
				return nil, false
			}
			return retOne(st, v)
		}
	}
	en.hooks["strings.TrimLeftFunc"] = with(func(s string, p func(rune) bool) Val { return strVal(strings.TrimLeftFunc(s, p)) })
	en.hooks["strings.TrimRightFunc"] = with(func(s string, p func(rune) bool) Val { return strVal(strings.TrimRightFunc(s, p)) })
	en.hooks["strings.TrimFunc"] = with(func(s string, p func(rune) bool) Val { return strVal(strings.TrimFunc(s, p)) })
	en.hooks["strings.IndexFunc"] = with(func(s string, p func(rune) bool) Val { return Int{pc(int64(strings.IndexFunc(s, p)))} })
	en.hooks["strings.LastIndexFunc"] = with(func(s string, p func(rune) bool) Val { return Int{pc(int64(strings.LastIndexFunc(s, p)))} })
	en.hooks["strings.ContainsFunc"] = with(func(s string, p func(rune) bool) Val { return BoolC(strings.ContainsFunc(s, p)) })
}

// atoken makes an added token by the public functions, its options given at creation or set later.
func (s *script) atoken(st *State, t aopt, late bool, f func(st *State, v Val)) {
	opts := []struct {
		name string
		val  bool
		def  bool
	}{{"SingleWord", t.single, false}, {"LStrip", t.left, false}, {"RStrip", t.right, false}, {"Normalized", t.normalized(), !t.special}}
	var closures []Val
	create := func(st *State) {
		var l Val = NilV{types.NewSlice(strT)}
		if fn := s.c.lookup("", "NewAddedToken"); fn != nil && len(closures) > 0 {
			ps := fn.Signature.Params()
			l = s.en.mkSlice(st, ps.At(ps.Len()-1).Type().Underlying().(*types.Slice).Elem(), closures...)
		} else if fn != nil {
			l = NilV{fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()}
		}
		s.do(st, "", "NewAddedToken", []Val{strVal(t.text), BoolC(t.special), l}, func(st *State, ret []Val) {
			if !late {
				f(st, ret[0])
				return
			}
			var set func(st *State, i int, v Val)
			set = func(st *State, i int, v Val) {
				if i == len(opts) {
					f(st, v)
					return
				}
				if opts[i].val == opts[i].def {
					set(st, i+1, v)
					return
				}
				s.do(st, "", "AddedToken.Set"+opts[i].name, []Val{v, BoolC(opts[i].val)}, func(st *State, ret []Val) { set(st, i+1, ret[0]) })
			}
			set(st, 0, ret[0])
		})
	}
	var opt func(st *State, i int)
	opt = func(st *State, i int) {
		if i == len(opts) || late {
			create(st)
			return
		}
		if opts[i].val == opts[i].def {
			opt(st, i+1)
			return
		}
		s.do(st, "", "With"+opts[i].name, []Val{BoolC(opts[i].val)}, func(st *State, ret []Val) {
			closures = append(closures, ret[0])
			opt(st, i+1)
		})
	}
	opt(st, 0)
}

func a01(c *Ctx, r *Rep) {
	fn := c.lookup("", "AddedVocabulary.ExtractAndNormalize")
	if fn == nil || c.lookup("", "Tokenizer.AddTokens") == nil {
		r.Missing("AddedVocabulary.ExtractAndNormalize")
		return
	}
	type job struct {
		c    acase
		text string
		late bool
	}
	var jobs []job
	for _, ac := range acases() {
		// the options mean the same for every kind of token
		for kind := 0; kind < 4; kind++ {
			x := ac
			x.toks = append([]aopt{}, ac.toks...)
			for k := range x.toks {
				switch t := &x.toks[k]; kind {
				case 1:
					t.special, t.raw, t.norm = false, true, false
					x.name = ac.name + ", raw"
				case 2:
					t.special, t.raw, t.norm = false, false, false
					x.name = ac.name + ", normalized"
				case 3:
					t.special, t.raw, t.norm = true, false, true
					x.name = ac.name + ", special and normalized"
				}
			}
			if ac.ofModel && (kind == 1 || kind == 2) {
				continue // the model recognises its own tokens
			}
			for i, t := range ac.texts {
				jobs = append(jobs, job{x, t, (i+kind)%2 == 1})
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		j := jobs[i]
		v := &vv{}
		s, st := newScript(c, map[string]*Poly{"m0": pc(0), "m1": pc(1)})
		base := newPieces(c)
		for k, h := range base.en.hooks {
			if s.en.hooks[k] == nil {
				s.en.hooks[k] = h
			}
		}
		base.en = s.en
		s.en.pathMode = true
		s.en.budget = 3000000
		sortHooks(s.en)
		std := newStdEnv(s.en, st)
		ahooks(base, std, j.c.norm)
		want, open := awant(j.text, j.c)
		paths := 0
		s.start(st, func(st *State) {
			run := func(st *State, n Val) {
				var sp, ad []aopt
				for _, t := range j.c.toks {
					if t.special {
						sp = append(sp, t)
					} else {
						ad = append(ad, t)
					}
				}
				add := func(st *State, name string, l []aopt, f func(st *State)) {
					if len(l) == 0 {
						f(st)
						return
					}
					var vs []Val
					var next func(st *State, i int)
					next = func(st *State, i int) {
						if i == len(l) {
							s.do(st, "", name, []Val{s.tk, s.en.mkSlice(st, c.typeNamed("", "AddedToken"), vs...)}, func(st *State, _ []Val) { f(st) })
							return
						}
						s.atoken(st, l[i], j.late, func(st *State, v Val) {
							vs = append(vs, v)
							next(st, i+1)
						})
					}
					next(st, 0)
				}
				add(st, "Tokenizer.AddTokens", ad, func(st *State) {
					add(st, "Tokenizer.AddSpecialTokens", sp, func(st *State) {
						idOf := map[string]string{}
						for _, t := range j.c.toks {
							s.do(st, "", "Tokenizer.TokenToId", []Val{s.tk, strVal(t.text)}, func(st *State, ret []Val) {
								if i, ok := ret[0].(Int); ok {
									idOf[i.p.key()] = t.text
								}
							})
						}
						s.do(st, "", "AddedVocabulary.ExtractAndNormalize", []Val{s.av(), strVal(j.text), n}, func(st *State, ret []Val) {
							got, und := base.result(st, ret[0])
							if und != "" {
								v.u("%s", und)
								return
							}
							paths++
							a01judge(v, j.text, j.c, got, want, open, idOf)
						})
					})
				})
			}
			nt := c.typeNamed("normalizer", "Normalizer")
			if j.c.norm == "" {
				run(st, NilV{nt})
				return
			}
			n := Term{"normalizer", nt}
			st.assume(nilTest(s.en, n), false)
			s.do(st, "", "Tokenizer.WithNormalizer", []Val{s.tk, n}, func(st *State, _ []Val) { run(st, n) })
		})
		if s.crash != "" {
			v.b("%q: %s", j.text, s.crash)
		}
		r.Add("texts interpreted", 1)
		if paths > 0 {
			r.Add("paths compared", paths)
		}
		v.settle(r, "added tokens", fmt.Sprintf("%s|%q", j.c.name, j.text), fn.Pos(), paths, s.err)
	})
	r.Min("texts interpreted", 400)
}

func a01judge(v *vv, text string, ac acase, got, want []piece, open bool, idOf map[string]string) {
	show := func(l []piece) string {
		var o []string
		for _, x := range l {
			o = append(o, fmt.Sprintf("%q", x.label)+map[bool]string{true: "", false: "{" + x.toks + "}"}[x.toks == ""])
		}
		return "[" + strings.Join(o, " ") + "]"
	}
	var l []piece
	for _, x := range got {
		if x.label == "" && x.toks == "" {
			continue // empty pieces say nothing
		}
		if x.toks != "" {
			t, ok := idOf[x.toks]
			if !ok && (mentionsHole(x.toks) || len(idOf) < len(ac.toks)) {
				v.u("token of id %s unknown", clipS(x.toks, 40))
				return
			}
			if !ok {
				t = "id " + x.toks
			}
			x.toks = t
		}
		if n := len(l); n > 0 && x.toks == "" && l[n-1].toks == "" {
			l[n-1].label += x.label // where text without tokens is cut is left open
			continue
		}
		l = append(l, x)
	}
	var w []piece
	for _, x := range want {
		if n := len(w); n > 0 && x.toks == "" && w[n-1].toks == "" {
			w[n-1].label += x.label
			continue
		}
		if x.label != "" {
			w = append(w, x)
		}
	}
	if !open {
		if show(l) != show(w) {
			v.b("%q is cut into %s, expected %s", text, show(l), show(w))
		}
		return
	}
	// matches compete: the pieces cover the text, tokens stand where they match, and nothing
	// that is a token is left over
	all := ""
	f := anorms[ac.norm]
	for _, x := range l {
		all += x.label
		if x.toks == "" {
			p, op := awant(x.label, ac)
			for _, y := range p {
				if !op && y.toks != "" && !ac.anySingle() {
					v.b("%q is cut into %s: %q is left over", text, show(l), y.toks)
				}
			}
			continue
		}
		for _, t := range ac.toks {
			if t.text != x.toks {
				continue
			}
			s := x.label
			if t.left {
				s = strings.TrimLeftFunc(s, unicode.IsSpace)
			}
			if t.right {
				s = strings.TrimRightFunc(s, unicode.IsSpace)
			}
			if s != t.text && (f == nil || s != f(t.text)) {
				v.b("%q is cut into %s: %q is no match of %q", text, show(l), x.label, t.text)
			}
		}
	}
	if f == nil && all != text {
		v.b("%q is cut into %s, which does not cover it", text, show(l))
	}
}

func (c acase) anySingle() bool {
	for _, t := range c.toks {
		if t.single {
			return true
		}
	}
	return false
}

func init() {
	props["A01"] = propMeta{run: a01,
		explain: "Tokens are made by the public functions with every combination of options under test, added by AddTokens and AddSpecialTokens around an abstract model, and ExtractAndNormalize is interpreted on texts with and without a normalizer (lower case, dropping accents and hyphens, lengthening); expressions, built from the options, are evaluated as they are. The pieces must be those of the definition: raw tokens in the text first, normalized tokens in their normalized form in the normalized rest, from left to right, of two overlapping matches the token recognised earlier, single words only where no word goes on, whitespace of any script taken in on the sides asked for, everything else left as one text.",
		assume:  []string{"the packages regexp and regexpset do what their documentation says", "NormalizedString.Slice returns the given part (N01)"},
	}
}
