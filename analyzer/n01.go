package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// N01: the operations on a text under normalization are interpreted on every path, for
// texts of characters of every width; the map back to the original is followed.

// ncell is a character of the normalized text and the bytes of the original it stands for.
type ncell struct {
	s      string
	lo, hi int  // where its bytes lie in the original
	exact  bool // they are just these
}

type nstr struct {
	text, orig string
	al, back   [][2]int
	shift      int
}

func cellText(l []ncell) string {
	s := ""
	for _, c := range l {
		s += c.s
	}
	return s
}

// nread reads a normalized string back.
func (b *bword) nread(st *State, n Val, f func(st *State, x nstr)) {
	nm := "normalizer"
	str := func(ret []Val) (string, bool) { return strOf(b.en.force(ret[0])) }
	b.m(st, nm, "NormalizedString", "GetNormalized", n, nil, func(st *State, r1 []Val) {
		b.m(st, nm, "NormalizedString", "GetOriginal", n, nil, func(st *State, r2 []Val) {
			b.m(st, nm, "NormalizedString", "Alignments", n, nil, func(st *State, r3 []Val) {
				b.m(st, nm, "NormalizedString", "Shift", n, nil, func(st *State, r4 []Val) {
					var x nstr
					var ok1, ok2 bool
					x.text, ok1 = str(r1)
					x.orig, ok2 = str(r2)
					l, ok3 := b.list(st, r3[0])
					sh, ok4 := st.norm(b.en.toInt(b.en.force(r4[0]))).konst()
					if !ok1 || !ok2 || !ok3 || !ok4 {
						b.v.u("text or alignments unknown")
						return
					}
					x.shift = int(sh)
					if x.al, ok1 = b.ranges(st, l); !ok1 {
						b.v.u("alignments unknown")
						return
					}
					b.m(st, nm, "NormalizedString", "AlignmentsOriginal", n, nil, func(st *State, r5 []Val) {
						l, ok := b.list(st, r5[0])
						if ok {
							x.back, ok = b.ranges(st, l)
						}
						if !ok {
							b.v.u("alignments unknown")
							return
						}
						f(st, x)
					})
				})
			})
		})
	})
}

func (b *bword) ranges(st *State, l []Val) (out [][2]int, ok bool) {
	for _, a := range l {
		o, ok := b.list(st, a)
		if !ok || len(o) != 2 {
			return nil, false
		}
		p, ok1 := st.norm(b.en.toInt(o[0])).konst()
		q, ok2 := st.norm(b.en.toInt(o[1])).konst()
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, [2]int{int(p), int(q)})
	}
	return out, true
}

// ncheck compares a text with what it should be; the cells come back with the
// alignments they have.
func (b *bword) ncheck(x nstr, orig string, want []ncell) ([]ncell, bool) {
	if x.orig != orig {
		b.v.b("the original text %q becomes %q", orig, x.orig)
		return nil, false
	}
	if w := cellText(want); x.text != w {
		b.v.b("the text becomes %q, not %q", x.text, w)
		return nil, false
	}
	if len(x.al) != len(x.text) {
		b.v.b("the text %q of %d bytes has alignments for %d", x.text, len(x.text), len(x.al))
		return nil, false
	}
	var out []ncell
	i := 0
	for _, c := range want {
		g := c
		for j := range c.s {
			for k := j; k < len(c.s) && (k == j || !utf8.RuneStart(c.s[k])); k++ {
				a := x.al[i+k]
				if a[0] < 0 || a[1] < a[0] || a[1] > len(orig) {
					b.v.b("in %q byte %d is aligned with [%d,%d] of the original of %d bytes", x.text, i+k, a[0], a[1], len(orig))
					return nil, false
				}
				if c.exact && (a[0] != c.lo || a[1] != c.hi) {
					b.v.b("in %q the character %q at %d is aligned with [%d,%d] of the original %q, it comes from [%d,%d]", x.text, c.s, i, a[0], a[1], orig, c.lo, c.hi)
					return nil, false
				}
				if !c.exact && (a[0] < c.lo || a[1] > c.hi) {
					b.v.b("in %q the character %q at %d is aligned with [%d,%d] of the original %q, it comes from within [%d,%d]", x.text, c.s, i, a[0], a[1], orig, c.lo, c.hi)
					return nil, false
				}
				g.lo, g.hi = a[0], a[1]
			}
		}
		g.exact = true
		out = append(out, g)
		i += len(c.s)
	}
	return out, true
}

type nop struct {
	name   string // of the method, or a label
	method string
	args   func(b *bword, st *State) []Val
	def    func(b *bword, st *State, l []ncell, f func(st *State, l []ncell))
	make   func(b *bword, st *State, f func(st *State, n Val)) // a normalizer to call instead
	typ    string
}

var nLower = map[rune]rune{'a': 'b', 'é': 'z', '世': 'è', 'm': '界', 'x': 'ÿ'}
var nUpper = map[rune]rune{'a': 'Ω', 'é': 'É', '世': 'Q', 'm': 'M', 'x': '大'}

func mapRunes(s string, m map[rune]rune) string {
	return strings.Map(func(r rune) rune {
		if x, ok := m[r]; ok {
			return x
		}
		return r
	}, s)
}

func (b *bword) nhooks() {
	en := b.en
	en.budget = 400000
	b.en.onIndex = func(en *Eng, fn *ssa.Function, pos token.Pos, what string, idx, n *Poly, st *State) {
		i, ok1 := st.norm(idx).konst()
		m, ok2 := st.norm(n).konst()
		if ok1 && ok2 && (i < 0 || i > m || i == m && what != "slice") {
			b.v.b("%s in %s at %s: %d of %d", what, fname(fn), en.c.pos(pos), i, m)
		}
	}
	konst := func(st *State, v Val) (rune, bool) {
		i, ok := en.force(v).(Int)
		if !ok {
			return 0, false
		}
		k, ok := st.norm(i.p).konst()
		return rune(k), ok
	}
	pred := func(what string, at int) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			if at >= len(args) {
				return nil, false
			}
			r, ok := konst(st, args[at])
			if !ok {
				return nil, false
			}
			return retOne(st, TBool{k: fmt.Sprintf("%s#%c", what, r)})
		}
	}
	en.hooks["unicode.IsSpace"] = pred("space", 0)
	en.hooks["unicode.Is"] = pred("mark", 1)
	en.hooks["unicode.In"] = pred("mark", 0)
	en.hooks["unicode.IsMark"] = pred("mark", 0)
	en.hooks["dynamic:fn:keep"] = pred("keep", 0)
	en.hooks["dynamic:fn:map"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		r, ok := konst(st, args[0])
		if !ok {
			return nil, false
		}
		for _, x := range mapRunes(string(r), nUpper) {
			return retOne(st, Int{pc(int64(x))})
		}
		return nil, false
	}
	for name, m := range map[string]map[rune]rune{"ToLower": nLower, "ToUpper": nUpper} {
		m := m
		en.hooks["unicode."+name] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			r, ok := konst(st, args[0])
			if !ok {
				return nil, false
			}
			for _, x := range mapRunes(string(r), m) {
				return retOne(st, Int{pc(int64(x))})
			}
			return nil, false
		}
		en.hooks["strings."+name] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			s, ok := strOf(en.force(args[0]))
			if !ok {
				return nil, false
			}
			return retOne(st, strVal(mapRunes(s, m)))
		}
	}
}

func nmapped(m map[rune]rune) func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		var out []ncell
		for _, c := range l {
			c.s = mapRunes(c.s, m)
			out = append(out, c)
		}
		f(st, out)
	}
}

// nkept keeps the characters of a class.
func nkept(what string, yes bool) func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		var at func(st *State, i int, out []ncell)
		at = func(st *State, i int, out []ncell) {
			if i == len(l) {
				f(st, out)
				return
			}
			b.split(st, TBool{k: what + "#" + l[i].s}, func(st *State, is bool) {
				if is == yes {
					at(st, i+1, append(append([]ncell{}, out...), l[i]))
				} else {
					at(st, i+1, out)
				}
			})
		}
		at(st, 0, nil)
	}
}

func nstripped(left, right bool) func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		var run func(st *State, l []ncell, left, right bool)
		run = func(st *State, l []ncell, left, right bool) {
			if len(l) == 0 || !left && !right {
				f(st, l)
				return
			}
			c := l[0]
			if !left {
				c = l[len(l)-1]
			}
			b.split(st, TBool{k: "space#" + c.s}, func(st *State, is bool) {
				switch {
				case left && is:
					run(st, l[1:], left, right)
				case left:
					run(st, l, false, right)
				case is:
					run(st, l[:len(l)-1], false, right)
				default:
					f(st, l)
				}
			})
		}
		run(st, l, left, right)
	}
}

// added cells stand for some part of the original.
func added(s string, all []ncell) []ncell {
	hi := 0
	for _, c := range all {
		if c.hi > hi {
			hi = c.hi
		}
	}
	var out []ncell
	for _, r := range s {
		out = append(out, ncell{string(r), 0, hi, false})
	}
	return out
}

func nops(c *Ctx) []nop {
	fn := func(name, typ string) func(b *bword, st *State) []Val {
		return func(b *bword, st *State) []Val {
			var t types.Type
			if typ != "" {
				t = c.typeNamed("normalizer", typ)
			}
			if t == nil {
				t = types.Typ[types.UnsafePointer]
			}
			v := Term{"fn:" + name, t}
			st.truth["nil:"+v.key()] = false
			return []Val{v}
		}
	}
	none := func(b *bword, st *State) []Val { return nil }
	ops := []nop{
		{name: "Filter", method: "Filter", args: fn("keep", ""), def: nkept("keep", true)},
		{name: "Map", method: "Map", args: fn("map", "NormFn"), def: nmapped(nUpper)},
		{name: "ForEach", method: "ForEach", args: fn("map", "NormFn"), def: nmapped(nUpper)},
		{name: "Lowercase", method: "Lowercase", args: none, def: nmapped(nLower)},
		{name: "Uppercase", method: "Uppercase", args: none, def: nmapped(nUpper)},
		{name: "RemoveAccents", method: "RemoveAccents", args: none, def: nkept("mark", false)},
		{name: "Strip", method: "Strip", args: none, def: nstripped(true, true)},
		{name: "LStrip", method: "LStrip", args: none, def: nstripped(true, false)},
		{name: "RStrip", method: "RStrip", args: none, def: nstripped(false, true)},
		{name: "Clear", method: "Clear", args: none, def: func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) { f(st, nil) }},
	}
	for _, s := range []string{"", "p", "Ü界"} {
		s := s
		arg := func(b *bword, st *State) []Val { return []Val{strVal(s)} }
		ops = append(ops, nop{name: fmt.Sprintf("Prepend(%q)", s), method: "Prepend", args: arg, def: func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
			if len(l) > 0 {
				l = append(added(s, l), l...)
			}
			f(st, l)
		}}, nop{name: fmt.Sprintf("Append(%q)", s), method: "Append", args: arg, def: func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
			if len(l) > 0 {
				l = append(append([]ncell{}, l...), added(s, l)...)
			}
			f(st, l)
		}})
	}
	for _, typ := range []string{"StringPattern", "RegexpPattern"} {
		typ := typ
		expr, text := symRegexp, symRegexp
		if typ == "StringPattern" {
			expr, text = "é", "é"
		}
		for _, with := range []string{"", "w", "Ü界"} {
			with := with
			ops = append(ops, nop{name: fmt.Sprintf("Replace(%s, %q)", typ, with), method: "Replace",
				args: func(b *bword, st *State) []Val {
					var p Val
					b.do(st, "normalizer", "New"+typ, []Val{strVal(text)}, func(s2 *State, ret []Val) { p = ret[0]; *st = *s2 })
					if p == nil {
						return nil
					}
					return []Val{Iface{types.NewPointer(c.typeNamed("normalizer", typ)), p}, strVal(with)}
				}, def: nreplaced(expr, with)})
		}
	}
	return ops
}

// symRegexp is the expression whose matches are open.
const symRegexp = "§"

// matches continues with every list of matches of the open expression in a text.
func (b *bword) matches(st *State, text string, f func(st *State, l [][2]int)) {
	var pos []int
	for i := range text {
		pos = append(pos, i)
	}
	pos = append(pos, len(text))
	var at func(st *State, i int, l [][2]int)
	at = func(st *State, i int, l [][2]int) {
		if i == len(pos) {
			f(st, l)
			return
		}
		add := func(j int) [][2]int { return append(append([][2]int{}, l...), [2]int{pos[i], pos[j]}) }
		b.split(st, TBool{k: fmt.Sprintf("match#%s#%d", text, i)}, func(st *State, yes bool) {
			if !yes {
				at(st, i+1, l)
				return
			}
			var longer func(st *State, j int)
			longer = func(st *State, j int) {
				stop := func(st *State) {
					if j > i {
						at(st, j, add(j))
					} else if len(l) > 0 && l[len(l)-1][1] == pos[i] {
						at(st, i+1, l) // no empty match right after a match
					} else {
						at(st, i+1, add(i))
					}
				}
				if j == len(pos)-1 {
					stop(st)
					return
				}
				b.split(st, TBool{k: fmt.Sprintf("longer#%s#%d#%d", text, i, j)}, func(st *State, yes bool) {
					if yes {
						longer(st, j+1)
					} else {
						stop(st)
					}
				})
			}
			longer(st, i)
		})
	}
	at(st, 0, nil)
}

// regexpMatches are the matches of an expression given.
func (b *bword) regexpMatches(st *State, expr, text string, f func(st *State, l [][2]int)) {
	if expr == symRegexp {
		b.matches(st, text, f)
		return
	}
	var l [][2]int
	for _, m := range regexp.MustCompile(expr).FindAllStringIndex(text, -1) {
		l = append(l, [2]int{m[0], m[1]})
	}
	f(st, l)
}

func (b *bword) regexpHooks() {
	en := b.en
	en.hooks["regexp.QuoteMeta"] = b.std.foldOne(reflect.ValueOf(regexp.QuoteMeta))
	find := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := b.std.of(args[0])
		s, ok2 := strOf(en.force(args[1]))
		if sl, isS := en.force(args[1]).(Slice); isS {
			if x, ok := b.std.goVal(st, sl, reflect.TypeOf([]byte{})); ok {
				s, ok2 = string(x.Bytes()), true
			}
		}
		n, ok3 := st.norm(en.toInt(args[2])).konst()
		if !ok || !ok2 || !ok3 || n >= 0 {
			return nil, false
		}
		var outs []Outcome
		it := types.Typ[types.Int]
		b.regexpMatches(st.clone(), k, s, func(st *State, l [][2]int) {
			if len(l) == 0 {
				outs = append(outs, Outcome{kind: "ret", ret: []Val{NilV{cc.Signature().Results().At(0).Type()}}, st: st})
				return
			}
			var vs []Val
			for _, m := range l {
				vs = append(vs, en.mkSlice(st, it, Int{pc(int64(m[0]))}, Int{pc(int64(m[1]))}))
			}
			outs = append(outs, Outcome{kind: "ret", ret: []Val{en.mkSlice(st, types.NewSlice(it), vs...)}, st: st})
		})
		return outs, true
	}
	en.hooks["(*regexp.Regexp).FindAllStringIndex"] = find
	en.hooks["(*regexp.Regexp).FindAllIndex"] = find
}

// nreplaced puts a text in place of each match.
func nreplaced(expr, with string) func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		if len(l) == 0 {
			f(st, nil)
			return
		}
		b.regexpMatches(st, expr, cellText(l), func(st *State, ms [][2]int) {
			var out []ncell
			i, at := 0, 0
			for _, m := range ms {
				for ; at < m[0]; i++ {
					out = append(out, l[i])
					at += len(l[i].s)
				}
				out = append(out, added(with, l)...)
				for ; at < m[1]; i++ {
					at += len(l[i].s)
				}
			}
			f(st, append(out, l[i:]...))
		})
	}
}

func ncells(s string) []ncell {
	var out []ncell
	for i, r := range s {
		out = append(out, ncell{string(r), i, i + len(string(r)), true})
	}
	return out
}

// nbegin makes a normalized string, changed by the operations given.
func (b *bword) nbegin(st *State, text string, f func(st *State, n Val, l []ncell)) {
	b.do(st, "normalizer", "NewNormalizedFrom", []Val{strVal(text)}, func(st *State, ret []Val) {
		n := ret[0]
		b.nread(st, n, func(st *State, x nstr) {
			if l, ok := b.ncheck(x, text, ncells(text)); ok {
				f(st, n, l)
			}
		})
	})
}

// napply applies an operation and checks its result.
func (b *bword) napply(st *State, n Val, text string, l []ncell, op nop, f func(st *State, n Val, l []ncell)) {
	after := func(st *State, ret []Val) {
		got := n
		if len(ret) > 0 {
			got = b.en.force(ret[0])
			if _, ok := got.(NilV); ok {
				b.v.b("%s gives no string for %q", op.name, cellText(l))
				return
			}
		}
		op.def(b, st, l, func(st *State, want []ncell) {
			b.nread(st, got, func(st *State, x nstr) {
				if out, ok := b.ncheck(x, text, want); ok {
					f(st, got, out)
				}
			})
		})
	}
	if op.make != nil {
		op.make(b, st, func(st *State, v Val) {
			v = b.en.force(v)
			typ := op.typ
			if i, ok := v.(Iface); ok {
				v = b.en.force(i.v)
				typ = strings.TrimPrefix(shortType(i.typ), "*")
				typ = typ[strings.LastIndex(typ, ".")+1:]
			}
			b.m(st, "normalizer", typ, "Normalize", v, []Val{n}, b.okErr(b.v, op.name, func(st *State, m Val) { after(st, []Val{m}) }))
		})
		return
	}
	b.m(st, "normalizer", "NormalizedString", op.method, n, op.args(b, st), after)
}

func n01(c *Ctx, r *Rep) {
	nm := "normalizer"
	if c.lookup(nm, "NewNormalizedFrom") == nil {
		r.Missing("NewNormalizedFrom")
		return
	}
	texts := []string{"", "a", "é", "世", "aé世", "世aé", "éma", "x世m"}
	seconds := []string{"aé世", "世aé"}
	ops := nops(c)
	type job struct {
		op    nop
		text  string
		first []nop
	}
	var jobs []job
	for _, op := range ops {
		for _, t := range texts {
			jobs = append(jobs, job{op, t, nil})
		}
		if strings.HasPrefix(op.name, "Replace(Regexp") {
			continue // all lists of matches: on the texts themselves
		}
		for i := range ops {
			if ops[i].method == op.method && ops[i].name != op.name || strings.HasPrefix(ops[i].name, "Replace(Regexp") {
				continue
			}
			for _, t := range seconds {
				jobs = append(jobs, job{op, t, []nop{ops[i]}})
			}
			if op.method == "Replace" || ops[i].method == "Replace" {
				continue
			}
			for j := range ops {
				if ops[j].method == "Replace" {
					continue
				}
				jobs = append(jobs, job{op, seconds[0], []nop{ops[i], ops[j]}})
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		k := jobs[i]
		st := newState()
		b := newBword(c, st)
		b.all = true
		b.nhooks()
		b.regexpHooks()
		paths := 0
		key := fmt.Sprintf("%s of %q", k.op.name, k.text)
		b.nbegin(st, k.text, func(st *State, n Val, l []ncell) {
			var run func(st *State, n Val, l []ncell, first []nop)
			run = func(st *State, n Val, l []ncell, first []nop) {
				if len(first) > 0 {
					b.napply(st, n, k.text, l, first[0], func(st *State, n Val, l []ncell) { run(st, n, l, first[1:]) })
					return
				}
				b.napply(st, n, k.text, l, k.op, func(*State, Val, []ncell) { paths++ })
			}
			run(st, n, l, k.first)
		})
		if k.first != nil {
			var l []string
			for _, o := range k.first {
				l = append(l, o.name)
			}
			key = fmt.Sprintf("%s after %s of %q", k.op.name, strings.Join(l, ", "), k.text)
		}
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("operations", 1)
		r.Add("paths", paths)
		b.v.settle(r, "alignment kept", key, token.NoPos, paths, b.err)
	})
	r.Min("operations", len(jobs))
}

func init() {
	props["N01"] = propMeta{run: n01, explain: "Every operation of a NormalizedString (Filter, Map, ForEach, Lowercase, Uppercase, RemoveAccents, Strip, LStrip, RStrip, Clear, Prepend, Append, Replace with a string or an open regular expression) is interpreted on every path, alone, after each other operation and after pairs of others, on texts of characters of one, two and three bytes. After each step the original is what it was, the text is what the operation makes of it, there is one range of alignments for each byte of it, each within the original, and each character kept or replaced is aligned with exactly the bytes it came from.", assume: []string{"predicates and mappings given by the caller are functions of the character", "a regular expression's matches are non-overlapping, ordered and on borders of characters", "texts are valid UTF-8"}}
}
