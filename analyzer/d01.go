package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"
)

// D01: the decoders a caller can construct are interpreted on every path and compared
// with the pieces they are documented to make.

type ddef = func(b *bword, st *State, toks []string, f func(st *State, out []string))

func dpure(g func(toks []string) []string) ddef {
	return func(b *bword, st *State, toks []string, f func(st *State, out []string)) { f(st, g(toks)) }
}

func deach(g func(i, n int, t string) string) ddef {
	return dpure(func(toks []string) (out []string) {
		for i, t := range toks {
			out = append(out, g(i, len(toks), t))
		}
		return
	})
}

func dthen(ds ...ddef) ddef {
	if len(ds) == 0 {
		return dpure(func(toks []string) []string { return toks })
	}
	return func(b *bword, st *State, toks []string, f func(st *State, out []string)) {
		ds[0](b, st, toks, func(st *State, out []string) { dthen(ds[1:]...)(b, st, out, f) })
	}
}

func dcleaned(s string) string {
	for _, r := range [][2]string{{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}} {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	return s
}

func dwordpiece(prefix string, cleanup bool) ddef {
	return deach(func(i, n int, t string) string {
		if i > 0 {
			if strings.HasPrefix(t, prefix) {
				t = t[len(prefix):]
			} else {
				t = " " + t
			}
		}
		if cleanup {
			t = dcleaned(t)
		}
		return t
	})
}

func dbpe(suffix string) ddef {
	return deach(func(i, n int, t string) string {
		if i == n-1 {
			return strings.ReplaceAll(t, suffix, "")
		}
		return strings.ReplaceAll(t, suffix, " ")
	})
}

func dctc(pad, delim string, cleanup bool) ddef {
	return dpure(func(toks []string) (out []string) {
		for i, t := range toks {
			if i > 0 && t == toks[i-1] {
				continue
			}
			t = strings.ReplaceAll(t, pad, "")
			if cleanup {
				t = strings.ReplaceAll(dcleaned(t), delim, " ")
			}
			if t != "" {
				out = append(out, t)
			}
		}
		return
	})
}

func dfallback(toks []string) (out []string) {
	var run []byte
	flush := func() {
		if utf8.Valid(run) && len(run) > 0 {
			out = append(out, string(run))
		} else {
			for range run {
				out = append(out, "\ufffd")
			}
		}
		run = nil
	}
	for _, t := range toks {
		var x byte
		hex := len(t) == 6 && t[:3] == "<0x" && t[5] == '>'
		for i := 3; hex && i < 5; i++ {
			k := strings.IndexByte("0123456789abcdef", t[i]|0x20)
			if k < 0 || t[i] < '0' || t[i] > '9' && t[i] < 'A' {
				hex = false
			}
			x = x<<4 | byte(k&15)
		}
		if hex {
			run = append(run, x)
			continue
		}
		flush()
		out = append(out, t)
	}
	flush()
	return
}

// dstrip removes up to so many of a character at either end.
func dstrip(c string, start, stop int) ddef {
	return deach(func(i, n int, t string) string {
		for k := 0; k < start && strings.HasPrefix(t, c); k++ {
			t = t[len(c):]
		}
		for k := 0; k < stop && strings.HasSuffix(t, c); k++ {
			t = t[:len(t)-len(c)]
		}
		return t
	})
}

func dreplaced(expr, with string) ddef {
	return func(b *bword, st *State, toks []string, f func(st *State, out []string)) {
		var at func(st *State, i int, out []string)
		at = func(st *State, i int, out []string) {
			if i == len(toks) {
				f(st, out)
				return
			}
			b.regexpMatches(st, expr, toks[i], func(st *State, ms [][2]int) {
				s := ""
				for _, g := range segments(toks[i], ms) {
					if g.match {
						s += with
					} else {
						s += toks[i][g.a:g.b]
					}
				}
				at(st, i+1, append(append([]string{}, out...), s))
			})
		}
		at(st, 0, nil)
	}
}

func dspaced(repl string, first bool) ddef {
	return deach(func(i, n int, t string) string {
		if i == 0 && first {
			return strings.ReplaceAll(t, repl, "")
		}
		return strings.ReplaceAll(t, repl, " ")
	})
}

// byteAlphabet is the alphabet of bytes of GPT-2.
func byteAlphabet() (of [256]string, back map[string]byte) {
	back = map[string]byte{}
	n := 0
	for i := 0; i < 256; i++ {
		r := rune(i)
		if !(i >= 33 && i <= 126 || i >= 161 && i <= 172 || i >= 174) {
			r = rune(256 + n)
			n++
		}
		of[i] = string(r)
		back[string(r)] = byte(i)
	}
	return
}

func dbytes(toks []string) (out []string) {
	_, back := byteAlphabet()
	for _, t := range toks {
		s := ""
		for _, r := range t {
			x, ok := back[string(r)]
			if !ok {
				s = t
				break
			}
			s += string([]byte{x})
		}
		out = append(out, s)
	}
	return
}

type ddec struct {
	name string
	pkg  string
	ctor string
	args []Val
	def  ddef
}

// inv calls a method of a value, declared or promoted.
func (b *bword) inv(st *State, v Val, t types.Type, meth string, args []Val, f func(st *State, ret []Val)) {
	v = b.en.force(v)
	if i, ok := v.(Iface); ok {
		v, t = b.en.force(i.v), i.typ
	}
	ms := b.c.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == meth {
			fn := b.c.Prog.MethodValue(s)
			if fn == nil {
				break
			}
			outs, err := b.en.safeRun(fn, append([]Val{v}, args...), st)
			if err != "" {
				b.err = err
				return
			}
			for _, o := range outs {
				if o.kind == "ret" {
					f(o.st, o.ret)
				} else if o.kind == "panic" || o.kind == "exit" {
					b.crash = fmt.Sprintf("%s ends in a %s: %s", meth, o.kind, o.why)
					return
				}
			}
			return
		}
	}
	b.err = "missing " + shortType(t) + "." + meth
}

func (b *bword) strs(st *State, l []string) Val {
	var vs []Val
	for _, s := range l {
		vs = append(vs, strVal(s))
	}
	if l == nil {
		return NilV{types.NewSlice(strT)}
	}
	return b.en.mkSlice(st, strT, vs...)
}

func (b *bword) strsOf(st *State, v Val) (out []string, ok bool) {
	l, ok := b.list(st, v)
	for _, x := range l {
		s, ok := strOf(b.en.force(x))
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, ok
}

func ctorType(c *Ctx, pkg, ctor string) types.Type {
	if fn := c.lookup(pkg, ctor); fn != nil {
		return fn.Signature.Results().At(0).Type()
	}
	return nil
}

func decoders(c *Ctx) []ddec {
	I := func(n int64) Val { return Int{pc(n)} }
	S := func(s string) Val { return strVal(s) }
	d, p, n := "decoder", "pretokenizer", "normalizer"
	str, re := c.constInt(n, "String"), c.constInt(n, "Regex")
	never, first, always := c.constInt(p, "Never"), c.constInt(p, "First"), c.constInt(p, "Always")
	var ds []ddec
	add := func(pkg, ctor string, def ddef, args ...Val) {
		var l []string
		for _, a := range args {
			l = append(l, strings.Trim(a.key(), "#"))
		}
		ds = append(ds, ddec{ctor + "(" + strings.Join(l, ", ") + ")", pkg, ctor, args, def})
	}
	add(d, "DefaultBpeDecoder", dbpe("</w>"))
	add(d, "NewBpeDecoder", dbpe("</w>"), S("</w>"))
	add(d, "NewBpeDecoder", dbpe("a"), S("a"))
	add(d, "NewByteFallback", dpure(dfallback))
	add(d, "DefaultCTC", dctc("<pad>", "|", true))
	add(d, "NewCTC", dctc("<pad>", "|", true), S("<pad>"), S("|"), BoolC(true))
	add(d, "NewCTC", dctc("a", "<pad>", false), S("a"), S("<pad>"), BoolC(false))
	add(d, "NewFuse", dpure(func(toks []string) []string { return []string{strings.Join(toks, "")} }))
	for _, x := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 3}} {
		add(d, "NewStrip", dstrip("H", x[0], x[1]), S("H"), I(int64(x[0])), I(int64(x[1])))
	}
	add(d, "NewStrip", dstrip("▁", 1, 1), S("▁"), I(1), I(1))
	add(d, "DefaultWordpieceDecoder", dwordpiece("##", true))
	add(d, "NewWordPieceDecoder", dwordpiece("##", true), S("##"), BoolC(true))
	add(d, "NewWordPieceDecoder", dwordpiece("a", false), S("a"), BoolC(false))
	add(p, "DefaultMetaspace", dspaced("▁", true))
	add(p, "NewMetaspace", dspaced("▁", false), S("▁"), BoolC(false))
	add(p, "NewMetaspace", dspaced("H", true), S("H"), BoolC(true))
	add(p, "NewMetaspaceWithScheme", dspaced("▁", false), S("▁"), I(never))
	add(p, "NewMetaspaceWithScheme", dspaced("▁", true), S("▁"), I(first))
	add(p, "NewMetaspaceWithScheme", dspaced("▁", true), S("▁"), I(always))
	add(p, "NewByteLevel", dpure(dbytes))
	add(n, "NewReplace", dreplaced("▁", " "), I(str), S("▁"), S(" "))
	add(n, "NewReplace", dreplaced(`\.`, ""), I(str), S("."), S(""))
	add(n, "NewReplace", dreplaced("[ab]+", "_"), I(re), S("[ab]+"), S("_"))
	return ds
}

var dtokens = [][]string{
	nil, {""}, {"a"}, {"##a"}, {"a", "##b", "c", "##"}, {"##a##", "##b##c"}, {"▁Hey", "▁", "fr▁iend▁"},
	{"<pad>", "a", "a", "<pad>", "a", "|", "|", "b"}, {"a<pad>b", "", "", "|a|"},
	{"<0x61>"}, {"<0xE4>", "<0xbd>", "<0xa0>"}, {"<0xe4>", "x", "<0xbd>", "<0xA0>"}, {"<0xZZ>", "<0x6g>", "<0x6>", "<0x061>"}, {"<0x00>", "é", "<0xFF>", "<0x61>"},
	{"Hi", "</w>", "a</w>", "b</w>c</w>"}, {"do", "do not", " n't", "x .", "'", "m"}, {"H", "HaH", "HHa", "HH", "HHHaHHHH", "Ha"},
	{"Ġhello", "é", "Ã©", "世", "Ġ", "ĉĊ"}, {".", "a.b", "..", "世"},
	{"x .", "x .", "x .", "y ? ! ,", "b ' c n't I 'm", "u do not", "it 's 've 're"},
	{"a", "|'s", "|.", "<pad>.", " <pad>.", "|do|not", " |?", "<pad>|<pad>"}, {"x##", "##'s", "## .", "##", " .", "' ", "## '"},
}

func d01(c *Ctx, r *Rep) {
	type job struct {
		ds   []ddec // one, or the parts of a sequence
		toks []string
		seq  bool
	}
	var jobs []job
	all := decoders(c)
	for _, d := range all {
		for _, t := range dtokens {
			jobs = append(jobs, job{[]ddec{d}, t, false})
		}
	}
	parts := []ddec{}
	for _, d := range all {
		switch d.ctor {
		case "NewByteFallback", "NewFuse", "DefaultWordpieceDecoder", "DefaultMetaspace":
			parts = append(parts, d)
		case "NewStrip":
			if len(parts) == 0 || parts[len(parts)-1].ctor != "NewStrip" {
				parts = append(parts, d)
			}
		}
	}
	jobs = append(jobs, job{nil, []string{"a", "b"}, true}, job{nil, nil, true})
	for i := range parts {
		for j := range parts {
			for _, t := range [][]string{{"▁<0x61>", "<0xe4>", "<0xbd>", "<0xa0>", "##b", "H"}, {"▁Hey", "H", "", "##H"}} {
				jobs = append(jobs, job{[]ddec{parts[i], parts[j]}, t, true})
			}
		}
	}
	decT := c.typeNamed("", "Decoder")
	r.parallel(len(jobs), func(i int, r *Rep) {
		j := jobs[i]
		st := newState()
		b := newBword(c, st)
		b.all = true
		b.nhooks()
		b.regexpHooks()
		var names []string
		var defs []ddef
		for _, d := range j.ds {
			names = append(names, d.name)
			defs = append(defs, d.def)
		}
		name := strings.Join(names, ", ")
		if j.seq {
			name = "NewSequence(" + name + ")"
		}
		paths := 0
		run := func(st *State, dec Val, t types.Type) {
			in := b.strs(st, j.toks)
			b.inv(st, dec, t, "DecodeChain", []Val{in}, func(st *State, ret []Val) {
				got, ok := b.strsOf(st, ret[0])
				left, ok2 := b.strsOf(st, in)
				if !ok || !ok2 {
					b.v.u("pieces unknown")
					return
				}
				if fmt.Sprintf("%q", left) != fmt.Sprintf("%q", j.toks) && len(j.toks) > 0 {
					b.v.b("decoding changes the tokens given from %q to %q", j.toks, left)
					return
				}
				dthen(defs...)(b, st, j.toks, func(st *State, want []string) {
					if len(got)+len(want) > 0 && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
						b.v.b("the tokens %q decode to the pieces %q, not %q", j.toks, got, want)
						return
					}
					b.inv(st, dec, t, "Decode", []Val{b.strs(st, j.toks)}, func(st *State, ret []Val) {
						paths++
						s, ok := strOf(b.en.force(ret[0]))
						if !ok {
							b.v.u("text unknown")
						} else if w := strings.Join(want, ""); s != w {
							b.v.b("the tokens %q decode to %q, the pieces put together are %q", j.toks, s, w)
						}
					})
				})
			})
		}
		one := func(st *State, d ddec, f func(st *State, v Val, t types.Type)) {
			t := ctorType(c, d.pkg, d.ctor)
			if t == nil {
				b.err = "missing " + d.ctor
				return
			}
			b.do(st, d.pkg, d.ctor, d.args, func(st *State, ret []Val) { f(st, ret[0], t) })
		}
		begin := func(st *State) {
			if !j.seq {
				one(st, j.ds[0], run)
				return
			}
			var mk func(st *State, i int, vs []Val)
			mk = func(st *State, i int, vs []Val) {
				if i == len(j.ds) {
					b.do(st, "decoder", "NewSequence", []Val{b.en.mkSlice(st, decT, vs...)}, func(st *State, ret []Val) {
						run(st, ret[0], ctorType(c, "decoder", "NewSequence"))
					})
					return
				}
				one(st, j.ds[i], func(st *State, v Val, t types.Type) {
					if _, ok := b.en.force(v).(Iface); !ok {
						v = Iface{t, v}
					}
					mk(st, i+1, append(append([]Val{}, vs...), v))
				})
			}
			mk(st, 0, nil)
		}
		if len(j.ds) > 0 && j.ds[0].ctor == "NewByteLevel" {
			b.initPkg(st, "pretokenizer", begin)
		} else {
			begin(st)
		}
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("decodings", 1)
		r.Add("paths", paths)
		b.v.settle(r, "documented pieces", fmt.Sprintf("%s of %q", name, j.toks), token.NoPos, paths, b.err)
	})
	r.Min("decodings", len(jobs))
}

func init() {
	props["D01"] = propMeta{run: d01, explain: "Every decoder a caller can construct (by constructor or default, and sequences of them) is interpreted on every path on lists of tokens that hold what each of them treats apart; the pieces of its chain step must be the documented ones, Decode must give these pieces put together, and the tokens given must be left as they are.", assume: []string{"tokens are valid UTF-8", "a regular expression's matches are non-overlapping, ordered and on borders of characters"}}
}
