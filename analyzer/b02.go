package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// B02: the tables of the byte-level alphabet, as the initialisers of the source fill them,
// and what encoding and decoding make of every byte.

// bmap reads a map of known keys and values.
func (b *bword) bmap(st *State, v Val, each func(k, v Val)) bool {
	m, ok := b.en.force(v).(MapV)
	if !ok {
		return false
	}
	es := b.en.mapEntries(st, b.en.get(st, m.obj))
	if es == nil {
		return false
	}
	for _, e := range es {
		each(e[1], e[2])
	}
	return true
}

// bytesOf reads a map from bytes to characters.
func (b *bword) bytesOf(st *State, v Val) (out map[int64]string, ok bool) {
	out = map[int64]string{}
	known := true
	ok = b.bmap(st, v, func(k, v Val) {
		i, ok1 := st.norm(b.en.toInt(b.en.force(k))).konst()
		s, ok2 := strOf(b.en.force(v))
		known = known && ok1 && ok2
		out[i] = s
	})
	return out, ok && known
}

func b02(c *Ctx, r *Rep) {
	of, back := byteAlphabet()
	const p = "pretokenizer"
	blT := c.typeNamed(p, "ByteLevel")
	if blT == nil {
		r.Undecided("alphabet", "ByteLevel", "missing")
		return
	}
	same := func(b *bword, what string, got map[int64]string) {
		for i := 0; i < 256; i++ {
			if s, ok := got[int64(i)]; !ok {
				b.v.b("%s has no character for byte %#02x", what, i)
			} else if s != of[i] {
				b.v.b("%s has %q for byte %#02x, not %q", what, s, i, of[i])
			}
		}
		if len(got) > 256 {
			b.v.b("%s has %d entries", what, len(got))
		}
	}
	global := func(b *bword, st *State, name string) (Val, bool) {
		g, ok := c.SPkgs[p].Members[name].(*ssa.Global)
		if !ok {
			return nil, false
		}
		pt, ok := b.en.val(st, g).(Ptr)
		if !ok {
			return nil, false
		}
		return b.en.load(st, pt), true
	}
	newBL := func(b *bword, st *State, prefix bool, f func(st *State, v Val)) {
		b.do(st, p, "NewByteLevel", nil, func(st *State, ret []Val) {
			b.m(st, p, "ByteLevel", "SetAddPrefixSpace", ret[0], []Val{BoolC(prefix)}, func(st *State, _ []Val) { f(st, ret[0]) })
		})
	}
	var all strings.Builder
	for i := 0; i < 256; i++ {
		all.WriteString(of[i])
	}
	type check struct {
		rule, name string
		run        func(b *bword, st *State, done func())
	}
	checks := []check{
		{"alphabet", "GenerateBytesChar()", func(b *bword, st *State, done func()) {
			b.do(st, p, "GenerateBytesChar", nil, func(st *State, ret []Val) {
				m, ok := b.bytesOf(st, ret[0])
				if !ok {
					b.v.u("table unknown")
					return
				}
				same(b, "the table", m)
				done()
			})
		}},
		{"alphabet", "BytesChar", func(b *bword, st *State, done func()) {
			v, ok := global(b, st, "BytesChar")
			m, ok2 := map[int64]string(nil), false
			if ok {
				m, ok2 = b.bytesOf(st, v)
			}
			if !ok2 {
				b.v.u("table unknown")
				return
			}
			same(b, "the table", m)
			done()
		}},
		{"alphabet", "CharBytes", func(b *bword, st *State, done func()) {
			v, ok := global(b, st, "CharBytes")
			got := map[string]int64{}
			known := true
			ok = ok && b.bmap(st, v, func(k, v Val) {
				s, ok1 := strOf(b.en.force(k))
				i, ok2 := st.norm(b.en.toInt(b.en.force(v))).konst()
				known = known && ok1 && ok2
				got[s] = i
			})
			if !ok || !known {
				b.v.u("table unknown")
				return
			}
			for s, x := range back {
				if i, ok := got[s]; !ok || i != int64(x) {
					b.v.b("character %q of byte %#02x reads %v (%v)", s, x, i, ok)
				}
			}
			if len(got) > 256 {
				b.v.b("the table has %d entries", len(got))
			}
			done()
		}},
		{"alphabet", "ByteLevel.Alphabet()", func(b *bword, st *State, done func()) {
			newBL(b, st, true, func(st *State, bl Val) {
				b.m(st, p, "ByteLevel", "Alphabet", bl, nil, func(st *State, ret []Val) {
					got := map[string]bool{}
					known := true
					if !b.bmap(st, ret[0], func(k, v Val) {
						s, ok := strOf(b.en.force(k))
						known = known && ok
						got[s] = true
					}) || !known {
						b.v.u("alphabet unknown")
						return
					}
					for s := range back {
						if !got[s] {
							b.v.b("%q is missing", s)
						}
					}
					if len(got) > 256 {
						b.v.b("the alphabet has %d characters", len(got))
					}
					done()
				})
			})
		}},
	}
	decode := func(name string, toks, want []string) {
		checks = append(checks, check{"bytes decode", name, func(b *bword, st *State, done func()) {
			newBL(b, st, true, func(st *State, bl Val) {
				b.inv(st, bl, types.NewPointer(blT), "DecodeChain", []Val{b.strs(st, toks)}, func(st *State, ret []Val) {
					got, ok := b.strsOf(st, ret[0])
					if !ok {
						b.v.u("pieces unknown")
						return
					}
					for i := range want {
						if i >= len(got) || got[i] != want[i] {
							b.v.b("%q decodes to %q, not %q", toks[i], got[min(i, len(got)):min(i+1, len(got))], want[i])
						}
					}
					b.inv(st, bl, types.NewPointer(blT), "Decode", []Val{b.strs(st, toks)}, func(st *State, ret []Val) {
						s, ok := strOf(b.en.force(ret[0]))
						if !ok {
							b.v.u("text unknown")
							return
						}
						if w := strings.Join(want, ""); s != w {
							b.v.b("Decode gives %q, not %q", s, w)
						}
						done()
					})
				})
			})
		}})
	}
	for i := 0; i < 256; i += 32 {
		var toks, want []string
		for j := i; j < i+32; j++ {
			toks, want = append(toks, of[j]), append(want, string([]byte{byte(j)}))
		}
		decode(fmt.Sprintf("bytes %#02x to %#02x", i, i+31), toks, want)
	}
	bs := make([]byte, 256)
	for i := range bs {
		bs[i] = byte(i)
	}
	decode("a token of all bytes", []string{all.String()}, []string{string(bs)})

	// texts whose characters hold every byte there is in UTF-8
	var rs []rune
	for i := rune(0); i < 0x80; i++ {
		rs = append(rs, i)
	}
	for i := rune(0x80); i < 0x800; i += 0x3f {
		rs = append(rs, i)
	}
	for i := rune(0x800); i < 0x10000; i += 0xfc1 {
		if utf8.ValidRune(i) {
			rs = append(rs, i)
		}
	}
	for i := rune(0x10000); i <= 0x10ffff; i += 0x3f041 {
		rs = append(rs, i)
	}
	rs = append(rs, 0xd7ff, 0xe000, 0xffff, 0x10ffff)
	for i := 0; i < len(rs); i += 16 {
		text := string(rs[i:min(i+16, len(rs))])
		checks = append(checks, check{"bytes encode", fmt.Sprintf("%q", text), func(b *bword, st *State, done func()) {
			newBL(b, st, false, func(st *State, bl Val) {
				b.do(st, "", "NewPreTokenizedString", []Val{strVal(text)}, func(st *State, ret []Val) {
					b.inv(st, bl, types.NewPointer(blT), "PreTokenize", ret, b.okErr(b.v, "PreTokenize", func(st *State, m Val) {
						b.pgot(st, m, func(st *State, l []pcut) {
							got, want := "", ""
							for _, x := range l {
								got += x.s
							}
							for _, x := range []byte(text) {
								want += of[x]
							}
							if got != want {
								b.v.b("the bytes are written %q, not %q", got, want)
							}
							done()
						})
					}))
				})
			})
		}})
	}
	r.parallel(len(checks), func(i int, r *Rep) {
		st := newState()
		b := penv(c, st)
		paths := 0
		b.initPkg(st, "normalizer", func(st *State) {
			b.initPkg(st, p, func(st *State) { checks[i].run(b, st, func() { paths++ }) })
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("checks", 1)
		r.Add("paths", paths)
		b.v.settle(r, checks[i].rule, checks[i].name, token.NoPos, paths, b.err)
	})
	r.Min("checks", len(checks))
}

func init() {
	props["B02"] = propMeta{run: b02, explain: "The package initialisers that fill the tables of the byte-level alphabet are interpreted; the tables, the generator and the alphabet a caller sees must be the 256 characters of GPT-2, each for its byte, in both directions. The decoder is interpreted on every character of the alphabet and must give its byte; the pre-tokenizer is interpreted on texts that hold every byte of UTF-8 and must write each as its character.", assume: []string{"texts are valid UTF-8", "the unicode and regexp packages are the toolchain's"}}
}
