package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// N03: the normalizers a caller can construct are interpreted on every path and compared
// with the text they are documented to make.

type ndef = func(b *bword, st *State, l []ncell, f func(st *State, l []ncell))

func nsame(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) { f(st, l) }

func nthen(ds ...ndef) ndef {
	if len(ds) == 0 {
		return nsame
	}
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		ds[0](b, st, l, func(st *State, l []ncell) { nthen(ds[1:]...)(b, st, l, f) })
	}
}

func nprepended(s string) ndef {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		if len(l) > 0 {
			l = append(added(s, l), l...)
		}
		f(st, l)
	}
}

// nclean removes control characters and makes every whitespace a space.
func nclean(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	var out []ncell
	for _, c := range l {
		r := []rune(c.s)[0]
		ws := r == ' ' || r == '\t' || r == '\n' || r == '\r'
		if !ws && (r == 0 || r == 0xfffd || unicode.In(r, unicode.Cc, unicode.Cf)) {
			continue
		}
		if ws {
			c.s = " "
		}
		out = append(out, c)
	}
	f(st, out)
}

var cjkRanges = [][2]rune{{0x4e00, 0x9fff}, {0x3400, 0x4dbf}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}, {0x2a700, 0x2b73f}, {0x2b740, 0x2b81f}, {0x2b820, 0x2ceaf}, {0x2f800, 0x2fa1f}}

func isCJK(r rune) bool {
	for _, x := range cjkRanges {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

func nchinese(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	var out []ncell
	for _, c := range l {
		if !isCJK([]rune(c.s)[0]) {
			out = append(out, c)
			continue
		}
		out = append(out, added(" ", l)...)
		out = append(out, c)
		out = append(out, added(" ", l)...)
	}
	f(st, out)
}

func nlower(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	var out []ncell
	for _, c := range l {
		c.s = string(unicode.ToLower([]rune(c.s)[0]))
		out = append(out, c)
	}
	f(st, out)
}

// nfdTable is the decomposition the norm package is given here.
var nfdTable = map[rune]string{'é': "e\u0301", 'É': "E\u0301", 'Ǻ': "A\u030a\u0301"}

func nfdSteps(text string) ([]nfstep, Val, bool) {
	var out []nfstep
	normal := true
	for i, r := range text {
		s, ok := nfdTable[r]
		if ok {
			normal = false
		} else {
			s = string(r)
		}
		out = append(out, nfstep{s, i + len(string(r))})
	}
	return out, BoolC(normal), true
}

func nplain(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	var out []ncell
	for _, c := range l {
		s, ok := nfdTable[[]rune(c.s)[0]]
		if !ok {
			s = c.s
		}
		for _, r := range s {
			if !unicode.Is(unicode.Mn, r) {
				out = append(out, ncell{string(r), c.lo, c.hi, c.exact})
			}
		}
	}
	f(st, out)
}

func nspace(left, right bool) ndef {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		for left && len(l) > 0 && unicode.IsSpace([]rune(l[0].s)[0]) {
			l = l[1:]
		}
		for right && len(l) > 0 && unicode.IsSpace([]rune(l[len(l)-1].s)[0]) {
			l = l[:len(l)-1]
		}
		f(st, l)
	}
}

func nunaccented(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	var out []ncell
	for _, c := range l {
		if !unicode.Is(unicode.Mn, []rune(c.s)[0]) {
			out = append(out, c)
		}
	}
	f(st, out)
}

// tableOf is the table of characters given to the unicode package.
func (b *bword) tableOf(st *State, v Val) (*unicode.RangeTable, bool) {
	p, ok := b.en.force(v).(Ptr)
	if !ok {
		return nil, false
	}
	k := fmt.Sprint(b.en.get(st, p.obj).label, " ", p.nilKey, " ", v.key())
	if i := strings.Index(k, "global:unicode."); i >= 0 {
		name := k[i+len("global:unicode."):]
		for j, r := range name {
			if r != '_' && (r < '0' || r > '9') && (r < 'A' || r > 'Z') && (r < 'a' || r > 'z') {
				name = name[:j]
				break
			}
		}
		for _, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
			if t, ok := m[name]; ok {
				return t, true
			}
		}
		long := map[string]*unicode.RangeTable{"Punct": unicode.P, "Letter": unicode.L, "Number": unicode.N, "Mark": unicode.M, "Space": unicode.Z, "Other": unicode.C, "Symbol": unicode.S}
		t, ok := long[name]
		return t, ok
	}
	s, ok := b.en.force(b.en.load(st, p)).(Struct)
	if !ok {
		return nil, false
	}
	t := &unicode.RangeTable{}
	for _, w := range []string{"R16", "R32"} {
		f, _ := field(s, w)
		l, ok := b.list(st, f)
		if !ok {
			return nil, false
		}
		for _, x := range l {
			rs, ok := b.en.force(x).(Struct)
			if !ok {
				return nil, false
			}
			var n [3]uint32
			for i, g := range []string{"Lo", "Hi", "Stride"} {
				y, _ := field(rs, g)
				k, ok := st.norm(b.en.toInt(b.en.force(y))).konst()
				if !ok {
					return nil, false
				}
				n[i] = uint32(k)
			}
			if w == "R16" {
				t.R16 = append(t.R16, unicode.Range16{Lo: uint16(n[0]), Hi: uint16(n[1]), Stride: uint16(n[2])})
			} else {
				t.R32 = append(t.R32, unicode.Range32{Lo: n[0], Hi: n[1], Stride: n[2]})
			}
		}
	}
	return t, true
}

func (b *bword) tableHooks() {
	en := b.en
	is := func(rune, tabs int, list bool) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			r, ok := st.norm(en.toInt(en.force(args[rune]))).konst()
			if !ok {
				return nil, false
			}
			ts := []Val{args[tabs]}
			if list {
				if ts, ok = b.list(st, args[tabs]); !ok {
					return nil, false
				}
			}
			yes := false
			for _, t := range ts {
				tab, ok := b.tableOf(st, t)
				if !ok {
					b.v.u("table of characters unknown")
					return nil, true
				}
				yes = yes || unicode.Is(tab, int32(r))
			}
			return retOne(st, BoolC(yes))
		}
	}
	en.hooks["unicode.Is"] = is(1, 0, false)
	en.hooks["unicode.In"] = is(0, 1, true)
	en.hooks["unicode.IsOneOf"] = is(1, 0, true)
}

// initPkg runs the initialisers of a package.
func (b *bword) initPkg(st *State, short string, f func(st *State)) {
	sp := b.c.SPkgs[short]
	if sp == nil || sp.Func("init") == nil {
		b.err = "no initialiser of " + short
		return
	}
	for _, p := range b.c.Prog.AllPackages() {
		if p != sp {
			b.en.hooks[p.Pkg.Path()+".init"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return retOne(st) }
		}
	}
	fn := sp.Func("init")
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		if p, ok := b.en.val(st, g).(Ptr); ok {
			o := *b.en.get(st, p.obj)
			o.val = BoolC(false)
			st.objs[p.obj] = &o
		}
	}
	long := b.en.longLoops
	b.en.longLoops = 2000
	outs, err := b.en.safeRun(fn, nil, st)
	b.en.longLoops = long
	if err != "" {
		b.err = err
		return
	}
	for _, o := range outs {
		if o.kind == "ret" {
			f(o.st)
		}
	}
}

// the precompiled map: which parts it has is open, what it makes of them is not
func preRep(part string) string {
	reps := []string{"w", "Ü界", "界", "xyz", "ñ丁"}
	n := 0
	for _, r := range part {
		n = n*7 + int(r)
	}
	return reps[n%len(reps)]
}

func (b *bword) preHooks(text string) {
	en := b.en
	for _, p := range []string{"(*" + modPath + "/spm.Precompiled).Transform", "(*spm.Precompiled).Transform"} {
		en.hooks[p] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			s, ok := strOf(en.force(args[len(args)-1]))
			if !ok {
				return nil, false
			}
			s2 := st.clone()
			var outs []Outcome
			b.split(s2, TBool{k: "has#" + s}, func(st *State, yes bool) {
				r := ""
				if yes {
					r = preRep(s)
				}
				outs = append(outs, Outcome{kind: "ret", ret: []Val{strVal(r)}, st: st})
			})
			return outs, true
		}
	}
	const u = "github.com/rivo/uniseg."
	en.hooks[u+"NewGraphemes"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(en.force(args[0]))
		if !ok {
			return nil, false
		}
		v := en.symv(en.fresh("graphemes"), cc.Signature().Results().At(0).Type())
		st.assume(nilTest(en, v), false)
		p := v.(Ptr)
		k := fmt.Sprint("gr:", p.obj)
		b.std.put(st, k, strVal(s))
		b.std.put(st, k+"at", Int{pc(0)})
		b.std.put(st, k+"cur", strVal(""))
		return retOne(st, v)
	}
	en.hooks["(*"+u+"Graphemes).Next"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k := fmt.Sprint("gr:", en.force(args[0]).(Ptr).obj)
		s, _ := b.std.text(st, k)
		v, ok := b.std.get(st, k+"at")
		if !ok {
			return nil, false
		}
		at, _ := st.norm(en.toInt(v)).konst()
		if int(at) >= len(s) {
			return retOne(st, BoolC(false))
		}
		var outs []Outcome
		b.cluster(st.clone(), s, int(at), func(st *State, end int) {
			b.std.put(st, k+"at", Int{pc(int64(end))})
			b.std.put(st, k+"cur", strVal(s[at:end]))
			outs = append(outs, Outcome{kind: "ret", ret: []Val{BoolC(true)}, st: st})
		})
		return outs, true
	}
	en.hooks["(*"+u+"Graphemes).Str"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		v, ok := b.std.get(st, fmt.Sprint("gr:", en.force(args[0]).(Ptr).obj, "cur"))
		if !ok {
			return nil, false
		}
		return retOne(st, v)
	}
}

// cluster continues with every end of the cluster of characters at a place.
func (b *bword) cluster(st *State, s string, at int, f func(st *State, end int)) {
	end := at + len(string([]rune(s[at:])[:1]))
	if end == len(s) {
		f(st, end)
		return
	}
	b.split(st, TBool{k: fmt.Sprintf("break#%s#%d", s, end)}, func(st *State, yes bool) {
		if yes {
			f(st, end)
		} else {
			b.cluster2(st, s, end, f)
		}
	})
}

func (b *bword) cluster2(st *State, s string, at int, f func(st *State, end int)) {
	b.cluster(st, s, at, f)
}

func npre(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	text := cellText(l)
	var at func(st *State, i, pos int, out []ncell)
	at = func(st *State, i, pos int, out []ncell) {
		if i == len(l) {
			f(st, out)
			return
		}
		b.cluster(st, text, pos, func(st *State, end int) {
			j, p := i, pos
			for ; p < end; j++ {
				p += len(l[j].s)
			}
			put := func(out []ncell, s string, from, to int) []ncell {
				out = append([]ncell{}, out...)
				for _, r := range s {
					out = append(out, ncell{string(r), l[from].lo, l[to-1].hi, false})
				}
				return out
			}
			var each func(st *State, k int, out []ncell)
			each = func(st *State, k int, out []ncell) {
				if k == j {
					at(st, j, end, out)
					return
				}
				b.split(st, TBool{k: "has#" + l[k].s}, func(st *State, yes bool) {
					if yes {
						each(st, k+1, put(out, preRep(l[k].s), k, k+1))
					} else {
						each(st, k+1, append(append([]ncell{}, out...), l[k]))
					}
				})
			}
			if g := text[pos:end]; len(g) < 6 {
				b.split(st, TBool{k: "has#" + g}, func(st *State, yes bool) {
					if yes {
						at(st, j, end, put(out, preRep(g), i, j))
					} else {
						each(st, i, out)
					}
				})
				return
			}
			each(st, i, out)
		})
	}
	at(st, 0, 0, nil)
}

func n03(c *Ctx, r *Rep) {
	nm := "normalizer"
	type job struct {
		op   nop
		text string
		pre  bool
	}
	var jobs []job
	texts := []string{"", "a", " ", " Aé ", "É世\t", "\u0301世 ", "\u200b\x01é\x02B", "\x00\x1f", "\ta\x00\n", "x\x01\ufffdy", "\r\u200bB", "㐀豈𠀀", "\U0002fa1fぁ", "Ǻb"}
	boolV := func(x bool) Val { return BoolC(x) }
	one := func(name string, args ...Val) func(b *bword, st *State, f func(st *State, n Val)) {
		return func(b *bword, st *State, f func(st *State, n Val)) {
			b.do(st, nm, name, args, func(st *State, ret []Val) { f(st, ret[0]) })
		}
	}
	add := func(name, typ string, mk func(b *bword, st *State, f func(st *State, n Val)), def ndef) {
		for _, t := range texts {
			jobs = append(jobs, job{nop{name: name, typ: typ, make: mk, def: def}, t, false})
		}
	}
	bools := []bool{false, true}
	for _, x := range bools {
		for _, y := range bools {
			add(fmt.Sprintf("NewStrip(%v, %v)", x, y), "Strip", one("NewStrip", boolV(x), boolV(y)), nspace(x, y))
			x, y := x, y
			var ds []ndef
			if x {
				ds = append(ds, nlower)
			}
			if y {
				ds = append(ds, nspace(true, true))
			}
			add(fmt.Sprintf("NewDefaultNormalizer(lowercase %v, strip %v)", x, y), "DefaultNormalizer", func(b *bword, st *State, f func(st *State, n Val)) {
				b.do(st, nm, "WithLowercase", []Val{boolV(x)}, func(st *State, r1 []Val) {
					b.do(st, nm, "WithStrip", []Val{boolV(y)}, func(st *State, r2 []Val) {
						opts := b.en.mkSlice(st, c.typeNamed(nm, "DefaultOption"), r1[0], r2[0])
						b.do(st, nm, "NewDefaultNormalizer", []Val{opts}, func(st *State, ret []Val) { f(st, ret[0]) })
					})
				})
			}, nthen(ds...))
		}
	}
	add("NewDefaultNormalizer()", "DefaultNormalizer", one("NewDefaultNormalizer", NilV{types.NewSlice(c.typeNamed(nm, "DefaultOption"))}), nthen(nlower, nspace(true, true)))
	add("Lowercase()", "", one("Lowercase"), nlower)
	add("NewStripAccents()", "StripAccents", one("NewStripAccents"), nunaccented)
	for _, s := range []string{"", "▁", "ab"} {
		add(fmt.Sprintf("NewPrepend(%q)", s), "Prepend", one("NewPrepend", strVal(s)), nprepended(s))
	}
	str, re := c.constInt(nm, "String"), c.constInt(nm, "Regex")
	add(`NewReplace(String, "é", "xy")`, "Replace", one("NewReplace", Int{pc(str)}, strVal("é"), strVal("xy")), nreplaced("é", "xy"))
	add(`NewReplace(String, ".", "")`, "Replace", one("NewReplace", Int{pc(str)}, strVal("."), strVal("")), nreplaced(`\.`, ""))
	add(`NewReplace(Regex, "[aé]+", "_")`, "Replace", one("NewReplace", Int{pc(re)}, strVal("[aé]+"), strVal("_")), nreplaced("[aé]+", "_"))
	bert := func(i int) ndef {
		var ds []ndef
		for k, d := range []ndef{nclean, nchinese, nlower, nplain} {
			if i>>k&1 == 1 {
				ds = append(ds, d)
			}
		}
		return nthen(ds...)
	}
	for i := 0; i < 16; i++ {
		b0, b1, b2, b3 := boolV(i&1 == 1), boolV(i>>2&1 == 1), boolV(i>>1&1 == 1), boolV(i>>3&1 == 1)
		name := fmt.Sprintf("(clean %v, lowercase %v, chinese %v, accents %v)", b0, b1, b2, b3)
		add("NewBertNormalizer"+name, "BertNormalizer", one("NewBertNormalizer", b0, b1, b2, b3), bert(i))
		if i == 6 || i == 15 {
			add("NewNormalizer(WithBertNormalizer"+name+")", "", func(b *bword, st *State, f func(st *State, n Val)) {
				b.do(st, nm, "WithBertNormalizer", []Val{b0, b1, b2, b3}, func(st *State, r1 []Val) {
					opts := b.en.mkSlice(st, c.typeNamed(nm, "Option"), r1[0])
					b.do(st, nm, "NewNormalizer", []Val{opts}, func(st *State, ret []Val) { f(st, ret[0]) })
				})
			}, bert(i))
		}
	}
	// sequences
	type part struct {
		ctor string
		args []Val
		typ  string
		def  ndef
	}
	parts := []part{
		{"NewPrepend", []Val{strVal("A ")}, "Prepend", nprepended("A ")},
		{"Lowercase", nil, "", nlower},
		{"NewStrip", []Val{boolV(true), boolV(true)}, "Strip", nspace(true, true)},
		{"NewReplace", []Val{Int{pc(str)}, strVal("a"), strVal(" é")}, "Replace", nreplaced("a", " é")},
	}
	seq := func(ps []part) {
		name := "NewSequence("
		var ds []ndef
		for i, p := range ps {
			if i > 0 {
				name += ", "
			}
			name += p.ctor
			ds = append(ds, p.def)
		}
		add(name+")", "Sequence", func(b *bword, st *State, f func(st *State, n Val)) {
			var mk func(st *State, i int, vs []Val)
			mk = func(st *State, i int, vs []Val) {
				if i == len(ps) {
					b.do(st, nm, "NewSequence", []Val{b.en.mkSlice(st, c.typeNamed(nm, "Normalizer"), vs...)}, func(st *State, ret []Val) { f(st, ret[0]) })
					return
				}
				b.do(st, nm, ps[i].ctor, ps[i].args, func(st *State, ret []Val) {
					v := b.en.force(ret[0])
					if _, ok := v.(Iface); !ok {
						v = Iface{types.NewPointer(c.typeNamed(nm, ps[i].typ)), v}
					}
					mk(st, i+1, append(append([]Val{}, vs...), v))
				})
			}
			mk(st, 0, nil)
		}, nthen(ds...))
	}
	seq(nil)
	for i := range parts {
		seq([]part{parts[i]})
		for j := range parts {
			if i != j {
				seq([]part{parts[i], parts[j]})
				for k := range parts {
					if k != i && k != j {
						seq([]part{parts[i], parts[j], parts[k]})
					}
				}
			}
		}
	}
	// the precompiled map
	pre := nop{name: "Precompiled", typ: "Precompiled", def: npre, make: func(b *bword, st *State, f func(st *State, n Val)) {
		t := c.typeNamed(nm, "Precompiled")
		v := b.en.symv("precompiled", types.NewPointer(t))
		st.assume(nilTest(b.en, v), false)
		f(st, v)
	}}
	for _, t := range []string{"", "a", "世", "aé", "éa", "世世", "aé世", "世é", "ea", "eé", "ae世"} {
		jobs = append(jobs, job{pre, t, true})
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		j := jobs[i]
		st := newState()
		b := newBword(c, st)
		b.all = true
		b.nhooks()
		for _, h := range []string{"unicode.IsSpace", "unicode.ToLower", "unicode.ToUpper", "unicode.IsMark", "strings.ToLower", "strings.ToUpper"} {
			b.en.hooks[h] = b.std.foldOne(reflect.ValueOf(pureFuncs[h]))
		}
		b.tableHooks()
		b.regexpHooks()
		b.normHooks(1, nfdSteps)
		b.preHooks(j.text)
		paths := 0
		b.initPkg(st, nm, func(st *State) {
			b.nbegin(st, j.text, func(st *State, n Val, l []ncell) {
				b.napply(st, n, j.text, l, j.op, func(*State, Val, []ncell) { paths++ })
			})
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("normalizations", 1)
		r.Add("paths", paths)
		b.v.settle(r, "documented text", fmt.Sprintf("%s of %q", j.op.name, j.text), token.NoPos, paths, b.err)
	})
	n03chars(c, r)
	for n := 0; n <= 4; n++ {
		for fails := -1; fails < n; fails++ {
			n03foreign(c, r, n, fails)
		}
	}
	r.Min("normalizations", len(jobs))
}

// n03foreign: a sequence of normalizers it knows nothing of, each making a new string.
func n03foreign(c *Ctx, r *Rep, n, fails int) {
	nm := "normalizer"
	st := newState()
	b := newBword(c, st)
	b.all = true
	t := c.typeNamed(nm, "Normalizer")
	var vs []Val
	for i := 0; i < n; i++ {
		v := b.en.symv(fmt.Sprintf("foreign%d", i), t)
		st.assume(nilTest(b.en, v), false)
		vs = append(vs, v)
	}
	fail := Iface{errType, Term{"failure", errType}}
	b.en.hooks["invoke normalizer.Normalizer.Normalize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		which := -1
		for i, v := range vs {
			if en.force(args[0]).key() == v.key() {
				which = i
			}
		}
		if which < 0 {
			return nil, false
		}
		if which == fails {
			return retOne(st, NilV{cc.Signature().Results().At(0).Type()}, fail)
		}
		var outs []Outcome
		b.m(st, nm, "NormalizedString", "GetNormalized", args[1], nil, func(st *State, ret []Val) {
			s, ok := strOf(en.force(ret[0]))
			if !ok {
				b.v.u("text unknown")
				return
			}
			b.do(st, nm, "NewNormalizedFrom", []Val{strVal(s + string(rune('a'+which)))}, func(st *State, ret []Val) {
				outs = append(outs, Outcome{kind: "ret", ret: []Val{ret[0], NilV{errType}}, st: st})
			})
		})
		return outs, true
	}
	want := "-" + "abcd"[:n]
	paths := 0
	key := fmt.Sprintf("NewSequence of %d unknown normalizers", n)
	if fails >= 0 {
		key += fmt.Sprintf(", failing at %d", fails)
	}
	b.do(st, nm, "NewNormalizedFrom", []Val{strVal("-")}, func(st *State, r1 []Val) {
		b.do(st, nm, "NewSequence", []Val{b.en.mkSlice(st, t, vs...)}, func(st *State, r2 []Val) {
			b.m(st, nm, "Sequence", "Normalize", r2[0], []Val{r1[0]}, func(st *State, ret []Val) {
				paths++
				e := b.en.force(ret[1])
				_, none := e.(NilV)
				if fails >= 0 {
					if none {
						b.v.b("the failure of one of them is not reported")
					} else if i, ok := e.(Iface); !ok || !strings.Contains(i.v.key(), "failure") && !strings.Contains(i.v.key(), "err") {
						b.v.u("error unknown")
					}
					return
				}
				if !none {
					b.v.b("it fails where none of them does")
					return
				}
				b.m(st, nm, "NormalizedString", "GetNormalized", ret[0], nil, func(st *State, ret []Val) {
					if s, ok := strOf(b.en.force(ret[0])); !ok {
						b.v.u("text unknown")
					} else if s != want {
						b.v.b("applied one after the other they make %q, it makes %q", want, s)
					}
				})
			})
		})
	})
	if b.crash != "" {
		b.v.b("%s", b.crash)
	}
	r.Add("sequences", 1)
	b.v.settle(r, "documented text", key, token.NoPos, paths, b.err)
}

// n03chars compares the classes of characters at their borders.
func n03chars(c *Ctx, r *Rep) {
	nm := "normalizer"
	var rs []rune
	for _, x := range cjkRanges {
		rs = append(rs, x[0]-1, x[0], x[0]+1, (x[0]+x[1])/2, x[1]-1, x[1], x[1]+1)
	}
	for x := rune(0); x < 0x180; x++ {
		rs = append(rs, x)
	}
	rs = append(rs, 0x2010, 0x3001, 0x2028, 0xff01, 0x3042, 0x1f600, 0x10100)
	ascii := func(x rune) bool {
		return x >= 33 && x <= 47 || x >= 58 && x <= 64 || x >= 91 && x <= 96 || x >= 123 && x <= 126
	}
	fns := []struct {
		name string
		def  func(rune) bool
	}{
		{"IsChinese", isCJK},
		{"IsBertPunctuation", func(x rune) bool { return ascii(x) || unicode.Is(unicode.P, x) }},
		{"IsPunctuation", func(x rune) bool { return ascii(x) || unicode.Is(unicode.P, x) }},
		{"IsBertWhitespace", func(x rune) bool { return x == ' ' || x == '\t' || x == '\n' || x == '\r' }},
		{"IsWhitespace", func(x rune) bool { return x == ' ' || x == '\t' || x == '\n' || x == '\r' }},
	}
	r.parallel(len(fns), func(i int, r *Rep) {
		f := fns[i]
		st := newState()
		b := newBword(c, st)
		b.tableHooks()
		paths := 0
		b.initPkg(st, nm, func(st *State) {
			for _, x := range rs {
				b.do(st.clone(), nm, f.name, []Val{Int{pc(int64(x))}}, func(st *State, ret []Val) {
					paths++
					got, ok := st.decide(b.en.force(ret[0]))
					if !ok {
						b.v.u("class of %U unknown", x)
					} else if got != f.def(x) {
						b.v.b("%s(%U) is %v", f.name, x, got)
					}
				})
			}
		})
		r.Add("classes", 1)
		b.v.settle(r, "class of characters", f.name, token.NoPos, paths, b.err)
	})
	r.Min("classes", len(fns))
}

func init() {
	props["N03"] = propMeta{run: n03, explain: "The normalizers a caller can construct (Strip, the default one and its options, Lowercase, StripAccents, Prepend, Replace by string or expression, Bert with its 16 settings, NewNormalizer with its options, sequences of every order of up to three of them and of unknown ones, a precompiled map whose entries and graphemes are open) are interpreted on every path on texts whose characters lie in every class they treat apart. The text made must be the one documented, the original unchanged, one range of alignments for each byte, each kept or replaced character aligned with what it came from. The package's initialisers are interpreted too, so that the tables of characters are those of the source; the classes (Chinese, BERT punctuation, whitespace) are compared at each border.", assume: []string{"the decomposition given to the norm package here is of four characters", "the unicode package's tables are the toolchain's", "texts are valid UTF-8", "the grapheme library cuts the text into non-empty pieces"}}
}
