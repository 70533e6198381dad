package main

import (
	"fmt"
	"go/token"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// N02: the Unicode normalization forms. The norm package is a given segmentation of the
// text: so many characters become so many others, under the form asked for only.

type nfseg struct {
	from, to int
	twice    bool // handed out in two parts
}

const nfPool = "xÜ界yßㄅzñ丁"

type nfcase struct {
	form  int64
	text  string
	segs  []nfseg
	cells []ncell // of the text
	out   []string
}

func newNFCase(form int64, text string, segs []nfseg) *nfcase {
	k := &nfcase{form: form, text: text, segs: segs, cells: ncells(text)}
	pool := []rune(nfPool)
	for _, s := range segs {
		k.out = append(k.out, string(pool[:s.to]))
		pool = pool[s.to:]
	}
	return k
}

var nfNames = []string{"NFC", "NFD", "NFKC", "NFKD"}

// nfstep is what an iterator hands out and the position in the text afterwards.
type nfstep struct {
	out string
	pos int
}

// steps are what an iterator over the text of the case hands out.
func (k *nfcase) steps(text string) ([]nfstep, Val, bool) {
	if text != k.text {
		return nil, nil, false
	}
	var out []nfstep
	at := 0
	for i, s := range k.segs {
		lo := k.cells[at].lo
		at += s.from
		hi := k.cells[at-1].hi
		rs := []rune(k.out[i])
		if s.twice && len(rs) > 1 {
			out = append(out, nfstep{string(rs[:1]), lo}, nfstep{string(rs[1:]), hi})
		} else {
			out = append(out, nfstep{k.out[i], hi})
		}
	}
	return out, TBool{k: "normal"}, true
}

// normHooks replaces the norm package; steps are the parts of a text in the form and
// whether it is normal.
func (b *bword) normHooks(want int64, steps func(text string) ([]nfstep, Val, bool)) {
	en := b.en
	const pkg = "golang.org/x/text/unicode/norm."
	form := func(st *State, v Val) bool {
		f, ok := st.norm(en.toInt(en.force(v))).konst()
		if !ok || f < 0 || f > 3 {
			b.v.u("form unknown")
			return true
		}
		if f != want {
			b.v.b("%s is made with the form %s", nfNames[want], nfNames[f])
		}
		return true
	}
	text := func(st *State, v Val) (string, bool) {
		v = en.force(v)
		s, ok := strOf(v)
		if sl, isS := v.(Slice); isS {
			if x, y := b.std.goVal(st, sl, reflect.TypeOf([]byte{})); y {
				s, ok = string(x.Bytes()), true
			}
		}
		if ok {
			_, _, ok = steps(s)
		}
		if !ok {
			b.v.u("text to normalize unknown")
		}
		return s, ok
	}
	normal := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := text(st, args[1])
		if !form(st, args[0]) || !ok {
			return nil, true
		}
		_, v, _ := steps(s)
		return retOne(st, v)
	}
	en.hooks["("+pkg+"Form).IsNormalString"] = normal
	en.hooks["("+pkg+"Form).IsNormal"] = normal
	en.hooks["("+pkg+"Form).String"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := text(st, args[1])
		if !form(st, args[0]) || !ok {
			return nil, true
		}
		l, _, _ := steps(s)
		all := ""
		for _, x := range l {
			all += x.out
		}
		return retOne(st, strVal(all))
	}
	key := func(v Val) (string, bool) {
		p, ok := en.force(v).(Ptr)
		return fmt.Sprint("iter:", p.obj, p.path), ok
	}
	initIt := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		i, ok := key(args[0])
		s, ok2 := text(st, args[2])
		if !ok || !ok2 || !form(st, args[1]) {
			return nil, true
		}
		b.std.put(st, i, Int{pc(0)})
		b.std.put(st, i+"text", strVal(s))
		return retOne(st)
	}
	en.hooks["(*"+pkg+"Iter).InitString"] = initIt
	en.hooks["(*"+pkg+"Iter).Init"] = initIt
	cur := func(st *State, v Val) (int, string, []nfstep, bool) {
		i, ok := key(v)
		if !ok {
			return 0, "", nil, false
		}
		p, ok := b.std.get(st, i)
		s, ok2 := b.std.text(st, i+"text")
		if !ok || !ok2 {
			return 0, "", nil, false
		}
		n, ok := st.norm(en.toInt(p)).konst()
		l, _, _ := steps(s)
		return int(n), i, l, ok
	}
	en.hooks["(*"+pkg+"Iter).Done"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		n, _, l, ok := cur(st, args[0])
		if !ok {
			return nil, true
		}
		return retOne(st, BoolC(n >= len(l)))
	}
	en.hooks["(*"+pkg+"Iter).Pos"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		n, _, l, ok := cur(st, args[0])
		if !ok {
			return nil, true
		}
		pos := 0
		if n > 0 {
			pos = l[n-1].pos
		}
		return retOne(st, Int{pc(int64(pos))})
	}
	en.hooks["(*"+pkg+"Iter).Next"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		n, i, l, ok := cur(st, args[0])
		if !ok {
			return nil, true
		}
		bt := cc.Signature().Results().At(0).Type()
		if n >= len(l) {
			return retOne(st, NilV{bt})
		}
		b.std.put(st, i, Int{pc(int64(n + 1))})
		v, ok := b.std.ofGo(st, reflect.ValueOf([]byte(l[n].out)), bt)
		if !ok {
			return nil, true
		}
		return retOne(st, v)
	}
}

// nfDef is the text of the form, unless the text has it.
func nfDef(k *nfcase) func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
	return func(b *bword, st *State, l []ncell, f func(st *State, l []ncell)) {
		b.split(st, TBool{k: "normal"}, func(st *State, yes bool) {
			if yes {
				f(st, l)
				return
			}
			var out []ncell
			at := 0
			for i, s := range k.segs {
				lo, hi := l[at].lo, l[at+s.from-1].hi
				at += s.from
				for _, r := range k.out[i] {
					out = append(out, ncell{string(r), lo, hi, s.from == 1})
				}
			}
			f(st, out)
		})
	}
}

func n02(c *Ctx, r *Rep) {
	nm := "normalizer"
	type job struct {
		k  *nfcase
		op nop
	}
	var jobs []job
	var lists [][]nfseg
	var comp func(n int, l []nfseg)
	comp = func(n int, l []nfseg) {
		if n == 0 {
			lists = append(lists, l)
			return
		}
		for from := 1; from <= n; from++ {
			for to := 1; to <= 3; to++ {
				comp(n-from, append(append([]nfseg{}, l...), nfseg{from, to, false}))
			}
		}
	}
	comp(3, nil)
	lists = append(lists, []nfseg{{1, 2, true}, {2, 1, false}}, []nfseg{{1, 3, true}, {1, 1, false}, {1, 1, false}}, []nfseg{{1, 1, false}, {2, 3, true}}, []nfseg{{3, 2, true}})
	none := func(b *bword, st *State) []Val { return nil }
	for f, name := range nfNames {
		name := name
		f := int64(f)
		if c.lookup(nm, "NormalizedString."+name) == nil {
			r.Missing("NormalizedString." + name)
			continue
		}
		for _, segs := range lists {
			for _, text := range []string{"aé世", "世aé"} {
				k := newNFCase(f, text, segs)
				ops := []nop{{name: name, method: name, args: none, def: nfDef(k)},
					{name: "the normalizer " + name, typ: name, def: nfDef(k), make: func(b *bword, st *State, f func(st *State, n Val)) {
						b.do(st, nm, "New"+name, nil, func(st *State, ret []Val) { f(st, ret[0]) })
					}},
					{name: "the normalizer of the form " + name, typ: "UnicodeNormalizer", def: nfDef(k), make: func(b *bword, st *State, g func(st *State, n Val)) {
						b.do(st, nm, "NewUnicodeNormalizer", []Val{Int{pc(f)}}, func(st *State, ret []Val) { g(st, ret[0]) })
					}}}
				for _, op := range ops {
					jobs = append(jobs, job{k, op})
				}
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		j := jobs[i]
		st := newState()
		b := newBword(c, st)
		b.all = true
		b.nhooks()
		b.normHooks(j.k.form, j.k.steps)
		paths := 0
		b.nbegin(st, j.k.text, func(st *State, n Val, l []ncell) {
			b.napply(st, n, j.k.text, l, j.op, func(*State, Val, []ncell) { paths++ })
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("normalizations", 1)
		r.Add("paths", paths)
		b.v.settle(r, "form applied", fmt.Sprintf("%s of %q as %v", j.op.name, j.k.text, j.k.segs), token.NoPos, paths, b.err)
	})
	r.Min("normalizations", 4*3*50)
}

func init() {
	props["N02"] = propMeta{run: n02,
		explain: "the entry points of the Unicode normalization forms (methods, normalizers, the normalizer of a form) are interpreted on every path, with the norm package replaced by an arbitrary segmentation of a three-character text: which characters form a segment and how many each becomes is enumerated, as is whether the text is normal already. On every path only the form of the name may be asked for, the result must be a string, its text the segments in order, or the text itself if it is normal, and every character must be aligned within the segment it comes from",
		assume:  []string{"golang.org/x/text/unicode/norm implements the forms", "longer texts are treated as the shorter ones are"},
	}
}
