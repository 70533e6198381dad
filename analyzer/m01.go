package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// M01: post-processors lay the sequences and special tokens out as documented. Every
// processor is made by its constructor and interpreted on given encodings.

type mtok struct {
	id, typ int
	tok     string
	a, b    int
	special int
	word    int
}

type menc struct {
	toks    []mtok
	windows [][]mtok
}

// mlay is the expected layout of one sequence, or of both.
type mproc struct {
	name  string
	make  func(b *bword, st *State, f func(st *State, v Val, t types.Type))
	add   func(pair bool, a, b []mtok) []mtok // with special tokens
	plain func(pair bool, a, b []mtok) []mtok // without
	once  bool                                // each sequence stands exactly once: windows combine
	trim  int                                 // 0: offsets stay, 1: blanks are left out, 2: but for the one put before the text
	noB   bool
}

func msp(tok string, id, typ int) mtok { return mtok{id: id, typ: typ, tok: tok, special: 1, word: -1} }

func mcat(ls ...[]mtok) (l []mtok) {
	for _, x := range ls {
		l = append(l, x...)
	}
	return
}

func mtyped(l []mtok, typ int) (o []mtok) {
	for _, t := range l {
		t.typ = typ
		o = append(o, t)
	}
	return
}

func mplain(pair bool, a, b []mtok) []mtok {
	if pair {
		return mcat(a, b)
	}
	return a
}

// mtrim leaves blanks out of the offsets.
func mtrim(mode int, l []mtok) (o []mtok) {
	for i, t := range l {
		if mode > 0 {
			ld := len([]rune(t.tok)) - len([]rune(strings.TrimLeft(t.tok, "Ġ")))
			tl := len([]rune(t.tok)) - len([]rune(strings.TrimRight(t.tok, "Ġ")))
			if mode == 2 && i == 0 && ld == 1 {
				ld = 0
			}
			t.a = min(t.a+ld, t.b)
			if tl > 0 && t.b >= tl {
				t.b = max(t.b-tl, t.a)
			}
		}
		o = append(o, t)
	}
	return
}

// mtemplate is the layout of a template given as text.
func mtemplate(text string, special map[string][]mtok) func(pair bool, a, b []mtok) []mtok {
	return func(pair bool, a, b []mtok) (l []mtok) {
		for _, p := range strings.Fields(text) {
			typ := 0
			name := p
			if k := strings.Index(p, ":"); k >= 0 {
				typ, _ = strconv.Atoi(p[k+1:])
				name = p[:k]
			}
			switch {
			case name == "$" || name == "$A" || name == "$a":
				l = append(l, mtyped(a, typ)...)
			case name == "$B" || name == "$b":
				l = append(l, mtyped(b, typ)...)
			case strings.HasPrefix(name, "$"):
				n, _ := strconv.Atoi(name[1:])
				if !strings.Contains(p, ":") {
					typ = n
				}
				l = append(l, mtyped(a, typ)...)
			default:
				l = append(l, mtyped(special[name], typ)...)
			}
		}
		return
	}
}

func mprocs(c *Ctx) (l []mproc) {
	post := func(b *bword, tok string, id int) Val {
		return b.en.mkStruct("post:"+tok, c.typeNamed("processor", "PostToken"), map[string]Val{"Value": strVal(tok), "Id": Int{pc(int64(id))}})
	}
	ctor := func(name string, args func(b *bword, st *State) []Val) func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
		return func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
			t := ctorType(c, "processor", name)
			if t == nil {
				b.err = "missing " + name
				return
			}
			b.do(st, "processor", name, args(b, st), func(st *State, ret []Val) { f(st, ret[0], t) })
		}
	}
	cls, sep := msp("[CLS]", 101, 0), msp("[SEP]", 102, 0)
	sep1 := msp("[SEP]", 102, 1)
	bert := func(pair bool, a, b []mtok) []mtok {
		l := mcat([]mtok{cls}, a, []mtok{sep})
		if pair {
			l = mcat(l, b, []mtok{sep1})
		}
		return l
	}
	l = append(l, mproc{name: "NewBertProcessing", once: true, plain: mplain, add: bert,
		make: ctor("NewBertProcessing", func(b *bword, st *State) []Val { return []Val{post(b, "[SEP]", 102), post(b, "[CLS]", 101)} })})
	for trim := 0; trim < 3; trim++ {
		trim := trim
		rc, rs, rs1 := msp("<s>", 201, 0), msp("</s>", 202, 0), msp("</s>", 202, 1)
		l = append(l, mproc{name: fmt.Sprintf("NewRobertaProcessing, offsets %d", trim), once: true, plain: mplain, trim: trim,
			add: func(pair bool, a, b []mtok) []mtok {
				l := mcat([]mtok{rc}, a, []mtok{rs})
				if pair {
					l = mcat(l, []mtok{rs1}, b, []mtok{rs1})
				}
				return l
			},
			make: ctor("NewRobertaProcessing", func(b *bword, st *State) []Val {
				return []Val{post(b, "</s>", 202), post(b, "<s>", 201), BoolC(trim > 0), BoolC(trim == 2)}
			})})
	}
	level := func(trim int) func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
		return func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
			bt := c.typeNamed("pretokenizer", "ByteLevel")
			if bt == nil {
				b.err = "missing ByteLevel"
				return
			}
			x := b.en.cell(st, b.en.mkStruct("bytelevel", bt, map[string]Val{"TrimOffsets": BoolC(trim > 0), "AddPrefixSpace": BoolC(trim == 2)}))
			ctor("NewByteLevelProcessing", func(b *bword, st *State) []Val { return []Val{x} })(b, st, f)
		}
	}
	for trim := 0; trim < 3; trim++ {
		l = append(l, mproc{name: fmt.Sprintf("NewByteLevelProcessing, offsets %d", trim), once: true, plain: mplain, add: mplain, trim: trim, make: level(trim)})
	}
	// templates
	special := map[string][]mtok{
		"[CLS]": {msp("[CLS]", 101, 0)}, "[SEP]": {msp("[SEP]", 102, 0)},
		"[X]": {msp("x1", 7, 0), msp("x2", 8, 0), msp("x3", 9, 0)},
	}
	for _, t := range [][2]string{
		{"[CLS] $A [SEP]", "[CLS] $A [SEP] $B:1 [SEP]:1"},
		{"[CLS]:0 $A:0 [SEP]:0", "[CLS]:0 $A:0 [SEP]:0 $B:1 [SEP]:1"},
		{"$A [X]", "$A [X]:2 $B:3"},
		{"[X]:1 $a:4", "$b:5 [SEP]:6 $a:7"},
		{"$ [SEP]", "[SEP] $A $B"},
		{"$3 [SEP]", "$1 [SEP]:2 $B:1"},
		{"$0", "$A:0 $B:1"},
		{"[CLS] [CLS] $A", "[X] $A [X] $B [X]"},
		{"$A:1 [SEP] $A:2", "$A $B:1 [SEP] $A:2"},
	} {
		t := t
		only := func(s string) string { // without special tokens
			var o []string
			for _, p := range strings.Fields(s) {
				if strings.HasPrefix(p, "$") {
					o = append(o, p)
				}
			}
			return strings.Join(o, " ")
		}
		pick := func(f func(s string) string) func(pair bool, a, b []mtok) []mtok {
			return func(pair bool, a, b []mtok) []mtok {
				s := t[0]
				if pair {
					s = t[1]
				}
				return mtemplate(f(s), special)(pair, a, b)
			}
		}
		// made whole and by the builder, templates given as one text or as a list of pieces
		for way := 0; way < 3; way++ {
			way := way
			l = append(l, mproc{name: fmt.Sprintf("template %q %q, way %d", t[0], t[1], way), once: strings.Count(t[1], "$") == 2 && strings.Count(t[0], "$") == 1,
				plain: pick(only), add: pick(func(s string) string { return s }),
				make: func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
					mkTemplate(c, b, st, t, way, special, f)
				}})
		}
	}
	// in sequence: all but the last one see each sequence by itself
	seq := func(makers ...func(b *bword, st *State, f func(st *State, v Val, t types.Type))) func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
		return func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
			pt := c.typeNamed("", "PostProcessor")
			var rec func(st *State, i int, vs []Val)
			rec = func(st *State, i int, vs []Val) {
				if i == len(makers) {
					ctor("NewSequence", func(b *bword, st *State) []Val { return []Val{b.en.mkSlice(st, pt, vs...)} })(b, st, f)
					return
				}
				makers[i](b, st, func(st *State, v Val, t types.Type) {
					if _, ok := b.en.force(v).(Iface); !ok {
						v = Iface{t, v}
					}
					rec(st, i+1, append(append([]Val{}, vs...), v))
				})
			}
			rec(st, 0, nil)
		}
	}
	l = append(l, mproc{name: "NewSequence of ByteLevel and Bert", once: true, trim: 1, plain: mplain, add: bert,
		make: seq(level(1), l[0].make)})
	for i, x := range l {
		if strings.HasPrefix(x.name, "template") && x.once && strings.HasSuffix(x.name, "way 0") {
			l = append(l, mproc{name: "NewSequence of ByteLevel twice and " + x.name, once: true, trim: 1, plain: x.plain, add: x.add, make: seq(level(1), level(0), l[i].make)})
		}
	}
	both := func(pair bool, a, b []mtok) []mtok {
		l := bert(false, a, nil)
		if pair {
			l = mcat(l, mtyped(bert(false, b, nil), 1))
		}
		return l
	}
	l = append(l, mproc{name: "NewSequence of Bert and ByteLevel", once: true, plain: mplain, add: both, make: seq(l[0].make, level(0))})
	l = append(l, mproc{name: "NewSequence of Bert", once: true, plain: mplain, add: bert, make: seq(l[0].make)})
	l = append(l, mproc{name: "NewSequence of ByteLevel, nothing is trimmed", once: true, plain: mplain, add: mplain, make: seq(level(0))})
	l = append(l, mproc{name: "DefaultTemplateProcessing", once: true, plain: mplain, add: mplain,
		make: func(b *bword, st *State, f func(st *State, v Val, t types.Type)) {
			t := ctorType(c, "processor", "DefaultTemplateProcessing")
			if t == nil {
				b.err = "missing DefaultTemplateProcessing"
				return
			}
			b.do(st, "processor", "DefaultTemplateProcessing", nil, func(st *State, ret []Val) { f(st, ret[0], t) })
		}})
	l = append(l, mproc{name: "NewSequence of nothing", once: true, plain: mplain, add: mplain, make: seq()})
	return l
}

// mkTemplate makes the processor of two templates.
func mkTemplate(c *Ctx, b *bword, st *State, t [2]string, way int, special map[string][]mtok, f func(st *State, v Val, t types.Type)) {
	tt := ctorType(c, "processor", "NewTemplateProcessing")
	spt := c.typeNamed("processor", "SpecialToken")
	if tt == nil || spt == nil {
		b.err = "missing NewTemplateProcessing"
		return
	}
	if way == 2 {
		mkBuilt(c, b, st, t, special, func(st *State, refused int) {
			switch refused {
			case 0:
				b.v.b("Validate refuses a valid template")
			case 1:
			default:
				b.v.u("what Validate reports is unknown")
			}
		}, f)
		return
	}
	mkTokens(c, b, st, special, func(st *State, toks Val) {
		mk := func(st *State, s string, f func(st *State, v Val)) {
			if way == 0 {
				b.do(st, "processor", "NewTemplateFromOne", []Val{strVal(s)}, b.okErr(b.v, "template "+s, f))
			} else {
				b.do(st, "processor", "NewTemplateFromMulti", []Val{mparts(b, st, s)}, b.okErr(b.v, "template "+s, f))
			}
		}
		mk(st, t[0], func(st *State, single Val) {
			mk(st, t[1], func(st *State, pair Val) {
				b.do(st, "processor", "NewTemplateProcessing", []Val{single, pair, toks}, func(st *State, ret []Val) { f(st, ret[0], tt) })
			})
		})
	})
}

func mparts(b *bword, st *State, s string) Val {
	var l []Val
	for _, p := range strings.Fields(s) {
		l = append(l, strVal(p))
	}
	return b.en.mkSlice(st, strT, l...)
}

// mkBuilt makes the processor of two templates by the builder.
func mkBuilt(c *Ctx, b *bword, st *State, t [2]string, special map[string][]mtok, valid func(st *State, refused int), f func(st *State, v Val, t types.Type)) {
	tt := ctorType(c, "processor", "NewTemplateProcessing")
	mkTokens(c, b, st, special, func(st *State, toks Val) {
		none := NilV{c.typeNamed("processor", "Template")}
		b.do(st, "processor", "NewTemplateProcessing", []Val{none, none, toks}, func(st *State, ret []Val) {
			b.m(st, "processor", "TemplateProcessing", "Builder", ret[0], nil, func(st *State, ret []Val) {
				bu := ret[0]
				b.m(st, "processor", "TemplateProcessingBuilder", "NewSingle", bu, []Val{Iface{strT, strVal(t[0])}}, func(st *State, _ []Val) {
					b.m(st, "processor", "TemplateProcessingBuilder", "NewPair", bu, []Val{Iface{types.NewSlice(strT), mparts(b, st, t[1])}}, func(st *State, _ []Val) {
						b.m(st, "processor", "TemplateProcessingBuilder", "Validate", bu, nil, func(st *State, ret []Val) {
							valid(st, (&cfgEnv{c: c, en: b.en}).errState(st, ret[0]))
							if f != nil {
								b.m(st, "processor", "TemplateProcessingBuilder", "Build", bu, nil, func(st *State, ret []Val) { f(st, ret[0], tt) })
							}
						})
					})
				})
			})
		})
	})
}

func mkTokens(c *Ctx, b *bword, st *State, special map[string][]mtok, f func(st *State, toks Val)) {
	spt := c.typeNamed("processor", "SpecialToken")
	it := types.Typ[types.Int]
	var names []string
	for n := range special {
		names = append(names, n)
	}
	sort.Strings(names)
	var vs []Val
	for _, n := range names {
		var ids, toks []Val
		for _, x := range special[n] {
			ids = append(ids, Int{pc(int64(x.id))})
			toks = append(toks, strVal(x.tok))
		}
		vs = append(vs, b.en.mkStruct("special:"+n, spt, map[string]Val{"Id": strVal(n), "Ids": b.en.mkSlice(st, it, ids...), "Tokens": b.en.mkSlice(st, strT, toks...)}))
	}
	b.do(st, "processor", "NewTokensFrom", []Val{b.en.mkSlice(st, spt, vs...)}, func(st *State, ret []Val) { f(st, ret[0]) })
}

// mencoding makes an encoding of the tokens.
func mencoding(c *Ctx, b *bword, st *State, l []mtok, windows [][]mtok, ptr bool) Val {
	et := c.typeNamed("", "Encoding")
	it := types.Typ[types.Int]
	ints := func(g func(t mtok) int) Val {
		var vs []Val
		for _, t := range l {
			vs = append(vs, Int{pc(int64(g(t)))})
		}
		return b.en.mkSlice(st, it, vs...)
	}
	var toks, offs, ws []Val
	for _, t := range l {
		toks = append(toks, strVal(t.tok))
		offs = append(offs, b.en.mkSlice(st, it, Int{pc(int64(t.a))}, Int{pc(int64(t.b))}))
	}
	for _, w := range windows {
		ws = append(ws, mencoding(c, b, st, w, nil, false))
	}
	ranges := MapV{obj: b.en.newObj(st, &Obj{kind: 'm', mtyp: types.NewMap(it, c.typeNamed("", "Range")), label: "ranges"})}
	s := b.en.mkStruct(b.en.fresh("encoding"), et, map[string]Val{
		"Ids": ints(func(t mtok) int { return t.id }), "TypeIds": ints(func(t mtok) int { return t.typ }),
		"Tokens": b.en.mkSlice(st, strT, toks...), "Offsets": b.en.mkSlice(st, types.NewSlice(it), offs...),
		"SpecialTokenMask": ints(func(t mtok) int { return t.special }), "AttentionMask": ints(func(t mtok) int { return 1 }),
		"Overflowing": b.en.mkSlice(st, et, ws...), "Words": ints(func(t mtok) int { return t.word }), "SequenceRanges": ranges})
	if !ptr {
		return s
	}
	return b.en.cell(st, s)
}

func mshow(l []mtok, field string) string {
	var o []string
	for _, t := range l {
		switch field {
		case "Ids":
			o = append(o, strconv.Itoa(t.id))
		case "TypeIds":
			o = append(o, strconv.Itoa(t.typ))
		case "Tokens":
			o = append(o, strVal(t.tok).k)
		case "Offsets":
			o = append(o, fmt.Sprintf("[%d %d]", t.a, t.b))
		case "SpecialTokenMask":
			o = append(o, strconv.Itoa(t.special))
		case "AttentionMask":
			o = append(o, "1")
		case "Words":
			o = append(o, strconv.Itoa(t.word))
		}
	}
	return "[" + strings.Join(o, " ") + "]"
}

func m01(c *Ctx, r *Rep) {
	if c.typeNamed("", "PostProcessor") == nil || c.typeNamed("processor", "PostToken") == nil {
		r.Missing("PostProcessor")
		return
	}
	A := []mtok{{10, 0, "Ġa1", 0, 2, 0, 0}, {11, 0, "a2Ġ", 2, 5, 0, 1}, {12, 0, "ĠĠa3", 5, 9, 0, 2}}
	W := [][]mtok{{{31, 0, "Ġw1", 9, 11, 0, 3}}, {{32, 0, "w2", 11, 13, 0, 4}, {33, 0, "Ġ", 13, 14, 0, 5}}}
	B := []mtok{{20, 1, "ĠĠb1", 0, 3, 0, 0}, {21, 1, "ĠbĠ", 3, 6, 0, 1}}
	V := [][]mtok{{{41, 1, "Ġv1", 6, 9, 0, 2}}}
	type job struct {
		p      mproc
		pair   bool
		add    bool
		wa, wb int
		empty  bool
	}
	var jobs []job
	for _, p := range mprocs(c) {
		for _, add := range []bool{true, false} {
			for _, pair := range []bool{false, true} {
				for w := 0; w < 4; w++ {
					j := job{p: p, pair: pair, add: add}
					if w&1 != 0 {
						j.wa = len(W)
					}
					if w&2 != 0 {
						j.wb = len(V)
					}
					if j.wb > 0 && !pair || w > 0 && !p.once {
						continue
					}
					jobs = append(jobs, j)
				}
				jobs = append(jobs, job{p: p, pair: pair, add: add, empty: true})
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) {
		j := jobs[i]
		st := newState()
		b := newBword(c, st)
		b.std.foldPure()
		shapeHooks(b.en)
		b.en.recurse = 2
		paths := 0
		lay := j.p.plain
		if j.add {
			lay = j.p.add
		}
		a, bb := A, B
		if j.empty {
			a, bb = nil, nil
		}
		wa, wb := W[:j.wa], V[:j.wb]
		want := lay(j.pair, mtrim(j.p.trim, a), mtrim(j.p.trim, bb))
		// the windows combine
		var ww []string
		ta := func(l [][]mtok) (o [][]mtok) {
			for _, x := range l {
				o = append(o, mtrim(j.p.trim, x))
			}
			return
		}
		for _, x := range append(ta(wa), mtrim(j.p.trim, a)) {
			for _, y := range append(ta(wb), mtrim(j.p.trim, bb)) {
				l := lay(j.pair, x, y)
				if s := mshow(l, "Ids"); s != mshow(want, "Ids") && (j.pair || len(wa) > 0) {
					ww = append(ww, s+mshow(l, "Offsets")+mshow(l, "SpecialTokenMask")+mshow(l, "Tokens"))
				}
				if !j.pair {
					break
				}
			}
		}
		sort.Strings(ww)
		body := func(st *State) {
			j.p.make(b, st, func(st *State, v Val, t types.Type) {
				fn := c.Prog.LookupMethod(t, nil, "Process")
				if fn == nil {
					b.err = "no method Process"
					return
				}
				et := c.typeNamed("", "Encoding")
				var pair Val = NilV{types.NewPointer(et)}
				if j.pair {
					pair = mencoding(c, b, st, bb, wb, true)
				}
				outs, err := b.en.safeRun(fn, []Val{v, mencoding(c, b, st, a, wa, true), pair, BoolC(j.add)}, st)
				if err != "" {
					b.err = err
					return
				}
				for _, o := range outs {
					if o.kind == "panic" || o.kind == "exit" {
						b.v.b("ends in a %s: %s", o.kind, o.why)
						continue
					}
					if o.kind != "ret" {
						b.v.u("path not followed: %s", o.why)
						continue
					}
					paths++
					mjudge(c, b, o.st, o.ret[0], want, ww)
				}
			})
		}
		body(st)
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("layouts interpreted", 1)
		key := fmt.Sprintf("%s|pair %v|special tokens %v|windows %d and %d", j.p.name, j.pair, j.add, j.wa, j.wb)
		if j.empty {
			key += "|empty"
		}
		b.v.settle(r, "layout", key, token.NoPos, paths, b.err)
	})
	r.Min("layouts interpreted", 200)
	// the number of tokens an encoding grows by
	procs := mprocs(c)
	r.parallel(len(procs)*2, func(i int, r *Rep) {
		p, pair := procs[i/2], i%2 == 1
		st := newState()
		b := newBword(c, st)
		b.std.foldPure()
		shapeHooks(b.en)
		paths, want := 0, 0
		for _, x := range p.add(pair, A, B) {
			if x.special == 1 {
				want++
			}
		}
		p.make(b, st, func(st *State, v Val, t types.Type) {
			fn := c.Prog.LookupMethod(t, nil, "AddedTokens")
			if fn == nil {
				b.err = "no method AddedTokens"
				return
			}
			outs, err := b.en.safeRun(fn, []Val{v, BoolC(pair)}, st)
			if err != "" {
				b.err = err
				return
			}
			for _, o := range outs {
				if o.kind == "panic" || o.kind == "exit" {
					b.v.b("ends in a %s: %s", o.kind, o.why)
					continue
				}
				if o.kind != "ret" {
					b.v.u("path not followed: %s", o.why)
					continue
				}
				paths++
				n := (&cfgEnv{c: c, en: b.en}).dump(o.st, o.ret[0], 0)
				if k, err := strconv.Atoi(n); err != nil {
					b.v.u("count unknown: %s", clipS(n, 60))
				} else if k != want {
					b.v.b("AddedTokens is %d, the layout adds %d", k, want)
				}
			}
		})
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("counts of added tokens", 1)
		b.v.settle(r, "count", fmt.Sprintf("%s|pair %v", p.name, pair), token.NoPos, paths, b.err)
	})
	// templates the builder has to refuse
	bad := [][2]string{{"$A", "$A"}, {"$A", "$B:1"}, {"$A [X]", "$A $B [Y]"}, {"[Y] $A", "$A $B"}, {"$A", "[X] [X]"}, {"$B", "[Y] $A $B"}}
	r.parallel(len(bad), func(i int, r *Rep) {
		st := newState()
		b := newBword(c, st)
		b.std.foldPure()
		shapeHooks(b.en)
		paths := 0
		mkBuilt(c, b, st, bad[i], map[string][]mtok{"[X]": {msp("[Y]", 7, 0), msp("x2", 8, 0)}}, func(st *State, refused int) {
			paths++
			switch refused {
			case 0:
			case 1:
				b.v.b("Validate accepts it")
			default:
				b.v.u("what Validate reports is unknown")
			}
		}, nil)
		if b.crash != "" {
			b.v.b("%s", b.crash)
		}
		r.Add("refused templates", 1)
		b.v.settle(r, "refuse", fmt.Sprintf("%q %q", bad[i][0], bad[i][1]), token.NoPos, paths, b.err)
	})
}

func mjudge(c *Ctx, b *bword, st *State, got Val, want []mtok, windows []string) {
	e := &cfgEnv{c: c, en: b.en}
	read := func(v Val, field string) (string, bool) {
		d, why := e.at(st, v, field)
		if why != "" {
			b.v.u("%s", why)
			return "", false
		}
		s := e.dump(st, d, 0)
		if s == "nil" || s == "nothing" {
			s = "[]"
		}
		if opaqueTerm(s) || mentionsHole(s) {
			b.v.u("%s unknown: %s", field, clipS(s, 80))
			return "", false
		}
		return s, true
	}
	for _, f := range []string{"Ids", "TypeIds", "Tokens", "SpecialTokenMask", "AttentionMask", "Offsets", "Words"} {
		if g, ok := read(got, f); ok && g != mshow(want, f) {
			b.v.b("%s are %s, expected %s", f, g, mshow(want, f))
		}
	}
	var ws []string
	d, why := e.at(st, got, "Overflowing")
	if why != "" {
		b.v.u("%s", why)
		return
	}
	switch x := b.en.force(d).(type) {
	case NilV:
	case Slice:
		vs, ok := unitVals(b.en.content(st, x))
		if !ok {
			b.v.u("windows unknown")
			return
		}
		for _, w := range vs {
			s := ""
			for _, f := range []string{"Ids", "Offsets", "SpecialTokenMask", "Tokens"} {
				g, ok := read(w, f)
				if !ok {
					return
				}
				s += g
			}
			ws = append(ws, s)
		}
	default:
		b.v.u("windows unknown")
		return
	}
	sort.Strings(ws)
	if strings.Join(ws, "\n") != strings.Join(windows, "\n") {
		b.v.b("the overflowing windows are %s, expected %s", strings.Join(ws, " | "), strings.Join(windows, " | "))
	}
}

func init() {
	props["M01"] = propMeta{run: m01,
		explain: "Every post-processor is made by its constructors (templates from one text, from a list of pieces and by the builder; sequences of processors too) and Process is interpreted on encodings with given tokens: one and two sequences, with and without special tokens, empty, with overflowing windows on either side. Ids, type ids, tokens, masks, offsets and words must be those of the documented layout, every window must be laid out like the encoding it belongs to and every combination of windows be there once.",
		assume:  []string{"the windows of a pair combine as MergeWith documents"},
	}
}
