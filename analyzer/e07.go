package main

import (
	"regexp"

	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// E07: pieces that carry tokens pass every later stage untouched; pieces that do not are
// replaced in place. The stages are interpreted on abstract pieces.

var rangeRx = regexp.MustCompile(`\[(\d+):(\d*)\](?:\{(\w+)\})?$`)

const rx = "github.com/sugarme/regexpset"

type pieces struct {
	c     *Ctx
	en    *Eng
	st    *State
	label map[int]string // normalized-string cell -> where it stems from
	seen  []string       // normalized strings handed to the stage's function
}

func newPieces(c *Ctx) *pieces {
	p := &pieces{c: c, en: newEng(c), st: newState(), label: map[int]string{}}
	p.en.noMerge = true
	p.en.foldGlobals = true
	p.en.maxDepth = 40
	reflectHooks(p.en)
	sortHooks(p.en)
	ns := "(*normalizer.NormalizedString)."
	p.en.hooks[ns+"GetNormalized"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := p.labelOf(args[0])
		if !ok {
			return nil, false
		}
		t := Term{"text(" + l + ")", strT}
		st.assume(en.eqVal(t, strVal("")), false)
		st.ge = append(st.ge, pa("len("+t.k+")").addc(-9))
		return retOne(st, t)
	}
	p.en.hooks["normalizer.NewNormalizedFrom"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return retOne(st, p.ns(st, "raw("+args[0].key()+")"))
	}
	p.en.hooks[ns+"Slice"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := p.labelOf(args[0])
		rp, ok2 := en.force(args[1]).(Ptr)
		if !ok || !ok2 {
			return nil, false
		}
		rs, ok := en.load(st, rp).(Struct)
		if !ok {
			return nil, false
		}
		var b []string
		for _, f := range rs.f {
			if i, ok := en.force(f).(Int); ok && len(b) < 2 {
				b = append(b, st.norm(i.p).key())
			}
		}
		if len(b) < 2 {
			return nil, false
		}
		if b[0] == "0" && b[1] == "len(text("+l+"))" {
			return retOne(st, p.ns(st, l)) // the whole of it
		}
		return retOne(st, p.ns(st, l+"["+b[0]+":"+b[1]+"]"))
	}
	p.en.hooks[ns+"ConvertOffset"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		t := p.c.typeNamed("normalizer", "Range")
		return retOne(st, en.cell(st, en.mkStruct(en.fresh("range"), t, nil)))
	}
	p.en.hooks["invoke normalizer.Normalizer.Normalize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, ok := p.labelOf(args[1])
		if !ok {
			return nil, false
		}
		return retOne(st, p.ns(st, "norm("+l+")"), NilV{errType})
	}
	return p
}

func (p *pieces) labelOf(v Val) (string, bool) {
	x, ok := p.en.force(v).(Ptr)
	if !ok || len(x.path) > 0 {
		return "", false
	}
	l, ok := p.label[x.obj]
	return l, ok
}

// ns makes a normalized string known by its label.
func (p *pieces) ns(st *State, label string) Ptr {
	t := p.c.typeNamed("normalizer", "NormalizedString")
	x := p.en.cell(st, p.en.mkStruct("ns:"+label, t, nil))
	p.label[x.obj] = label
	return x
}

func (p *pieces) tok(st *State, id int64, text string) Val {
	t := p.c.typeNamed("", "Token")
	return p.en.mkStruct(fmt.Sprintf("token%d", id), t, map[string]Val{"Id": Int{pc(id)}, "Value": Term{"value(" + text + ")", strT}})
}

func (p *pieces) toks(st *State, vs ...Val) Slice {
	return p.en.mkSlice(st, p.c.typeNamed("", "Token"), vs...)
}

// piece is a label and a token list ("" none).
type piece struct{ label, toks string }

func (x piece) String() string {
	if x.toks == "" {
		return x.label
	}
	return x.label + "{" + x.toks + "}"
}

// pretok builds a PreTokenizedString from pieces given as struct literals of its own type.
func (p *pieces) pretok(st *State, l []piece) (Val, bool) {
	split, pt := p.c.typeNamed("", "Split"), p.c.typeNamed("", "PreTokenizedString")
	if split == nil || pt == nil {
		return nil, false
	}
	var vs []Val
	for _, x := range l {
		f := map[string]Val{}
		u := split.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			switch fl := u.Field(i); fl.Type().Underlying().(type) {
			case *types.Pointer:
				f[fl.Name()] = p.ns(st, x.label)
			case *types.Slice:
				if x.toks == "" {
					f[fl.Name()] = NilV{fl.Type()}
					continue
				}
				var ts []Val
				for _, id := range strings.Fields(x.toks) {
					n := int64(0)
					fmt.Sscan(id, &n)
					ts = append(ts, p.tok(st, n, x.label))
				}
				f[fl.Name()] = p.toks(st, ts...)
			}
		}
		vs = append(vs, p.en.mkStruct("split", split, f))
	}
	f := map[string]Val{}
	u := pt.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
			f[u.Field(i).Name()] = p.en.mkSlice(st, split, vs...)
		}
	}
	return p.en.cell(st, p.en.mkStruct("pretok", pt, f)), true
}

// result lists the pieces of a PreTokenizedString.
func (p *pieces) result(st *State, v Val) ([]piece, string) {
	x, ok := p.en.force(v).(Ptr)
	if !ok {
		return nil, "pieces unknown"
	}
	s, ok := p.en.load(st, x).(Struct)
	if !ok {
		return nil, "pieces unknown"
	}
	for _, f := range s.f {
		sl, ok := p.en.force(f).(Slice)
		if !ok {
			if n, isNil := p.en.force(f).(NilV); isNil {
				if _, isS := n.typ.Underlying().(*types.Slice); isS {
					return nil, ""
				}
			}
			continue
		}
		vs, ok := unitVals(p.en.content(st, sl))
		if !ok {
			return nil, "pieces unknown: " + clipS(segsKey(p.en.content(st, sl)), 80)
		}
		var out []piece
		for _, y := range vs {
			sp, ok := p.en.force(y).(Struct)
			if !ok {
				return nil, "piece unknown"
			}
			var pc piece
			for _, g := range sp.f {
				switch z := p.en.force(g).(type) {
				case Ptr:
					l, ok := p.labelOf(z)
					if !ok {
						return nil, "text of a piece unknown"
					}
					pc.label = l
				case NilV:
				case Slice:
					ts, ok := unitVals(p.en.content(st, z))
					if !ok {
						return nil, "tokens of a piece unknown"
					}
					var ids []string
					for _, t := range ts {
						tv, ok := p.en.force(t).(Struct)
						if !ok {
							return nil, "token unknown"
						}
						id, _ := field(tv, "Id")
						ids = append(ids, st.norm(p.en.toInt(p.en.force(id))).key())
					}
					pc.toks = strings.Join(ids, " ")
					if len(ids) == 0 {
						pc.toks = "empty"
					}
				default:
					return nil, "piece unknown"
				}
			}
			out = append(out, pc)
		}
		return out, ""
	}
	return nil, "pieces unknown"
}

func showPieces(l []piece) string {
	var s []string
	for _, x := range l {
		s = append(s, x.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

var e07In = [][]piece{
	{{"a", ""}, {"T", "7"}, {"b", ""}},
	{{"T", "7"}},
	{{"T", "7"}, {"U", "8 9"}, {"a", ""}},
	{{"a", ""}, {"b", ""}},
	{},
}

func e07(c *Ctx, r *Rep) {
	dyn := func(n string) string { return "dynamic:" + n }
	compare := func(r *Rep, fn *ssa.Function, key string, p *pieces, outs []Outcome, err string, want []piece) {
		v := &vv{}
		paths := 0
		for _, o := range outs {
			if o.kind == "panic" || o.kind == "exit" {
				v.b("ends in a %s: %s", o.kind, o.why)
				continue
			}
			if o.kind != "ret" || len(o.ret) == 0 {
				continue
			}
			if len(o.ret) > 1 {
				if (&cfgEnv{c: c, en: p.en}).errState(o.st, o.ret[1]) == 0 {
					continue // the error is returned
				}
			}
			got, und := p.result(o.st, o.ret[0])
			if und != "" {
				v.u("%s", und)
				continue
			}
			paths++
			if showPieces(got) != showPieces(want) {
				v.b("pieces %s expected, got %s", showPieces(want), showPieces(got))
			}
		}
		for _, l := range p.seen {
			if l == "T" || l == "U" {
				v.b("the piece %s, which already carries tokens, is processed again", l)
			}
		}
		r.Add("stages interpreted", 1)
		v.settle(r, "pieces", key, fn.Pos(), paths, err)
	}
	see := func(p *pieces, v Val) string {
		l, _ := p.labelOf(v)
		p.seen = append(p.seen, l)
		return l
	}
	// Split, Normalize, Tokenize
	for _, m := range []string{"Split", "Normalize", "Tokenize"} {
		fn := c.lookup("", "PreTokenizedString."+m)
		if fn == nil {
			r.Missing("PreTokenizedString." + m)
			continue
		}
		for _, in := range e07In {
			p := newPieces(c)
			pt, ok := p.pretok(p.st, in)
			if !ok {
				r.Missing("PreTokenizedString")
				return
			}
			ft := fn.Params[1].Type()
			f := Term{"stage", ft}
			p.st.assume(nilTest(p.en, f), false)
			var want []piece
			switch m {
			case "Split":
				si := c.typeNamed("", "SplitIdx")
				if si == nil {
					r.Missing("SplitIdx")
					return
				}
				p.en.hooks[dyn("stage")] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
					l := see(p, args[1])
					mk := func(s string, t Val) Val {
						return en.mkStruct("si", si, map[string]Val{"Normalized": p.ns(st, s), "Tokens": t})
					}
					nt := NilV{types.NewSlice(c.typeNamed("", "Token"))}
					return retOne(st, en.mkSlice(st, si, mk(l+"1", nt), mk(l+"2", p.toks(st, p.tok(st, 5, l))), mk(l+"3", nt)))
				}
				for _, x := range in {
					if x.toks != "" {
						want = append(want, x)
					} else {
						want = append(want, piece{x.label + "1", ""}, piece{x.label + "2", "5"}, piece{x.label + "3", ""})
					}
				}
			case "Normalize":
				p.en.hooks[dyn("stage")] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
					return retOne(st, p.ns(st, "n("+see(p, args[0])+")"))
				}
				for _, x := range in {
					if x.toks == "" {
						x.label = "n(" + x.label + ")"
					}
					want = append(want, x)
				}
			case "Tokenize":
				p.en.hooks[dyn("stage")] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
					l := see(p, args[0])
					return retOne(st, p.toks(st, p.tok(st, 3, l), p.tok(st, 4, l)), NilV{errType})
				}
				for _, x := range in {
					if x.toks == "" {
						x.toks = "3 4"
					}
					want = append(want, x)
				}
			}
			outs, err := p.en.safeRun(fn, []Val{pt, f}, p.st)
			compare(r, fn, m+"|"+showPieces(in), p, outs, err, want)
		}
	}
	// every pre-tokenizer leaves pieces with tokens alone
	for _, fn := range c.methodsNamed("PreTokenize") {
		p := newPieces(c)
		in := []piece{{"T", "7"}, {"U", "8 9"}}
		pt, ok := p.pretok(p.st, in)
		if !ok {
			return
		}
		// the pre-tokenizers a sequence consists of are covered one by one
		p.en.hooks["invoke tokenizer.PreTokenizer.PreTokenize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			return retOne(st, args[1], NilV{errType})
		}
		args := p.en.symArgs(fn, true)
		args[1] = pt
		outs, err := p.en.safeRun(fn, args, p.st)
		compare(r, fn, fname(fn)+"|"+showPieces(in), p, outs, err, in)
	}
	e07extract(c, r)
	e07encoding(c, r)
	r.Min("stages interpreted", 25)
}

// methodsNamed lists the methods of that name declared in the module outside examples.
func (c *Ctx) methodsNamed(name string) (l []*ssa.Function) {
	for _, fn := range c.Funcs {
		if fn.Name() == name && fn.Signature.Recv() != nil && fn.Synthetic == "" && fn.Parent() == nil && !strings.Contains(fnPkgPath(fn), "/example") {
			l = append(l, fn)
		}
	}
	return
}

// e07extract: recognised text keeps its token through the extraction, in text order.
func e07extract(c *Ctx, r *Rep) {
	fn := c.lookup("", "AddedVocabulary.ExtractAndNormalize")
	if fn == nil {
		r.Missing("AddedVocabulary.ExtractAndNormalize")
		return
	}
	type hit struct {
		tok  string
		a, b int
	}
	type ecase struct {
		name string
		raw  []hit // matches of raw tokens in the input
		norm []hit // matches of normalized tokens in the rest
		want string
	}
	// tokens x,y,z are raw (added in this order), n is normalized
	cs := []ecase{
		{name: "nothing recognised", want: "[norm(S)]"},
		{name: "in order of addition", raw: []hit{{"x", 1, 2}, {"y", 3, 4}}, want: "[N[0:1] S[1:2]{x} N[2:3] S[3:4]{y} N[4:]]"},
		{name: "in reverse order of addition", raw: []hit{{"x", 3, 4}, {"y", 1, 2}}, want: "[N[0:1] S[1:2]{y} N[2:3] S[3:4]{x} N[4:]]"},
		{name: "repeated and mixed", raw: []hit{{"x", 0, 1}, {"x", 5, 6}, {"y", 2, 3}, {"z", 1, 2}}, want: "[S[0:1]{x} S[1:2]{z} S[2:3]{y} N[3:5] S[5:6]{x} N[6:]]"},
		{name: "at the start", raw: []hit{{"x", 0, 2}}, want: "[S[0:2]{x} N[2:]]"},
		{name: "one token twice", raw: []hit{{"x", 0, 2}, {"x", 4, 6}}, want: "[S[0:2]{x} N[2:4] S[4:6]{x} N[6:]]"},
		{name: "normalized token", norm: []hit{{"n", 1, 3}}, want: "[norm(S)[0:1] norm(S)[1:3]{n} norm(S)[3:]]"},
		{name: "overlapping", raw: []hit{{"x", 1, 4}, {"y", 2, 5}}},
		{name: "overlapping the other way round", raw: []hit{{"x", 2, 5}, {"y", 1, 4}, {"z", 6, 7}}},
		{name: "one within the other", raw: []hit{{"x", 2, 3}, {"y", 1, 4}, {"z", 4, 6}}},
		{name: "two at one place", raw: []hit{{"x", 1, 2}, {"y", 1, 4}, {"z", 7, 8}}},
		{name: "three tokens in decreasing order", raw: []hit{{"z", 1, 2}, {"y", 3, 4}, {"x", 6, 7}}, want: "[N[0:1] S[1:2]{z} N[2:3] S[3:4]{y} N[4:6] S[6:7]{x} N[7:]]"},
	}
	for _, ec := range cs {
		s, st := newScript(c, map[string]*Poly{"m0": pc(0)})
		p := &pieces{c: c, en: s.en, st: st, label: map[int]string{}}
		base := newPieces(c)
		for k, h := range base.en.hooks {
			if s.en.hooks[k] == nil {
				s.en.hooks[k] = h
			}
		}
		// the hooks close over base: share its labels and engine state
		base.en = s.en
		p = base
		idOf := map[string]string{}
		s.en.hooks[rx+".NewRegexpSet"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			pt, ok := cc.Signature().Results().At(0).Type().(*types.Pointer)
			if !ok {
				return nil, false
			}
			n, ok := pt.Elem().(*types.Named)
			if !ok {
				return nil, false
			}
			d := (&cfgEnv{c: c, en: en}).dump(st, args[0], 0)
			return retOne(st, en.cell(st, en.mkStruct("set:"+d+":", n, nil)), NilV{errType})
		}
		setOf := func(v Val) (string, []string, bool) {
			k := v.key()
			i := strings.Index(k, "set:")
			if i < 0 {
				return "", nil, false
			}
			k = k[i+4:]
			j := strings.Index(k, ":")
			if j < 0 {
				return "", nil, false
			}
			return k[:j], strings.Fields(strings.Trim(k[:j], "[]")), true
		}
		// the n-th pattern belongs to the token it quotes
		tokOf := func(pat string) string {
			for _, t := range []string{"x", "y", "z", "n"} {
				if strings.Contains(pat, quote(t)) {
					return t
				}
			}
			return "?"
		}
		isRaw := func(sentence string) bool { return strings.HasPrefix(sentence, "text(raw(") }
		hits := func(sentence string) []hit {
			if isRaw(sentence) {
				return ec.raw
			}
			if len(ec.raw) == 0 {
				return ec.norm
			}
			return nil
		}
		v := &vv{}
		s.en.hooks["("+rx+".RegexpSet).Matches"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			_, pats, ok := setOf(args[0])
			if !ok {
				return nil, false
			}
			n, ok := cc.Signature().Results().At(0).Type().(*types.Named)
			if !ok {
				return nil, false
			}
			for _, q := range pats {
				if t := tokOf(q); t == "n" && isRaw(args[1].key()) {
					v.b("tokens to be matched in normalized text are matched in the raw text")
				} else if t != "n" && t != "?" && !isRaw(args[1].key()) {
					v.b("tokens to be matched in the raw text are matched in normalized text")
				}
			}
			return retOne(st, en.mkStruct("hits:"+strings.Join(pats, " ")+"@"+args[1].key()+":", n, nil))
		}
		s.en.hooks["("+rx+".SetMatches).Matches"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			k := args[0].key()
			i := strings.Index(k, "hits:")
			if i < 0 {
				return nil, false
			}
			k = k[i+5:]
			at := strings.Index(k, "@")
			end := strings.Index(k[at+1:], ":")
			if at < 0 || end < 0 {
				return nil, false
			}
			var vs []Val
			for j, q := range strings.Fields(k[:at]) {
				for _, h := range hits(k[at+1:]) {
					if h.tok == tokOf(q) {
						vs = append(vs, Int{pc(int64(j))})
						break
					}
				}
			}
			return retOne(st, en.mkSlice(st, types.Typ[types.Int], vs...))
		}
		s.en.hooks["("+rx+".RegexpSet).Patterns"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			_, pats, ok := setOf(args[0])
			if !ok {
				return nil, false
			}
			var vs []Val
			for _, q := range pats {
				vs = append(vs, Term{q, strT})
			}
			return retOne(st, en.mkSlice(st, strT, vs...))
		}
		s.en.hooks["(*regexp.Regexp).FindAllStringIndex"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			t := tokOf(en.argKey(st, args[0]))
			if t == "?" {
				return nil, false
			}
			var vs []Val
			for _, h := range hits(args[1].key()) {
				if h.tok == t {
					vs = append(vs, en.mkSlice(st, types.Typ[types.Int], Int{pc(int64(h.a))}, Int{pc(int64(h.b))}))
				}
			}
			return retOne(st, en.mkSlice(st, types.NewSlice(types.Typ[types.Int]), vs...))
		}
		s.en.hooks["invoke tokenizer.PreTokenizer.PreTokenize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			return retOne(st, args[1], NilV{errType})
		}
		s.en.hooks["invoke tokenizer.Model.Tokenize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			t := en.mkStruct("token", c.typeNamed("", "Token"), map[string]Val{"Id": Int{pa("id(" + args[1].key() + ")")}, "Value": args[1]})
			return retOne(st, p.toks(st, t), NilV{errType})
		}
		paths := 0
		s.start(st, func(st *State) {
			s.steps(st, []vstep{{false, []atok{{"x", false}, {"y", false}, {"z", false}, {"n", true}}, -1}}, v, func(st *State) {
				for _, t := range []string{"x", "y", "z", "n"} {
					s.do(st, "", "Tokenizer.TokenToId", []Val{s.tk, strVal(t)}, func(st *State, ret []Val) {
						if i, ok := ret[0].(Int); ok {
							idOf[i.p.key()] = t
						}
					})
				}
				nt := c.typeNamed("normalizer", "Normalizer")
				n := Term{"normalizer", nt}
				st.assume(nilTest(s.en, n), false)
				s.do(st, "", "AddedVocabulary.ExtractAndNormalize", []Val{s.av(), Term{"input", strT}, n}, func(st *State, ret []Val) {
					got, und := p.result(st, ret[0])
					if und != "" {
						v.u("%s", und)
						return
					}
					paths++
					for i := range got {
						if t, ok := idOf[got[i].toks]; ok {
							got[i].toks = t
						}
					}
					g := showPieces(got)
					// a piece without token is normalized, as one whole
					g = strings.ReplaceAll(g, "raw(input)", "S")
					g = normRx.ReplaceAllString(g, "N$1")
					g = strings.ReplaceAll(g, ":len(text(S))]", ":]")
					g = strings.ReplaceAll(g, ":len(text(norm(S)))]", ":]")
					if ec.want == "" {
						if strings.Contains(g, "@") || strings.Contains(g, "‹") {
							v.u("pieces unknown: %s", g)
							return
						}
						at, lost := "0", false
						for _, x := range strings.Fields(g[1 : len(g)-1]) {
							m := rangeRx.FindStringSubmatch(x)
							if m == nil || m[1] != at {
								lost = true
								break
							}
							at = m[2]
							if m[3] == "" {
								continue
							}
							ok := false
							for _, h := range ec.raw {
								ok = ok || m[0] == fmt.Sprintf("[%d:%d]{%s}", h.a, h.b, h.tok)
							}
							if !ok {
								v.b("%s is no match of that token, the pieces are %s", m[0], g)
							}
						}
						if lost || at != "" {
							v.b("the pieces %s do not cover the text", g)
						}
					} else if g != ec.want {
						if strings.Contains(g, "@") || strings.Contains(g, "‹") {
							v.u("pieces unknown: %s", g)
						} else {
							v.b("the pieces are %s, expected %s", g, ec.want)
						}
					}
					// the same through the whole encoding
					var want []string
					for _, x := range got {
						if x.toks == "" {
							want = append(want, "id(text("+x.label+"))")
							continue
						}
						for id, t := range idOf {
							if t == x.toks {
								want = append(want, id)
							}
						}
					}
					encode := func(st *State) {
						s.do(st, "", "NewRawInputSequence", []Val{Term{"input", strT}}, func(st *State, in []Val) {
							s.do(st, "", "Tokenizer.EncodeSingleSequence", []Val{s.tk, in[0], Int{pa("typeId")}, Int{pc(0)}}, func(st *State, ret []Val) {
								e := &cfgEnv{c: c, en: s.en}
								if e.errState(st, ret[1]) == 0 {
									return
								}
								d, why := e.at(st, ret[0], "Ids")
								if why != "" {
									v.u("%s", why)
									return
								}
								if g, w := e.dump(st, d, 0), "["+strings.Join(want, " ")+"]"; g != w {
									if opaqueTerm(g) || mentionsHole(g) {
										v.u("ids unknown: %s", clipS(g, 80))
									} else {
										v.b("the pieces are %s, but the encoding has the ids %s", showPieces(got), g)
									}
								}
							})
						})
					}
					s.do(st, "", "Tokenizer.WithNormalizer", []Val{s.tk, n}, func(st *State, _ []Val) {
						encode(st.clone())
						pt := Term{"pretok", c.typeNamed("", "PreTokenizer")}
						st.assume(nilTest(s.en, pt), false)
						s.do(st, "", "Tokenizer.WithPreTokenizer", []Val{s.tk, pt}, func(st *State, _ []Val) { encode(st) })
					})
				})
			})
		})
		r.Add("stages interpreted", 1)
		v.settle(r, "recognised text", ec.name, fn.Pos(), paths, s.err)
	}
}

// e07encoding: the encoding built from the pieces has the tokens of all pieces in order.
func e07encoding(c *Ctx, r *Rep) {
	fn := c.lookup("", "PreTokenizedString.IntoEncoding")
	if fn == nil {
		r.Missing("PreTokenizedString.IntoEncoding")
		return
	}
	for _, in := range [][]piece{{{"a", "1 2"}, {"T", "7"}, {"b", "3"}}, {{"T", "7"}}, {{"T", "7"}, {"U", "8 9"}}} {
		p := newPieces(c)
		pt, _ := p.pretok(p.st, in)
		outs, err := p.en.safeRun(fn, []Val{pt, Int{pa("typeId")}, Int{pc(-1)}, Int{pc(0)}}, p.st)
		v := &vv{}
		paths := 0
		var want []string
		for _, x := range in {
			want = append(want, strings.Fields(x.toks)...)
		}
		for _, o := range outs {
			if o.kind != "ret" || (&cfgEnv{c: c, en: p.en}).errState(o.st, o.ret[1]) == 0 {
				continue
			}
			d, why := (&cfgEnv{c: c, en: p.en}).at(o.st, o.ret[0], "Ids")
			if why != "" {
				v.u("%s", why)
				continue
			}
			paths++
			g := (&cfgEnv{c: c, en: p.en}).dump(o.st, d, 0)
			if exp := "[" + strings.Join(want, " ") + "]"; g != exp {
				if opaqueTerm(g) || mentionsHole(g) {
					v.u("ids unknown: %s", clipS(g, 80))
				} else {
					v.b("the pieces carry tokens %s, the encoding has %s", exp, g)
				}
			}
		}
		r.Add("stages interpreted", 1)
		v.settle(r, "encoding", showPieces(in), fn.Pos(), paths, err)
	}
}

func init() {
	props["E07"] = propMeta{run: e07,
		explain: "PreTokenizedString.Split, Normalize and Tokenize are interpreted abstractly on pieces with and without tokens around an unknown stage function: the function is handed exactly the pieces without tokens, its results take their place, and pieces with tokens stay as they are. Every PreTokenize method is interpreted on pieces that carry tokens and must return them unchanged. ExtractAndNormalize is interpreted for added tokens matched in, against and across the order of addition, repeated and overlapping: the pieces are in text order, cover the text, carry the token of their match, and only text without token is normalized; EncodeSingleSequence with and without pre-tokenizer then yields the tokens of all pieces in order.",
		assume:  []string{"the regular-expression packages report the matches of each pattern in text order", "NormalizedString.Slice returns the given part (N01)", "the text of a piece is not empty"},
	}
}
