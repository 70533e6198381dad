package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Q01: position queries of an encoding. Each query is interpreted on encodings with a known
// number of tokens, symbolic offsets and word indices, and known sequence ranges, for positions
// around the bounds (and symbolic words and characters); and on an encoding of unbounded length
// for the absence of crashes.

type qEnc struct {
	en    *Eng
	st    *State
	n     int
	words []*Poly // nil: no word indices
	ofs   [][2]*Poly
	seqs  map[int][]int
	ptr   Ptr

	unbounded bool
}

func newQEnc(c *Ctx, n int, words bool, seqs map[int][]int) *qEnc {
	enc := c.typeNamed("", "Encoding")
	rng := c.typeNamed("", "Range")
	if enc == nil || rng == nil {
		return nil
	}
	q := &qEnc{en: newEng(c), st: newState(), n: n, seqs: seqs}
	q.en.noMerge = true
	en, st := q.en, q.st
	intT := types.Typ[types.Int]
	fs := map[string]Val{}
	mk := func(name string, el types.Type, f func(i int) Val) {
		var l []Val
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		fs[name] = en.mkSlice(st, el, l...)
	}
	ints := func(name string) { mk(name, intT, func(i int) Val { return Int{pa(fmt.Sprintf("%s%d", name, i))} }) }
	for _, f := range []string{"Ids", "TypeIds", "SpecialTokenMask", "AttentionMask"} {
		ints(f)
	}
	mk("Tokens", strT, func(i int) Val { return Term{fmt.Sprintf("tok%d", i), strT} })
	mk("Offsets", types.NewSlice(intT), func(i int) Val {
		a, b := pa(fmt.Sprintf("from%d", i)), pa(fmt.Sprintf("to%d", i))
		q.ofs = append(q.ofs, [2]*Poly{a, b})
		st.ge = append(st.ge, a, b.sub(a))
		return en.mkSlice(st, intT, Int{a}, Int{b})
	})
	if words {
		mk("Words", intT, func(i int) Val {
			w := pa(fmt.Sprintf("word%d", i))
			q.words = append(q.words, w)
			st.ge = append(st.ge, w.addc(1))
			return Int{w}
		})
	} else {
		fs["Words"] = NilV{types.NewSlice(intT)}
	}
	mt := types.NewMap(intT, rng)
	o := &Obj{kind: 'm', mtyp: mt, label: "ranges"}
	for _, id := range sortedInts(seqs) {
		var l []Val
		for _, p := range seqs[id] {
			l = append(l, Int{pc(int64(p))})
		}
		o.ups = append(o.ups, mapUp{k: Int{pc(int64(id))}, v: en.mkSlice(st, intT, l...)})
	}
	fs["SequenceRanges"] = MapV{obj: en.newObj(st, o)}
	q.ptr = en.cell(st, en.mkStruct("enc", enc, fs))
	return q
}

func sortedInts(m map[int][]int) (l []int) {
	for i := 0; i < 100; i++ {
		if _, ok := m[i]; ok {
			l = append(l, i)
		}
	}
	return
}

var spanRx = regexp.MustCompile(`^len\(p:[^.\[\]]*\.Offsets\[[^\[\]]*\]\)$`)

type qCrash struct {
	pos token.Pos
	why string
}

// watch records indexing that is out of range in some member of the abstract state.
func (q *qEnc) watch(crash *[]qCrash) {
	q.en.onIndex = func(en *Eng, fn *ssa.Function, pos token.Pos, what string, idx, n *Poly, st *State) {
		if spanRx.MatchString(n.key()) || strings.Contains(idx.key(), ".SequenceRanges[") || q.unbounded && strings.Contains(idx.key()+n.key(), "‹") {
			return // a span has two entries; ranges hold positions of the encoding
		}
		up := n.sub(idx)
		if what != "slice" {
			up = up.addc(-1)
		}
		if judgeGE(st, idx) == -1 || judgeGE(st, up) == -1 {
			if !st.infeasible() {
				*crash = append(*crash, qCrash{pos, fmt.Sprintf("%s %s of %s%s", what, st.norm(idx).key(), st.norm(n).key(), traceStr(st))})
			}
		}
	}
}

func traceStr(st *State) string {
	if len(st.trace) == 0 {
		return ""
	}
	return " when " + clipS(strings.Join(st.trace, " and "), 160)
}

// what a query returned on one path
type qRes struct {
	st  *State
	ret []Val
}

func (q *qEnc) query(fn *ssa.Function, args ...Val) (rs []qRes, crash []qCrash, und string) {
	q.watch(&crash)
	outs, err := q.en.safeRun(fn, append([]Val{q.ptr}, args...), q.st.clone())
	if err != "" {
		return nil, crash, err
	}
	for _, o := range outs {
		switch o.kind {
		case "ret":
			rs = append(rs, qRes{o.st, o.ret})
		case "panic", "exit":
			crash = append(crash, qCrash{fn.Pos(), o.kind + " " + o.why + traceStr(o.st)})
		}
	}
	return
}

// found: 1 the query says found, 0 not found, -1 unknown
func (r qRes) found(en *Eng) int {
	v := en.force(r.ret[len(r.ret)-1])
	if len(r.ret) > 0 {
		if b, ok := r.st.decide(v); ok {
			if b {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (q *qEnc) tag() string {
	w := "words"
	if q.words == nil {
		w = "no words"
	}
	return fmt.Sprintf("%d tokens, %s, ranges %v", q.n, w, q.seqs)
}

func q01(c *Ctx, r *Rep) {
	type setup struct {
		n     int
		words bool
		seqs  map[int][]int
	}
	setups := []setup{
		{0, true, nil}, {1, true, nil}, {3, true, nil}, {3, false, nil},
		{3, true, map[int][]int{0: {0, 1, 2}}},
		{4, true, map[int][]int{0: {1, 2}}},
		{4, true, map[int][]int{0: {0, 1}, 1: {2, 3}}},
		{5, false, map[int][]int{0: {1}, 1: {3}}},
	}
	type job struct {
		name string
		f    func(fn *ssa.Function, r *Rep)
	}
	var jobs []job
	each := func(name string, f func(q *qEnc, fn *ssa.Function, r *Rep, key string)) {
		jobs = append(jobs, job{name, func(fn *ssa.Function, r *Rep) {
			for _, s := range setups {
				q := newQEnc(c, s.n, s.words, s.seqs)
				if q == nil {
					r.Missing("Encoding")
					return
				}
				f(q, fn, r, name+"|"+q.tag())
			}
		}})
	}
	// judge folds the verdicts of all paths of one query
	type verdict struct{ bad, und string }
	settle := func(r *Rep, q *qEnc, fn *ssa.Function, key string, v verdict, crash []qCrash, und string, okmsg string) {
		r.Add("queries interpreted", 1)
		switch {
		case len(crash) > 0:
			r.Bad("answer", key, crash[0].pos, "the query crashes: "+crash[0].why)
		case v.bad != "":
			r.Bad("answer", key, fn.Pos(), v.bad)
		case und != "" || v.und != "":
			r.Undecided("answer", key, und+v.und)
		default:
			r.OK("answer", key, fn.Pos(), okmsg)
		}
	}
	eq := func(st *State, v Val, p *Poly) int {
		i, ok := v.(Int)
		if !ok {
			return 0
		}
		return judgeEQ(st, i.p.sub(p))
	}
	positions := func(n int) (l []int) {
		for p := -2; p <= n+2; p++ {
			l = append(l, p)
		}
		return
	}
	span := func(q *qEnc, st *State, v Val, a, b *Poly) int {
		s, ok := q.en.force(v).(Slice)
		if !ok {
			return 0
		}
		vs, ok := unitVals(q.en.content(st, s))
		if !ok {
			return 0
		}
		if len(vs) != 2 {
			return -1
		}
		x, y := eq(st, vs[0], a), eq(st, vs[1], b)
		if x < 0 || y < 0 {
			return -1
		}
		return x * y
	}
	posQuery := func(name string, exists func(q *qEnc, p int) (bool, bool), right func(q *qEnc, st *State, ret []Val, p int) int) {
		each(name, func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
			for _, p := range positions(q.n) {
				var v verdict
				rs, crash, und := q.query(fn, Int{pc(int64(p))})
				for _, x := range rs {
					want, cond := exists(q, p)
					got := x.found(q.en)
					switch {
					case got < 0:
						v.und = "found or not unknown"
					case got == 1 && !want:
						v.bad = fmt.Sprintf("position %d does not exist and is answered with %s", p, q.en.show(x.st, x.ret[0], 0, map[int]bool{}))
					case got == 0 && want && !cond:
						v.bad = fmt.Sprintf("position %d exists and is answered not-found", p)
					case got == 1:
						switch right(q, x.st, x.ret, p) {
						case -1:
							v.bad = fmt.Sprintf("position %d is answered with %s%s", p, q.en.show(x.st, x.ret[0], 0, map[int]bool{}), traceStr(x.st))
						case 0:
							v.und = "value of the answer unknown"
						}
					case want && cond && right(q, x.st, nil, p) < 0:
						v.bad = fmt.Sprintf("position %d has a value and is answered not-found%s", p, traceStr(x.st))
					}
				}
				settle(r, q, fn, fmt.Sprintf("%s|position %d", key, p), v, crash, und, "right answer or not-found on every path")
			}
		})
	}
	in := func(q *qEnc, p int) bool { return p >= 0 && p < q.n }
	posQuery("Token2Chars", func(q *qEnc, p int) (bool, bool) { return in(q, p), false }, func(q *qEnc, st *State, ret []Val, p int) int {
		if ret == nil {
			return 0
		}
		return span(q, st, ret[0], q.ofs[p][0], q.ofs[p][1])
	})
	posQuery("Token2Word", func(q *qEnc, p int) (bool, bool) { return in(q, p) && q.words != nil, true }, func(q *qEnc, st *State, ret []Val, p int) int {
		if ret == nil { // not found although the token exists: it must have no word
			return neg(judgeGE(st, q.words[p].neg().addc(-1)))
		}
		if k := judgeGE(st, q.words[p]); k < 0 {
			return -1 // a token without a word
		}
		return eq(st, ret[0], q.words[p])
	})
	posQuery("Token2Sequence", func(q *qEnc, p int) (bool, bool) { return in(q, p) && q.seqOf(p) >= 0, false }, func(q *qEnc, st *State, ret []Val, p int) int {
		if ret == nil {
			return 0
		}
		return eq(st, ret[0], pc(int64(q.seqOf(p))))
	})
	each("Word2Tokens", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		if q.n > 4 {
			return
		}
		w := pa("asked")
		var v verdict
		rs, crash, und := q.query(fn, Int{w})
		for _, x := range rs {
			switch x.found(q.en) {
			case -1:
				v.und = "found or not unknown"
			case 0:
				for i, wi := range q.words {
					if satisfiable(x.st, w, wi.sub(w), w.sub(wi)) {
						v.bad = fmt.Sprintf("token %d can be the word and is not found%s", i, traceStr(x.st))
					}
				}
			case 1:
				if m := q.badTokens(x.st, x.ret[0], x.ret[1], w); strings.HasPrefix(m, "?") {
					v.und = m
				} else if m != "" {
					v.bad = m + traceStr(x.st)
				}
			}
		}
		settle(r, q, fn, key, v, crash, und, "exactly the tokens of the word")
	})
	each("Word2Chars", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		if q.n > 4 {
			return
		}
		w := pa("asked")
		var v verdict
		rs, crash, und := q.query(fn, Int{w})
		for _, x := range rs {
			switch x.found(q.en) {
			case -1:
				v.und = "found or not unknown"
			case 1:
				s, ok := q.en.force(x.ret[0]).(Slice)
				if !ok {
					v.und = "span unknown"
					continue
				}
				vs, ok := unitVals(q.en.content(x.st, s))
				if !ok || len(vs) != 2 {
					v.und = "span unknown"
					continue
				}
				a, b := -1, -1
				for i := range q.ofs {
					if eq(x.st, vs[0], q.ofs[i][0]) == 1 && a < 0 {
						a = i
					}
					if eq(x.st, vs[1], q.ofs[i][1]) == 1 {
						b = i
					}
				}
				if a < 0 || b < 0 {
					if eq(x.st, vs[0], pc(0)) == 1 && eq(x.st, vs[1], pc(0)) == 1 {
						v.bad = "the span (0,0) is answered as found"
					} else if none := func(k int) bool { // provably no token's bound
						for i := range q.ofs {
							if eq(x.st, vs[k], q.ofs[i][k]) >= 0 {
								return false
							}
						}
						return true
					}; none(0) || none(1) {
						v.bad = fmt.Sprintf("the span (%s,%s) is not that of the word's tokens%s", vs[0].key(), vs[1].key(), traceStr(x.st))
					} else {
						v.und = "span not one of the tokens'"
					}
					continue
				}
				if m := q.badTokens(x.st, Int{pc(int64(a))}, Int{pc(int64(b + 1))}, w); strings.HasPrefix(m, "?") {
					v.und = m
				} else if m != "" {
					v.bad = m + traceStr(x.st)
				}
			case 0:
				for i, wi := range q.words {
					if satisfiable(x.st, w, wi.sub(w), w.sub(wi)) {
						v.bad = fmt.Sprintf("token %d can be the word and is not found%s", i, traceStr(x.st))
					}
				}
			}
		}
		settle(r, q, fn, key, v, crash, und, "the span of the word's tokens")
	})
	each("Char2Token", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		ch := pa("asked")
		var v verdict
		rs, crash, und := q.query(fn, Int{ch})
		for _, x := range rs {
			switch x.found(q.en) {
			case -1:
				v.und = "found or not unknown"
			case 0:
				for i := range q.ofs {
					if satisfiable(x.st, ch.sub(q.ofs[i][0]), q.ofs[i][1].sub(ch).addc(-1)) {
						v.bad = fmt.Sprintf("the character can lie in token %d and is not found%s", i, traceStr(x.st))
					}
				}
			case 1:
				i, ok := x.ret[0].(Int)
				if !ok {
					v.und = "token unknown"
					continue
				}
				k, ok := x.st.norm(i.p).konst()
				if !ok || k < 0 || int(k) >= q.n {
					v.bad = "answered with token " + i.p.key()
					continue
				}
				if judgeGE(x.st, ch.sub(q.ofs[k][0])) < 0 || judgeGE(x.st, q.ofs[k][1].sub(ch).addc(-1)) < 0 {
					v.bad = fmt.Sprintf("answered with token %d, which need not contain the character%s", k, traceStr(x.st))
				}
			}
		}
		settle(r, q, fn, key, v, crash, und, "a token containing the character")
	})
	each("Char2Word", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		ch := pa("asked")
		var v verdict
		rs, crash, und := q.query(fn, Int{ch})
		for _, x := range rs {
			switch x.found(q.en) {
			case -1:
				v.und = "found or not unknown"
			case 1:
				i, ok := x.ret[0].(Int)
				if !ok {
					v.und = "word unknown"
					continue
				}
				ok = false
				for k := range q.ofs {
					if q.words != nil && eq(x.st, i, q.words[k]) == 1 && judgeGE(x.st, ch.sub(q.ofs[k][0])) >= 0 && judgeGE(x.st, q.ofs[k][1].sub(ch).addc(-1)) >= 0 {
						ok = true
						if judgeGE(x.st, q.words[k]) < 0 {
							v.bad = "a token without a word is answered as found" + traceStr(x.st)
						}
					}
				}
				if !ok {
					v.bad = "answered with word " + i.p.key() + traceStr(x.st)
				}
			case 0:
				for k := range q.ofs {
					if q.words == nil {
						continue
					}
					facts := []*Poly{ch.sub(q.ofs[k][0]), q.ofs[k][1].sub(ch).addc(-1)}
					facts = append(facts, q.words...) // every token has a word
					if satisfiable(x.st, facts...) {
						v.bad = fmt.Sprintf("the character can lie in token %d and is not found%s", k, traceStr(x.st))
					}
				}
			}
		}
		settle(r, q, fn, key, v, crash, und, "the word of a token containing the character")
	})
	each("SequenceRange", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		for id := -1; id <= 3; id++ {
			var v verdict
			rs, crash, und := q.query(fn, Int{pc(int64(id))})
			for _, x := range rs {
				want, has := q.seqs[id]
				single := len(q.seqs) == 0 && id == 0
				e := &cfgEnv{c: c, en: q.en}
				switch e.errState(x.st, x.ret[len(x.ret)-1]) {
				case -1:
					v.und = "error unknown"
				case 0:
					if has {
						v.bad = fmt.Sprintf("sequence %d exists and is refused", id)
					}
				case 1:
					if !has && !single {
						v.bad = fmt.Sprintf("sequence %d does not exist and is answered", id)
						continue
					}
					s, ok := q.en.force(x.ret[0]).(Slice)
					if !ok {
						v.und = "range unknown"
						continue
					}
					vs, ok := unitVals(q.en.content(x.st, s))
					if !ok {
						v.und = "range unknown"
						continue
					}
					if single {
						continue
					}
					if len(vs) != len(want) {
						v.bad = fmt.Sprintf("sequence %d covers %d tokens, the answer %d", id, len(want), len(vs))
						continue
					}
					for i, y := range vs {
						switch eq(x.st, y, pc(int64(want[i]))) {
						case -1:
							v.bad = fmt.Sprintf("token %d of sequence %d answered as %s", want[i], id, y.key())
						case 0:
							v.und = "range unknown"
						}
					}
				}
			}
			settle(r, q, fn, fmt.Sprintf("%s|sequence %d", key, id), v, crash, und, "the tokens of the sequence or an error")
		}
	})
	each("GetSequenceIds", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		var v verdict
		rs, crash, und := q.query(fn)
		for _, x := range rs {
			s, ok := q.en.force(x.ret[0]).(Slice)
			if !ok {
				v.und = "list unknown"
				continue
			}
			if judgeEQ(x.st, s.n.addc(int64(-q.n))) < 0 {
				v.bad = fmt.Sprintf("%s sequence ids for %d tokens", x.st.norm(s.n).key(), q.n)
				continue
			}
			vs, ok := unitVals(q.en.content(x.st, s))
			if !ok {
				v.und = "list unknown"
				continue
			}
			for p, y := range vs {
				if q.seqOf(p) < 0 {
					continue
				}
				switch eq(x.st, y, pc(int64(q.seqOf(p)))) {
				case -1:
					v.bad = fmt.Sprintf("token %d is of sequence %d, listed as %s", p, q.seqOf(p), y.key())
				case 0:
					v.und = "list unknown"
				}
			}
		}
		settle(r, q, fn, key, v, crash, und, "one id per token, each its own sequence")
	})
	each("NSequences", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		var v verdict
		rs, crash, und := q.query(fn)
		want := len(q.seqs)
		if want == 0 {
			want = 1
		}
		for _, x := range rs {
			switch eq(x.st, x.ret[0], pc(int64(want))) {
			case -1:
				v.bad = fmt.Sprintf("%d sequences answered as %s", want, x.ret[0].key())
			case 0:
				v.und = "number unknown"
			}
		}
		settle(r, q, fn, key, v, crash, und, "number of sequences")
	})
	// after truncation, the ranges only mention tokens that are left
	each("Truncate", func(q *qEnc, fn *ssa.Function, r *Rep, key string) {
		if q.n < 3 || q.words == nil {
			return
		}
		for _, keep := range []int{1, 2} {
			var v verdict
			rs, crash, und := q.query(fn, Int{pc(int64(keep))}, Int{pc(0)})
			for _, x := range rs {
				sv, _ := field(q.en.load(x.st, q.ptr).(Struct), "SequenceRanges")
				mv, ok := q.en.force(sv).(MapV)
				if !ok {
					continue
				}
				o := q.en.get(x.st, mv.obj)
				for _, u := range o.ups {
					s, ok := q.en.force(u.v).(Slice)
					if !ok || u.gen != nil {
						v.und = "ranges unknown"
						continue
					}
					vs, ok := unitVals(q.en.content(x.st, s))
					if !ok {
						v.und = "ranges unknown"
						continue
					}
					for _, y := range vs {
						if i, ok := y.(Int); ok && judgeGE(x.st, pc(int64(keep-1)).sub(i.p)) < 0 {
							v.bad = fmt.Sprintf("truncated to %d tokens, sequence %s still covers token %s", keep, u.k.key(), i.p.key())
						}
					}
				}
			}
			settle(r, q, fn, fmt.Sprintf("%s|to %d", key, keep), v, crash, und, "ranges mention only the tokens kept")
		}
	})
	r.parallel(len(jobs), func(i int, sub *Rep) {
		fn := c.lookup("", "Encoding."+jobs[i].name)
		if fn == nil {
			sub.Missing("(*Encoding)." + jobs[i].name)
			return
		}
		jobs[i].f(fn, sub)
		q01unbounded(c, sub, fn)
	})
	r.Min("queries interpreted", 150)
}

// q01unbounded: on an encoding of any length, with any argument, nothing is indexed out of range.
func q01unbounded(c *Ctx, r *Rep, fn *ssa.Function) {
	if fn.Name() == "Truncate" {
		return
	}
	en := newEng(c)
	q := &qEnc{en: en, st: newState(), unbounded: true}
	var crash []qCrash
	q.watch(&crash)
	args := en.symArgs(fn, true)
	outs, err := en.safeRun(fn, args, q.st)
	key := fn.Name() + "|any length"
	for _, o := range outs {
		if o.kind == "panic" || o.kind == "exit" {
			crash = append(crash, qCrash{fn.Pos(), o.kind + " " + o.why + traceStr(o.st)})
		}
	}
	r.Add("queries interpreted for any length", 1)
	switch {
	case len(crash) > 0:
		r.Bad("no crash", key, crash[0].pos, crash[0].why)
	case err != "":
		r.Undecided("no crash", key, err)
	default:
		r.OK("no crash", key, fn.Pos(), fmt.Sprintf("%d paths", len(outs)))
	}
}

func neg(k int) int {
	if k < 0 {
		return -1
	}
	return k
}

func (q *qEnc) seqOf(p int) int {
	if len(q.seqs) == 0 {
		if p >= 0 && p < q.n {
			return 0
		}
		return -1
	}
	for id, l := range q.seqs {
		for _, x := range l {
			if x == p {
				return id
			}
		}
	}
	return -1
}

// badTokens: the tokens [s,e) are not exactly a maximal run of tokens of word w.
func (q *qEnc) badTokens(st *State, sv, ev Val, w *Poly) string {
	s, ok1 := sv.(Int)
	e, ok2 := ev.(Int)
	if !ok1 || !ok2 {
		return "?tokens unknown"
	}
	a, ok1 := st.norm(s.p).konst()
	b, ok2 := st.norm(e.p).konst()
	if !ok1 || !ok2 {
		return "?tokens unknown"
	}
	if a < 0 || b > int64(len(q.words)) || a >= b {
		return fmt.Sprintf("answered with tokens [%d,%d) of %d", a, b, len(q.words))
	}
	if judgeGE(st, w) < 0 {
		return "tokens without a word are answered as a word"
	}
	for i := a; i < b; i++ {
		if judgeEQ(st, q.words[i].sub(w)) < 0 {
			return fmt.Sprintf("tokens [%d,%d) are answered, token %d need not belong to the word", a, b, i)
		}
	}
	for _, i := range []int64{a - 1, b} {
		if i >= 0 && i < int64(len(q.words)) {
			if refutable(st, q.words[i].sub(w), func(d int64) bool { return d != 0 }) {
				return fmt.Sprintf("tokens [%d,%d) are answered, token %d can belong to the word too", a, b, i)
			}
		}
	}
	return ""
}

func init() {
	props["Q01"] = propMeta{
		run:     q01,
		explain: "Each position query of an encoding is interpreted abstractly on encodings of 0 to 5 tokens with symbolic offsets and word indices, with and without word indices, with none, one or two sequence ranges, for every position from two before to two past the bounds and for symbolic words and characters: on every path the answer is not-found, or it is the entry of exactly that position (for words and characters: tokens whose word or span provably matches), and a position that exists is never answered not-found. No path indexes out of range. Every query is also interpreted on an encoding of unbounded length for out-of-range indexing. After truncation the sequence ranges mention only tokens that are left.",
		assume:  []string{"all per-token arrays of the encoding have one length (T01), words may be absent", "sequence ranges are lists of token positions below the length, disjoint and numbered from 0", "word indices are -1 (no word) or non-negative; spans have start <= end"},
	}
}
