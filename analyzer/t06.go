package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T06: the kept prefix and the overflow windows. T07: the strategies.

// satisfiable: some small member of the state fulfils the extra facts (all >= 0).
func satisfiable(st *State, extra ...*Poly) bool {
	s := st.clone()
	sum := pc(0)
	for _, e := range extra {
		if !s.assume(Cmp{">=0", e}, true) {
			return false
		}
		e.atoms(func(a string) { sum = sum.add(pa(a)) })
	}
	if s.infeasible() {
		return false
	}
	return refutable(s, sum, func(int64) bool { return false })
}

// decidedBy: every branch of the path was a comparison of known quantities.
func plainPath(st *State, allowNil bool) bool {
	for k := range st.truth {
		if allowNil && strings.HasPrefix(k, "nil:") {
			continue
		}
		if opaqueRx.MatchString(k) || !strings.HasPrefix(k, "nil:") {
			return false
		}
	}
	return true
}

func t06(c *Ctx, r *Rep) {
	n := 0
	for _, t := range c.tCases() {
		if t.kind != "trunc" {
			continue
		}
		n++
		if t.err != "" {
			r.Undecided("interpretation", t.id(), t.err)
			continue
		}
		if len(t.fn.Params) != 3 {
			r.Missing(t.id() + " with (max, stride)")
			continue
		}
		recv := "p:" + t.fn.Params[0].Name()
		maxL, stride := pa("p:"+t.fn.Params[1].Name()), pa("p:"+t.fn.Params[2].Name())
		N := pa("N(" + recv + ")")
		valid := []*Poly{maxL.addc(-1), stride, maxL.sub(stride).addc(-1)}
		for _, o := range t.outs {
			r.Add("outcomes", 1)
			if o.kind != "ret" {
				if o.kind == "panic" && plainPath(o.st, true) && satisfiable(o.st, append([]*Poly{N}, valid...)...) {
					r.Bad("valid truncation succeeds", t.id(), t.fn.Pos(), "panics for a valid maximum and stride ("+cond(o)+")")
				}
				continue
			}
			isErr := false
			if len(o.ret) > 1 {
				if d, ok := o.st.decide(nilTest(t.en, o.ret[len(o.ret)-1])); ok {
					isErr = !d
				} else {
					r.Undecided("result", t.id(), "error result undecided")
					continue
				}
			}
			if isErr {
				key := t.id() + " error"
				ws := t.en.views(o.st, t.args[0], "receiver", 0)
				if len(ws) == 1 && ws[0].owner == recv {
					r.OK("untouched on error", key, t.fn.Pos(), "the encoding is as before")
				} else if len(ws) >= 1 && ws[0].bad == "" {
					r.Bad("untouched on error", key, t.fn.Pos(), "the encoding has been changed although an error is returned ("+cond(o)+")")
				}
				if plainPath(o.st, true) && satisfiable(o.st, append([]*Poly{N}, valid...)...) {
					r.Bad("valid truncation succeeds", key, t.fn.Pos(), "reports an error for a valid maximum and stride ("+cond(o)+")")
				} else {
					r.OK("valid truncation succeeds", key, t.fn.Pos(), "error only for an invalid combination")
				}
				continue
			}
			for i, v := range valid {
				what := []string{"maximum >= 1", "stride >= 0", "stride < maximum"}[i]
				vv := judgeGE(o.st, v)
				if vv == -1 && !plainPath(o.st, true) {
					vv = 0
				}
				r.Judge(vv, "invalid combination is an error", t.id()+" "+what, t.fn.Pos(), "success implies "+what, "succeeds without "+what+" ("+cond(o)+")")
			}
			if o.st.infeasible() {
				continue
			}
			for _, v := range append([]Val{o.ret[0]}, t.args[0]) {
				w := t.en.view(o.st, v, "")
				where := "result"
				if v.key() == t.args[0].key() {
					where = "receiver"
				}
				key := t.id() + " " + where
				if w.bad != "" {
					r.Undecided("prefix", key, w.bad)
					continue
				}
				for _, f := range encOrder {
					k := key + " " + f
					ss := mergeS(w.st, w.segs[f])
					if len(ss) == 0 {
						r.Judge(judgeGE(o.st, N.neg()), "prefix", k, t.fn.Pos(), "empty", "is empty for an encoding of "+N.key()+" tokens ("+cond(o)+")")
						continue
					}
					if len(ss) != 1 || ss[0].kind != 'S' || opaqueRx.MatchString(ss[0].base) {
						r.Undecided("prefix", k, segsKey(ss))
						continue
					}
					s := ss[0]
					if s.base != recv+"."+f {
						r.Bad("prefix", k, t.fn.Pos(), "consists of "+s.String()+" ("+cond(o)+")")
						continue
					}
					r.Judge(judgeEQ(o.st, s.lo), "prefix start", k, t.fn.Pos(), "starts at 0", "starts at "+s.lo.key()+" ("+cond(o)+")")
					// n == min(max, N)
					v1, v2 := judgeEQ(o.st, s.n.sub(maxL)), judgeEQ(o.st, s.n.sub(N))
					switch {
					case v1 == 1 && judgeGE(o.st, N.sub(maxL)) == 1, v2 == 1 && judgeGE(o.st, maxL.sub(N)) == 1:
						r.OK("prefix length", k, t.fn.Pos(), "keeps "+s.n.key())
					case v1 == -1 && v2 == -1, v1 == -1 && judgeGE(o.st, maxL.sub(N)) == -1, v2 == -1 && judgeGE(o.st, N.sub(maxL)) == -1:
						r.Bad("prefix length", k, t.fn.Pos(), "keeps "+o.st.norm(s.n).key()+" of "+N.key()+" tokens for maximum "+maxL.key()+" ("+cond(o)+")")
					default:
						r.Undecided("prefix length", k, "keeps "+s.n.key())
					}
				}
				if w.over != nil && where == "receiver" {
					if o.st.provesGE(maxL.sub(N)) {
						continue // nothing removed
					}
					t06windows(t, r, o, w, recv, maxL, stride, N)
				}
			}
		}
	}
	if n == 0 {
		r.Missing("(*Encoding).Truncate")
	}
	r.Min("outcomes", 3)
}

// mergeS joins adjacent slices of the same array and drops empty ones.
func mergeS(st *State, ss []Seg) []Seg {
	var out []Seg
	for _, s := range ss {
		if st.provesEQ(s.n) {
			continue
		}
		if k := len(out) - 1; k >= 0 && s.kind == 'S' && out[k].kind == 'S' && out[k].base == s.base && st.provesEQ(out[k].lo.add(out[k].n).sub(s.lo)) {
			out[k].n = out[k].n.add(s.n)
			continue
		}
		out = append(out, s)
	}
	return out
}

func t06windows(t *tCase, r *Rep, o Outcome, w *encView, recv string, maxL, stride, N *Poly) {
	P := maxL.sub(stride)
	sl, ok := w.over.(Slice)
	if !ok {
		r.Undecided("windows", t.id(), "overflow list unknown: "+w.over.key())
		return
	}
	segs := t.en.content(o.st, sl)
	var live []Seg
	for _, s := range segs {
		if !o.st.provesEQ(s.n) {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if satisfiable(o.st, N.sub(maxL).addc(-1)) {
			r.Bad("windows", t.id(), t.fn.Pos(), "tokens are removed but there is no overflow window ("+cond(o)+")")
		}
		return
	}
	if len(live) != 1 || live[0].kind != 'G' {
		r.Undecided("windows", t.id(), "overflow list is "+segsKey(live))
		return
	}
	g := live[0]
	k := pa(g.g.k)
	start := k.addc(1).mul(P)
	for _, a := range g.g.alts {
		if len(a.vals) != 1 {
			r.Undecided("windows", t.id(), fmt.Sprintf("%d windows per step", len(a.vals)))
			continue
		}
		st := a.st.clone()
		w := t.en.view(st, a.vals[0], "window")
		if w.bad != "" {
			r.Undecided("windows", t.id(), w.bad)
			continue
		}
		// the predecessor: the receiver's prefix first, then the window built last
		prevs := map[string]bool{}
		for _, f := range encOrder {
			for _, s := range w.segs[f] {
				if s.kind == 'S' && s.base != recv+"."+f && strings.HasSuffix(s.base, "."+f) {
					prevs[strings.TrimSuffix(s.base, "."+f)] = true
				}
			}
		}
		okPrev := true
		for p := range prevs {
			ok, why := t.predecessor(p, g.g.k)
			if why != "" {
				r.Bad("window content", t.id()+" predecessor", t.fn.Pos(), why)
			}
			if !ok {
				okPrev = false
				continue
			}
			st.addEQ(pa("N(" + p + ")").sub(maxL))
		}
		if !okPrev || len(prevs) > 1 {
			r.Undecided("windows", t.id(), "window built from "+strings.Join(sortedKeys(prevs), ","))
			continue
		}
		if st.infeasible() {
			continue
		}
		r.Add("window cases", 1)
		nw := st.norm(w.n["Ids"])
		key := t.id() + " window of " + nw.key()
		// each window has at least one new token
		r.Judge(judgeGE(st, N.sub(maxL).sub(k.mul(P)).addc(-1)), "window needed", key, t.fn.Pos(), "only while removed tokens are left", "a further window is built when no removed token is left")
		for _, f := range encOrder {
			fk := key + " " + f
			var ss []Seg
			for _, s := range w.segs[f] {
				for p := range prevs {
					if s.kind == 'S' && s.base == p+"."+f {
						s.base = recv + "." + f
						s.lo = s.lo.add(k.mul(P))
					}
				}
				s.n = st.norm(s.n)
				if s.kind == 'S' {
					s.lo = st.norm(s.lo)
				}
				ss = append(ss, s)
			}
			var foreign, opaque bool
			for _, s := range ss {
				if st.provesEQ(s.n) {
					continue
				}
				if s.kind != 'S' || opaqueRx.MatchString(s.base) {
					opaque = true
				} else if s.base != recv+"."+f {
					foreign = true
				}
			}
			if opaque {
				r.Undecided("window content", fk, segsKey(ss))
				continue
			}
			if foreign {
				r.Bad("window content", fk, t.fn.Pos(), "window consists of "+segsKey(ss))
				continue
			}
			pos := start
			bad := 0
			msg := ""
			total := pc(0)
			for _, s := range ss {
				if st.provesEQ(s.n) {
					continue
				}
				v := judgeEQ(st, s.lo.sub(pos))
				if v != 1 {
					bad = min(bad, v)
					if bad == 0 {
						bad = 2
					}
					if msg == "" {
						msg = "tokens from position " + s.lo.key() + " where position " + st.norm(pos).key() + " is due"
					}
				}
				pos = pos.add(s.n)
				total = total.add(s.n)
			}
			switch {
			case bad < 0:
				r.Bad("window content", fk, t.fn.Pos(), "window "+g.g.k+": "+msg)
				continue
			case bad == 2:
				r.Undecided("window content", fk, msg)
				continue
			}
			r.OK("window content", fk, t.fn.Pos(), "contiguous from "+st.norm(start).key())
			r.Judge(judgeGE(st, maxL.sub(total)), "window size", fk, t.fn.Pos(), "at most the maximum", "holds "+st.norm(total).key()+" tokens")
			v1, v2 := judgeEQ(st, total.sub(maxL)), judgeEQ(st, pos.sub(N))
			switch {
			case v1 == 1 || v2 == 1:
				r.OK("window end", fk, t.fn.Pos(), "full or reaching the end")
			case v1 == -1 && v2 == -1:
				r.Bad("window end", fk, t.fn.Pos(), "window ends at "+st.norm(pos).key()+", neither full nor at the end of the removed tokens")
			default:
				r.Undecided("window end", fk, "ends at "+st.norm(pos).key())
			}
		}
	}
	// all removed tokens covered: windows·(max-stride)+max >= N
	d := g.n.mul(P).add(maxL).sub(N)
	v := 0
	if o.st.provesGE(d) {
		v = 1
	} else if dd := o.st.norm(d); exitOnlyCounts(dd) && refutable(o.st, dd, func(x int64) bool { return x >= 0 }) {
		v = -1
	}
	r.Judge(v, "all removed tokens covered", t.id(), t.fn.Pos(), "the last window reaches the end", "the windows may stop before the last removed token")
}

// exitOnlyCounts: besides the parameters only loop counts occur.
func exitOnlyCounts(p *Poly) bool {
	ok := true
	p.atoms(func(a string) {
		if opaqueRx.MatchString(a) {
			ok = false
		}
	})
	return ok
}

// predecessor: the loop-carried pointer p starts as the receiver and then is the list's last window.
func (t *tCase) predecessor(p string, k string) (bool, string) {
	for _, l := range t.en.havocs {
		okAll := len(l) >= 2
		why := ""
		for i, v := range l {
			q, isP := v.(Ptr)
			if !isP {
				okAll = false
				break
			}
			if i == 0 {
				okAll = okAll && q.key() == t.args[0].key()
				continue
			}
			// an element of an array of encodings
			o := t.en.get(t.outs[0].st, q.obj)
			if o == nil {
				for _, x := range t.outs {
					if y := t.en.get(x.st, q.obj); y != nil {
						o = y
					}
				}
			}
			if o == nil || len(q.path) != 1 || q.path[0].idx == nil || o.elem == nil || !isEncoding(o.elem) {
				okAll = false
				continue
			}
			if a, ok := q.path[0].idx.atom(); !ok || a != k {
				okAll = false
				if c, isC := q.path[0].idx.konst(); isC {
					why = fmt.Sprintf("every window is continued from window %d, not from the one before it", c)
				}
			}
		}
		if okAll || why != "" {
			return okAll, why
		}
	}
	return false, ""
}

// ---------- T07

// truncContract: what T06 establishes about (*Encoding).Truncate, used at its calls.
func truncContract(en *Eng, note func(st *State, args []Val)) {
	en.hooks["(*tokenizer.Encoding).Truncate"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		p, ok := en.force(args[0]).(Ptr)
		if !ok || len(args) != 3 {
			return nil, false
		}
		s, ok := en.load(st, p).(Struct)
		if !ok || !isEncoding(s.typ) {
			return nil, false
		}
		m, d := en.toInt(args[1]), en.toInt(args[2])
		if m == nil || d == nil {
			return nil, false
		}
		if note != nil {
			note(st.clone(), args)
		}
		var outs []Outcome
		ids, _ := field(s, "Ids")
		idt := types.NewSlice(types.Typ[types.Int])
		sl, ok := en.asSlice(ids, idt)
		if !ok {
			return nil, false
		}
		valid := func(st *State) bool {
			return st.assume(Cmp{">=0", m.addc(-1)}, true) && st.assume(Cmp{">=0", d}, true) && st.assume(Cmp{">=0", m.sub(d).addc(-1)}, true) && !st.infeasible()
		}
		for i, c := range []*Poly{m.neg(), d.neg().addc(-1), d.sub(m)} {
			e := st.clone()
			if i > 0 && !e.assume(Cmp{">=0", m.addc(-1)}, true) {
				continue
			}
			if i > 1 && !e.assume(Cmp{">=0", d}, true) {
				continue
			}
			if e.assume(Cmp{">=0", c}, true) && !e.infeasible() {
				outs = append(outs, Outcome{kind: "ret", ret: []Val{NilV{cc.Signature().Results().At(0).Type()}, Iface{errType, Term{en.fresh("err"), errType}}}, st: e})
			}
		}
		same := st.clone()
		if valid(same) && same.assume(Cmp{">=0", m.sub(sl.n)}, true) && !same.infeasible() {
			outs = append(outs, Outcome{kind: "ret", ret: []Val{args[0], NilV{errType}}, st: same})
		}
		cut := st.clone()
		if valid(cut) && cut.assume(Cmp{">=0", sl.n.sub(m).addc(-1)}, true) && !cut.infeasible() {
			u := s.typ.Underlying().(*types.Struct)
			out := Struct{typ: s.typ}
			tag := en.fresh("truncated")
			for i := range s.f {
				f := u.Field(i)
				if !encFields[f.Name()] {
					out.f = append(out.f, en.symv(tag+"."+f.Name(), f.Type()))
					continue
				}
				a, ok := en.asSlice(s.f[i], f.Type())
				if !ok {
					return nil, false
				}
				a.n = m
				out.f = append(out.f, a)
			}
			en.store(cut, p, out)
			outs = append(outs, Outcome{kind: "ret", ret: []Val{args[0], NilV{errType}}, st: cut})
		}
		return outs, true
	}
}

func t07(c *Ctx, r *Rep) {
	var fns []*ssa.Function
	tp := c.typeNamed("", "TruncationParams")
	if tp == nil {
		r.Missing("TruncationParams")
		return
	}
	for _, fn := range c.Funcs {
		ps := fn.Params
		if fn.Parent() == nil && fn.Signature.Recv() == nil && len(ps) == 3 && isEncPtr(ps[0].Type()) && isEncPtr(ps[1].Type()) && namedOf(ps[2].Type()) != nil && namedOf(ps[2].Type()).Obj() == tp.Obj() {
			fns = append(fns, fn)
		}
	}
	if len(fns) == 0 {
		r.Missing("a function truncating an encoding and its pair")
		return
	}
	type job struct {
		fn    *ssa.Function
		strat string
		pair  bool
	}
	var jobs []job
	for _, fn := range fns {
		for _, s := range []string{"LongestFirst", "OnlyFirst", "OnlySecond"} {
			for _, p := range []bool{true, false} {
				jobs = append(jobs, job{fn, s, p})
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Rep) { t07one(c, r, jobs[i].fn, jobs[i].strat, jobs[i].pair) })
	for _, fn := range fns {
		t07loop(c, r, fn)
	}
	r.Min("cases interpreted", 6)
}

func t07one(c *Ctx, r *Rep, fn *ssa.Function, strat string, pair bool) {
	key := fmt.Sprintf("%s %s pair=%v", fname(fn), strat, pair)
	en := newEng(c)
	contractHooks(en)
	pn := "p:" + fn.Params[2].Name()
	maxL, stride := pa(pn+".MaxLength"), pa(pn+".Stride")
	truncContract(en, func(st *State, args []Val) {
		d := en.toInt(args[2]).sub(stride)
		r.Judge(judgeEQ(st, d), "stride", key, fn.Pos(), "the configured stride", "truncates with stride "+st.norm(en.toInt(args[2])).key())
	})
	st := newState()
	args := en.symArgs(fn, true)
	if !pair {
		args[1] = NilV{fn.Params[1].Type()}
	}
	st.addEQ(pa(pn + ".Strategy").addc(-c.constInt("", strat)))
	st.assume(Cmp{">=0", maxL.addc(-1)}, true)
	st.assume(Cmp{">=0", stride}, true)
	outs, err := en.safeRun(fn, args, st)
	if err != "" {
		r.Undecided("interpretation", key, err)
		return
	}
	r.Add("cases interpreted", 1)
	names := []string{"p:" + fn.Params[0].Name(), "p:" + fn.Params[1].Name()}
	N := []*Poly{pa("N(" + names[0] + ")"), pc(0)}
	if pair {
		N[1] = pa("N(" + names[1] + ")")
	}
	total := N[0].add(N[1])
	for _, o := range outs {
		if o.st.infeasible() {
			continue
		}
		r.Add("outcomes", 1)
		failed := o.kind == "panic"
		if o.kind == "ret" && len(o.ret) == 3 {
			d, ok := o.st.decide(nilTest(en, o.ret[2]))
			if !ok {
				r.Undecided("result", key, "error undecided")
				continue
			}
			failed = !d
		}
		if o.kind != "ret" && !failed {
			continue
		}
		if failed {
			// an error is right only if the removal cannot be absorbed
			if !plainPath(o.st, true) {
				continue
			}
			if o.st.provesGE(total.sub(maxL).addc(-1)) == false && satisfiable(o.st, maxL.sub(total), maxL) {
				r.Bad("no error when it fits", key, fn.Pos(), "fails although nothing has to be removed ("+cond(o)+")")
				continue
			}
			var target *Poly
			switch strat {
			case "OnlyFirst":
				target = N[0]
			case "OnlySecond":
				target = N[1]
			}
			if target != nil {
				left := target.sub(total.sub(maxL))
				if satisfiable(o.st, left.addc(-1), left.sub(stride).addc(-1), maxL.addc(-1), total.sub(maxL).addc(-1)) {
					r.Bad("no spurious error", key, fn.Pos(), "fails although the named sequence can absorb the removal ("+cond(o)+")")
					continue
				}
			}
			r.OK("error", key, fn.Pos(), "failure reported: "+cond(o))
			continue
		}
		// success
		lens := []*Poly{nil, pc(0)}
		unknown := false
		for i := 0; i < 2; i++ {
			if i == 1 && !pair {
				if _, isNil := en.force(o.ret[1]).(NilV); !isNil {
					unknown = true
				}
				continue
			}
			w := en.view(o.st, o.ret[i], fmt.Sprintf("ret%d", i))
			if w.bad != "" {
				unknown = true
				continue
			}
			lens[i] = w.n["Ids"]
			// the sequence it is a prefix of
			ss := mergeS(o.st, w.segs["Ids"])
			other := false
			if len(ss) == 1 && ss[0].kind == 'S' {
				if ss[0].base != names[i]+".Ids" && !opaqueRx.MatchString(ss[0].base) {
					other = true
				}
			}
			r.Check(!other, "sequence", fmt.Sprintf("%s #%d", key, i), fn.Pos(), "result belongs to the sequence given", "result "+fmt.Sprint(i)+" is made of "+segsKey(ss))
			// protected sequence
			if (strat == "OnlyFirst" && i == 1) || (strat == "OnlySecond" && i == 0) {
				for _, v := range []Val{o.ret[i], args[i]} {
					x := en.view(o.st, v, "")
					if x.bad != "" {
						continue
					}
					vv := judgeEQ(o.st, x.n["Ids"].sub(N[i]))
					r.Judge(vv, "other sequence untouched", fmt.Sprintf("%s #%d", key, i), fn.Pos(), "kept whole", fmt.Sprintf("sequence %d is cut to %s of %s tokens (%s)", i+1, o.st.norm(x.n["Ids"]).key(), N[i].key(), cond(o)))
				}
			}
		}
		if unknown || lens[0] == nil {
			r.Undecided("total", key, "result unknown")
			continue
		}
		sum := lens[0].add(lens[1])
		fits := judgeGE(o.st, maxL.sub(total))
		if fits == 1 {
			r.Judge(judgeEQ(o.st, sum.sub(total)), "kept when it fits", key, fn.Pos(), "unchanged", "removes tokens although everything fits ("+cond(o)+")")
			continue
		}
		if exact(o.st, sum.sub(maxL)) {
			r.OK("total", key, fn.Pos(), "exactly the maximum")
			continue
		}
		v := judgeEQ(o.st, sum.sub(maxL))
		if v == -1 {
			// among the members that need truncation
			s := o.st.clone()
			if !s.assume(Cmp{">=0", total.sub(maxL).addc(-1)}, true) || !s.assume(Cmp{">=0", maxL.addc(-1)}, true) || s.infeasible() {
				continue
			}
			v = judgeEQ(s, sum.sub(maxL))
		}
		for _, t := range o.st.trace {
			if v == -1 && opaqueRx.MatchString(t) {
				v = 0 // whether this path exists depends on a counter the analysis only bounds
			}
		}
		r.Judge(v, "total", key, fn.Pos(), "exactly the maximum", "leaves "+o.st.norm(sum).key()+" tokens for maximum "+maxL.key()+" ("+cond(o)+")")
	}
}

func exact(st *State, p *Poly) bool { return st.provesEQ(p) }

// t07loop: in a loop that takes one from either of two counters, the one decremented is not the smaller.
func t07loop(c *Ctx, r *Rep, root *ssa.Function) {
	fns := []*ssa.Function{root}
	seen := map[*ssa.Function]bool{root: true}
	for i := 0; i < len(fns); i++ {
		fns = append(fns, fns[i].AnonFuncs...)
		eachInstr(fns[i], func(in ssa.Instruction) {
			if cc := callOf(in); cc != nil {
				if f := staticFn(cc); f != nil && c.inModule(f) && !seen[f] && f.Pkg == root.Pkg && f.Signature.Recv() == nil {
					seen[f] = true
					fns = append(fns, f)
				}
			}
		})
	}
	for _, fn := range fns {
		for _, l := range loopsOf(fn) {
			for _, b := range fn.Blocks {
				if !l.blocks[b] || len(b.Instrs) == 0 {
					continue
				}
				br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				cmp, ok := br.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				x, y := cmp.X, cmp.Y
				if !counterPhi(x, l) || !counterPhi(y, l) {
					continue
				}
				for side, succ := range b.Succs {
					dec := decremented(succ, b)
					for _, v := range dec {
						if v != x && v != y {
							continue
						}
						r.Add("decrements checked", 1)
						op := cmp.Op
						if side == 1 {
							op = negOp(op)
						}
						if v == y {
							op = swapOp(op)
						}
						// v op other
						key := fname(fn) + " longest-first loop"
						switch op {
						case token.GTR, token.GEQ, token.EQL:
							r.OK("longer one", key, cmp.Pos(), "the decremented sequence is not the shorter one")
						case token.LSS, token.LEQ:
							r.Bad("longer one", key, br.Cond.Pos(), "a token is taken from the sequence that is the shorter one")
						}
					}
				}
			}
		}
	}
}

func counterPhi(v ssa.Value, l *loopInfo) bool {
	p, ok := v.(*ssa.Phi)
	return ok && l.blocks[p.Block()] && isIntT(p.Type())
}

// decremented lists the values v with v-1 computed in block b (entered only from pred).
func decremented(b, pred *ssa.BasicBlock) (out []ssa.Value) {
	if len(b.Preds) != 1 {
		return nil
	}
	for _, in := range b.Instrs {
		if x, ok := in.(*ssa.BinOp); ok && x.Op == token.SUB {
			if k, ok := constInt(x.Y); ok && k == 1 {
				out = append(out, x.X)
			}
		}
	}
	return out
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	}
	return op
}

func init() {
	props["T06"] = propMeta{run: t06, explain: "Truncate is interpreted on a symbolic encoding, maximum and stride. The kept arrays must be slices [0:max) of the receiver's; the windows, summarised as a generator over the window number, are rewritten over the receiver's arrays (the predecessor is the prefix or the window before) and must be contiguous slices starting at (k+1)(max-stride), full or reaching the end."}
	props["T07"] = propMeta{run: t07, explain: "Truncation of a pair is interpreted for each strategy, with and without second sequence, with Truncate replaced by the contract T06 checks: the total must be exactly the maximum, the protected sequence untouched, failures errors."}
}
