package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T08: results own their memory.

// arraysOf lists, per field, the arrays a view's field may live in.
func (w *encView) arraysOf(f string) map[int]bool {
	out := map[int]bool{}
	sl, ok := w.arr[f]
	if !ok {
		return out
	}
	if sl.n.isZero() {
		return out
	}
	out[sl.arr] = true
	if o := w.en.get(w.st, sl.arr); o != nil {
		for a := range o.alias {
			out[a] = true
		}
	}
	return out
}

func t08(c *Ctx, r *Rep) {
	c.eachT(r, func(t *tCase, o Outcome, ws []*encView) {
		switch t.kind {
		case "trunc", "trunc2", "merge", "pad", "padall", "process":
		default:
			return // hands its inputs on
		}
		// owner views become ordinary ones
		var vs []*encView
		for _, w := range ws {
			if w.bad != "" {
				continue
			}
			if w.owner != "" {
				if strings.HasSuffix(w.owner, "[…]") {
					continue
				}
				x := &encView{en: w.en, st: w.st, where: w.where, owner: w.owner, arr: map[string]Slice{}}
				for _, f := range encOrder {
					if id, ok := w.en.sym["arr:"+w.owner+"."+f]; ok {
						n := pa("N(" + w.owner + ")")
						x.arr[f] = Slice{arr: id, off: pc(0), n: n}
					}
				}
				w = x
			}
			vs = append(vs, w)
		}
		if t.kind == "merge" {
			for _, a := range vs {
				if a.where != "ret0" {
					continue
				}
				bad := ""
				for _, f := range encOrder {
					for id := range a.arraysOf(f) {
						ob, ok := a.en.init[id]
						if ok && bad == "" && !a.st.provesEQ(a.arr[f].n) && strings.HasPrefix(ob.label, "p:") && !opaqueRx.MatchString(ob.label) {
							bad = f + " of the merged encoding lives in " + ob.label
						}
					}
				}
				if bad != "" {
					r.Bad("merged arrays are new", t.id(), t.fn.Pos(), bad+" ("+cond(o)+")")
				} else {
					r.OK("merged arrays are new", t.id(), t.fn.Pos(), "no array of an argument in the result")
				}
			}
		}
		for i, a := range vs {
			// one generic window: its arrays must differ from window to window
			if j := strings.LastIndex(a.where, "[‹"); j > 0 && a.owner == "" && strings.HasSuffix(a.where, "]") {
				k := a.where[j+1 : len(a.where)-1]
				for _, f := range encOrder {
					for id := range a.arraysOf(f) {
						if ob, ok := a.en.init[id]; ok && !a.st.provesEQ(a.arr[f].n) && !strings.Contains(ob.label, k) && !opaqueRx.MatchString(ob.label) {
							r.Bad("own arrays", t.id()+" "+genericWhere(a.where)+" "+f, t.fn.Pos(), "every window may live in the same array "+ob.label+" ("+cond(o)+")")
						}
					}
				}
				r.OK("own arrays", t.id()+" "+genericWhere(a.where), t.fn.Pos(), "arrays of its own")
			}
			for _, b := range vs[i+1:] {
				if a.owner != "" && b.owner != "" || !t.apart(a, b) || sameEnc(a, b) {
					continue
				}
				r.Add("pairs of encodings compared", 1)
				key := t.id() + " " + genericWhere(a.where) + " / " + genericWhere(b.where)
				bad := ""
				for _, f := range encOrder {
					x := a.arraysOf(f)
					for _, g := range encOrder {
						y := b.arraysOf(g)
						for id := range x {
							if y[id] && bad == "" && !a.st.provesEQ(a.arr[f].n) && !b.st.provesEQ(b.arr[g].n) {
								lbl := ""
								if ob := a.en.get(a.st, id); ob != nil {
									lbl = ob.label
								}
								bad = fmt.Sprintf("%s and %s live in the same array %s", f, g, lbl)
							}
						}
					}
				}
				if bad != "" {
					r.Bad("own arrays", key, t.fn.Pos(), bad+" ("+cond(o)+")")
				} else {
					r.OK("own arrays", key, t.fn.Pos(), "no array in common")
				}
			}
		}
	})
	t08config(c, r)
	t08inner(c, r)
	r.Min("functions interpreted", 15)
}

// apart: the two are different encodings at the same time, not alternatives of one, and
// not a result and the argument it was made of.
func (t *tCase) apart(a, b *encView) bool {
	ra, rb := whereRoot(a.where), whereRoot(b.where)
	if genericWhere(a.where) == genericWhere(b.where) && genericWhere(a.where) != a.where {
		return false // alternatives of one generic element
	}
	if ra == rb {
		return true
	}
	return false
}

func whereRoot(w string) string {
	if i := strings.IndexAny(w, ".["); i > 0 && !strings.HasPrefix(w, "arg:") {
		return w[:i]
	}
	if i := strings.Index(w, ".Overflowing"); i > 0 {
		return w[:i]
	}
	return w
}

func sameEnc(a, b *encView) bool {
	n := 0
	for _, f := range encOrder {
		x, ok1 := a.arr[f]
		y, ok2 := b.arr[f]
		if ok1 != ok2 {
			return false
		}
		if ok1 {
			if x.arr != y.arr || !a.st.provesEQ(x.off.sub(y.off)) || !a.st.provesEQ(x.n.sub(y.n)) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// t08config: a processed encoding never lives in memory of the post-processor itself, which
// the next call would use again.
func t08config(c *Ctx, r *Rep) {
	var cases []procCase
	for _, pc := range c.t05cases(r) {
		if !strings.HasPrefix(pc.id, "Sequence") {
			cases = append(cases, pc)
		}
	}
	r.parallel(len(cases), func(i int, r *Rep) {
		pc0 := cases[i]
		en := pc0.en
		args := en.symArgs(pc0.fn, true)
		if len(args) != 4 {
			return
		}
		args[0] = pc0.recv
		if !pc0.pair {
			args[2] = NilV{pc0.fn.Params[2].Type()}
		}
		args[3] = BoolC(true)
		key := fmt.Sprintf("%s pair=%v", pc0.id, pc0.pair)
		outs, err := en.safeRun(pc0.fn, args, pc0.st.clone())
		if err != "" {
			r.Undecided("not the processor's memory", key, err)
			return
		}
		for _, o := range outs {
			if o.kind != "ret" {
				continue
			}
			w := en.view(o.st, o.ret[0], "ret0")
			if w.bad != "" {
				continue
			}
			r.Add("processed encodings", 1)
			bad := ""
			for _, f := range encOrder {
				for id := range w.arraysOf(f) {
					ob, ok := en.init[id]
					if !ok || o.st.provesEQ(w.n[f]) {
						continue
					}
					mine := false
					for _, p := range pc0.fn.Params[1:] {
						if strings.HasPrefix(ob.label, "p:"+p.Name()+".") {
							mine = true
						}
					}
					if !mine && !opaqueRx.MatchString(ob.label) && strings.HasPrefix(ob.label, "p:") {
						bad = f + " of the result lives in " + ob.label
					}
				}
			}
			r.Check(bad == "", "not the processor's memory", key, pc0.fn.Pos(), "arrays of its own or of its inputs", bad+", which later calls use and may extend again")
		}
	})
}

// t08inner: the offset pairs themselves are shared by a prefix and the window that repeats
// its last tokens, so they are replaced, never modified.
func t08inner(c *Ctx, r *Rep) {
	var fromOffsets func(v ssa.Value, d int) bool
	fromOffsets = func(v ssa.Value, d int) bool {
		if d > 12 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return fromOffsets(x.X, d+1)
			}
		case *ssa.IndexAddr:
			return fromOffsets(x.X, d+1)
		case *ssa.Slice:
			return fromOffsets(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && fromOffsets(e, d+3) {
					return true
				}
			}
		case *ssa.FieldAddr:
			return isEncoding(derefT(x.X.Type())) && fieldName(x.X.Type(), x.Field) == "Offsets"
		case *ssa.Field:
			return isEncoding(x.X.Type()) && fieldName(x.X.Type(), x.Field) == "Offsets"
		case *ssa.Extract:
			return fromOffsets(x.Tuple, d+1)
		case *ssa.Next:
			return fromOffsets(x.Iter, d+1)
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && isEncoding(derefT(f.Signature.Recv().Type())) && f.Name() == "GetOffsets" {
				return true
			}
		}
		return false
	}
	for _, fn := range c.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isIntT(s.Val.Type()) {
				return
			}
			ld, ok := ia.X.(*ssa.UnOp)
			if !ok {
				return
			}
			if _, isEl := ld.X.(*ssa.IndexAddr); !isEl || ld.X.Type().String() != "*[]int" {
				return
			}
			r.Add("element stores inspected", 1)
			if fromOffsets(ld.X, 0) {
				r.Bad("offset pairs replaced", fname(fn), s.Pos(), "modifies an offset pair in place; the pair is shared with the overflow window repeating that token")
			} else {
				r.OK("offset pairs replaced", fname(fn), s.Pos(), "not an encoding's offset pair")
			}
		})
	}
}

func init() {
	props["T08"] = propMeta{run: t08, explain: "For every function that builds or changes encodings, the array objects of every pair of distinct encodings in its result state (results, arguments, overflow windows) are compared, including arrays an append may have extended in place; and no function writes into an encoding's offset pairs."}
}
