package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channels between goroutines and the function that starts them.

// chanUse is a use of a channel by a goroutine.
type chanUse struct {
	in   ssa.Instruction
	ch   ssa.Value // in the spawner, nil if not known
	typ  types.Type
	what string // send, recv, close
}

// chanUses: the sends, receives and closings of the goroutine, in functions it calls too.
func (s *spawn) chanUses() []chanUse {
	var out []chanUse
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function, up func(ssa.Value) ssa.Value, d int)
	walk = func(fn *ssa.Function, up func(ssa.Value) ssa.Value, d int) {
		if fn == nil || seen[fn] || d > 4 {
			return
		}
		seen[fn] = true
		use := func(in ssa.Instruction, ch ssa.Value, what string) {
			u := chanUse{in: in, typ: ch.Type().Underlying().(*types.Chan).Elem(), what: what}
			if r := rootOf(up(ch)); r != nil && r.Parent() == s.parent {
				u.ch = r
			}
			out = append(out, u)
		}
		eachInstr(fn, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Send:
				use(i, x.Chan, "send")
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly {
						use(i, st.Chan, "maybe send")
					} else {
						use(i, st.Chan, "recv")
					}
				}
			case *ssa.UnOp:
				if cs := chansOf(i); len(cs) == 1 {
					use(i, cs[0], "recv")
				}
			}
			cc := callOf(i)
			if cc == nil {
				return
			}
			if isBuiltin(cc, "close") {
				use(i, cc.Args[0], "close")
			}
			nb := map[ssa.Value]ssa.Value{}
			f := bindClosure(cc.Value, cc.Args, nb)
			if f != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
				walk(f, func(v ssa.Value) ssa.Value {
					if b, ok := nb[v]; ok {
						return up(b)
					}
					return v
				}, d+1)
			}
		})
	}
	walk(s.fn, s.up, 0)
	return out
}

// checkChannels: no channel is closed while a goroutine may still send on it, no group is
// waited for while its goroutines send on a channel nobody receives from yet, and a goroutine
// signals its end after its last send.
func checkChannels(c *Ctx, r *Rep, parent *ssa.Function, sps []*spawn, rule string) {
	key := func(s *spawn) string { return fname(parent) + "|" + fname(orFn(s.fn)) }
	uses := map[*spawn][]chanUse{}
	for _, s := range sps {
		if s.fn != nil {
			uses[s] = s.chanUses()
		}
	}
	var probe spawn
	probe.binds = map[ssa.Value]ssa.Value{}
	root := func(v ssa.Value) ssa.Value { return rootOf(probe.up(v)) }
	for _, s := range sps {
		sends := map[ssa.Value]bool{}
		for _, u := range uses[s] {
			if u.what == "send" && u.ch != nil {
				sends[u.ch] = true
			}
		}
		if len(sends) == 0 {
			continue
		}
		join := s.joins(sps)
		after := reachableFrom(s.instr, join)
		bad := ""
		pos := s.instr.Pos()
		for i := range after {
			if cc := callOf(i); cc != nil && isBuiltin(cc, "close") && sends[root(cc.Args[0])] {
				if _, isDefer := i.(*ssa.Defer); !isDefer {
					bad, pos = "the channel is closed while the goroutine started at "+c.pos(s.instr.Pos())+" may still send on it", i.Pos()
				}
			}
		}
		r.Check(bad == "", rule+"-close", key(s), pos, "the channels sent on are closed after the goroutine, if at all", bad)
		// a receiver
		bad = ""
		for ch := range sends {
			mc, ok := ch.(*ssa.MakeChan)
			if !ok {
				continue
			}
			if n, isC := constInt(mc.Size); !isC || n != 0 {
				continue
			}
			receives := func(w ssa.Instruction) bool {
				for _, t := range sps {
					if t == s {
						continue
					}
					for _, u := range uses[t] {
						if u.what == "recv" && (u.ch == ch || u.ch == nil && types.Identical(u.typ, mc.Type().Underlying().(*types.Chan).Elem())) && (dominatesInstr(t.instr, w) || sameLoop(t.loop, s.loop) && s.loop != nil) {
							return true
						}
					}
				}
				found := false
				eachInstr(parent, func(i ssa.Instruction) {
					for _, x := range chansOf(i) {
						if root(x) == ch && (dominatesInstr(i, w) || reachableFrom(s.instr, func(j ssa.Instruction) bool { return j == w })[i]) {
							found = true
						}
					}
				})
				return found
			}
			eachInstr(parent, func(w ssa.Instruction) {
				if isSync(w) && chansOf(w) == nil && join(w) && reachableFrom(s.instr, func(j ssa.Instruction) bool { return false })[w] && !receives(w) && !escapes(ch) {
					bad, pos = "waits for goroutines that send on a channel without a buffer, which nothing receives from before: they and this function wait for ever", w.Pos()
				}
			})
		}
		r.Check(bad == "", rule+"-receiver", key(s), pos, "what is sent is received while the goroutines are waited for", bad)
		// the end is signalled last
		bad = ""
		eachInstr(s.fn, func(i ssa.Instruction) {
			call, ok := i.(*ssa.Call)
			if !ok || calleeName(call.Common()) != "(*sync.WaitGroup).Done" {
				return
			}
			re := reachableFrom(i, func(ssa.Instruction) bool { return false })
			for j := range re {
				if x, ok := j.(*ssa.Send); ok && sends[rootOf(s.up(x.Chan))] {
					bad, pos = "sends after the goroutine has signalled its end", j.Pos()
				}
				if j == i {
					continue
				}
				if cc := callOf(j); cc != nil {
					for _, u := range uses[s] {
						if u.what == "send" && u.ch != nil && u.in.Parent() != s.fn && callReaches(cc, u.in.Parent(), 0) {
							bad, pos = "sends after the goroutine has signalled its end", j.Pos()
						}
					}
				}
			}
		})
		r.Check(bad == "", rule+"-last", key(s), pos, "the end is signalled after the last send", bad)
	}
}

// escapes: the channel is handed to something that is not a goroutine of the function.
func escapes(ch ssa.Value) bool {
	esc := false
	var look func(v ssa.Value, d int)
	look = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 4 {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Return, *ssa.MakeInterface:
				esc = true
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					continue
				}
				esc = true
			case *ssa.Call:
				if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
					esc = true
				}
			case *ssa.ChangeType:
				look(x, d+1)
			}
		}
	}
	look(ch, 0)
	return esc
}

func callReaches(cc *ssa.CallCommon, fn *ssa.Function, d int) bool {
	f := bindClosure(cc.Value, nil, map[ssa.Value]ssa.Value{})
	if f == nil || d > 4 {
		return false
	}
	if f == fn {
		return true
	}
	found := false
	eachInstr(f, func(i ssa.Instruction) {
		if !found {
			if c2 := callOf(i); c2 != nil {
				found = callReaches(c2, fn, d+1)
			}
		}
	})
	return found
}
