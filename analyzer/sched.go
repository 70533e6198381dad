package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of goroutines, channels and wait groups for runs on small inputs: a goroutine is
// run, as far as its end, when another one has to wait. One that would wait itself is put
// back as if it had not been started. This is one of the orders the program may take; that
// the others give the same is not decided here.

const waits = "waits for ever"

type schedVal struct {
	pending []*deferred
	chans   []chanQ
	wg      map[string]int
	errs    map[string]Val // first error of an error group
}

type chanQ struct {
	q      []Val
	closed bool
}

type chanV struct {
	i   int
	typ types.Type
}

func (c chanV) key() string { return fmt.Sprintf("chan%d", c.i) }
func (s schedVal) key() string {
	return fmt.Sprintf("sched%d/%d", len(s.pending), len(s.chans))
}

func (s schedVal) copy() schedVal {
	n := schedVal{pending: append([]*deferred{}, s.pending...), chans: append([]chanQ{}, s.chans...), wg: map[string]int{}, errs: map[string]Val{}}
	for k, v := range s.wg {
		n.wg[k] = v
	}
	for k, v := range s.errs {
		n.errs[k] = v
	}
	return n
}

func (en *Eng) schedGet(st *State) schedVal {
	return en.get(st, en.sched).val.(schedVal).copy()
}

func (en *Eng) schedPut(st *State, s schedVal) {
	st.objs[en.sched] = &Obj{kind: 'c', val: s}
}

// schedule turns the model on.
func (en *Eng) schedule(st *State) {
	en.sched = en.newObj(st, &Obj{kind: 'c', val: schedVal{}.copy()})
	add := func(st *State, args []Val, d int) {
		s := en.schedGet(st)
		s.wg[args[0].key()] += d
		en.schedPut(st, s)
	}
	en.hooks["(*sync.WaitGroup).Add"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		n, ok := st.norm(en.toInt(args[1])).konst()
		if !ok {
			return nil, false
		}
		add(st, args, int(n))
		return retOne(st)
	}
	en.hooks["(*sync.WaitGroup).Done"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		add(st, args, -1)
		if en.schedGet(st).wg[args[0].key()] < 0 {
			return []Outcome{{kind: "panic", st: st, why: "negative wait group counter"}}, true
		}
		return retOne(st)
	}
	// mutexes are free whenever goroutines run one after another
	for _, m := range []string{"Mutex).Lock", "Mutex).Unlock", "RWMutex).Lock", "RWMutex).Unlock", "RWMutex).RLock", "RWMutex).RUnlock"} {
		en.hooks["(*sync."+m] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return retOne(st) }
	}
	en.hooks["(*sync.Once).Do"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		f, ok := en.force(args[1]).(Closure)
		if !ok {
			return nil, false
		}
		fn, ok := f.fn.(*ssa.Function)
		if !ok {
			return nil, false
		}
		s := en.schedGet(st)
		k := "once:" + args[0].key()
		if s.wg[k] > 0 {
			return retOne(st)
		}
		s.wg[k] = 1
		en.schedPut(st, s)
		return en.Run(fn, nil, f.b, st), true
	}
	start := func(args []Val, cc *ssa.CallCommon, st *State, name string) bool {
		f, ok := en.force(args[1]).(Closure)
		if !ok {
			return false
		}
		fn, ok := f.fn.(*ssa.Function)
		if !ok {
			return false
		}
		s := en.schedGet(st)
		s.wg[args[0].key()]++
		s.pending = append(s.pending, &deferred{cc: cc, name: name, target: fn, free: f.b, group: args[0].key()})
		en.schedPut(st, s)
		return true
	}
	for _, g := range []string{"(*sync.WaitGroup)", "(*golang.org/x/sync/errgroup.Group)"} {
		g := g
		en.hooks[g+".Go"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			if !start(args, cc, st, g+".Go") {
				return nil, false
			}
			return retOne(st)
		}
		en.hooks[g+".Wait"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			k := args[0].key()
			return en.await(st, func(st *State) bool { return en.schedGet(st).wg[k] == 0 }, func(st *State) []Outcome {
				if cc.Signature().Results().Len() == 0 {
					o, _ := retOne(st)
					return o
				}
				e := en.schedGet(st).errs[k]
				if e == nil {
					e = NilV{errType}
				}
				o, _ := retOne(st, e)
				return o
			}), true
		}
	}
}

// await runs goroutines until the condition holds.
func (en *Eng) await(st *State, ready func(*State) bool, f func(*State) []Outcome) []Outcome {
	if ready(st) {
		return f(st)
	}
	s := en.schedGet(st)
	for i, g := range s.pending {
		n := s.copy()
		n.pending = append(append([]*deferred{}, s.pending[:i]...), s.pending[i+1:]...)
		st2 := st.clone()
		en.schedPut(st2, n)
		outs := en.callGo(g, st2)
		wait := false
		for _, o := range outs {
			wait = wait || o.kind == "panic" && o.why == waits
		}
		if wait {
			continue
		}
		var res []Outcome
		for _, o := range outs {
			if o.kind != "ret" {
				res = append(res, o)
				continue
			}
			if g.group != "" {
				n := en.schedGet(o.st)
				n.wg[g.group]--
				if len(o.ret) == 1 && n.errs[g.group] == nil {
					if d, ok := o.st.decide(nilTest(en, o.ret[0])); !ok || !d {
						n.errs[g.group] = o.ret[0]
					}
				}
				en.schedPut(o.st, n)
			}
			res = append(res, en.await(o.st, ready, f)...)
		}
		return res
	}
	return []Outcome{{kind: "panic", st: st, why: waits}}
}

func (en *Eng) callGo(g *deferred, st *State) []Outcome {
	if g.site == nil {
		return en.Run(g.target, g.args, g.free, st)
	}
	return en.callFn(nil, g.site, g.cc, g.name, g.target, g.args, g.free, st)
}

func (en *Eng) makeChan(st *State, t types.Type) Val {
	s := en.schedGet(st)
	s.chans = append(s.chans, chanQ{})
	en.schedPut(st, s)
	return chanV{len(s.chans) - 1, t}
}

func (en *Eng) send(st *State, c chanV, v Val) []End {
	s := en.schedGet(st)
	if s.chans[c.i].closed {
		return []End{{kind: "panic", st: st, why: "send on closed channel"}}
	}
	s.chans[c.i].q = append(append([]Val{}, s.chans[c.i].q...), v)
	en.schedPut(st, s)
	return cont(st)
}

func (en *Eng) closeChan(st *State, c chanV) []Outcome {
	s := en.schedGet(st)
	if s.chans[c.i].closed {
		return []Outcome{{kind: "panic", st: st, why: "close of closed channel"}}
	}
	s.chans[c.i].closed = true
	en.schedPut(st, s)
	o, _ := retOne(st)
	return o
}

func (en *Eng) recv(x *ssa.UnOp, c chanV, st *State) []End {
	outs := en.await(st, func(st *State) bool {
		q := en.schedGet(st).chans[c.i]
		return len(q.q) > 0 || q.closed
	}, func(st *State) []Outcome {
		s := en.schedGet(st)
		q := s.chans[c.i]
		v, ok := Val(nil), len(q.q) > 0
		if ok {
			v = q.q[0]
			s.chans[c.i].q = q.q[1:]
			en.schedPut(st, s)
		} else {
			v = en.zero(st, c.typ.Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			v = Tuple{v, BoolC(ok)}
		}
		o, _ := retOne(st, v)
		return o
	})
	var ends []End
	for _, o := range outs {
		if o.kind != "ret" {
			ends = append(ends, End{kind: o.kind, st: o.st, why: o.why})
			continue
		}
		o.st.env[x] = o.ret[0]
		ends = append(ends, End{st: o.st})
	}
	return ends
}

func isBlocked(why string) bool { return strings.Contains(why, waits) }
