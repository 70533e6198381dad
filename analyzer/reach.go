package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callees resolves a call within the module: static callees, closures, and for interface
// calls every method of a module type that satisfies the interface.
type resolver struct {
	c     *Ctx
	types []types.Type
	memo  map[string][]*ssa.Function
	funcs map[string][]*ssa.Function // address-taken functions and closures by signature
}

func newResolver(c *Ctx) *resolver {
	r := &resolver{c: c, memo: map[string][]*ssa.Function{}, funcs: map[string][]*ssa.Function{}}
	var shorts []string
	for s := range c.SPkgs {
		shorts = append(shorts, s)
	}
	sort.Strings(shorts)
	for _, s := range shorts {
		sp := c.SPkgs[s]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				if _, isI := t.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				r.types = append(r.types, t.Type())
			}
		}
	}
	// functions used as values
	for _, f := range c.Funcs {
		eachInstr(f, func(i ssa.Instruction) {
			cc := callOf(i)
			for _, op := range i.Operands(nil) {
				if *op == nil {
					continue
				}
				if cc != nil && *op == cc.Value && !cc.IsInvoke() {
					if _, isMC := cc.Value.(*ssa.MakeClosure); !isMC {
						continue
					}
				}
				var g *ssa.Function
				switch x := (*op).(type) {
				case *ssa.Function:
					g = x
				case *ssa.MakeClosure:
					g = x.Fn.(*ssa.Function)
				}
				if g != nil && len(g.Blocks) > 0 && c.inModule(g) {
					k := types.TypeString(g.Signature, nil)
					r.funcs[sigKey(g.Signature)] = appendOnce(r.funcs[sigKey(g.Signature)], g)
					_ = k
				}
			}
		})
	}
	return r
}

func appendOnce(l []*ssa.Function, f *ssa.Function) []*ssa.Function {
	for _, x := range l {
		if x == f {
			return l
		}
	}
	return append(l, f)
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(types.TypeString(s.Params().At(i).Type(), nil) + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(types.TypeString(s.Results().At(i).Type(), nil) + ",")
	}
	return b.String()
}

func (r *resolver) impls(iface *types.Interface, m *types.Func) []*ssa.Function {
	key := types.TypeString(iface, nil) + "." + m.Name()
	if v, ok := r.memo[key]; ok {
		return v
	}
	var out []*ssa.Function
	for _, t := range r.types {
		for _, T := range []types.Type{t, types.NewPointer(t)} {
			if !types.Implements(T, iface) {
				continue
			}
			sel := r.c.Prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			f := r.c.Prog.MethodValue(sel)
			if f == nil {
				continue
			}
			out = appendOnce(out, unwrap(f))
		}
	}
	r.memo[key] = out
	return out
}

// unwrap follows synthetic wrappers (promoted or pointer methods) to the declared method.
func unwrap(f *ssa.Function) *ssa.Function {
	for d := 0; d < 4 && f.Synthetic != "" && len(f.Blocks) > 0 && !strings.Contains(f.Synthetic, "instance"); d++ {
		var next *ssa.Function
		eachInstr(f, func(i ssa.Instruction) {
			if cc := callOf(i); cc != nil {
				if g := cc.StaticCallee(); g != nil && g.Name() == f.Name() {
					next = g
				}
			}
		})
		if next == nil {
			return f
		}
		f = next
	}
	return f
}

func (r *resolver) callees(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		return r.impls(it, cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return r.funcs[sigKey(cc.Signature())]
}

// reachable computes the module functions reachable from roots, with one predecessor each.
func (r *resolver) reachable(roots []*ssa.Function, skip func(*ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	pred := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range roots {
		if _, ok := pred[f]; !ok {
			pred[f] = nil
			work = append(work, f)
		}
	}
	add := func(g, from *ssa.Function) {
		if g == nil || len(g.Blocks) == 0 || (skip != nil && skip(g)) {
			return
		}
		if _, ok := pred[g]; !ok {
			pred[g] = from
			work = append(work, g)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		eachInstr(f, func(i ssa.Instruction) {
			if cc := callOf(i); cc != nil {
				for _, g := range r.callees(cc) {
					if r.c.inModule(g) {
						add(g, f)
					}
				}
			}
			// closures created here may be called by library code (sort, errgroup, ...)
			if mc, ok := i.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function), f)
			}
			for _, op := range i.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && r.c.inModule(g) {
					add(g, f)
				}
			}
		})
	}
	return pred
}

func pathTo(pred map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var p []string
	for f != nil && len(p) < 12 {
		p = append([]string{fname(f)}, p...)
		f = pred[f]
	}
	return strings.Join(p, " -> ")
}

// readRoots: the read-only public API.
var readAPI = []string{"Encode", "EncodeSingle", "EncodePair", "EncodeCharOffsets", "EncodeBatch", "EncodeSingleSequence", "Tokenize", "Decode", "DecodeBatch", "PostProcess", "TokenToId", "IdToToken", "GetVocab", "GetVocabSize", "GetSpecialTokens", "GetNormalizer", "GetPreTokenizer", "GetModel", "GetPostProcessor", "GetDecoder", "GetTruncation", "GetPadding"}

func readRoots(c *Ctx, r *Rep) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range readAPI {
		f := c.lookup("", "*Tokenizer."+n)
		if f == nil {
			r.Missing("Tokenizer." + n)
			continue
		}
		out = append(out, f)
	}
	return out
}

func isExit(name string) bool {
	return name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "(*log.Logger).Fatal") || name == "syscall.Exit"
}

func init() {
	props["E06"] = propMeta{
		run: func(c *Ctx, r *Rep) {
			res := newResolver(c)
			roots := readRoots(c, r)
			pred := res.reachable(roots, nil)
			var fs []*ssa.Function
			for f := range pred {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
			r.Add("entry points", len(roots))
			r.Add("reachable functions", len(fs))
			for _, f := range fs {
				n := 0
				eachInstr(f, func(i ssa.Instruction) {
					cc := callOf(i)
					if cc == nil {
						return
					}
					r.Add("call sites examined", 1)
					if isExit(calleeName(cc)) {
						n++
						r.Bad("exit", fname(f)+"|"+calleeName(cc), i.Pos(), "ends the process; reached by "+pathTo(pred, f))
					}
				})
				if n == 0 {
					r.OK("exit", fname(f), f.Pos(), "no process-terminating call")
				}
			}
			r.Min("reachable functions", 150)
		},
		explain: "The functions reachable from the encode, decode, post-processing and lookup entry points are computed over static calls, closures and every module implementation of each called interface method; each must contain no process-terminating call (os.Exit, log.Fatal*).",
		assume:  []string{"panics are ordinary Go failures a caller can recover; calls into the standard library and third-party packages do not exit the process"},
	}
}
