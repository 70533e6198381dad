package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R01: the goroutines of training. Their accesses to shared memory are judged by the rules of
// E02; Tokenizer.Train is interpreted on files of a few lines, in chunks of a few bytes.

// corpus is what training reads.
type corpus struct {
	name  string
	files []string
	fail  string
}

// cursors: files are read at a position; readers over a file share it.
func (x *vrun) cursors(st *State) {
	e, en := x.std, x.en
	hook := func(name string, f func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool)) {
		en.hooks[name] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return f(st, cc, args) }
	}
	stat := func(st *State, cc *ssa.CallCommon, s string) ([]Outcome, bool) {
		er, bad := e.op(st, "stat")
		ft := cc.Signature().Results().At(0).Type()
		v, ok := e.text(st, "file:"+s)
		if bad || !ok {
			if !bad {
				er = e.err(st)
			}
			return retOne(st, NilV{ft}, er)
		}
		t := Term{fmt.Sprintf("info(%d)", len(v)), ft}
		st.assume(nilTest(en, t), false)
		return retOne(st, t, NilV{errType})
	}
	hook("os.Stat", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		return stat(st, cc, s)
	})
	hook("(*os.File).Stat", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		return stat(st, cc, strings.TrimPrefix(k, "file:"))
	})
	for _, n := range []string{"io/fs.FileInfo", "os.FileInfo"} {
		hook("invoke "+n+".Size", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			var n int64
			if _, err := fmt.Sscanf(args[0].key(), "info(%d)", &n); err != nil {
				return nil, false
			}
			return retOne(st, Int{pc(n)})
		})
	}
	// the position of a handle
	at := func(st *State, v Val) (src string, pos int, h string, ok bool) {
		k, o, ok := e.of(v)
		if !ok {
			return
		}
		h = fmt.Sprintf("at:%d", o)
		if up, is := e.text(st, fmt.Sprintf("over:%d", o)); is {
			h = up
		}
		if p, is := e.get(st, h); is {
			n, _ := p.(Int).p.konst()
			pos = int(n)
		}
		src, ok = e.text(st, k)
		return
	}
	over := func(pkg, name string) func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			k, _, ok := e.of(args[0])
			_, _, h, ok2 := at(st, args[0])
			if !ok || !ok2 {
				return nil, false
			}
			c := e.cell(st, pkg, name, k)
			_, o, _ := e.of(c)
			e.put(st, fmt.Sprintf("over:%d", o), strVal(h))
			return retOne(st, c)
		}
	}
	hook("bufio.NewReader", over("bufio", "Reader"))
	hook("bufio.NewReaderSize", over("bufio", "Reader"))
	hook("bufio.NewScanner", over("bufio", "Scanner"))
	hook("(*bufio.Scanner).Buffer", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return retOne(st) })
	hook("(*os.File).Seek", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		src, pos, h, ok := at(st, args[0])
		off, ok1 := args[1].(Int)
		wh, ok2 := args[2].(Int)
		if !ok || !ok1 || !ok2 {
			return nil, false
		}
		n, ok1 := st.norm(off.p).konst()
		w, ok2 := st.norm(wh.p).konst()
		if !ok1 || !ok2 {
			return nil, false
		}
		er, bad := e.op(st, "seek")
		if bad {
			return retOne(st, Int{pc(0)}, er)
		}
		n += []int64{0, int64(pos), int64(len(src))}[w]
		if n < 0 {
			return retOne(st, Int{pc(0)}, e.err(st))
		}
		e.put(st, h, Int{pc(n)})
		return retOne(st, Int{pc(n)}, er)
	})
	eof := func(st *State) Val {
		for _, p := range x.c.Prog.AllPackages() {
			if p.Pkg.Path() == "io" {
				if g, ok := p.Members["EOF"].(*ssa.Global); ok {
					if q, ok := en.val(st, g).(Ptr); ok {
						v := en.load(st, q)
						st.assume(nilTest(en, v), false)
						return v
					}
				}
			}
		}
		return nil
	}
	eof(st) // it is an error
	line := func(st *State, v Val) (s string, er Val, ok bool) {
		src, pos, h, ok := at(st, v)
		if !ok {
			return
		}
		if pos > len(src) {
			pos = len(src)
		}
		er, bad := e.op(st, "read")
		if bad {
			st.assume(en.eqVal(er, eof(st)), false)
			st.assume(en.eqVal(eof(st), er), false)
			return "", er, true
		}
		rest := src[pos:]
		if i := strings.IndexByte(rest, '\n'); i >= 0 {
			rest = rest[:i+1]
		} else if er = eof(st); er == nil {
			return "", nil, false
		}
		e.put(st, h, Int{pc(int64(pos + len(rest)))})
		return rest, er, true
	}
	until := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if d, ok := args[1].(Int); !ok {
			return nil, false
		} else if n, ok := d.p.konst(); !ok || n != '\n' {
			return nil, false
		}
		s, er, ok := line(st, args[0])
		if !ok {
			return nil, false
		}
		t := cc.Signature().Results().At(0).Type()
		if _, isSlice := t.Underlying().(*types.Slice); isSlice {
			return retOne(st, x.bytes(st, t, s), er)
		}
		return retOne(st, strVal(s), er)
	}
	for _, n := range []string{"ReadString", "ReadBytes", "ReadSlice"} {
		hook("(*bufio.Reader)."+n, until)
	}
	hook("(*bufio.Scanner).Scan", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		src, pos, _, ok := at(st, args[0])
		if !ok {
			return nil, false
		}
		_, o, _ := e.of(args[0])
		_ = k
		if pos >= len(src) {
			return retOne(st, BoolC(false))
		}
		s, er, ok := line(st, args[0])
		if !ok {
			return nil, false
		}
		if s == "" { // the read failed
			e.put(st, fmt.Sprintf("scanerr:%d", o), er)
			return retOne(st, BoolC(false))
		}
		e.put(st, fmt.Sprintf("line:%d", o), strVal(strings.TrimSuffix(strings.TrimSuffix(s, "\n"), "\r")))
		return retOne(st, BoolC(true))
	})
	hook("(*bufio.Scanner).Text", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, o, _ := e.of(args[0])
		s, ok := e.text(st, fmt.Sprintf("line:%d", o))
		if !ok {
			return nil, false
		}
		return retOne(st, strVal(s))
	})
	hook("(*bufio.Scanner).Bytes", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, o, _ := e.of(args[0])
		s, ok := e.text(st, fmt.Sprintf("line:%d", o))
		if !ok {
			return nil, false
		}
		return retOne(st, x.bytes(st, cc.Signature().Results().At(0).Type(), s))
	})
	hook("(*bufio.Scanner).Err", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		_, o, _ := e.of(args[0])
		if v, ok := e.get(st, fmt.Sprintf("scanerr:%d", o)); ok {
			return retOne(st, v)
		}
		return retOne(st, NilV{errType})
	})
	// a handle that is read to its end in one call
	hook("os.ReadFile", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		er, bad := e.op(st, "read")
		t := cc.Signature().Results().At(0).Type()
		v, ok := e.text(st, "file:"+s)
		if bad || !ok {
			if !bad {
				er = e.err(st)
			}
			return retOne(st, NilV{t}, er)
		}
		return retOne(st, x.bytes(st, t, v), er)
	})
}

func (x *vrun) bytes(st *State, t types.Type, s string) Val {
	return x.en.symv("[]byte("+strVal(s).key()+")", t)
}

func r01(c *Ctx, r *Rep) {
	m, order := spawnsBy(c, reachesTraining)
	for _, f := range order {
		checkSpawnRaces(c, r, f, m[f], "race")
	}
	// words counted in parts
	trainings(c, r, "parts", []tcase{
		{name: "four words", words: "ab cd ef gh", size: 9, shrink: true},
		{name: "five words", words: "ab abc bc cab c", size: 12, counts: []int64{3, 5, 2, 7, 1}, shrink: true},
		{name: "six words, all merged", words: "ab abc bc cab c bca", size: 30, counts: []int64{3, 5, 2, 7, 1, 4}, shrink: true},
		{name: "nine words", words: "ab abc bc cab c bca ac cb aa", size: 30, counts: []int64{3, 5, 2, 7, 1, 4, 9, 6, 8}, shrink: true},
		{name: "three words with any counts", words: "ab ba abb", size: 9, shrink: true},
	})
	fn := c.lookup("", "Tokenizer.Train")
	if fn == nil {
		r.Missing("Tokenizer.Train")
		return
	}
	cases := []corpus{
		{name: "one line", files: []string{"a b\n"}},
		{name: "several lines", files: []string{"one\ntwo\nthree\nfour\nfive\n"}},
		{name: "no line break at the end", files: []string{"one\ntwo\nthree\nfour"}},
		{name: "a line starting with a chunk", files: []string{"1234567\nab\n1234\ncd\n"}},
		{name: "a line break starting a chunk", files: []string{"12345678\nab\ncd\n"}},
		{name: "a line of several chunks", files: []string{"ab\n0123456789012345678901234567890\ncd\n"}},
		{name: "a file of whole chunks", files: []string{"123\n567\n123\n567\n"}},
		{name: "carriage returns", files: []string{"one\r\ntwo\r\nthree\r\nfour\r\n"}},
		{name: "empty lines", files: []string{"\n\none\n\n\n\n\n\n\ntwo\n\n"}},
		{name: "an empty file", files: []string{""}},
		{name: "no file", files: nil},
		{name: "several files", files: []string{"one\ntwo\nthree\n", "", "three\nfour\nfive\nsix", "one\n"}},
		{name: "equal lines", files: []string{"aa\naa\naa\naa\naa\naa\n"}},
	}
	for _, op := range []string{"stat", "open", "open#2", "open#3", "open#4", "seek", "seek#2", "seek#3", "read", "read#2", "read#3", "read#4", "read#5", "read#6", "read#7", "read#8"} {
		cases = append(cases, corpus{name: "several lines: " + op + " fails", files: []string{"one\ntwo\nthree\nfour\nfive\n", "six\n"}, fail: op})
	}
	r.parallel(len(cases), func(i int, r *Rep) {
		k := cases[i]
		for _, chunk := range []int64{8, 5} {
			v := &vv{}
			s, st := newScript(c, nil)
			x := &vrun{script: s, std: newStdEnv(s.en, st)}
			x.en.pathMode = true
			x.en.noMerge = true
			x.en.maxDepth = 40
			sortHooks(x.en)
			x.std.foldPure()
			x.cursors(st)
			x.en.schedule(st)
			x.en.shrink, x.en.shrunk = 2<<20, chunk
			paths := 0
			x.std.fail, x.std.once = k.fail, true
			want := map[string]int64{}
			var names []Val
			for i, f := range k.files {
				n := fmt.Sprintf("corpus%d.txt", i)
				x.std.put(st, "file:"+n, strVal(f))
				names = append(names, strVal(n))
				for _, l := range strings.Split(f, "\n") {
					l = strings.TrimSuffix(l, "\r") // counted as often as it is long
					want[l] += int64(len(l))
				}
			}
			var trained []Val
			x.en.hooks["invoke tokenizer.Trainer.ProcessTokens"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				m, ok := en.force(args[1]).(MapV)
				if !ok {
					return nil, false
				}
				l, ok := x.std.variadic(st, args[2])
				if !ok {
					return nil, false
				}
				for _, w := range l {
					t, ok := strOf(w)
					if !ok {
						return nil, false
					}
					o := *en.get(st, m.obj)
					n := pc(0)
					for _, u := range o.ups {
						if s, _ := strOf(u.k); s == t {
							n = u.v.(Int).p
						}
					}
					o.ups = append(append([]mapUp{}, o.ups...), mapUp{k: strVal(t), v: Int{n.addc(int64(len(t)))}})
					st.objs[m.obj] = &o
				}
				return retOne(st)
			}
			mt := c.typeNamed("", "Model")
			x.en.hooks["invoke tokenizer.Trainer.Train"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				trained = append(trained, args[1])
				got := map[string]int64{}
				m, ok := en.force(args[1]).(MapV)
				if !ok {
					v.u("word counts unknown")
					m = MapV{}
				} else {
					for _, u := range en.get(st, m.obj).ups {
						t, ok1 := strOf(u.k)
						n, ok2 := u.v.(Int)
						if !ok1 || !ok2 {
							v.u("word count unknown")
							continue
						}
						q, ok2 := st.norm(n.p).konst()
						if !ok2 {
							v.u("word count unknown")
						}
						got[t] = q
					}
				}
				if d := countDiff(got, want); d != "" && len(v.und) == 0 && k.fail == "" {
					v.b("%s", d)
				}
				t := Term{"trained", mt}
				st.assume(nilTest(en, t), false)
				return retOne(st, t, NilV{cc.Signature().Results().At(1).Type()})
			}
			x.en.hooks["(*tokenizer.Tokenizer).AddSpecialTokens"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				return retOne(st, Int{pc(0)})
			}
			x.en.hooks["invoke tokenizer.PreTokenizer.PreTokenize"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				return retOne(st, args[1], NilV{errType})
			}
			x.start(st, func(st *State) {
				pt := Term{"pretokenizer", c.typeNamed("", "PreTokenizer")}
				st.assume(nilTest(x.en, pt), false)
				x.do(st, "", "Tokenizer.WithPreTokenizer", []Val{x.tk, pt}, func(s2 *State, ret []Val) { st = s2 })
				tt := c.typeNamed("", "Trainer")
				tr := Term{"trainer", tt}
				st.assume(nilTest(x.en, tr), false)
				x.all = true
				x.do(st, "", "Tokenizer.Train", []Val{x.tk, tr, x.en.mkSlice(st, strT, names...)}, func(st *State, ret []Val) {
					paths++
					_, failed := x.std.get(st, "failed")
					switch (&cfgEnv{c: c, en: x.en}).errState(st, ret[0]) {
					case 0:
						if !failed {
							v.b("an error is reported although nothing failed")
						}
					case 1:
						if failed {
							v.b("the failure is not reported")
						}
					default:
						v.u("error unknown")
					}
				})
			})
			if x.crash != "" {
				if isBlocked(x.crash) {
					x.crash = "training waits for ever"
				}
				v.b("%s", x.crash)
			}
			r.Add("corpora", 1) // times chunk sizes
			r.Add("paths", paths)
			v.settle(r, "words", fmt.Sprintf("%s, chunks of %d", k.name, chunk), fn.Pos(), paths, x.err)
		}
	})
}

// countDiff is the first difference of word counts.
func countDiff(got, want map[string]int64) string {
	all := map[string]string{}
	for w := range got {
		all[w] = ""
	}
	for w := range want {
		all[w] = ""
	}
	for _, w := range sortedKeys(all) {
		if got[w] != want[w] {
			return fmt.Sprintf("the line %q is counted %d times, it occurs %d times", w, got[w], want[w])
		}
	}
	return ""
}

func init() {
	props["R01"] = propMeta{
		run:     r01,
		explain: "Every goroutine started by training is judged by the shared-access, join and channel rules. Tokenizer.Train is interpreted on scripted corpora (lines beginning or ending at, before and after chunk bounds, longer than chunks, empty, with carriage returns, without a last line break, in several files) with the chunk constants shrunk to 8 and 5 bytes: the word counts handed to the trainer are those of the lines. Each file operation fails in turn: Train returns an error. BPE training is interpreted with the thresholds for counting in parts shrunk, and the model compared with the definition.",
		assume:  []string{"constants of 2 MB and more in training are sizes of chunks or buffers, constants of 512 and more in the trainer thresholds on the number of words", "goroutines run one after another in the interpreted runs; interleavings are judged by the access rules"},
	}
}
