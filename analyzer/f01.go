package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F01: CachedPath is interpreted on scripted files, environment and network; the file of the
// final name is looked at after every single operation.

// fetch is a scripted environment: what the request finds, and what fails.
type fetch struct {
	name   string
	files  map[string]string // what exists before
	status int
	body   string // what the server sends
	want   string // the complete content
	net    bool   // the network may be asked
	dir    string // the directory of the cache, when it is set
}

type f01run struct {
	*vrun
	final string // the path of the cached file
	want  string
	bad   []string
	urls  []string
	sent  int // requests made
}

func (x *f01run) watch(key string, v Val, del bool) {
	if x.final == "" || key != "file:"+x.final {
		return
	}
	s, ok := strOf(v)
	if del || (ok && s == x.want) {
		return
	}
	what := "only a part of the content"
	if s == "" {
		what = "nothing yet"
	}
	x.bad = append(x.bad, fmt.Sprintf("the file %s exists under its final name and holds %s: interrupted here, a later lookup takes it for complete", x.final, what))
}

func newF01(c *Ctx, st *State, sc fetch) *f01run {
	x := &f01run{vrun: newVrun(c, st), want: sc.want}
	e, en := x.std, x.en
	e.watch = x.watch
	e.path2()
	files := func(st *State, p string) bool {
		if _, ok := e.get(st, "file:"+p); ok {
			return true
		}
		for _, u := range en.get(st, e.fs).ups {
			k, _ := strOf(u.k)
			if k == "dir:"+p || strings.HasPrefix(k, "dir:"+p+"/") || strings.HasPrefix(k, "file:"+p+"/") {
				return true
			}
		}
		return false
	}
	hook := func(name string, f func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool)) {
		en.hooks[name] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return f(st, cc, args) }
	}
	stat := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		s = filepath.Clean(s)
		ft := cc.Signature().Results().At(0).Type()
		if !files(st, s) {
			er := e.err(st)
			e.put(st, "absent:"+er.key(), strVal(""))
			return retOne(st, NilV{ft}, er)
		}
		return retOne(st, Term{"info(" + s + ")", ft}, NilV{errType})
	}
	hook("os.Stat", stat)
	hook("os.Lstat", stat)
	hook("os.IsNotExist", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if _, isNil := args[0].(NilV); isNil {
			return retOne(st, BoolC(false))
		}
		_, ok := e.get(st, "absent:"+args[0].key())
		return retOne(st, BoolC(ok))
	})
	hook("(io/fs.FileMode).IsRegular", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return retOne(st, BoolC(true)) })
	hook("os.Getenv", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if s, _ := strOf(args[0]); s == "HOME" {
			return retOne(st, strVal("/home/u"))
		}
		return retOne(st, strVal(""))
	})
	hook("os.UserHomeDir", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return retOne(st, strVal("/home/u"), NilV{errType})
	})
	// an existing file of another name; names that are made up are never final
	hook("os.Rename", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		a, ok1 := strOf(args[0])
		b, ok2 := strOf(args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		a, b = "file:"+filepath.Clean(a), "file:"+filepath.Clean(b)
		v, ok := e.get(st, a)
		if !ok {
			return retOne(st, e.err(st))
		}
		er, bad := e.op(st, "rename")
		if !bad {
			e.put(st, b, v)
			e.del(st, a)
			e.put(st, "moved:"+a, strVal(b))
		}
		return retOne(st, er)
	})
	// what was written to a file that can not be closed may be lost
	e.lost = func(st *State, k string, handle int) {
		if _, ok := e.get(st, fmt.Sprintf("made:%d", handle)); !ok {
			return
		}
		if to, ok := e.text(st, "moved:"+k); ok {
			k = to
		}
		if s, ok := e.text(st, k); ok {
			e.put(st, k, strVal(s[:len(s)/2]))
		}
	}
	remove := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		a, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		a = filepath.Clean(a)
		if _, ok := e.get(st, "file:"+a); !ok {
			return retOne(st, e.err(st))
		}
		e.del(st, "file:"+a)
		return retOne(st, NilV{errType})
	}
	hook("os.Remove", remove)
	hook("os.RemoveAll", remove)
	temp := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		d, ok1 := strOf(args[0])
		p, ok2 := strOf(args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		if d == "" {
			d = "/tmp"
		}
		n := filepath.Join(d, strings.Replace(p, "*", "4711", 1)+"4711")
		er, bad := e.op(st, "create")
		if bad {
			return retOne(st, NilV{cc.Signature().Results().At(0).Type()}, er)
		}
		e.put(st, "file:"+n, strVal(""))
		return retOne(st, e.cell(st, "os", "File", "file:"+n), er)
	}
	hook("os.CreateTemp", temp)
	hook("io/ioutil.TempFile", temp)
	hook("(*os.File).Name", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		return retOne(st, strVal(strings.TrimPrefix(k, "file:")))
	})
	// copying
	tee := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		return retOne(st, x.file(st, k))
	}
	hook("io.TeeReader", tee)
	hook("bufio.NewReader", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		return retOne(st, e.cell(st, "bufio", "Reader", k))
	})
	copyTo := func(st *State, dst, src Val) (Val, bool) {
		from, _, ok1 := e.of(src)
		to, _, ok2 := e.of(dst)
		if !ok1 || !ok2 {
			return nil, false
		}
		v, ok := e.text(st, from)
		if !ok {
			return nil, false
		}
		er, bad := e.op(st, "copy")
		half := len(v) / 2
		if half > 0 {
			e.add(st, to, strVal(v[:half]))
		}
		if !bad {
			e.add(st, to, strVal(v[half:]))
		}
		return er, true
	}
	cp := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		er, ok := copyTo(st, args[0], args[1])
		if !ok {
			return nil, false
		}
		return retOne(st, Int{pa(en.fresh("copied"))}, er)
	}
	for _, n := range []string{"io.Copy", "io.CopyBuffer", "(*os.File).ReadFrom", "(*bufio.Writer).ReadFrom"} {
		hook(n, cp)
	}
	hook("io.ReadAll", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		v, ok := e.text(st, k)
		if !ok {
			return nil, false
		}
		er, bad := e.op(st, "copy")
		if bad {
			v = v[:len(v)/2]
		}
		return retOne(st, en.symv("[]byte("+strVal(v).key()+")", cc.Signature().Results().At(0).Type()), er)
	})
	// the network
	x.network(sc, hook)
	if g, ok := c.SPkgs[""].Members["CachedDir"].(*ssa.Global); ok {
		if p, ok := en.val(st, g).(Ptr); ok {
			if sc.dir != "" {
				en.store(st, p, strVal(sc.dir))
			} else if s, ok := initText(g); ok {
				en.store(st, p, strVal(s))
			}
		}
	}
	return x
}

// initText is the constant a global starts with.
func initText(g *ssa.Global) (string, bool) {
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					return constant.StringVal(k.Value), true
				}
			}
		}
	}
	return "", false
}

func (x *f01run) file(st *State, key string) Val {
	c := x.std.cell(st, "os", "File", key)
	t := types.NewPointer(x.stdType("os", "File"))
	return Iface{t, c}
}

func (x *f01run) stdType(pkg, name string) types.Type {
	for _, p := range x.c.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Type(name); o != nil {
				return o.Type()
			}
		}
	}
	return types.NewStruct(nil, nil)
}

func (x *f01run) network(sc fetch, hook func(name string, f func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool))) {
	e, en := x.std, x.en
	answer := func(st *State, cc *ssa.CallCommon, url Val) ([]Outcome, bool) {
		if u, ok := strOf(url); ok {
			x.urls = append(x.urls, u)
		}
		x.sent++
		rt := cc.Signature().Results().At(0).Type()
		er, bad := e.op(st, "request")
		if bad {
			return retOne(st, NilV{rt}, er)
		}
		k := fmt.Sprintf("file:(body %d)", len(x.urls)+1000*x.sent)
		e.put(st, k, strVal(sc.body))
		resp := en.mkStruct(en.fresh("response"), rt.(*types.Pointer).Elem(), map[string]Val{
			"StatusCode": Int{pc(int64(sc.status))}, "Status": strVal(fmt.Sprint(sc.status)),
			"Body": x.file(st, k), "ContentLength": Int{pc(int64(len(sc.want)))}})
		return retOne(st, en.cell(st, resp), NilV{errType})
	}
	hook("net/http.Get", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return answer(st, cc, args[0]) })
	hook("(*net/http.Client).Get", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return answer(st, cc, args[1]) })
	hook("net/http.NewRequest", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		u, ok := strOf(args[1])
		if !ok {
			return nil, false
		}
		return retOne(st, e.cell(st, "net/http", "Request", u), NilV{errType})
	})
	hook("(*net/http.Client).Do", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[1])
		if !ok {
			return nil, false
		}
		return answer(st, cc, strVal(k))
	})
	hook("(net/http.Header).Get", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if s, _ := strOf(args[1]); s == "Content-Length" {
			return retOne(st, strVal(fmt.Sprint(len(sc.want))))
		}
		return retOne(st, strVal(""))
	})
}

// path2 folds the functions of package path.
func (e *stdEnv) path2() {
	for n, f := range map[string]interface{}{"path.Dir": path.Dir, "path.Base": path.Base, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs,
		"path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs} {
		e.en.hooks[n] = e.foldOne(reflect.ValueOf(f))
	}
}

func f01(c *Ctx, r *Rep) {
	fn := c.lookup("", "CachedPath")
	if fn == nil {
		r.Missing("CachedPath")
		return
	}
	const m, file, body = "org/name", "tokenizer.json", "{\"complete\": true}"
	scs := []fetch{
		{name: "a file of this directory", files: map[string]string{m + "/" + file: body}, want: body},
		{name: "a download", status: 200, body: body, want: body, net: true},
		{name: "a missing file", status: 404, body: "Not Found", net: true},
		{name: "a server that fails", status: 503, body: "Service Unavailable", net: true},
		{name: "a refused request", status: 403, body: "Forbidden", net: true},
		{name: "an empty answer", status: 204, net: true},
		{name: "a part of the file", status: 206, body: "{\"complete", net: true},
	}
	ops := []string{"", "create directory", "create directory#2", "open", "create", "request", "request#2", "copy", "write", "sync", "close", "close#2", "close#3", "rename"}
	// the final name, as success shows it
	final := ""
	for _, sc := range scs {
		sc := sc
		for _, op := range ops {
			st := newState()
			x := newF01(c, st, sc)
			x.final = final
			for k, v := range sc.files {
				x.std.put(st, "file:"+k, strVal(v))
			}
			v := &vv{}
			paths := 0
			x.std.fail = op
			what := sc.name
			if op != "" {
				what += ": " + op + " fails"
			}
			judge := func(st *State, ret []Val, mayFail bool, next func(st *State)) {
				paths++
				p, known := strOf(ret[0])
				switch (&cfgEnv{c: c, en: x.en}).errState(st, ret[len(ret)-1]) {
				case 1:
					if sc.want == "" {
						v.b("no error is reported")
						return
					}
					if !known {
						v.u("the path is unknown")
						return
					}
					got, has := x.std.get(st, "file:"+filepath.Clean(p))
					if !has {
						v.b("no error is reported and there is no file %s", p)
					} else if s, ok := strOf(got); !ok {
						v.u("content of %s unknown: %s", p, got.key())
					} else if s != sc.want {
						v.b("the file %s holds %q, the complete content is %q", p, s, sc.want)
					} else if final == "" {
						final = filepath.Clean(p)
					} else if filepath.Clean(p) != final {
						v.b("the file is found at %s, and at %s in another case", p, final)
					}
				case 0:
					if !mayFail {
						v.b("an error is reported although nothing failed")
					}
					if final != "" {
						if got, has := x.std.get(st, "file:"+final); has {
							if s, ok := strOf(got); !ok || s != sc.want || sc.want == "" {
								v.b("after an error the file %s holds %s", final, got.key())
							}
						}
					}
				default:
					v.u("error unknown")
				}
				if next != nil {
					next(st)
				}
			}
			call := func(st *State, f func(st *State, ret []Val)) {
				x.do(st, "", "CachedPath", []Val{strVal(m), strVal(file)}, f)
			}
			call(st, func(st *State, ret []Val) {
				_, failed := x.std.get(st, "failed")
				if op != "" && failed {
					r.Add("failing lookups", 1)
				}
				judge(st, ret, failed || sc.want == "", func(st *State) {
					if len(v.bad) > 0 {
						return
					}
					// again, and nothing fails
					was := x.sent
					_, cached := x.std.get(st, "file:"+final)
					x.std.fail = ""
					x.std.seen = nil
					x.std.track = true
					call(st, func(st *State, ret []Val) {
						if final == "" {
							return
						}
						judge(st, ret, sc.want == "", nil)
						if cached && final != "" {
							for _, k := range x.std.seen {
								if k == "file:"+final {
									v.b("a file present in the cache is written again")
								}
							}
							if x.sent > was {
								v.b("a file present in the cache is asked for again")
							}
						}
					})
					x.std.track = false
					x.std.fail = op
				})
			})
			for _, b := range x.bad {
				v.b("%s", b)
			}
			if op == "" {
				r.Add("lookups", 1)
				if !sc.net && x.sent > 0 {
					v.b("the network is asked although the file is there")
				}
				if sc.net && sc.want != "" {
					for _, u := range x.urls {
						if !strings.HasSuffix(u, "/"+m+"/resolve/main/"+file) {
							v.b("the file is asked for at %s", u)
						}
					}
				}
			}
			if paths == 0 && x.err == "" && x.crash != "" {
				if op == "" {
					v.b("%s", x.crash)
				}
				paths = 1 // the process ends, the watch has seen what it leaves
			}
			v.settle(r, "complete", what, fn.Pos(), paths, x.err)
		}
	}
	// the directory of the cache can be chosen
	{
		sc := scs[1]
		sc.dir = "chosen"
		st := newState()
		x := newF01(c, st, sc)
		v := &vv{}
		paths := 0
		x.do(st, "", "CachedPath", []Val{strVal(m), strVal(file)}, func(st *State, ret []Val) {
			paths++
			if p, ok := strOf(ret[0]); !ok {
				v.u("path unknown")
			} else if !strings.HasPrefix(filepath.Clean(p), "chosen/") {
				v.b("the directory of the cache is set to %q, the file is %q", sc.dir, p)
			}
		})
		if x.crash != "" {
			v.b("%s", x.crash)
		}
		v.settle(r, "cached", "a directory that is set", fn.Pos(), paths, x.err)
	}
	// a file in the cache wins over a local one, and the network
	if final != "" {
		for _, local := range []bool{false, true} {
			sc := fetch{name: "a cached file", status: 200, body: body, want: "cached " + body}
			st := newState()
			x := newF01(c, st, sc)
			x.final = final
			x.std.put(st, "file:"+final, strVal(sc.want))
			if local {
				x.std.put(st, "file:"+m+"/"+file, strVal(body))
			}
			v := &vv{}
			paths := 0
			x.std.track = true
			x.do(st, "", "CachedPath", []Val{strVal(m), strVal(file)}, func(st *State, ret []Val) {
				paths++
				switch (&cfgEnv{c: c, en: x.en}).errState(st, ret[1]) {
				case 0:
					v.b("a cached file is not found")
					return
				case -1:
					v.u("error unknown")
					return
				}
				if p, ok := strOf(ret[0]); !ok {
					v.u("path unknown")
				} else if filepath.Clean(p) != final {
					v.b("the cached file is %s, the path returned %s", final, p)
				}
				if x.sent > 0 {
					v.b("the network is asked although the file is cached")
				}
				for _, k := range x.std.seen {
					if k == "file:"+final {
						v.b("a file present in the cache is written again")
					}
				}
			})
			for _, b := range x.bad {
				v.b("%s", b)
			}
			if x.crash != "" {
				v.b("%s", x.crash)
			}
			v.settle(r, "cached", fmt.Sprintf("cached, local file %v", local), fn.Pos(), paths, x.err)
		}
	} else {
		r.Undecided("cached", "CachedPath", "the name of the cached file is unknown")
	}
	r.Min("lookups", 6)
	r.Min("failing lookups", 8)
}

func init() {
	props["F01"] = propMeta{run: f01,
		explain: "CachedPath is interpreted abstractly on scripted files, environment and network: a cached file, a file of the named directory, a download, and servers answering 404, 403, 503 and an empty answer; then each operation (create directory, request, open, create, copy half way, write, sync, close, rename) fails in turn, the n-th one where there are several. After every single operation the file of the final name is looked at: it must be absent or complete, so that an interruption at any point leaves no partial file; an error must leave none either; no error means the path names a file of the complete content; the same lookup afterwards, with nothing failing, must succeed; a cached file is never written nor asked for again.",
		assume:  []string{"rename replaces the target at once (documented for one directory)", "a body shorter than its announced length is an error of the copy (documented)", "the name of the cached file is the one a successful lookup returns"},
	}
}
