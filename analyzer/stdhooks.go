package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library on constants, and of files: the content of a file is the
// sequence of the strings written to it; buffered writers hold theirs until flushed.

type stdEnv struct {
	en   *Eng
	fs   int            // map object: path or handle -> content, position
	path map[int]string // handle or writer cell -> path or handle key
	json map[string]Val // serialised values
	once bool           // it fails one time only
	fail string         // the operation that fails (fault scenarios)
	gen  map[string]Val // the same values as decoding without a type gives them back
	ops  map[string]bool
	// what is done to the files, as it is done
	watch func(key string, v Val, del bool)
	lost  func(st *State, key string, handle int) // a file could not be closed
	track bool
	seen  []string
}

func strOf(v Val) (string, bool) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	t, ok := v.(Term)
	if !ok {
		return "", false
	}
	return t.isStrConst()
}

func newStdEnv(en *Eng, st *State) *stdEnv {
	e := &stdEnv{en: en, path: map[int]string{}, json: map[string]Val{}, gen: map[string]Val{}, ops: map[string]bool{}}
	e.fs = en.newObj(st, &Obj{kind: 'm', mtyp: types.NewMap(strT, strT), label: "fs"})
	e.pure()
	e.files()
	return e
}

func (e *stdEnv) get(st *State, k string) (Val, bool) {
	o := e.en.get(st, e.fs)
	for i := len(o.ups) - 1; i >= 0; i-- {
		if o.ups[i].k.key() == strVal(k).k {
			return o.ups[i].v, !o.ups[i].del
		}
	}
	return nil, false
}

func (e *stdEnv) put(st *State, k string, v Val) {
	o := *e.en.get(st, e.fs)
	o.ups = append(append([]mapUp{}, o.ups...), mapUp{k: strVal(k), v: v})
	st.objs[e.fs] = &o
	e.saw(k, v, false)
}

func (e *stdEnv) saw(k string, v Val, del bool) {
	if e.watch != nil {
		e.watch(k, v, del)
	}
	if e.track {
		e.seen = append(e.seen, k)
	}
}

func (e *stdEnv) del(st *State, k string) {
	o := *e.en.get(st, e.fs)
	o.ups = append(append([]mapUp{}, o.ups...), mapUp{k: strVal(k), v: strVal(""), del: true})
	st.objs[e.fs] = &o
	e.saw(k, strVal(""), true)
}

// text is the known content of a file.
func (e *stdEnv) text(st *State, k string) (string, bool) {
	v, ok := e.get(st, k)
	if !ok {
		return "", false
	}
	return strOf(v)
}

func (e *stdEnv) add(st *State, k string, s Val) {
	old, ok := e.get(st, k)
	if !ok {
		old = strVal("")
	}
	a, ok1 := strOf(old)
	b, ok2 := strOf(s)
	if ok1 && ok2 {
		e.put(st, k, strVal(a+b))
		return
	}
	if ok1 && a == "" {
		e.put(st, k, s)
		return
	}
	e.put(st, k, Term{"cat(" + old.key() + "," + s.key() + ")", strT})
}

func (e *stdEnv) err(st *State) Val {
	t := Term{e.en.fresh("ioerr"), errType}
	st.assume(nilTest(e.en, t), false)
	return t
}

// failing is the operation that fails, and how many times it succeeds before.
func (e *stdEnv) failing() (string, int) {
	if i := strings.IndexByte(e.fail, '#'); i >= 0 {
		n := int(e.fail[i+1] - '1')
		return e.fail[:i], n
	}
	return e.fail, 0
}

// op is the error result of an operation on files.
func (e *stdEnv) op(st *State, name string) (Val, bool) {
	e.ops[name] = true
	if f, skip := e.failing(); f == name {
		if n, _ := e.text(st, "count:"+name); len(n) < skip {
			e.put(st, "count:"+name, strVal(n+"+"))
			return NilV{errType}, false
		}
		if _, before := e.get(st, "failed"); before && e.once {
			return NilV{errType}, false
		}
		e.put(st, "failed", strVal(name))
		return e.err(st), true
	}
	return NilV{errType}, false
}

func (e *stdEnv) cell(st *State, pkg, name, key string) Val {
	var t types.Type
	for _, p := range e.en.c.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Type(name); o != nil {
				t = o.Type()
			}
		}
	}
	if t == nil {
		t = types.NewStruct(nil, nil)
	}
	c := e.en.cell(st, e.en.mkStruct(e.en.fresh(pkg+"."+name), t, nil))
	if key == "" {
		key = fmt.Sprintf("%s:%d", name, c.obj)
	}
	e.path[c.obj] = key
	return c
}

func (e *stdEnv) of(v Val) (string, int, bool) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, ok := e.en.force(v).(Ptr)
	if !ok {
		return "", 0, false
	}
	k, ok := e.path[p.obj]
	return k, p.obj, ok
}

// variadic are the values of a ...interface{} argument.
func (e *stdEnv) variadic(st *State, v Val) ([]Val, bool) {
	switch x := e.en.force(v).(type) {
	case NilV:
		return nil, true
	case Slice:
		return unitVals(e.en.content(st, x))
	}
	return nil, false
}

func (e *stdEnv) sprint(st *State, v Val, sep, end string) (Val, bool) {
	vs, ok := e.variadic(st, v)
	if !ok {
		return nil, false
	}
	s := ""
	for i, x := range vs {
		t, ok := constText(x)
		if !ok {
			return nil, false
		}
		if i > 0 {
			s += sep
		}
		s += t
	}
	return strVal(s + end), true
}

func constText(x Val) (string, bool) {
	if i, ok := x.(Iface); ok {
		x = i.v
	}
	switch y := x.(type) {
	case Term:
		return y.isStrConst()
	case Int:
		if k, ok := y.p.konst(); ok {
			return fmt.Sprint(k), true
		}
	case BoolC:
		return fmt.Sprint(bool(y)), true
	}
	return "", false
}

func (e *stdEnv) sprintf(st *State, f, v Val) (Val, bool) {
	fs, ok := strOf(f)
	if !ok {
		return nil, false
	}
	vs, ok := e.variadic(st, v)
	if !ok {
		return nil, false
	}
	out, k := "", 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' || i+1 == len(fs) {
			out += string(fs[i])
			continue
		}
		i++
		j := i
		for j < len(fs) && strings.IndexByte("0123456789.+-# ", fs[j]) >= 0 {
			j++
		}
		if j == len(fs) {
			return nil, false
		}
		spec := "%" + fs[i:j+1]
		i = j
		if spec == "%%" {
			out += "%"
			continue
		}
		if k >= len(vs) {
			return nil, false
		}
		t, ok := e.verb(st, spec, vs[k])
		if !ok {
			return nil, false
		}
		out += t
		k++
	}
	return strVal(out), true
}

func (e *stdEnv) pure() {
	en := e.en
	e.foldPure()
	for _, n := range []string{"filepath.Join", "path/filepath.Join", "path.Join"} {
		en.hooks[n] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			vs, ok := e.variadic(st, args[0])
			if !ok {
				return nil, false
			}
			var l []string
			for _, v := range vs {
				s, ok := strOf(v)
				if !ok {
					return nil, false
				}
				l = append(l, s)
			}
			return retOne(st, strVal(filepath.Join(l...)))
		}
	}
	en.hooks["fmt.Sprintf"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		v, ok := e.sprintf(st, args[0], args[1])
		if !ok {
			return nil, false
		}
		return retOne(st, v)
	}
	comp := func(withErr bool) hookFn {
		return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			s, ok := strOf(args[0])
			if !ok {
				return nil, false
			}
			if _, err := regexp.Compile(s); err != nil {
				return nil, false
			}
			c := e.cell(st, "regexp", "Regexp", s)
			if withErr {
				return retOne(st, c, NilV{errType})
			}
			return retOne(st, c)
		}
	}
	en.hooks["regexp.MustCompile"] = comp(false)
	en.hooks["regexp.Compile"] = comp(true)
	en.hooks["(*regexp.Regexp).MatchString"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		s, ok2 := strOf(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		r, err := regexp.Compile(k)
		if err != nil {
			return nil, false
		}
		return retOne(st, BoolC(r.MatchString(s)))
	}
}

func (e *stdEnv) files() {
	en := e.en
	h := func(name string, f func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool)) {
		g := func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return f(st, cc, args) }
		for _, p := range []string{"", "io/", "path/", "encoding/"} {
			if strings.HasPrefix(name, "(*") {
				en.hooks["(*"+p+name[2:]] = g
			} else {
				en.hooks[p+name] = g
			}
		}
	}
	h("filepath.Abs", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return retOne(st, args[0], NilV{errType})
	})
	h("os.Stat", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if e.fail == "missing directory" {
			return retOne(st, NilV{cc.Signature().Results().At(0).Type()}, e.err(st))
		}
		return retOne(st, en.symv(en.fresh("fileinfo"), cc.Signature().Results().At(0).Type()), NilV{errType})
	})
	for _, n := range []string{"os.Mkdir", "os.MkdirAll"} {
		n := n
		h(n, func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			er, bad := e.op(st, "create directory")
			if s, ok := strOf(args[0]); ok && !bad {
				e.put(st, "dir:"+s, strVal(""))
			}
			return retOne(st, er)
		})
	}
	open := func(create bool) func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		return func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			s, ok := strOf(args[0])
			if !ok {
				return nil, false
			}
			name := "open"
			if create {
				name = "create"
			}
			er, bad := e.op(st, name)
			ft := cc.Signature().Results().At(0).Type()
			if bad {
				return retOne(st, NilV{ft}, er)
			}
			if create {
				if e.fail == "missing directory" {
					if _, ok := e.get(st, "dir:"+filepath.Dir(s)); !ok {
						return retOne(st, NilV{ft}, e.err(st))
					}
				}
				e.put(st, "file:"+s, strVal(""))
				c := e.cell(st, "os", "File", "file:"+s)
				if e.lost != nil {
					_, h, _ := e.of(c)
					e.put(st, fmt.Sprintf("made:%d", h), strVal(""))
				}
				return retOne(st, c, er)
			} else if _, ok := e.get(st, "file:"+s); !ok {
				return retOne(st, NilV{ft}, e.err(st))
			}
			return retOne(st, e.cell(st, "os", "File", "file:"+s), er)
		}
	}
	h("os.Create", open(true))
	h("os.Open", open(false))
	write := func(st *State, dst Val, s Val) (Val, bool) {
		k, _, ok := e.of(dst)
		if !ok {
			return nil, false
		}
		name := "write"
		if strings.HasPrefix(k, "Writer:") {
			name = "buffered write"
			if f, _ := e.failing(); f == "write" { // the error of a buffered writer shows at the flush
				return NilV{errType}, true
			}
		}
		er, bad := e.op(st, name)
		if !bad {
			e.add(st, k, s)
		}
		return er, true
	}
	n0 := func(st *State) Val { return Int{pa(en.fresh("written"))} }
	bytesText := func(st *State, v Val) Val {
		s, ok := en.force(v).(Slice)
		if !ok {
			return v
		}
		k := segsKey(en.content(st, s))
		if ss := en.content(st, s); len(ss) == 1 && ss[0].kind == 'S' && strings.HasPrefix(ss[0].base, "[]byte(") {
			return Term{ss[0].base[7 : len(ss[0].base)-1], strT}
		}
		return Term{"bytes(" + k + ")", strT}
	}
	for _, t := range []string{"os.File", "bufio.Writer"} {
		h("(*"+t+").WriteString", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			er, ok := write(st, args[0], args[1])
			if !ok {
				return nil, false
			}
			return retOne(st, n0(st), er)
		})
		h("(*"+t+").Write", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			er, ok := write(st, args[0], bytesText(st, args[1]))
			if !ok {
				return nil, false
			}
			return retOne(st, n0(st), er)
		})
	}
	for _, n := range []string{"WriteByte", "WriteRune"} {
		n := n
		h("(*bufio.Writer)."+n, func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			i, ok := args[1].(Int)
			if !ok {
				return nil, false
			}
			k, ok := i.p.konst()
			if !ok {
				return nil, false
			}
			er, ok := write(st, args[0], strVal(string(rune(k))))
			if !ok {
				return nil, false
			}
			if n == "WriteByte" {
				return retOne(st, er)
			}
			return retOne(st, n0(st), er)
		})
	}
	h("io.WriteString", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		er, ok := write(st, args[0], args[1])
		if !ok {
			return nil, false
		}
		return retOne(st, n0(st), er)
	})
	en.hooks["fmt.Fprintln"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := e.sprint(st, args[1], " ", "\n")
		if !ok {
			return nil, false
		}
		er, ok := write(st, args[0], s)
		if !ok {
			return nil, false
		}
		return retOne(st, n0(st), er)
	}
	en.hooks["fmt.Fprint"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := e.sprint(st, args[1], "", "")
		if !ok {
			return nil, false
		}
		er, ok := write(st, args[0], s)
		if !ok {
			return nil, false
		}
		return retOne(st, n0(st), er)
	}
	en.hooks["fmt.Fprintf"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := e.sprintf(st, args[1], args[2])
		if !ok {
			return nil, false
		}
		er, ok := write(st, args[0], s)
		if !ok {
			return nil, false
		}
		return retOne(st, n0(st), er)
	}
	buffer := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		c := e.cell(st, "bufio", "Writer", "")
		w, _, _ := e.of(c)
		e.put(st, "to:"+w, strVal(k))
		return retOne(st, c)
	}
	h("bufio.NewWriter", buffer)
	h("bufio.NewWriterSize", buffer)
	h("(*bufio.Writer).Flush", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		w, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		to, ok := e.text(st, "to:"+w)
		if !ok {
			return nil, false
		}
		er, bad := e.op(st, "write")
		if !bad {
			if v, ok := e.get(st, w); ok {
				e.add(st, to, v)
			}
		}
		e.put(st, w, strVal(""))
		return retOne(st, er)
	})
	for _, n := range []string{"Close", "Sync"} {
		n := n
		h("(*os.File)."+n, func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			if n == "Close" {
				if k, obj, ok := e.of(args[0]); ok {
					k = fmt.Sprintf("closed:%s:%d", k, obj)
					if _, again := e.get(st, k); again {
						return retOne(st, e.err(st))
					}
					e.put(st, k, strVal(""))
				}
			}
			er, bad := e.op(st, strings.ToLower(n))
			if bad && n == "Close" && e.lost != nil {
				if k, obj, ok := e.of(args[0]); ok {
					e.lost(st, k, obj)
				}
			}
			return retOne(st, er)
		})
	}
	wf := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		er, bad := e.op(st, "write")
		if e.fail == "missing directory" {
			if _, ok := e.get(st, "dir:"+filepath.Dir(s)); !ok {
				return retOne(st, e.err(st))
			}
		}
		if !bad {
			e.put(st, "file:"+s, bytesText(st, args[1]))
		}
		return retOne(st, er)
	}
	h("ioutil.WriteFile", wf)
	h("os.WriteFile", wf)
	rf := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		bt := cc.Signature().Results().At(0).Type()
		v, ok := e.get(st, "file:"+s)
		if !ok {
			return retOne(st, NilV{bt}, e.err(st))
		}
		return retOne(st, en.symv("[]byte("+v.key()+")", bt), NilV{errType})
	}
	h("ioutil.ReadFile", rf)
	h("os.ReadFile", rf)
	ra := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		v, ok := e.get(st, k)
		if !ok {
			return nil, false
		}
		return retOne(st, en.symv("[]byte("+v.key()+")", cc.Signature().Results().At(0).Type()), NilV{errType})
	}
	h("ioutil.ReadAll", ra)
	h("io.ReadAll", ra)
	// scanners read lines
	h("bufio.NewScanner", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		k, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		c := e.cell(st, "bufio", "Scanner", "")
		w, _, _ := e.of(c)
		e.put(st, "from:"+w, strVal(k))
		e.put(st, "pos:"+w, Int{pc(0)})
		return retOne(st, c)
	})
	lines := func(st *State, v Val) (l []string, pos int, w string, ok bool) {
		w, _, ok = e.of(v)
		if !ok {
			return
		}
		k, ok1 := e.text(st, "from:"+w)
		s, ok2 := e.text(st, k)
		p, ok3 := e.get(st, "pos:"+w)
		if !ok1 || !ok2 || !ok3 {
			return nil, 0, "", false
		}
		n, _ := p.(Int).p.konst()
		if s != "" {
			l = strings.Split(strings.TrimSuffix(s, "\n"), "\n")
			for i := range l {
				l[i] = strings.TrimSuffix(l[i], "\r")
			}
		}
		return l, int(n), w, true
	}
	h("(*bufio.Scanner).Scan", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, p, w, ok := lines(st, args[0])
		if !ok {
			return nil, false
		}
		if e.fail == "read" && p > 0 { // the rest can not be read
			e.put(st, "failed", strVal("read"))
			return retOne(st, BoolC(false))
		}
		if p >= len(l) {
			return retOne(st, BoolC(false))
		}
		e.put(st, "pos:"+w, Int{pc(int64(p + 1))})
		return retOne(st, BoolC(true))
	})
	text := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		l, p, _, ok := lines(st, args[0])
		if !ok || p == 0 {
			return nil, false
		}
		return retOne(st, strVal(l[p-1]))
	}
	h("(*bufio.Scanner).Text", text)
	h("(*bufio.Scanner).Err", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		er, _ := e.op(st, "read")
		return retOne(st, er)
	})
	// JSON is kept as the value
	ser := func(st *State, v Val) string {
		x := v
		for {
			if i, ok := x.(Iface); ok {
				x = i.v
				continue
			}
			if p, ok := en.force(x).(Ptr); ok {
				x = en.load(st, p)
				continue
			}
			break
		}
		k := fmt.Sprintf("json#%d", len(e.json))
		if m, ok := x.(MapV); ok { // as it is now
			o := *en.get(st, m.obj)
			x = MapV{obj: en.newObj(st, &o)}
		}
		e.json[k] = x
		if g, ok := e.generic(st, x, 0); ok {
			e.gen[k] = g
		}
		return k
	}
	marshal := func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		er, bad := e.op(st, "marshal")
		bt := cc.Signature().Results().At(0).Type()
		if bad {
			return retOne(st, NilV{bt}, er)
		}
		return retOne(st, en.symv("[]byte("+ser(st, args[0])+")", bt), er)
	}
	h("json.Marshal", marshal)
	h("json.MarshalIndent", marshal)
	restore := func(st *State, cc *ssa.CallCommon, k string, dst Val) ([]Outcome, bool) {
		v, ok := e.json[k]
		if !ok {
			return nil, false
		}
		if i, ok := dst.(Iface); ok {
			dst = i.v
		}
		p, ok := en.force(dst).(Ptr)
		if !ok {
			return nil, false
		}
		if m, ok := v.(MapV); ok { // a map of its own
			o := *en.get(st, m.obj)
			v = MapV{obj: en.newObj(st, &o)}
		}
		if cc != nil {
			if dt := ptrElem(dst, cc); dt != nil && genericT(dt) {
				g, ok := e.gen[k]
				if !ok {
					return nil, false
				}
				if _, isMap := dt.Underlying().(*types.Map); isMap {
					g = g.(Iface).v
				}
				v = g
			}
		}
		en.store(st, p, v)
		return retOne(st, NilV{errType})
	}
	h("json.Unmarshal", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		t, ok := bytesText(st, args[0]).(Term)
		if !ok {
			return nil, false
		}
		return restore(st, cc, t.k, args[1])
	})
	for _, x := range []string{"Encoder", "Decoder"} {
		x := x
		h("json.New"+x, func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			k, _, ok := e.of(args[0])
			if !ok {
				return nil, false
			}
			c := e.cell(st, "encoding/json", x, "")
			w, _, _ := e.of(c)
			e.put(st, "to:"+w, strVal(k))
			return retOne(st, c)
		})
	}
	h("(*json.Encoder).SetIndent", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return retOne(st) })
	h("(*json.Encoder).Encode", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		w, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		to, ok := e.text(st, "to:"+w)
		if !ok {
			return nil, false
		}
		name := "write"
		if strings.HasPrefix(to, "Writer:") {
			name = "buffered write"
		}
		er, bad := e.op(st, name)
		if !bad {
			e.add(st, to, Term{ser(st, args[1]), strT})
		}
		return retOne(st, er)
	})
	h("(*json.Decoder).Decode", func(st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		w, _, ok := e.of(args[0])
		if !ok {
			return nil, false
		}
		from, ok := e.text(st, "to:"+w)
		if !ok {
			return nil, false
		}
		v, ok := e.get(st, from)
		if !ok {
			return nil, false
		}
		return restore(st, cc, v.key(), args[1])
	})
}

// ptrElem is the type the destination of a decoding points to.
func ptrElem(dst Val, cc *ssa.CallCommon) types.Type {
	a := cc.Args[len(cc.Args)-1]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func genericT(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Map:
		_, ok := x.Elem().Underlying().(*types.Interface)
		return ok
	}
	return false
}

// generic is the value decoding the JSON text of v into an interface{} gives: objects are
// map[string]interface{}, arrays []interface{}, numbers float64.
func (e *stdEnv) generic(st *State, v Val, d int) (Val, bool) {
	en := e.en
	if d > 8 {
		return nil, false
	}
	list := func(vs []Val) (Val, bool) {
		var out []Val
		for _, x := range vs {
			g, ok := e.generic(st, x, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, g)
		}
		o := &Obj{kind: 'a', elem: anyT, label: "list"}
		for _, x := range out {
			o.segs = append(o.segs, Seg{kind: 'F', val: x, n: pc(1)})
		}
		return Iface{cfgListT, Slice{arr: en.newObj(st, o), off: pc(0), n: pc(int64(len(out)))}}, true
	}
	switch x := en.force(v).(type) {
	case Iface:
		return e.generic(st, x.v, d)
	case NilV:
		return NilV{anyT}, true
	case Ptr:
		return e.generic(st, en.load(st, x), d+1)
	case BoolC, TBool:
		return Iface{boolT, x}, true
	case Int:
		t := Term{"float64(" + x.key() + ")", f64T}
		en.intOf[t.k] = x.p
		return Iface{f64T, t}, true
	case Term:
		switch {
		case isStrT(x.typ):
			return Iface{strT, Term{x.k, strT}}, true
		case isFloat(x.typ):
			return Iface{f64T, Term{x.k, f64T}}, true
		}
		return nil, false
	case Slice:
		vs, ok := unitVals(en.content(st, x))
		if !ok {
			return nil, false
		}
		return list(vs)
	case MapV:
		if x.nilKey != "" {
			return nil, false
		}
		es := en.mapEntries(st, en.get(st, x.obj))
		if es == nil {
			return nil, false
		}
		o := &Obj{kind: 'm', mtyp: cfgMapT, label: "object"}
		for _, u := range es {
			k, ok := strOf(u[1])
			if !ok {
				return nil, false
			}
			g, ok := e.generic(st, u[2], d+1)
			if !ok {
				return nil, false
			}
			o.ups = append(o.ups, mapUp{k: strVal(k), v: g})
		}
		return Iface{cfgMapT, MapV{obj: en.newObj(st, o)}}, true
	case Struct:
		t, ok := x.typ.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		o := &Obj{kind: 'm', mtyp: cfgMapT, label: "object"}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			if f.Embedded() {
				return nil, false
			}
			if !f.Exported() {
				continue
			}
			name := f.Name()
			tag := strings.Split(reflect.StructTag(t.Tag(i)).Get("json"), ",")
			if tag[0] == "-" {
				continue
			}
			if tag[0] != "" {
				name = tag[0]
			}
			if len(tag) > 1 {
				return nil, false
			}
			g, ok := e.generic(st, x.f[i], d+1)
			if !ok {
				return nil, false
			}
			o.ups = append(o.ups, mapUp{k: strVal(name), v: g})
		}
		return Iface{cfgMapT, MapV{obj: en.newObj(st, o)}}, true
	}
	return nil, false
}
