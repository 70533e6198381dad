package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"go/types"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library that only compute are folded on constant arguments.

var pureFuncs = map[string]interface{}{
	"strings.Split": strings.Split, "strings.Fields": strings.Fields, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.Index": strings.Index,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimSpace": strings.TrimSpace,
	"strings.TrimRight": strings.TrimRight, "strings.TrimLeft": strings.TrimLeft, "strings.Trim": strings.Trim,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Replace": strings.Replace, "strings.LastIndex": strings.LastIndex,
	"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.Count": strings.Count,
	"strings.Repeat": strings.Repeat, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
	"strings.EqualFold": strings.EqualFold, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"bytes.Runes": bytes.Runes, "bytes.Equal": bytes.Equal, "bytes.HasPrefix": bytes.HasPrefix, "bytes.Index": bytes.Index,
	"bytes.Contains": bytes.Contains, "bytes.IndexByte": bytes.IndexByte, "bytes.Count": bytes.Count,
	"strings.Cut": strings.Cut, "strings.Join": strings.Join, "strings.Compare": strings.Compare,
	"filepath.Dir": filepath.Dir, "path/filepath.Dir": filepath.Dir, "path/filepath.Base": filepath.Base,
	"path/filepath.Ext":               filepath.Ext,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.ValidRune": utf8.ValidRune, "unicode/utf8.RuneStart": utf8.RuneStart,
	"unicode/utf8.DecodeRune": utf8.DecodeRune, "unicode/utf8.DecodeLastRune": utf8.DecodeLastRune,
	"unicode/utf8.RuneCount": utf8.RuneCount, "unicode/utf8.Valid": utf8.Valid,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl, "unicode.ToLower": unicode.ToLower,
	"unicode.ToUpper": unicode.ToUpper, "unicode.IsMark": unicode.IsMark, "unicode.IsSymbol": unicode.IsSymbol,
	"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.Quote": strconv.Quote,
	"encoding/hex.DecodeString": hex.DecodeString, "strconv.FormatInt": strconv.FormatInt, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
}

func (e *stdEnv) foldPure() {
	for name, f := range pureFuncs {
		e.en.hooks[name] = e.foldOne(reflect.ValueOf(f))
	}
}

func (e *stdEnv) foldOne(f reflect.Value) hookFn {
	t := f.Type()
	return func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
		if len(args) != t.NumIn() {
			return nil, false
		}
		var in []reflect.Value
		size := 0
		for i, a := range args {
			x, ok := e.goVal(st, a, t.In(i))
			if !ok {
				return nil, false
			}
			if x.Kind() == reflect.String {
				size += x.Len()
			}
			in = append(in, x)
		}
		if size > 1<<16 {
			return nil, false
		}
		res, ok := func() (r []reflect.Value, ok bool) {
			defer func() {
				if recover() != nil {
					r, ok = nil, false
				}
			}()
			return f.Call(in), true
		}()
		if !ok {
			return nil, false
		}
		var out []Val
		for i, r := range res {
			v, ok := e.ofGo(st, r, cc.Signature().Results().At(i).Type())
			if !ok {
				return nil, false
			}
			out = append(out, v)
		}
		return retOne(st, out...)
	}
}

// goVal is a constant as a value of this program.
func (e *stdEnv) goVal(st *State, v Val, t reflect.Type) (reflect.Value, bool) {
	no := reflect.Value{}
	v = e.en.force(v)
	if i, ok := v.(Iface); ok {
		v = e.en.force(i.v)
	}
	switch t.Kind() {
	case reflect.String:
		s, ok := strOf(v)
		if !ok {
			return no, false
		}
		return reflect.ValueOf(s).Convert(t), true
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint64:
		i, ok := v.(Int)
		if !ok {
			return no, false
		}
		k, ok := st.norm(i.p).konst()
		if !ok {
			return no, false
		}
		return reflect.ValueOf(k).Convert(t), true
	case reflect.Bool:
		b, ok := v.(BoolC)
		if !ok {
			return no, false
		}
		return reflect.ValueOf(bool(b)).Convert(t), true
	case reflect.Slice:
		vs, ok := e.variadic(st, v)
		if !ok {
			return no, false
		}
		l := reflect.MakeSlice(t, 0, len(vs))
		for _, x := range vs {
			y, ok := e.goVal(st, x, t.Elem())
			if !ok {
				return no, false
			}
			l = reflect.Append(l, y)
		}
		return l, true
	}
	return no, false
}

func (e *stdEnv) ofGo(st *State, r reflect.Value, t types.Type) (Val, bool) {
	switch r.Kind() {
	case reflect.String:
		return strVal(r.String()), true
	case reflect.Int, reflect.Int32, reflect.Int64:
		return Int{pc(r.Int())}, true
	case reflect.Uint8, reflect.Uint64:
		if r.Uint() > 1<<62 {
			return nil, false
		}
		return Int{pc(int64(r.Uint()))}, true
	case reflect.Bool:
		return BoolC(r.Bool()), true
	case reflect.Slice:
		var vs []Val
		for i := 0; i < r.Len(); i++ {
			v, ok := e.ofGo(st, r.Index(i), nil)
			if !ok {
				return nil, false
			}
			vs = append(vs, v)
		}
		return e.en.mkSlice(st, t.Underlying().(*types.Slice).Elem(), vs...), true
	case reflect.Interface:
		if r.IsNil() {
			return NilV{errType}, true
		}
		return e.err(st), true
	}
	return nil, false
}

// verb formats one constant.
func (e *stdEnv) verb(st *State, spec string, v Val) (string, bool) {
	v = e.en.force(v)
	if i, ok := v.(Iface); ok {
		v = e.en.force(i.v)
	}
	c := spec[len(spec)-1]
	switch y := v.(type) {
	case Term:
		s, ok := y.isStrConst()
		if !ok || !strings.ContainsRune("vsqxX", rune(c)) {
			return "", false
		}
		return fmt.Sprintf(spec, s), true
	case Int:
		k, ok := st.norm(y.p).konst()
		if !ok || !strings.ContainsRune("vdxXcqUob", rune(c)) {
			return "", false
		}
		return fmt.Sprintf(spec, k), true
	case BoolC:
		if c != 'v' && c != 't' {
			return "", false
		}
		return fmt.Sprintf(spec, bool(y)), true
	}
	return "", false
}

// builderHooks models text builders of known content.
func (e *stdEnv) builderHooks() {
	en := e.en
	for _, typ := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		typ := typ
		key := func(v Val) (string, bool) {
			p, ok := en.force(v).(Ptr)
			if !ok || p.obj == 0 {
				return "", false
			}
			return "text of " + p.key(), true
		}
		text := func(st *State, v Val) (string, string, bool) {
			k, ok := key(v)
			if !ok {
				return "", "", false
			}
			x, ok := e.get(st, k)
			if !ok {
				return k, "", true
			}
			s, ok := strOf(x)
			return k, s, ok
		}
		add := func(name string, conv func(st *State, v Val) (string, bool), ret func(n int) []Val) {
			en.hooks[typ+name] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				k, s, ok := text(st, args[0])
				if !ok {
					return nil, false
				}
				x, ok := conv(st, args[1])
				if !ok {
					e.put(st, k, Term{en.fresh("text"), strT})
					return nil, false
				}
				e.put(st, k, strVal(s+x))
				return retOne(st, ret(len(x))...)
			}
		}
		n := func(n int) []Val { return []Val{Int{pc(int64(n))}, NilV{errType}} }
		add("WriteString", func(st *State, v Val) (string, bool) { return strOf(v) }, n)
		add("WriteRune", func(st *State, v Val) (string, bool) {
			k, ok := st.norm(en.toInt(v)).konst()
			return string(rune(k)), ok
		}, n)
		add("WriteByte", func(st *State, v Val) (string, bool) {
			k, ok := st.norm(en.toInt(v)).konst()
			return string([]byte{byte(k)}), ok
		}, func(int) []Val { return []Val{NilV{errType}} })
		get := func(name string, f func(s string) Val) {
			en.hooks[typ+name] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
				_, s, ok := text(st, args[0])
				if !ok {
					return nil, false
				}
				return retOne(st, f(s))
			}
		}
		get("String", func(s string) Val { return strVal(s) })
		get("Len", func(s string) Val { return Int{pc(int64(len(s)))} })
		en.hooks[typ+"Reset"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			k, ok := key(args[0])
			if ok {
				e.put(st, k, strVal(""))
			}
			return retOne(st)
		}
		en.hooks[typ+"Grow"] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) { return retOne(st) }
	}
}
