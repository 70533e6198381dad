package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sugarme/tokenizer"

// Ctx is the type-checked, SSA-built program under analysis.
type Ctx struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by short path ("" = root, "model/bpe", ...)
	SPkgs map[string]*ssa.Package
	Prog  *ssa.Program
	Funcs []*ssa.Function // every function with a body in the module (examples excluded), sorted
	All   map[*ssa.Function]bool
	files map[string][]string

	globOnce sync.Once
	globs    map[*ssa.Global]ssa.Value
}

func load(repo string) (*Ctx, []string) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, []string{"load: " + err.Error()}
	}
	var errs []string
	c := &Ctx{Repo: repo, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, All: map[*ssa.Function]bool{}, files: map[string][]string{}}
	var keep []*packages.Package
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/example") {
			continue
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		keep = append(keep, p)
	}
	if len(errs) > 0 {
		return nil, errs
	}
	if len(keep) == 0 {
		return nil, []string{"no packages found in " + repo}
	}
	prog, sp := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	c.Prog = prog
	c.Fset = prog.Fset
	for i, p := range keep {
		short := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		c.Pkgs[short] = p
		c.SPkgs[short] = sp[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if c.inModule(fn) && len(fn.Blocks) > 0 {
			c.All[fn] = true
			c.Funcs = append(c.Funcs, fn)
		}
	}
	sort.Slice(c.Funcs, func(i, j int) bool {
		a, b := c.Funcs[i], c.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return c, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (c *Ctx) inModule(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.Contains(p, "/example")
}

// fname gives a stable short name: pkg.(Recv).Name or pkg.Name$1
func fname(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "tokenizer.")
	return s
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.Fset.Position(p)
	rel, err := filepath.Rel(c.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// lookup finds a package-level function, or a method as "T.M" / "*T.M".
func (c *Ctx) lookup(short, name string) *ssa.Function {
	sp := c.SPkgs[short]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, m := strings.TrimPrefix(name[:i], "*"), name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := c.Prog.MethodSets.MethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					f := c.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// ---------- reporting

type Obl struct {
	Rule   string `json:"rule"`
	Key    string `json:"construct"`
	Pos    string `json:"pos,omitempty"`
	Status string `json:"status"` // ok | violation | known
	Msg    string `json:"msg,omitempty"`
}

type Rep struct {
	c     *Ctx
	Prop  string
	Obls  []Obl
	Count map[string]int
	Notes []string
	Assum []string
	seen  map[string]int
	quiet bool
}

func (r *Rep) uniq(rule, key string) string {
	k := rule + "|" + key
	r.seen[k]++
	if n := r.seen[k]; n > 1 {
		return fmt.Sprintf("%s#%d", key, n)
	}
	return key
}

func (r *Rep) OK(rule, key string, p token.Pos, msg string) {
	r.Obls = append(r.Obls, Obl{rule, r.uniq(rule, key), r.c.pos(p), "ok", msg})
}

func (r *Rep) Bad(rule, key string, p token.Pos, msg string) {
	r.Obls = append(r.Obls, Obl{rule, r.uniq(rule, key), r.c.pos(p), "violation", msg})
}

func (r *Rep) Check(cond bool, rule, key string, p token.Pos, okmsg, badmsg string) bool {
	if cond {
		r.OK(rule, key, p, okmsg)
	} else {
		r.Bad(rule, key, p, badmsg)
	}
	return cond
}

func (r *Rep) Missing(what string) {
	r.Bad("anchor", what, token.NoPos, "the code this rule is anchored in was not found; the property can no longer be established")
}

func (r *Rep) Add(counter string, n int) { r.Count[counter] += n }

// Min is the vacuity guard: a rule that applied to fewer constructs than the
// code base is known to contain has lost its subject.
func (r *Rep) Min(counter string, n int) {
	if r.Count[counter] < n {
		r.Bad("vacuity", counter, token.NoPos, fmt.Sprintf("only %d constructs counted, at least %d expected: the rule no longer sees the code it is about", r.Count[counter], n))
	}
}

type known struct{ prop, key, text string }

func readKnown(file string) (out []known) {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=ID construct=<rule>|<key> :: text
		l = strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(l, " :: ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "property=") {
			continue
		}
		h := strings.SplitN(parts[0], " construct=", 2)
		if len(h) != 2 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(h[0], "property="), h[1], parts[1]})
	}
	return out
}

func (r *Rep) finish(verif, tier string, seed int, start time.Time, meta propMeta) int {
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	viol := 0
	knownHit := 0
	for i := range r.Obls {
		o := &r.Obls[i]
		if o.Status != "violation" {
			continue
		}
		for _, k := range kn {
			if k.prop == r.Prop && k.key == o.Rule+"|"+o.Key {
				o.Status = "known"
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s|%s at %s]\n", r.Prop, k.text, o.Rule, o.Key, o.Pos)
				knownHit++
				break
			}
		}
		if o.Status == "violation" {
			viol++
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(verif, "evidence", "obligations"), 0o755)
	replay := filepath.Join(verif, "evidence", "obligations", r.Prop+".json")
	ob, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "obligations": r.Obls}, "", " ")
	os.WriteFile(replay, ob, 0o644)
	rules := map[string]int{}
	okc := 0
	for _, o := range r.Obls {
		rules[o.Rule]++
		if o.Status == "ok" {
			okc++
		}
	}
	samples := []Obl{}
	step := len(r.Obls)/12 + 1
	for i := 0; i < len(r.Obls); i += step {
		samples = append(samples, r.Obls[i])
	}
	cov := map[string]any{
		"explanation":          meta.explain,
		"obligations_total":    len(r.Obls),
		"obligations_holding":  okc,
		"known_findings":       knownHit,
		"obligations_per_rule": rules,
		"counts":               r.Count,
		"functions_in_program": len(r.c.Funcs),
		"sample_obligations":   samples,
		"full_list":            "evidence/obligations/" + r.Prop + ".json",
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": append(append([]string{}, meta.assume...), r.Assum...),
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), eb, 0o644)
	for _, o := range r.Obls {
		if o.Status == "violation" {
			fmt.Printf("  violated [%s] %s at %s: %s\n", o.Rule, o.Key, o.Pos, o.Msg)
		}
	}
	if viol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	fmt.Printf("property %s: %d obligations hold (%d known findings), %.1fs\n", r.Prop, okc, knownHit, time.Since(start).Seconds())
	return 0
}

func (c *Ctx) moduleFuncs() []*ssa.Function { return c.Funcs }

func sortFns(l []*ssa.Function) {
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// parallel runs n independent parts with reports of their own and joins them in order.
func (r *Rep) parallel(n int, part func(i int, sub *Rep)) {
	subs := make([]*Rep, n)
	sem := make(chan bool, 7)
	var wg sync.WaitGroup
	for i := range subs {
		subs[i] = &Rep{c: r.c, Prop: r.Prop, Count: map[string]int{}, seen: map[string]int{}, quiet: true}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			part(i, subs[i])
		}(i)
	}
	wg.Wait()
	for _, s := range subs {
		for _, o := range s.Obls {
			if i := strings.LastIndex(o.Key, "#"); i > 0 && s.seen[o.Rule+"|"+o.Key[:i]] > 1 {
				o.Key = o.Key[:i]
			}
			o.Key = r.uniq(o.Rule, o.Key)
			r.Obls = append(r.Obls, o)
		}
		for k, v := range s.Count {
			r.Count[k] += v
		}
		r.Notes = append(r.Notes, s.Notes...)
	}
}
