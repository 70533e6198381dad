// tkverify decides semantic properties of sugarme/tokenizer from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type propMeta struct {
	run     func(*Ctx, *Rep)
	explain string
	assume  []string
}

var props = map[string]propMeta{}

func main() {
	prop := flag.String("property", "", "property id(s), comma separated, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "verification dir")
	dump := flag.String("dump", "", "dump SSA of functions whose name contains this")
	interp := flag.String("interp", "", "print the abstract outcomes of this function")
	views := flag.String("views", "", "pkg:Func; print the encodings in the abstract outcomes")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	c, errs := load(*repo)
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("cannot analyse the source:", e)
		}
		for _, id := range ids {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, *repo)
		}
		os.Exit(1)
	}
	if *interp != "" {
		c.dumpInterp(*interp)
		return
	}
	if *views != "" {
		p := strings.SplitN(*views, ":", 2)
		c.dumpViews(p[0], p[1])
		return
	}
	if *dump != "" {
		for _, f := range c.Funcs {
			if strings.Contains(fname(f), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	rc := 0
	for _, id := range ids {
		m, ok := props[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		st := start
		if len(ids) > 1 {
			st = time.Now()
		}
		r := &Rep{c: c, Prop: id, Count: map[string]int{}, seen: map[string]int{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Undecided("analysis", "internal", fmt.Sprintf("analysis could not be completed: %v\n%s", e, debug.Stack()))
				}
			}()
			m.run(c, r)
		}()
		if *verbose {
			for _, o := range r.Obls {
				fmt.Printf("    %-9s [%s] %s at %s: %s\n", o.Status, o.Rule, o.Key, o.Pos, o.Msg)
			}
		}
		if r.finish(*verif, *tier, seed, st, m) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}
