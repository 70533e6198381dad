package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// nested constructor calls of the function under analysis yield a mark naming the
// configuration they were given.
func (e *cfgEnv) nestHooks(self string) {
	for _, n := range []string{cN, cP, cPP, cD} {
		first := n == self
		e.en.hooks[n] = func(en *Eng, st *State, cc *ssa.CallCommon, args []Val) ([]Outcome, bool) {
			mv, ok := en.force(args[0]).(MapV)
			if !ok {
				return nil, false
			}
			_ = first
			t, has := en.lookup(st, mv, strVal("type"))
			if d, ok := st.decide(has); !ok || !d {
				return nil, false
			}
			i, ok := en.force(t).(Iface)
			if !ok {
				return nil, false
			}
			s, ok := i.v.(Term).isStrConst()
			if !ok {
				return nil, false
			}
			return retOne(st, Term{"made(" + s + ")", anyT}, NilV{errType})
		}
	}
}

func sortCases(cs []cfgCase) []cfgCase {
	sort.SliceStable(cs, func(i, j int) bool {
		if cs[i].fn != cs[j].fn {
			return cs[i].fn < cs[j].fn
		}
		return cs[i].name < cs[j].name
	})
	return cs
}

func init() {
	props["C01"] = propMeta{
		run: func(c *Ctx, r *Rep) {
			cs := sortCases(c01Cases())
			r.parallel(len(cs), func(i int, sub *Rep) { cs[i].check(c, sub, "setting") })
			r.Min("settings checked", 100)
		},
		explain: "Each constructor of a component, model, truncation or padding configuration is interpreted abstractly, over every path, on configurations of known shape whose values are symbols (one symbol per setting, absent settings left out). The field of the built component that a setting configures must hold exactly that setting's symbol, or the documented default when the setting is absent; nested configurations must be built in their listed order from their own part of the configuration. A definite mismatch, a refused valid configuration or a crash on one is a violation.",
		assume:  []string{"a field value the interpretation cannot resolve is reported as undecided, not as a violation", "JSON decoding delivers the documented value kinds (string, float64, bool, map, list)", "the table of documented settings is part of the rule"},
	}
	props["C02"] = propMeta{
		run: func(c *Ctx, r *Rep) {
			cs := sortCases(c02Cases())
			r.parallel(len(cs), func(i int, sub *Rep) { cs[i].check(c, sub, "type") })
			r.Min("constructions interpreted", 60)
		},
		explain: "Each component factory is interpreted abstractly, over every path, for every documented component type name (and with an absent configuration): the dynamic type of the result must be the named component's. For an unknown, empty, missing, differently-cased or foreign type name every path must return an error.",
		assume:  []string{"a result whose dynamic type cannot be resolved is reported as undecided, not as a violation", "the table of documented type names is part of the rule"},
	}
}
