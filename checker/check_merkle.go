package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&checkDef{
		id:    "C26",
		rule:  "For each number of leaves, with every leaf unknown, the root computed is the term the published algorithm gives (neighbours hashed in order, the last of an odd level with itself, one leaf its own root); the proof of every one of up to nine distinct leaves lists the siblings on its way up, and is accepted exactly for that leaf and root.",
		specs: []string{"xcrypto/merkle"},
		floor: 60,
		run: func(c *Ctx) {
			max := 70
			if c.thorough {
				max = 300
			}
			for n := 1; n <= max; n++ {
				c.merklePair("Root", n, 0)
			}
			for n := 1; n <= 9; n++ {
				for i := 0; i < n; i++ {
					c.merklePair("Proof", n, i)
				}
			}
			c.specPairs("xcrypto", "Empty", true, nil)
			c.specPairs("xcrypto", "Check", true, nil, func(o *equivOpts) { o.setup = exactLens })
			c.count("numbers of leaves", max)
		},
	})
}

// merklePair compares one pair on n leaves of unknown content (32 bytes each).
func (c *Ctx) merklePair(name string, n, i int) {
	if only := debugOnly(); only != "" && !strings.HasPrefix(name, only) {
		return
	}
	_, impl, spec := c.pairs("xcrypto", name)
	e := c.engine()
	e.exact, e.mergeErr = true, false
	e.maxParts = 400
	setup := func(e *Engine, st *State, args []*Term) {
		var items []*Term
		for k := 0; k < n; k++ {
			in := e.content(st, mkSym(fmt.Sprintf("leaf%d", k), tyBytes))
			st.facts.assume(mkEq0(mkAddK(lenOf(in), -32)))
			if name == "Proof" {
				for _, it := range items {
					st.facts.assume(mkNot(mkEq(it.args[0].args[0], mkSub(in, tZero, mkInt(32)), false)))
				}
			}
			items = append(items, mkUnit(mkApp("newslice", tyBytes, mkSub(in, tZero, mkInt(32)))))
		}
		args[0] = mkApp("newslice", types.NewSlice(tyBytes), mkCat(items...))
		if len(args) > 1 {
			args[1] = mkInt(int64(i))
		}
	}
	what := fmt.Sprintf("%s of %d leaves", name, n)
	if name == "Proof" {
		what = fmt.Sprintf("proof of leaf %d of %d", i, n)
	}
	c.equiv(e, what, impl[name], spec[name], equivOpts{pure: true, setup: setup})
	c.count("comparisons", 1)
}
