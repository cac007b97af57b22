package main

import "fmt"

func init() {
	register(&checkDef{
		id:    "C17",
		rule:  "For every shape of a building (which groups have a coin, what each pays to, data pushes, change address given or not) and every amount, fee, limit, script and address: the transaction is built exactly when every coin and destination is well formed, no amount or total exceeds the maximum, the inputs cover outputs plus fee, the fee is within the limit and a remainder has a change address; and it then consists of exactly those inputs, those outputs in order, the whole remainder to the change address, and the data outputs with no value.",
		specs: []string{"xcore/build"},
		floor: 5000,
		run: func(c *Ctx) {
			c.builtShapes()
			c.specPairs("xcore", "Three", false, buildModels, coinsSet)
			c.specPairs("xcore", "Fees", true, func(e *Engine) { bufModels(e); e.wide = false }) // a sum modulo 2^64
			c.specPairs("xcore", "Coin", false, bufModels)
		},
	})
}

func (c *Ctx) builtShapes() {
	names, impl, spec := c.pairs("xcore", "Build")
	need("specifications xcore/Build*", len(names) > 0)
	e := c.engine()
	buildModels(e)
	e.mergeErr, e.exact = false, true
	opt := equivOpts{}
	coinsSet(&opt)
	for sh := int64(0); sh < 216; sh++ {
		if only := debugOnly(); only != "" && only != fmt.Sprint(sh) {
			continue
		}
		c.equiv(e, fmt.Sprintf("%s of shape %d", names[0], sh), impl[names[0]], spec[names[0]], equivOpts{setup: func(e *Engine, st *State, args []*Term) {
			args[0] = mkInt(sh)
			opt.setup(e, st, args)
		}})
		c.count("shapes compared", 1)
	}
}

// coinsSet: a coin that is added is one.
func coinsSet(o *equivOpts) {
	o.setup = func(e *Engine, st *State, args []*Term) {
		for _, a := range args {
			if a.typ != nil && isCoin(a.typ.String()) {
				st.facts.assume(mkNot(mkEq(a, tNil, false)))
			}
		}
	}
}

func isCoin(t string) bool { return t == "*github.com/keyfuse/tokucore/xcore.Coin" }

func buildModels(e *Engine) {
	pushModels(e)
	e.maxParts, e.wide = 1000, true
	opaque(e, "xcore.NewTxIn", nil)
	opaque(e, "xbase.NewIDFromString", nil)
	// which estimate is made is not this property's concern
	for f, v := range map[string]string{"EstimateSize": "estimated size", "EstimateFees": "estimated fee"} {
		e.models["xcore."+f] = func(c *callCtx) ([]Outcome, bool) {
			return c.ret(mkSym(v, c.sig.Results().At(0).Type())), true
		}
	}
	opaque(e, "invoke (xcore.Address).LockingScript", nil)
}
