package main

import "strings"

// fieldRange bounds parameters named fx, fy (field elements) and fd (a scalar).
func fieldRange(o *equivOpts) {
	o.setup = func(e *Engine, st *State, args []*Term) {
		for _, a := range args {
			lim := "P"
			switch {
			case strings.HasSuffix(a.sym, "fx"), strings.HasSuffix(a.sym, "fy"):
			case strings.HasSuffix(a.sym, "fd"):
				lim = "N"
			default:
				continue
			}
			v := e.bigVal(st, a)
			st.facts.assume(mkLe(tZero, v))
			st.facts.assume(mkLt(v, hexBig(curveConst[lim])))
		}
	}
}

func keyModels(e *Engine) {
	curveModels(e)
	e.constGlobals(nil, "xcrypto/secp256k1")
}

func init() {
	register(&checkDef{
		id:    "C23",
		rule:  "For every byte string, a public key is returned exactly when it is canonical (length, prefix, both coordinates below p, on the curve, stated parity) and is that point; the three serialised forms of every point and the one of every scalar are the published ones; the curve test is y² = x³ + 7.",
		specs: []string{"xcrypto/keys", "xcrypto/secp256k1/curve"},
		floor: 80,
		run: func(c *Ctx) {
			c.specPairs("xcrypto", "Pub", true, keyModels)
			c.specPairs("xcrypto", "Form", true, keyModels, fieldRange)
			c.specPairs("xcrypto", "Prv", true, keyModels, fieldRange)
			c.specPairs("xcrypto", "Add", true, keyModels, fieldRange)
			c.specPairs("xcrypto/secp256k1", "OnCurve", true, nil)
		},
	})
}
