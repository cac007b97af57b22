package main

func init() {
	register(&checkDef{
		id:    "C37",
		rule:  "For every byte string Base58Encode is the published radix-58 text (one leading 1 per leading zero byte) and for every text Base58Decode is the bytes of that number, or nothing when a character is outside the alphabet; for every 64-bit value the script number is the published minimal sign-magnitude bytes, and decoding is its inverse, refusing what is too long or not minimal.",
		specs: []string{"xbase/base58", "xvm/num"},
		floor: 4,
		run: func(c *Ctx) {
			c.specPairs("xbase", "B58", false, func(e *Engine) { e.constGlobals(nil, "xbase") })
			c.specPairs("xvm", "Num", false, tableModels)
		},
	})
}
