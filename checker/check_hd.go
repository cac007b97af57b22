package main

func init() {
	register(&checkDef{
		id:    "C24",
		rule:  "The master key, the private and public child functions, the public half and the path walk compute, for every key, index and path, the published function of chain code, parent key and index, fail exactly where it is undefined, and nothing else.",
		specs: []string{"xcore/bip32/hd", "xcrypto/keys"},
		floor: 8,
		run: func(c *Ctx) {
			c.specPairs("xcore/bip32", "Key", false, hdModels)
			c.specPairs("xcore/bip32", "Path", false, func(e *Engine) {
				hdModels(e)
				opaque(e, "(*xcore/bip32.HDKey).Derive", nil)
			})
			c.leanKeys()
		},
	})
}
