package main

import (
	"crypto/sha256"
	"fmt"
)

func init() {
	register(&checkDef{
		id:    "C25",
		rule:  "The word tables, evaluated over the abstract domain, are the published lists (their hash) of 2048 distinct words, the English one in use after start-up with every word mapped to its position; entropy sizes, checked and unchecked seeds and new keys are exactly the published functions; key stretching is HMAC-SHA-512, 2048 rounds, 64 bytes, salt \"mnemonic\" and passphrase.",
		specs: []string{"xcore/bip39/seed", "xcore/bip39/words", "xcrypto/pbkdf2/kdf"},
		floor: 20,
		run: func(c *Ctx) {
			seed := func(e *Engine) {
				opaque(e, "xcrypto/pbkdf2.Key", nil)
				opaque(e, "xcore/bip39.MnemonicToByteArray", nil)
			}
			errs := func(e *Engine) {
				e.seqRand = true
				e.errorGlobals("xcore/bip39")
			}
			c.specPairs("xcore/bip39", "Seed", false, seed)
			c.specPairs("xcore/bip39", "KeySeed", false, seed)
			c.specPairs("xcore/bip39", "Checked", false, seed)
			c.specPairs("xcore/bip39", "EntropySize", false, errs)
			c.specPairs("xcore/bip39", "NewEnt", false, errs)
			c.specPairs("xcore/bip39", "NewKey", false, func(e *Engine) {
				opaque(e, "xcore/bip39.NewEntropy", nil)
				opaque(e, "xcore/bip39.newMnemonic", nil)
			})
			c.specPairs("xcore/bip39", "Mapped", false, nil)
			c.specPairs("xcore/bip39", "Init", false, func(e *Engine) { e.constGlobals(nil, "xcore/bip39") })
			c.specPairs("xcrypto/pbkdf2", "Kdf", true, nil)
			c.wordLists()
			c.leanWords()
		},
	})
}

// wordLists compares the tables with the hash of the published files (one word
// a line).
func (c *Ctx) wordLists() {
	e := c.engine()
	const rel = "xcore/bip39/words"
	st := e.initGlobals(rel)
	pk := c.p.ByRel[rel]
	need("package "+rel, pk != nil)
	for _, l := range []struct{ name, sum string }{
		{"English", "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"},
		{"Chinese", "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726"},
		{"Japanese", "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd"},
	} {
		g := pk.SSA.Var(l.name)
		need("word list "+l.name, g != nil)
		in := e.content(st, e.load(st, globTerm(g), g.Type().Underlying()))
		h := sha256.New()
		seen := map[string]bool{}
		n := 0
		for _, u := range catItems(in) {
			if u.op == OUnit && u.args[0].op == OStr {
				h.Write([]byte(u.args[0].sym + "\n"))
				seen[u.args[0].sym] = true
			}
			n++
		}
		sum := fmt.Sprintf("%x", h.Sum(nil))
		c.must(n == 2048 && len(seen) == 2048 && sum == l.sum, "word list "+l.name, rel, "the %s list has %d entries, %d distinct, and hash %s; the published list has 2048 and %s", l.name, n, len(seen), sum, l.sum)
		c.count("words", n)
	}
	c.sample("the three lists evaluated and hashed: 2048 distinct words each")
}
