package main

// Comparisons that decide lower-level functions, for the checks of the
// properties that rest on them: a defect below is reported by each.

// leanVarInt: the variable-length integer and the fixed-width primitives.
func (c *Ctx) leanVarInt() {
	for _, p := range []string{"Rd", "Wr", "VI"} {
		c.specPairs("xbase", p, true, func(e *Engine) { delete(e.models, "xbase.VarIntSerializeSize") })
	}
}

// leanHandlers: the operations of the script engine, but for the
// multi-signature ones (C11).
func (c *Ctx) leanHandlers() {
	c.perCode("xvm", "CodeOp", opModels, func(op byte) bool { return op >= 172 && op <= 175 })
	c.specPairs("xvm", "SigCheck", false, func(e *Engine) { opModels(e); callbackModels(e) })
}

// leanNumbers: the byte form of script numbers.
func (c *Ctx) leanNumbers() { c.specPairs("xvm", "Num", false, tableModels) }

// leanDigits: Base58 text.
func (c *Ctx) leanDigits() {
	c.specPairs("xbase", "B58", false, func(e *Engine) { e.constGlobals(nil, "xbase") })
}

// leanDigests: what is signed.
func (c *Ctx) leanDigests() {
	c.specPairs("xcore", "SigWit", true, sigModels)
	c.specPairs("xcore", "SigRaw", true, sigModels)
}

// leanPaillier: the encryption the joint protocols calculate with.
func (c *Ctx) leanPaillier() {
	for _, p := range []string{"Keys", "Enc", "Dec", "Hom"} {
		c.specPairs("xcrypto/paillier", p, true, paillierModels)
	}
}

// leanKeys: serialised keys and the sum of a private key and a number.
func (c *Ctx) leanKeys() {
	for _, p := range []string{"Form", "Prv", "Add"} {
		c.specPairs("xcrypto", p, true, keyModels, fieldRange)
	}
}

// leanWords: between entropy and words.
func (c *Ctx) leanWords() {
	c.specPairs("xcore/bip39", "Ent", true, wordModels)
	for _, n := range []string{"Len", "Pad", "Hash"} {
		c.specPairs("xcore/bip39", n, true, wordModels)
	}
	for _, n := range []string{"Count", "Known", "Same"} {
		c.specPairs("xcore/bip39", n, true, wordModels)
	}
	c.specPairs("xcore/bip39", "Arr", true, arrayModels)
	c.specPairs("xcore/bip39", "Sen", true, sentenceModels, hashLen)
	c.perCode("xcore/bip39", "Sum", sumModels, nil)
}
