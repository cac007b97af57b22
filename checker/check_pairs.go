package main

import "strings"

// specPairs compares every implX/specX pair of a package whose name starts
// with the prefix.
func (c *Ctx) specPairs(rel, prefix string, pure bool, prep func(e *Engine), opts ...func(*equivOpts)) {
	names, impl, spec := c.pairs(rel, prefix)
	need("specifications "+rel+"/"+prefix+"*", len(names) > 0)
	for _, n := range names {
		if only := debugOnly(); only != "" && !strings.HasPrefix(n, only) {
			continue
		}
		e := c.engine()
		if prep != nil {
			prep(e)
		}
		e.mergeErr, e.exact = false, true
		o := equivOpts{pure: pure}
		for _, f := range opts {
			f(&o)
		}
		before := *c
		c.equiv(e, n, impl[n], spec[n], o)
		// the same function in another published form
		if alt := c.p.ByRel[rel].SSA.Func("alt" + n); alt != nil && len(c.fails) > len(before.fails) {
			first := *c
			*c = before
			e := c.engine()
			if prep != nil {
				prep(e)
			}
			e.mergeErr, e.exact = false, true
			c.equiv(e, n, impl[n], alt, o)
			if len(c.fails) > len(before.fails) {
				*c = first
			}
		}
		c.count("comparisons", 1)
		c.sample("%s: every outcome agrees with the specification", n)
	}
}

func init() {
	register(&checkDef{
		id:    "C02",
		rule:  "Driven from an arbitrary position, every Buffer reader returns exactly the published value of the next bytes, advances by its width and fails exactly when they are not all there; every writer appends exactly the published bytes; the variable-length integer is the shortest of the four published forms, its width function agrees, and each write reads back.",
		specs: []string{"xbase/buffer"},
		floor: 40,
		run: func(c *Ctx) {
			for _, p := range []string{"Rd", "Wr", "VI", "Reset", "Back"} {
				c.specPairs("xbase", p, true, func(e *Engine) { delete(e.models, "xbase.VarIntSerializeSize") })
			}
		},
	})
	register(&checkDef{
		id:    "C03",
		rule:  "The declared size of every message equals the length of the published encoding C01 compares Encode with, and the transaction sizes, weight and virtual size are the published functions of the lengths of its two serialisations (equality of closed forms over every path, sums over all inputs, outputs and witness items).",
		specs: []string{"xprotocol/wire", "xcore/tx", "xbase/buffer"},
		floor: 15,
		run: func(c *Ctx) {
			for _, t := range c.messageTypes() {
				n := t.Obj().Name()
				c.must(c.p.ByRel["xprotocol"].SSA.Func("implSize"+n) != nil, "message "+n, c.p.Pos(t.Obj().Pos()), "message type %s has no published size to be compared with", n)
			}
			c.wirePairs("Size", true)
			c.wirePairs("HdrSize", true)
			c.wirePairs("InvSize", true)
			c.specPairs("xcore", "Size", true, bufModels)
			c.leanVarInt()
		},
	})
	register(&checkDef{
		id:    "C07",
		rule:  "Both serialisers produce exactly the published transaction layout and leave the transaction unchanged; both parsers return exactly the published fields of arbitrary bytes or fail exactly when the form is truncated; identifiers are the double SHA-256 of the form without (txid) or with (wtxid) witness data.",
		specs: []string{"xcore/tx", "xbase/buffer"},
		floor: 12,
		run: func(c *Ctx) {
			c.specPairs("xcore", "Ser", true, bufModels)
			c.specPairs("xcore", "Des", false, func(e *Engine) {
				bufModels(e)
				// the reader of one length-prefixed string is compared modulo
				// 2^64 by C02; over nested counts the cases do not resolve
				e.wide = false
			})
			c.leanVarInt()
		},
	})
	register(&checkDef{
		id:    "C08",
		rule:  "For every transaction, input index and hash type, WitnessV0SignatureHash equals the BIP143 field sequence, as a function of the transaction's present contents only, and writes nothing through the transaction.",
		specs: []string{"xcore/tx"},
		floor: 6,
		run: func(c *Ctx) {
			c.specPairs("xcore", "SigWit", true, sigModels)
		},
	})
	register(&checkDef{
		id:    "C09",
		rule:  "For every transaction, input index and hash type, RawSignatureHash equals the published legacy field sequence and writes nothing through the transaction.",
		specs: []string{"xcore/tx"},
		floor: 6,
		run: func(c *Ctx) {
			c.specPairs("xcore", "SigRaw", true, sigModels)
		},
	})
}

func sigModels(e *Engine) {
	bufModels(e)
	e.models["xvm.RemoveOpcode"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("newslice", tyBytes, mkApp("rmop", tyBytes, c.content(0), c.args[1]))), true
	}
}
