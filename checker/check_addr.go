package main

import "fmt"

func init() {
	register(&checkDef{
		id:    "C15",
		rule:  "Every path on which DecodeAddress succeeds has established, for one of the four kinds, that the whole text decodes (Base58Check or witness form), that its version byte or human-readable part is the network's for that kind and that the payload has the kind's length, and returns the address of that kind, script, payload and text; each kind is returned on some path; text is the published form of the payload on the network; the text forms themselves decode and encode as published.",
		specs: []string{"xcore/addr", "xbase/text", "network/tables"},
		floor: 30,
		run: func(c *Ctx) {
			c.decodedAddress()
			c.specPairs("xcore", "AddrText", false, addrModels, hashLen)
			c.specPairs("xbase", "Check", true, base58Models)
			c.specPairs("xbase", "Wit", true, func(e *Engine) {
				opaque(e, "xbase.Bech32Decode", nil)
				opaque(e, "xbase.Bech32Encode", nil)
			})
			nets := func(e *Engine) { e.constGlobals(nil, "network") }
			c.specPairs("network", "Net", false, nets)
			c.specPairs("network", "Apart", false, nets)
		},
	})
}

func addrModels(e *Engine) {
	for _, f := range []string{"WitnessDecode", "WitnessEncode", "Base58CheckDecode", "Base58CheckEncode"} {
		opaque(e, "xbase."+f, nil)
	}
}

func (c *Ctx) decodedAddress() {
	pk := c.p.ByRel["xcore"]
	impl := pk.SSA.Func("implDecAddr")
	e := c.engine()
	addrModels(e)
	e.mergeErr, e.exact = false, true
	args := e.symArgs(impl)
	e.side = "i"
	iv := e.runVals(impl, newState(), args)
	need("an outcome of DecodeAddress", len(iv) > 0)
	var kinds [5][]outcomeVal
	for k := 1; k <= 4; k++ {
		e.side = "s"
		kinds[k] = e.runVals(pk.SSA.Func(fmt.Sprint("specDecAddr", k)), newState(), args)
		e.side = "i"
	}
	okOf := func(v *Term) *Term { return v.args[len(v.args)-1] }
	var reached [5]bool
	n := 0
	for _, a := range iv {
		if !c.must(!a.o.panic, "DecodeAddress fails", e.where2(a.o), "DecodeAddress can panic: %s", a.o.why) {
			continue
		}
		if equalUnder(a.o.st.facts, okOf(a.val), tFalse, 4) {
			continue
		}
		n++
		found := 0
		why := ""
		for k := 1; k <= 4; k++ {
			match, pairs := true, 0
			for _, b := range kinds[k] {
				f, ok := jointly(a.o.st.facts, b.o.st.facts)
				if !ok {
					continue
				}
				av, bv := a.val, b.val
				for i := 0; i < 4; i++ {
					m := knownAtoms(f)
					if len(m) == 0 {
						break
					}
					memo := map[*Term]*Term{}
					av, bv = cleanVal(substMemo(av, m, memo)), cleanVal(substMemo(bv, m, memo))
				}
				pairs++
				if b.o.panic || !equalCases(f, av, bv, 2) {
					match = false
					why += fmt.Sprintf("\n  not kind %d: computed %s, that kind %s", k, clip(av.String()), clip(bv.String()))
					break
				}
			}
			if match && pairs > 0 {
				found = k
				reached[k] = true
			}
		}
		c.must(found > 0, "a success of DecodeAddress", e.where2(a.o), "this path of DecodeAddress succeeds without having established that the text is of the kind it returns, on the network asked for%s\n  under: %s", why, clip(factsString(a.o.st.facts)))
	}
	for k := 1; k <= 4; k++ {
		c.must(reached[k], fmt.Sprint("kind ", k, " of DecodeAddress"), "", "no path of DecodeAddress returns an address of kind %d", k)
	}
	c.count("paths of DecodeAddress that succeed", n)
}
