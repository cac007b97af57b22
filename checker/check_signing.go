package main

func init() {
	register(&checkDef{
		id:    "C39",
		rule:  "Verify accepts exactly when, for every input, its own unlocking script runs against its own locking script with signatures checked against the digest of that index, of the form its kind of script signs, for the type carried by the signature, under the key of the script; signing an input embeds, for each key in order, that key and its signature of that same digest with the type appended.",
		specs: []string{"xcore/signing", "xvm/stub", "xcore/tx"},
		floor: 60,
		run: func(c *Ctx) {
			c.specPairs("xcore", "VerifyAll", false, signingModels)
			c.specPairs("xcore", "SignIn", false, signingModels)
			c.specPairs("xcore", "Embed", false, signingModels)
			c.specPairs("xcore", "SignGroups", false, groupSigning, coinsSet)
			c.leanDigests()
		},
	})
}

func signingModels(e *Engine) {
	txinModels(e)
	for _, f := range []string{"xcrypto.PubKeyFromBytes", "xcrypto.EcdsaVerify", "xcrypto.EcdsaSign", "(*xcrypto.PrvKey).PubKey", "(*xcrypto.PubKey).SerializeCompressed", "(*xcrypto.PubKey).SerializeUncompressed",
		"(*xcore.Transaction).RawSignatureHash", "(*xcore.Transaction).WitnessV0SignatureHash", "xvm.stubType", "xvm.stubSig", "xvm.stubKey", "xvm.stubRuns"} {
		opaque(e, f, nil)
	}
	stub := e.prog.ByRel["xvm"].SSA.Func("stubVerify")
	need("the stand-in for script execution", stub != nil)
	e.models["(*xvm.Engine).Verify"] = func(c *callCtx) ([]Outcome, bool) {
		return e.inline(c.fr, c.instr, stub, nil, c.args, c.st), true
	}
}

// groupSigning: signing an input (the other pairs decide it) fails or leaves a
// mark of its arguments on the transaction.
func groupSigning(e *Engine) {
	buildModels(e)
	e.models["(*xcore.Transaction).SignIndex"] = func(c *callCtx) ([]Outcome, bool) {
		t := c.args[0]
		mark, ft := e.fieldOf(t, e.prog.Named("xcore", "Transaction"), "lockTime")
		was := e.load(c.st, mark, ft)
		in := []*Term{was}
		flag := tFalse
		for _, a := range c.args[1:] {
			if a.typ == tyBool || a.op == ONot {
				flag = a
			}
			in = append(in, e.reify(c.st, a))
		}
		sign := func(st *State, v *Term) []Outcome {
			args := append([]*Term{}, in...)
			for i := range args {
				if args[i] == flag {
					args[i] = v
				}
			}
			cc := *c
			cc.st = st
			return cc.splitOn(mkApp("signs", tyBool, args...), func(s *State) Outcome {
				e.setCell(s, mark, mkApp("signed", ft, args...))
				return Outcome{st: s, res: tNil}
			}, func(s *State) Outcome {
				return Outcome{st: s, res: cc.errTerm()}
			})
		}
		var outs []Outcome
		for _, o := range c.splitOn(flag, func(s *State) Outcome { return Outcome{st: s, res: tTrue} }, func(s *State) Outcome { return Outcome{st: s, res: tFalse} }) {
			outs = append(outs, sign(o.st, o.res)...)
		}
		return outs, true
	}
}
