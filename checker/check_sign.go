package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func signModels(e *Engine) {
	keyModels(e)
	e.constGlobals(nil, "xcrypto/ecdsa", "xcrypto/schnorr")
	// the standard library's verification: unknown, but a function of values
	e.models["crypto/ecdsa.Verify"] = func(c *callCtx) ([]Outcome, bool) {
		named, ok := c.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem().(*types.Named)
		need("crypto/ecdsa.PublicKey", ok)
		coord := func(f string) *Term {
			p, t := c.e.fieldOf(c.args[0], named, f)
			return c.e.bigVal(c.st, c.e.load(c.st, p, t))
		}
		x, y := coord("X"), coord("Y")
		return c.ret(mkApp("ecdsaverify", tyBool, x, y, c.content(1), c.big(2), c.big(3))), true
	}
}

// fieldRange32 also fixes the lengths parameters state.
func fieldRange32(o *equivOpts) {
	fieldRange(o)
	f := o.setup
	o.setup = func(e *Engine, st *State, args []*Term) {
		f(e, st, args)
		exactLens(e, st, args)
	}
}

// nonceModel: a nonce is an unknown function of order, key and hash, in
// [1, q-1] (the pair Nonce decides which function).
func nonceModel(e *Engine) {
	e.models["xcrypto/ecdsa.NonceRFC6979"] = func(c *callCtx) ([]Outcome, bool) {
		v := mkApp("nonce", nil, c.big(0), c.big(1), c.content(2))
		c.st.facts.assume(mkLe(mkInt(1), v))
		c.st.facts.assume(mkLt(v, c.big(0)))
		return c.ret(newBigAt(c, "nonce", v)), true
	}
}

// signerModels: the signers and verifiers of one curve are unknown functions
// of values (the pairs of their own packages decide them).
func signerModels(e *Engine) {
	signModels(e)
	derModels(e)
	fields := func(c *callCtx, names ...string) []*Term {
		named := c.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem().(*types.Named)
		var out []*Term
		for _, f := range names {
			p, t := c.e.fieldOf(c.args[0], named, f)
			out = append(out, c.e.bigVal(c.st, c.e.load(c.st, p, t)))
		}
		return out
	}
	for _, s := range []string{"ecdsa", "schnorr"} {
		s := s
		e.models["xcrypto/"+s+".Sign"] = func(c *callCtx) ([]Outcome, bool) {
			in := append(fields(c, "D"), c.content(1))
			return c.splitOn(mkApp(s+"signs", tyBool, in...), func(st *State) Outcome {
				c2 := *c
				c2.st = st
				r, v := mkApp(s+"R", nil, in...), mkApp(s+"S", nil, in...)
				for _, x := range []*Term{r, v} {
					st.facts.assume(mkLe(tZero, x))
					st.facts.assume(mkLt(x, hexBig(curveConst["P"])))
				}
				return Outcome{st: st, res: mkTup(newBigAt(&c2, "r", r), newBigAt(&c2, "s", v), tNil)}
			}, func(st *State) Outcome { return Outcome{st: st, res: mkTup(tNil, tNil, c.errTerm())} }), true
		}
		e.models["xcrypto/"+s+".Verify"] = func(c *callCtx) ([]Outcome, bool) {
			in := append(fields(c, "X", "Y"), c.content(1), c.big(2), c.big(3))
			return c.ret(mkApp(s+"verifies", tyBool, in...)), true
		}
	}
}

func jointModels(e *Engine) {
	signModels(e)
	groupModels(e)
	derModels(e)
	homModels(e)
	nonceModel(e)
	e.constGlobals(nil, "xcrypto")
}

func init() {
	const schnorrSign, ecdsaSign = "xcrypto/schnorr/sign", "xcrypto/ecdsa/sign"
	register(&checkDef{
		id:    "C21",
		rule:  "For every key, message and nonce, the single signers return exactly the published signature (r reduced, s in the lower half, neither zero, or an error), the nonce is exactly the published derivation from key and message, and the final steps of the multi-party protocols reduce, normalise and refuse zero alike.",
		specs: []string{ecdsaSign, schnorrSign, "xcrypto/sign"},
		floor: 60,
		run: func(c *Ctx) {
			c.specPairs("xcrypto/ecdsa", "Nonce", true, signModels, fieldRange32)
			c.specPairs("xcrypto/ecdsa", "Hash", true, signModels)
			c.specPairs("xcrypto/ecdsa", "Sign", true, func(e *Engine) { signModels(e); nonceModel(e) }, fieldRange32)
			c.specPairs("xcrypto/schnorr", "Sign", true, signModels, fieldRange)
			c.specPairs("xcrypto/schnorr", "Part", true, signModels, fieldRange)
			c.specPairs("xcrypto", "Sig", true, signerModels, fieldRange)
			c.specPairs("xcrypto", "Make", true, signerModels, fieldRange)
			c.specPairs("xcrypto", "Final", true, jointModels, fieldRange)
			c.specPairs("xcrypto", "JointE", true, jointModels, fieldRange32)
		},
	})
	register(&checkDef{
		id:    "C22",
		rule:  "Parsing takes exactly one well-formed signature and nothing after it; verification accepts exactly what parses and satisfies the published equation with both numbers in range (Schnorr), or what the standard library's verification accepts (ECDSA), for every key, message and byte string.",
		specs: []string{ecdsaSign, schnorrSign, "xcrypto/sign"},
		floor: 50,
		run: func(c *Ctx) {
			c.specPairs("xcrypto/ecdsa", "Verify", true, signModels)
			c.specPairs("xcrypto/schnorr", "Verify", true, signModels, fieldRange)
			c.specPairs("xcrypto/schnorr", "PartE", true, signModels, fieldRange)
			c.specPairs("xcrypto", "Parse", true, signerModels)
			c.specPairs("xcrypto", "Ver", true, signerModels, fieldRange)
		},
	})
	register(&checkDef{
		id:    "C36",
		rule:  "Running both parties of each protocol against each other, for every pair of keys, secret and message, gives exactly the signature and the public key the single signer with the joint key and nonce has: product for ECDSA, sum for Schnorr, divided by the secret between scriptless parties.",
		specs: []string{"xcrypto/sign", schnorrSign, "xcrypto/paillier/paillier"},
		floor: 12,
		run: func(c *Ctx) {
			c.specPairs("xcrypto", "Joint", true, jointModels, fieldRange32)
			c.leanPaillier()
			c.specPairs("xcrypto", "Secret", true, jointModels, fieldRange)
			c.specPairs("xcrypto", "Final", true, jointModels, fieldRange)
			c.specPairs("xcrypto/schnorr", "Part", true, signModels, fieldRange)
		},
	})
}

// groupModels: the operations on multiples of a point are those of the group
// (C33 is about the arithmetic itself): a(bP) = (ab)P, aP + bP = (a+b)P, and
// multiples depend on the factor modulo the order only.
func groupModels(e *Engine) {
	inv := "invoke (crypto/elliptic.Curve)."
	type base struct{ x, y *Term }
	n := hexBig(curveConst["N"])
	make2 := func(c *callCtx, b base, k *Term) []Outcome {
		k = mkMod(k, n)
		x, y := mkApp("ecmulX", nil, b.x, b.y, k), mkApp("ecmulY", nil, b.x, b.y, k)
		for _, v := range []*Term{x, y} {
			c.st.facts.assume(mkLe(tZero, v))
			c.st.facts.assume(mkLt(v, hexBig(curveConst["P"])))
		}
		return c.ret(newBigAt(c, "x", x), newBigAt(c, "y", y))
	}
	multiple := func(x, y *Term) (base, *Term) {
		if x.op == OApp && y.op == OApp && x.sym == "ecmulX" && y.sym == "ecmulY" && x.args[0] == y.args[0] && x.args[1] == y.args[1] && x.args[2] == y.args[2] {
			return base{x.args[0], x.args[1]}, x.args[2]
		}
		return base{x, y}, mkInt(1)
	}
	g := base{hexBig(curveConst["Gx"]), hexBig(curveConst["Gy"])}
	e.models[inv+"ScalarMult"] = func(c *callCtx) ([]Outcome, bool) {
		b, k := multiple(c.big(1), c.big(2))
		return make2(c, b, mkMul(k, scalar(c, 3))), true
	}
	e.models[inv+"ScalarBaseMult"] = func(c *callCtx) ([]Outcome, bool) {
		return make2(c, g, scalar(c, 1)), true
	}
	add := func(c *callCtx, x1, y1, x2, y2 *Term) ([]Outcome, bool) {
		b1, k1 := multiple(x1, y1)
		b2, k2 := multiple(x2, y2)
		if b1 != b2 {
			return c.ret(newBigAt(c, "x", mkApp("ecaddX", nil, x1, y1, x2, y2)), newBigAt(c, "y", mkApp("ecaddY", nil, x1, y1, x2, y2))), true
		}
		return make2(c, b1, mkAdd(k1, k2)), true
	}
	e.models[inv+"Add"] = func(c *callCtx) ([]Outcome, bool) {
		return add(c, c.big(1), c.big(2), c.big(3), c.big(4))
	}
	e.models[inv+"Double"] = func(c *callCtx) ([]Outcome, bool) {
		return add(c, c.big(1), c.big(2), c.big(1), c.big(2))
	}
}

// productBounds bounds a polynomial term by term.
func productBounds(f *Facts, t *Term) (lo, hi *big.Int) {
	l := asLinear(t)
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, a := range l.atoms {
		al, ah := f.atomBounds(a)
		if a.op == OApp && a.sym == "mul" {
			al, ah = big.NewInt(1), big.NewInt(1)
			for _, x := range a.args {
				xl, xh := f.interval(x)
				if xl == nil || xh == nil || xl.Sign() < 0 {
					return nil, nil
				}
				al, ah = new(big.Int).Mul(al, xl), new(big.Int).Mul(ah, xh)
			}
		}
		if al == nil || ah == nil || l.coefs[i].Sign() < 0 {
			return nil, nil
		}
		lo.Add(lo, new(big.Int).Mul(al, l.coefs[i]))
		hi.Add(hi, new(big.Int).Mul(ah, l.coefs[i]))
	}
	return
}

// homModels: encrypted values by what is in them (C35 is about the arithmetic
// itself). A modulus of two 1024-bit primes is at least 2^2046; a value that
// may reach it is not decided here.
func homModels(e *Engine) {
	const pk, sk = "(*xcrypto/paillier.PubKey).", "(*xcrypto/paillier.PrvKey)."
	max := new(big.Int).Sub(pow2(2046), bigOne)
	keyOf := func(p *Term, kind string) *Term {
		if p.op == OApp && p.sym == "nonnil" && p.args[0].op == OApp && p.args[0].sym == kind {
			return p.args[0].args[0]
		}
		panic(&budgetError{"paillier key of unknown origin: " + clip(p.String())})
	}
	open := func(c *callCtx, i int, key *Term) *Term {
		v := c.big(i)
		if v.op != OApp || v.sym != "paienc" || v.args[0] != key {
			panic(&budgetError{"ciphertext not known to be of this key: " + clip(v.String())})
		}
		return v.args[1]
	}
	seal := func(c *callCtx, st *State, key, m *Term) *Term {
		lo, hi := productBounds(st.facts, m)
		if lo == nil || lo.Sign() < 0 || hi.Cmp(max) > 0 {
			panic(&budgetError{"plaintext not known to stay below the modulus: " + clip(m.String())})
		}
		v := mkApp("paienc", nil, key, m)
		st.facts.assume(mkLe(mkInt(1), v))
		c2 := *c
		c2.st = st
		return newBigAt(&c2, "ct", v)
	}
	two := func(c *callCtx, ok *Term, yes func(st *State) *Term) []Outcome {
		n := c.sig.Results().Len()
		return c.splitOn(ok, func(st *State) Outcome { return Outcome{st: st, res: yes(st)} }, func(st *State) Outcome {
			var r []*Term
			for i := 0; i < n-1; i++ {
				r = append(r, tNil)
			}
			return Outcome{st: st, res: mkTup(append(r, c.errTerm())...)}
		})
	}
	e.seqRand = true
	e.models["xcrypto/paillier.GenerateKeyPair"] = func(c *callCtx) ([]Outcome, bool) {
		if b, ok := c.args[0].int64(); !ok || b != 2048 {
			panic(&budgetError{"modulus of another size than the bounds are about"})
		}
		id := c.e.drawNumber(c.st)
		r := c.sig.Results()
		return two(c, mkApp("keysok", tyBool, id), func(st *State) *Term {
			return mkTup(mkApp("nonnil", r.At(0).Type(), mkApp("paipub", r.At(0).Type(), id)), mkApp("nonnil", r.At(1).Type(), mkApp("paiprv", r.At(1).Type(), id)), tNil)
		}), true
	}
	e.models[pk+"Encrypt"] = func(c *callCtx) ([]Outcome, bool) {
		k, m := keyOf(c.args[0], "paipub"), c.big(1)
		id := c.e.drawNumber(c.st)
		return two(c, mkApp("encok", tyBool, id), func(st *State) *Term { return mkTup(seal(c, st, k, m), tNil) }), true
	}
	op := func(name string, f func(c *callCtx, key, x *Term) *Term) {
		e.models[pk+name] = func(c *callCtx) ([]Outcome, bool) {
			k := keyOf(c.args[0], "paipub")
			return c.ret(seal(c, c.st, k, f(c, k, open(c, 1, k))), tNil), true
		}
	}
	op("MultPlaintext", func(c *callCtx, _, x *Term) *Term { return mkMul(x, c.big(2)) })
	op("AddPlaintext", func(c *callCtx, _, x *Term) *Term { return mkAdd(x, c.big(2)) })
	op("Add", func(c *callCtx, k, x *Term) *Term { return mkAdd(x, open(c, 2, k)) })
	e.models[sk+"Decrypt"] = func(c *callCtx) ([]Outcome, bool) {
		k := keyOf(c.args[0], "paiprv")
		return c.ret(newBigAt(c, "pt", open(c, 1, k)), tNil), true
	}
}

// derModels: the standard encoding of a sequence of integers, one unknown
// function per direction.
func derModels(e *Engine) {
	ints := func(t types.Type) int {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return -1
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Tag(i) != "" || s.Field(i).Type().String() != "*math/big.Int" {
				return -1
			}
		}
		return s.NumFields()
	}
	e.models["encoding/asn1.Unmarshal"] = func(c *callCtx) ([]Outcome, bool) {
		in := c.content(0)
		mi, ok := c.instr.(ssa.CallInstruction).Common().Args[1].(*ssa.MakeInterface)
		if !ok || c.args[1].op != OIface {
			return nil, false
		}
		p, n := c.args[1].args[0], ints(mi.X.Type())
		if n < 0 {
			return nil, false
		}
		bt := bigPtrType(c)
		return c.splitOn(mkApp("derok", tyBool, in, mkInt(int64(n))), func(st *State) Outcome {
			c2 := *c
			c2.st = st
			for i := 0; i < n; i++ {
				c.e.store(st, mkFld(p, i, types.NewPointer(bt)), newBigAt(&c2, fmt.Sprint("der", i), mkApp("derint", nil, in, mkInt(int64(i)), mkInt(int64(n)))), bt)
			}
			rest := mkApp("derrest", tyBytes, in, mkInt(int64(n)))
			return Outcome{st: st, res: mkTup(c2.bytesOut(rest), tNil)}
		}, func(st *State) Outcome { return Outcome{st: st, res: mkTup(tNil, c.errTerm())} }), true
	}
	e.models["encoding/asn1.Marshal"] = func(c *callCtx) ([]Outcome, bool) {
		mi, ok := c.instr.(ssa.CallInstruction).Common().Args[0].(*ssa.MakeInterface)
		if !ok || c.args[0].op != OIface || ints(mi.X.Type()) < 0 {
			return nil, false
		}
		v := c.args[0].args[0]
		if v.op != OStruct {
			panic(&budgetError{"value encoded: " + clip(v.String())})
		}
		var nums []*Term
		for _, p := range v.args {
			nums = append(nums, c.e.bigVal(c.st, p))
		}
		return c.splitOn(mkApp("deropen", tyBool, nums...), func(st *State) Outcome {
			c2 := *c
			c2.st = st
			return Outcome{st: st, res: mkTup(c2.bytesOut(mkApp("der", tyBytes, nums...)), tNil)}
		}, func(st *State) Outcome { return Outcome{st: st, res: mkTup(tNil, c.errTerm())} }), true
	}
}
