package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id:    "C35",
		rule:  "Key generation, encryption, decryption and the five operations on encrypted values are exactly the published Paillier functions of their arguments and of the draws from the secure source (equality of terms over the integers, on every path, arguments unchanged).",
		specs: []string{"xcrypto/paillier/paillier"},
		floor: 15,
		run: func(c *Ctx) {
			for _, p := range []string{"Keys", "Enc", "Dec", "Hom"} {
				c.specPairs("xcrypto/paillier", p, true, paillierModels)
			}
		},
	})
	register(&checkDef{
		id:    "C20",
		rule:  "Every function that draws randomness is compared with its published form, in which each draw comes from the system's source and its failure is an error; no other generator is referred to anywhere, no other reader is ever handed to a drawing function, the source is never replaced, and the clock is read only where messages and deadlines are dated.",
		specs: []string{"xcrypto/paillier/paillier", "xcore/bip39/seed", "xcore/bip32/random"},
		floor: 12,
		run: func(c *Ctx) {
			for _, p := range []string{"Keys", "Enc"} {
				c.specPairs("xcrypto/paillier", p, true, paillierModels)
			}
			c.specPairs("xcore/bip39", "NewEnt", false, func(e *Engine) {
				e.seqRand = true
				e.errorGlobals("xcore/bip39")
			})
			c.specPairs("xcore/bip32", "Random", false, func(e *Engine) {
				randModels(e)
				opaque(e, "xcore/bip32.NewHDKey", nil)
			})
			c.randomSources()
		},
	})
}

func paillierModels(e *Engine) {
	randModels(e)
	e.constGlobals(nil, "xcrypto/paillier")
}

// randModels: the k-th draw from the system's source is an unknown number in
// its range, or it fails.
func randModels(e *Engine) {
	e.seqRand = true
	src := func(c *callCtx) *Term {
		if r := c.args[0]; r.op == OLd && r.args[0].op == OGlob {
			return mkSym("source:"+r.args[0].sym, nil)
		}
		return mkApp("source", nil, c.e.reify(c.st, c.args[0]))
	}
	draw := func(name string, post func(st *State, v *Term, arg *Term)) Model {
		return func(c *callCtx) ([]Outcome, bool) {
			tag := []*Term{src(c), c.e.drawNumber(c.st)}
			arg := c.args[1]
			if name == "randint" {
				arg = c.big(1)
			}
			return c.splitOn(mkApp("drawok", tyBool, tag...), func(st *State) Outcome {
				v := mkApp(name, nil, append([]*Term{arg}, tag...)...)
				post(st, v, arg)
				c2 := *c
				c2.st = st
				return Outcome{st: st, res: mkTup(newBigAt(&c2, "rand", v), tNil)}
			}, func(st *State) Outcome { return Outcome{st: st, res: mkTup(tNil, c.errTerm())} }), true
		}
	}
	e.models["crypto/rand.Int"] = draw("randint", func(st *State, v, n *Term) {
		st.facts.assume(mkLe(tZero, v))
		st.facts.assume(mkLe(v, mkAddK(n, -1)))
	})
	e.models["crypto/rand.Prime"] = draw("randprime", func(st *State, v, _ *Term) {
		st.facts.assume(mkLe(mkInt(2), v))
	})
}

// randomSources looks at every reference to a generator or a clock.
func (c *Ctx) randomSources() {
	refs := 0
	for _, fn := range c.p.Funcs {
		// test fixtures are marked as such, and nothing else uses them
		if c.p.IsSpec(fn) || c.p.InMock(fn) {
			continue
		}
		rel := c.p.RelOf(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					pkg, name := "", ""
					switch v := (*op).(type) {
					case *ssa.Function:
						if v.Pkg != nil {
							pkg, name = v.Pkg.Pkg.Path(), v.Name()
						} else if v.Object() != nil && v.Object().Pkg() != nil {
							pkg, name = v.Object().Pkg().Path(), v.Name()
						}
					case *ssa.Global:
						if v.Pkg != nil {
							pkg, name = v.Pkg.Pkg.Path(), v.Name()
						}
					}
					if name == "init" {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && c.p.InMock(f) {
						c.must(false, "fixture used in "+c.p.FuncName(fn), c.p.Pos(in.Pos()), "%s uses the test fixture %s", c.p.FuncName(fn), name)
					}
					where := c.p.Pos(in.Pos())
					switch pkg {
					case "math/rand", "math/rand/v2", "hash/maphash":
						refs++
						c.must(false, "generator "+pkg+" in "+c.p.FuncName(fn), where, "%s refers to the predictable generator %s.%s", c.p.FuncName(fn), pkg, name)
					case "crypto/rand":
						refs++
						if st, ok := in.(*ssa.Store); ok && st.Addr == *op {
							c.must(false, "source replaced in "+c.p.FuncName(fn), where, "the system's random source is replaced")
						}
						c.must(name == "Read" || name == "Reader" || name == "Int" || name == "Prime", "draw "+name+" in "+c.p.FuncName(fn), where, "unknown use of the random source: %s", name)
						if call, ok := in.(*ssa.Call); ok && call.Call.Value == *op && (name == "Int" || name == "Prime") {
							u, isLoad := call.Call.Args[0].(*ssa.UnOp)
							g, isGlob := ssa.Value(nil), false
							if isLoad {
								g = u.X
								gl, ok := g.(*ssa.Global)
								isGlob = ok && gl.Name() == "Reader" && gl.Pkg.Pkg.Path() == "crypto/rand"
							}
							c.must(isGlob, "reader of "+name+" in "+c.p.FuncName(fn), where, "%s draws from a reader that is not the system's source", c.p.FuncName(fn))
						}
					case "time":
						if name == "Now" || name == "Since" {
							refs++
							c.must(rel == "xprotocol" || rel == "xrpc", "clock in "+c.p.FuncName(fn), where, "%s reads the clock in a package that makes secrets", c.p.FuncName(fn))
						}
					}
				}
			}
		}
	}
	c.count("references to sources examined", refs)
	need("references to the random source", refs >= 3)
}
