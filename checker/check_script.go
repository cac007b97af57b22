package main

import (
	"fmt"
	"go/types"
	"strings"
)

// tableModels publishes the tables initialisation builds.
func tableModels(e *Engine) {
	bufModels(e)
	e.constGlobals(nil, "xvm")
}

// perCode compares a pair once for every value of its byte parameter op.
func (c *Ctx) perCode(rel, prefix string, prep func(e *Engine), skip func(op byte) bool) {
	names, impl, spec := c.pairs(rel, prefix)
	need("specifications "+rel+"/"+prefix+"*", len(names) > 0)
	for _, n := range names {
		if only := debugOnly(); only != "" && !strings.HasPrefix(n, only) {
			continue
		}
		e := c.engine()
		prep(e)
		e.mergeErr, e.exact = false, true
		both := false
		for _, p := range impl[n].Params {
			both = both || p.Name() == "pre"
		}
		for code := int64(0); code < 512; code++ {
			code, first := code/2, code%2 == 0
			if !first && !both || skip != nil && skip(byte(code)) {
				continue
			}
			c.equiv(e, fmt.Sprintf("%s of code 0x%02x", n, code), impl[n], spec[n], equivOpts{setup: func(e *Engine, st *State, args []*Term) {
				exactLens(e, st, args)
				e.opByte = code
				for i, p := range impl[n].Params {
					switch p.Name() {
					case "op":
						args[i] = mkInt(code)
					case "q55": // no more than the format can count
						st.facts.assume(mkLt(args[i], mkInt(1<<55)))
					case "pre":
						if first {
							args[i] = tNil
						} else {
							st.facts.assume(mkLe(mkInt(1), lenOf(e.content(st, args[i]))))
						}
					}
				}
			}})
			c.count("comparisons", 1)
		}
		c.sample("%s: every outcome of each of the 256 codes agrees with the specification", n)
	}
}

func init() {
	register(&checkDef{
		id:    "C13",
		rule:  "From an arbitrary position of an arbitrary script the reader returns exactly the published instruction there (code, data, bytes consumed) or fails exactly when it is truncated or unknown; the builder appends exactly the published push form of every data, integer and code; unparsing gives back the parsed bytes.",
		specs: []string{"xvm/script", "xvm/num"},
		floor: 20,
		run: func(c *Ctx) {
			c.specPairs("xvm", "Read", false, tableModels)
			c.perCode("xvm", "Code", tableModels, nil)
			c.specPairs("xvm", "Build", false, func(e *Engine) {
				tableModels(e)
				e.models["(xvm.ScriptNum).Bytes"] = func(c *callCtx) ([]Outcome, bool) {
					return c.ret(c.bytesOut(mkApp("scriptnum", tyBytes, c.args[0]))), true
				}
			})
			c.leanNumbers()
		},
	})
}

// opModels: as tableModels, with the script number conversions as unknown
// functions shared by both sides (C12's own pairs look at them).
func opModels(e *Engine) {
	tableModels(e)
	e.models["(xvm.ScriptNum).Bytes"] = func(c *callCtx) ([]Outcome, bool) {
		if k, ok := c.args[0].int64(); ok {
			return c.ret(c.bytesOut(mkStr(scriptNum(k)))), true
		}
		return c.ret(c.bytesOut(mkApp("scriptnum", tyBytes, c.args[0]))), true
	}
	e.models["xvm.MakeScriptNum"] = func(c *callCtx) ([]Outcome, bool) {
		d := c.content(0)
		return c.splitOn(mkApp("isnum", tyBool, d, c.args[1]), func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(mkApp("num", c.sig.Results().At(0).Type(), d, c.args[1]), tNil)}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(tZero, c.errTerm())}
		}), true
	}
}

func scriptNum(v int64) string {
	neg, out := v < 0, []byte(nil)
	if neg {
		v = -v
	}
	for ; v > 0; v >>= 8 {
		out = append(out, byte(v))
	}
	if n := len(out); n > 0 && out[n-1]&0x80 != 0 {
		out = append(out, 0)
	}
	if neg {
		out[len(out)-1] |= 0x80
	}
	return string(out)
}

func init() {
	register(&checkDef{
		id:    "C12",
		rule:  "For each of the 256 codes: the table entry is the published value, name and operand length (or absent), and executing the table's handler on an arbitrary engine state changes the data and control stacks exactly as published, or fails exactly when the published operation does.",
		specs: []string{"xvm/ops"},
		floor: 256,
		run: func(c *Ctx) {
			c.specPairs("xvm", "Num", false, tableModels)
			c.perCode("xvm", "CodeTable", tableModels, nil)
			c.perCode("xvm", "CodeOp", opModels, func(op byte) bool { return op >= 172 && op <= 175 })
		},
	})
}

// callbackModels: the hasher and verifier the caller supplied are unknown
// functions of their arguments which change nothing the engine owns.
func callbackModels(e *Engine) {
	e.models["dyncall"] = func(c *callCtx) ([]Outcome, bool) {
		args := []*Term{c.args[0]}
		for i := range c.args[1:] {
			a := c.args[i+1]
			if _, ok := c.sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
				a = c.content(i + 1)
			}
			args = append(args, a)
		}
		n := c.sig.Results().Len()
		return c.splitOn(mkApp("callok", tyBool, args...), func(st *State) Outcome {
			var res []*Term
			for i := 0; i < n-1; i++ {
				t := c.sig.Results().At(i).Type()
				v := mkApp(fmt.Sprintf("callres%d", i), t, args...)
				if _, ok := t.Underlying().(*types.Slice); ok {
					v = mkApp("newslice", t, v)
				}
				res = append(res, v)
			}
			if n == 1 {
				return Outcome{st: st, res: tNil}
			}
			return Outcome{st: st, res: mkTup(append(res, tNil)...)}
		}, func(st *State) Outcome {
			var res []*Term
			for i := 0; i < n-1; i++ {
				res = append(res, zeroOf(c.sig.Results().At(i).Type()))
			}
			if n == 1 {
				return Outcome{st: st, res: c.errTerm()}
			}
			return Outcome{st: st, res: mkTup(append(res, c.errTerm())...)}
		}), true
	}
}

func init() {
	register(&checkDef{
		id:    "C11",
		rule:  "Executing the four signature operations on an arbitrary data stack gives, for an arbitrary hasher and verifier, exactly the published result: true only if every required signature verified over the hash of its own type, in key order, with the key and signature counts bounded and every stack access checked.",
		specs: []string{"xvm/sig"},
		floor: 20,
		run: func(c *Ctx) {
			c.specPairs("xvm", "SigCheck", false, func(e *Engine) { opModels(e); callbackModels(e) })
			// every key count; all signature counts where few paths allow it,
			// elsewhere the extremes
			for n := int64(0); n <= 20; n++ {
				for m := int64(0); m <= n; m++ {
					if n > c.multiAll() && m > 1 && m < n {
						continue
					}
					c.multiSig(n, m)
				}
			}
			for _, n := range []int64{-1 << 31, -1, 21, 1<<31 - 1} {
				c.multiSig(n, 0)
			}
			for n := int64(0); n <= 20; n++ {
				for _, m := range []int64{-1 << 31, -1, n + 1, 1<<31 - 1} {
					c.multiSig(n, m)
				}
			}
		},
	})
}

// multiAll is the key count up to which all signature counts are compared.
func (c *Ctx) multiAll() int64 {
	if c.thorough {
		return 6
	}
	return 3
}

// multiSig compares the multi-signature operations with n keys and m
// signatures on the stack; everything else is arbitrary.
func (c *Ctx) multiSig(n, m int64) {
	e := c.engine()
	opModels(e)
	callbackModels(e)
	num := e.models["xvm.MakeScriptNum"]
	e.models["xvm.MakeScriptNum"] = func(c *callCtx) ([]Outcome, bool) {
		outs, ok := num(c)
		// the count's place on the stack
		d := c.content(0)
		if d.op == OApp && d.sym == "cont" && d.args[0].op == OAt {
			at := d.args[0]
			if k, ok := mkSubt(at.args[1], lenOf(at.args[0])).int64(); ok {
				for _, o := range outs {
					switch {
					case o.res.args[1] != tNil:
					case k == -1:
						o.res.args[0] = mkInt(n)
					case k == -n-2:
						o.res.args[0] = mkInt(m)
					}
				}
			}
		}
		return outs, ok
	}
	e.maxParts = 400
	names, impl, spec := c.pairs("xvm", "SigMulti")
	e.mergeErr, e.exact = false, true
	for _, w := range names {
		c.equiv(e, fmt.Sprintf("%s of %d keys and %d signatures", w, n, m), impl[w], spec[w], equivOpts{})
		c.count("comparisons", 1)
	}
}
