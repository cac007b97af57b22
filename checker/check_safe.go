package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// safeRun runs one function on every input and requires, of each access on the
// way, that it stays inside what it accesses.
func (c *Ctx) safeRun(e *Engine, what string, fn *ssa.Function, opt equivOpts) {
	args := e.symArgs(fn)
	st := newState()
	if opt.setup != nil {
		opt.setup(e, st, args)
	}
	e.side = "i"
	hk := e.hooks
	defer func() { e.hooks = hk }()
	// the byte buffer's own methods are judged from every position by the runs
	// that call them directly
	own := c.p.RelOf(fn) == "xbase"
	mine := func(fr *frame) bool {
		if c.p.IsSpec(fr.fn) {
			return false
		}
		return own || c.p.RelOf(fr.fn) != "xbase" || !strings.HasPrefix(c.p.FuncName(fr.fn), "(*xbase.Buffer).")
	}
	in := func(fr *frame, what2 string) string { return what2 + " in " + c.p.FuncName(fr.fn) }
	e.hooks.Index = func(fr *frame, st *State, x ssa.Instruction, n, i *Term) {
		if !mine(fr) {
			return
		}
		ok := st.facts.prove(mkLe0(mkNeg(i))) && st.facts.prove(mkLt(i, n))
		c.must(ok, in(fr, "index"), c.p.Pos(x.Pos()), "%s: index %s of %s elements is not shown to be inside\n  under: %s", what, clip(i.String()), clip(n.String()), clip(factsString(st.facts)))
	}
	e.hooks.Slice = func(fr *frame, st *State, x ssa.Instruction, lo, hi, lim *Term) {
		if !mine(fr) {
			return
		}
		ok := st.facts.prove(mkLe0(mkNeg(lo))) && st.facts.prove(mkLe(lo, hi)) && st.facts.prove(mkLe(hi, lim))
		c.must(ok, in(fr, "slice"), c.p.Pos(x.Pos()), "%s: slice %s:%s of %s is not shown to be inside\n  under: %s", what, clip(lo.String()), clip(hi.String()), clip(lim.String()), clip(factsString(st.facts)))
	}
	e.hooks.Make = func(fr *frame, st *State, x ssa.Instruction, n, size *Term) {
		if !mine(fr) {
			return
		}
		ok := st.facts.prove(mkLe0(mkNeg(n))) && st.facts.prove(mkLe(n, size))
		c.must(ok, in(fr, "make"), c.p.Pos(x.Pos()), "%s: a length of %s (capacity %s) is not shown to be allowed\n  under: %s", what, clip(n.String()), clip(size.String()), clip(factsString(st.facts)))
		c.must(c.bounded(st, size), in(fr, "reserve"), c.p.Pos(x.Pos()), "%s: memory for %s elements is reserved though neither the input nor a limit bounds it\n  under: %s", what, clip(size.String()), clip(factsString(st.facts)))
	}
	e.hooks.Assert = func(fr *frame, st *State, x ssa.Instruction, v *Term) {
		if mine(fr) {
			c.must(false, in(fr, "assertion"), c.p.Pos(x.Pos()), "%s: a type assertion that may fail", what)
		}
	}
	e.hooks.Div = func(fr *frame, st *State, x ssa.Instruction, y *Term) {
		if mine(fr) {
			c.must(st.facts.prove(mkNot(mkEq0(y))), in(fr, "division"), c.p.Pos(x.Pos()), "%s: divisor %s is not shown to be non-zero", what, clip(y.String()))
		}
	}
	e.hooks.Nil = func(fr *frame, st *State, x ssa.Instruction, p *Term) {
		// what the caller's own values or an already parsed instruction
		// point to is not decided here
		if !mine(fr) || p.op == OLd || p.op == OSym || p.op == OApp && p.sym == "fv" {
			return
		}
		c.must(!canBeNil(st, p), in(fr, "nil"), c.p.Pos(x.Pos()), "%s: %s may be nil\n  under: %s", what, clip(p.String()), clip(factsString(st.facts)))
	}
	for _, o := range e.runVals(fn, st, args) {
		c.must(!o.o.panic, what, e.where2(o.o), "%s panics: %s", what, o.o.why)
	}
}

// safeOf is safeRun of a function that has no specification of its own.
func (c *Ctx) safeOf(rel, name string, prep func(e *Engine)) {
	fn := c.p.ByRel[rel].SSA.Func(name)
	need(rel+"."+name, fn != nil && fn.Blocks != nil)
	e := c.engine()
	prep(e)
	e.mergeErr, e.exact = false, true
	c.safeRun(e, name, fn, equivOpts{})
}

func canBeNil(st *State, p *Term) bool {
	switch p.op {
	case ONil:
		return true
	case OAlt:
		for i := 0; i < len(p.args); i += 2 {
			if canBeNil(st, p.args[i+1]) {
				f := st.facts.clone()
				if f.assume(p.args[i]) {
					return true
				}
			}
		}
		return false
	case OObj, OGlob, OFld, OIdx, OFunc, OClo, OIface:
		return false
	}
	if p.op == OApp && (p.sym == "newobj" || p.sym == "newslice") {
		return false
	}
	return !st.facts.prove(mkNot(mkEq(p, tNil, false)))
}

// bounded: a reservation is limited by a constant or by the size of an input.
func (c *Ctx) bounded(st *State, n *Term) bool {
	if _, hi := st.facts.interval(n); hi != nil && hi.IsInt64() && hi.Int64() <= 64<<20 {
		return true
	}
	if st.facts.prove(mkLe(n, mkInt(32<<20))) {
		return true
	}
	// the lengths of values that are already there
	l, seen := tZero, map[*Term]bool{}
	add := func(t *Term) {
		for _, a := range asLinear(t).atoms {
			if a.op == OApp && a.sym == "len" && !seen[a] {
				seen[a] = true
				l = mkAdd(l, a)
			}
		}
	}
	add(n)
	for _, f := range st.facts.list() {
		if f.op == OLe0 {
			add(f.args[0])
		}
	}
	for _, k := range []int64{0, 1, 3} {
		if st.facts.prove(mkLe(n, mkAddK(mkScale(l, pow2(int(k))), 1024))) {
			return true
		}
	}
	return false
}

func init() {
	register(&checkDef{
		id:    "C32",
		rule:  "For every input of every decoder (text, transactions, scripts, frames, messages, addresses, keys, signatures, script numbers) and for every operation of the script engine on an arbitrary stack: each index, slice bound, make length, division and type assertion met on any path is proven inside its range, no value that may be nil is used, no path ends in a panic, and memory reserved with make is at most 64 MiB or a small multiple of the length of a value already present. The byte buffer's methods are judged from every position, with machine integer overflow.",
		specs: []string{"xbase/base58", "xbase/buffer", "xbase/text", "xcore/tx", "xcore/addr", "xcore/script", "xvm/parse", "xcore/bip32/hd", "xcore/bip39/words", "xprotocol/frame", "xprotocol/wire", "xvm/script", "xvm/num", "xvm/ops", "xvm/sig", "xcrypto/keys", "xcrypto/sign", "xcrypto/ecdsa/sign", "xcrypto/schnorr/sign", "xcrypto/secp256k1/curve"},
		floor: 3000,
		run: func(c *Ctx) {
			c.safe = true
			consts := func(rel string) func(e *Engine) {
				return func(e *Engine) { e.constGlobals(nil, rel) }
			}
			c.specPairs("xbase", "B58Dec", false, consts("xbase"))
			for _, p := range []string{"Rd", "VI"} {
				c.specPairs("xbase", p, true, func(e *Engine) {
					delete(e.models, "xbase.VarIntSerializeSize")
					e.wideInt = true
				})
			}
			c.specPairs("xbase", "CheckDec", true, base58Models)
			c.specPairs("xbase", "BechDec", true, consts("xbase"))
			c.specPairs("xbase", "WitDec", true, consts("xbase"))
			c.specPairs("xcrypto", "Pub", true, keyModels)
			c.specPairs("xcrypto", "Parse", true, signerModels)
			c.specPairs("xcrypto", "Ver", true, signerModels, fieldRange)
			c.specPairs("xcrypto/schnorr", "Verify", true, signModels, fieldRange)
			c.specPairs("xcrypto/ecdsa", "Verify", true, signModels)
			c.specPairs("xcore", "Des", false, func(e *Engine) {
				bufModels(e)
				e.wide = false
			})
			c.wirePairs("Dec", false)
			c.specPairs("xprotocol", "FrameRead", false, frameModels)
			c.specPairs("xcore/bip32", "TextDec", true, hdModels)
			c.safeOf("xcrypto/secp256k1", "SecUnmarshal", keyModels)
			c.safeOf("xcore", "implDecAddr", addrModels)
			c.specPairs("xcore", "Parse", false, parseModels)
			c.specPairs("xcore", "Unlock", false, pushModels, hashLen)
			c.safeOf("xvm", "DisasmString", func(e *Engine) { readModels(e, true) })
			c.specPairs("xvm", "AllInstr", false, func(e *Engine) { readModels(e, true) })
			c.specPairs("xvm", "Read", false, tableModels)
			c.perCode("xvm", "CodeNext", tableModels, nil)
			c.perCode("xvm", "CodeUnparse", tableModels, nil)
			c.specPairs("xvm", "NumDec", false, tableModels)
			c.perCode("xvm", "CodeOp", opModels, func(op byte) bool { return op >= 172 && op <= 175 })
			c.specPairs("xvm", "SigCheck", false, func(e *Engine) { opModels(e); callbackModels(e) })
			c.specPairs("xvm", "SigMulti", false, func(e *Engine) { opModels(e); callbackModels(e) })
		},
	})
}
