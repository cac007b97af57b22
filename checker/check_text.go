package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opaque makes a function an unknown function of the contents of its
// arguments, which fails or succeeds; post may add what success implies.
func opaque(e *Engine, key string, post func(st *State, res []*Term)) {
	name := key
	e.models[key] = func(c *callCtx) ([]Outcome, bool) {
		sigma := make([]*Term, len(c.args))
		for i, a := range c.args {
			switch t := c.typeOfArg(i); {
			case t != nil && isSliceType(t):
				sigma[i] = wholeOf(c.st, c.content(i))
			default:
				sigma[i] = e.reify(c.st, a)
			}
		}
		rs := c.sig.Results()
		n := rs.Len()
		fails := n > 0 && rs.At(n-1).Type() == types.Universe.Lookup("error").Type()
		if fails {
			n--
		}
		tup := mkTup(sigma...)
		mk := func(st *State) []*Term {
			var out []*Term
			for i := 0; i < n; i++ {
				t := rs.At(i).Type()
				nm := name
				if i > 0 {
					nm += "#" + string(rune('0'+i))
				}
				v := mkApp(nm, t, tup)
				switch t.Underlying().(type) {
				case *types.Slice:
					v = mkApp("newslice", t, mkCont(v))
				case *types.Pointer:
					v = mkApp("nonnil", t, v)
				}
				out = append(out, v)
			}
			return out
		}
		if !fails {
			vs := mk(c.st)
			if post != nil {
				post(c.st, vs)
			}
			return c.ret(vs...), true
		}
		return c.splitOn(mkApp("ok:"+name, tyBool, tup), func(st *State) Outcome {
			vs := mk(st)
			if post != nil {
				post(st, vs)
			}
			if len(vs) == 0 {
				return Outcome{st: st, res: tNil}
			}
			return Outcome{st: st, res: mkTup(append(vs, tNil)...)}
		}, func(st *State) Outcome {
			var vs []*Term
			for i := 0; i < n; i++ {
				vs = append(vs, zeroOf(rs.At(i).Type()))
			}
			if len(vs) == 0 {
				return Outcome{st: st, res: c.errTerm()}
			}
			return Outcome{st: st, res: mkTup(append(vs, c.errTerm())...)}
		}), true
	}
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (c *callCtx) typeOfArg(i int) types.Type {
	k := i
	if r := c.sig.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		k--
	}
	if k >= 0 && k < c.sig.Params().Len() {
		return c.sig.Params().At(k).Type()
	}
	return nil
}

func base58Models(e *Engine) {
	opaque(e, "xbase.Base58Decode", nil)
	opaque(e, "xbase.Base58Encode", nil)
	e.constGlobals(nil, "xbase")
}

// hdModels: keys of bytes, and their serialised forms, are unknown functions
// (C23 and C24 decide them).
func hdModels(e *Engine) {
	base58Models(e)
	curveModels(e)
	e.constGlobals(nil, "network")
	opaque(e, "xcrypto.PubKeyFromBytes", nil)
	opaque(e, "xbase.Base58Decode", nil)
	keyForms(e)
}

// keyForms: a private key is written as 32 bytes and a point as its parity and
// 32 bytes of x (C23 decides it).
func keyForms(e *Engine) {
	kt := e.prog.Named("xcrypto", "PrvKey")
	e.models["(*xcrypto.PrvKey).Serialize"] = func(c *callCtx) ([]Outcome, bool) {
		a, t := e.fieldOf(c.args[0], kt, "D")
		return c.ret(c.bytesOut(mkPad(e.bigVal(c.st, e.load(c.st, a, t)), mkInt(32)))), true
	}
	e.models["xcrypto/secp256k1.SecMarshal"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(c.bytesOut(mkCat(mkUnit(mkAddK(mkApp("mod", nil, c.big(2), mkInt(2)), 2)), mkPad(c.big(1), mkInt(32))))), true
	}
}

// wordModels: the word table maps the words of the list, and only those, to
// their indexes (C25 decides it).
func wordModels(e *Engine) {
	e.globals = map[*Term]*Term{}
	g := e.prog.ByRel["xcore/bip39"].SSA.Var("wordMap")
	need("bip39.wordMap", g != nil)
	e.constGlobals(map[*ssa.Global]bool{g: true}, "xcore/bip39")
	m := mkApp("nonnil", g.Type().Underlying().(*types.Pointer).Elem(), mkSym("wordmap", nil))
	e.globals[globTerm(g)] = m
	e.globals[mkFld(m, cellMap, nil)] = mkSym("wordindex", nil)
	l := e.prog.ByRel["xcore/bip39"].SSA.Var("wordList")
	delete(e.globals, globTerm(l))
}

// sentenceModels: left padding is decided by Pad and the checksum by Sum.
func sentenceModels(e *Engine) {
	wordModels(e)
	opaque(e, "xcore/bip39.addChecksum", nil)
	e.models["xcore/bip39.padByteSlice"] = func(c *callCtx) ([]Outcome, bool) {
		b, n := c.content(0), c.args[1]
		if b.op == OApp && b.sym == "bigbytes" && c.st.facts.prove(mkLe(lenOf(b), n)) {
			return c.ret(c.bytesOut(mkPad(b.args[0], n))), true
		}
		return nil, false
	}
}

// arrayModels: the checksummed value of an entropy is the number Sum decides,
// and slices are the same as Same decides.
func arrayModels(e *Engine) {
	sentenceModels(e)
	e.models["xcore/bip39.addChecksum"] = func(c *callCtx) ([]Outcome, bool) {
		ent := c.content(0)
		n, ok := lenOf(ent).int64()
		if !ok || n%4 != 0 || n > 32 {
			return nil, false
		}
		k := int(n / 4)
		h := mkAt(mkApp("sha256", tyBytes, ent), tZero)
		v := mkAdd(mkScale(mkUintBE(ent), pow2(k)), mkShr(h, mkInt(int64(8-k))))
		return c.ret(c.bytesOut(mkApp("bigbytes", tyBytes, v))), true
	}
	// a sentence m12 has twelve words, and so on
	fields := e.models["strings.Fields"]
	e.models["strings.Fields"] = func(c *callCtx) ([]Outcome, bool) {
		outs, ok := fields(c)
		if a := c.args[0]; ok && a.op == OSym && len(outs) == 1 {
			var n int64
			if _, err := fmt.Sscanf(a.sym[strings.LastIndexByte(a.sym, '.')+1:], "m%d", &n); err == nil {
				all := e.content(c.st, outs[0].res)
				c.st.facts.assumeQuiet(mkEq0(mkAddK(lenOf(all), -n)))
				outs[0].res = mkApp("newslice", outs[0].res.typ, mkSub(all, tZero, mkInt(n)))
			}
		}
		return outs, ok
	}
	e.models["xcore/bip39.compareByteSlices"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkEq(c.content(0), c.content(1), false)), true
	}
}

// sumModels: the checksum of the entropy is its hash, whose first byte is the
// one perCode is at.
func sumModels(e *Engine) {
	wordModels(e)
	e.models["xcore/bip39.computeChecksum"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(c.bytesOut(mkCat(mkUnit(mkInt(e.opByte)), mkSub(mkApp("sha256", tyBytes, c.content(0)), mkInt(1), mkInt(31))))), true
	}
}

func init() {
	register(&checkDef{
		id:    "C16",
		rule:  "For every text: Base58Check, Bech32, witness-program, extended-key and mnemonic decoding succeed exactly on the published forms (checksum over all the remaining content, case, padding, version and program length included) and return exactly their content; encoding every value gives exactly the published form.",
		specs: []string{"xbase/text", "xbase/base58", "xcore/bip32/hd", "xcore/bip39/words"},
		floor: 1200,
		run: func(c *Ctx) {
			c.specPairs("xbase", "Check", true, base58Models)
			c.specPairs("xbase", "Bech", true, func(e *Engine) { e.constGlobals(nil, "xbase") })
			c.specPairs("xbase", "Wit", true, func(e *Engine) {
				opaque(e, "xbase.Bech32Decode", nil)
				opaque(e, "xbase.Bech32Encode", nil)
			})
			c.specPairs("xcore/bip32", "Text", true, hdModels)
			c.leanWords()
			c.leanDigits()
		},
	})
}
