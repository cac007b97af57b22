package main

import (
	"go/types"
)

// Published parameters of the curve (SEC 2).
var curveConst = map[string]string{
	"P":  "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
	"N":  "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
	"B":  "7",
	"Gx": "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
	"Gy": "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
}

func hexBig(s string) *Term {
	v, ok := newInt(nil).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return mkBig(v)
}

// curveModels: there is one curve, with the published parameters (C27 decides
// that), and its operations are unknown functions of values: of the
// coordinates and of the scalar's integer value.
func curveModels(e *Engine) {
	var ct *types.Named
	for _, p := range e.prog.SSA.AllPackages() {
		if p.Pkg.Path() == "crypto/elliptic" {
			ct = p.Pkg.Scope().Lookup("CurveParams").Type().(*types.Named)
		}
	}
	need("crypto/elliptic.CurveParams", ct != nil)
	e.models["xcrypto/secp256k1.SECP256K1"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("nonnil", c.sig.Results().At(0).Type(), mkSym("secp256k1", nil))), true
	}
	inv := "invoke (crypto/elliptic.Curve)."
	e.models[inv+"Params"] = func(c *callCtx) ([]Outcome, bool) {
		p := mkApp("nonnil", c.sig.Results().At(0).Type(), mkSym("secp256k1.params", nil))
		st := ct.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			a := mkFld(p, i, types.NewPointer(st.Field(i).Type()))
			switch n := st.Field(i).Name(); n {
			case "BitSize":
				e.globals[a] = mkInt(256)
			case "Name":
				e.globals[a] = mkStr("secp256k1")
			default:
				e.globals[a] = mkApp("newobj", bigPtrType(c), hexBig(curveConst[n]))
			}
		}
		return c.ret(p), true
	}
	point := func(c *callCtx, name string, args ...*Term) []Outcome {
		return c.ret(newBigAt(c, "x", mkApp(name+"X", nil, args...)), newBigAt(c, "y", mkApp(name+"Y", nil, args...)))
	}
	e.models[inv+"Add"] = func(c *callCtx) ([]Outcome, bool) {
		return point(c, "ecadd", c.big(1), c.big(2), c.big(3), c.big(4)), true
	}
	e.models[inv+"Double"] = func(c *callCtx) ([]Outcome, bool) {
		return point(c, "ecdbl", c.big(1), c.big(2)), true
	}
	e.models[inv+"ScalarMult"] = func(c *callCtx) ([]Outcome, bool) {
		return point(c, "ecmul", c.big(1), c.big(2), scalar(c, 3)), true
	}
	e.models[inv+"ScalarBaseMult"] = func(c *callCtx) ([]Outcome, bool) {
		return point(c, "ecmul", hexBig(curveConst["Gx"]), hexBig(curveConst["Gy"]), scalar(c, 1)), true
	}
	e.models[inv+"IsOnCurve"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("oncurve", tyBool, c.big(1), c.big(2))), true
	}
}

// scalar is the number of bytes; padding one that fits does not change it.
func scalar(c *callCtx, i int) *Term {
	b := c.content(i)
	if b.op == OApp && b.sym == "pad" {
		if n, ok := b.args[1].int64(); ok && n <= 1024 {
			lo, hi := c.st.facts.interval(b.args[0])
			if lo != nil && lo.Sign() >= 0 && hi != nil && hi.BitLen() <= int(8*n) {
				return b.args[0]
			}
		}
	}
	return mkUintBE(b)
}

func newBigAt(c *callCtx, tag string, v *Term) *Term {
	o := c.e.alloc(c.st, c.name2()+tag, bigPtrType(c))
	o.typ = bigPtrType(c)
	c.st.mem[bigCell(o)] = v
	return o
}
