package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

func init() {
	register(&checkDef{
		id:    "C27",
		rule:  "The initialisers, evaluated over the abstract domain, leave exactly the published values: every parameter of both networks, the curve parameters, the Base58 alphabet and its inverse, the Bech32 alphabet and generator; network and kind identifiers that must be told apart differ.",
		specs: []string{"network/tables", "xcrypto/secp256k1/curve", "xbase/text"},
		floor: 10,
		run: func(c *Ctx) {
			nets := func(e *Engine) { e.constGlobals(nil, "network") }
			c.specPairs("network", "Net", false, nets)
			c.specPairs("network", "Set", false, nil)
			c.specPairs("network", "Apart", false, nets)
			c.specPairs("xcrypto/secp256k1", "Curve", false, nil)
			c.specPairs("xbase", "Bech", true, func(e *Engine) { e.constGlobals(nil, "xbase") })
			c.base58Tables()
		},
	})
}

const base58Digits = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// base58Tables looks for the two tables among the package's variables and
// constants by their values, whatever they are called.
func (c *Ctx) base58Tables() {
	e := c.engine()
	st := e.initGlobals("xbase")
	pk := c.p.ByRel["xbase"]
	inv := []byte(strings.Repeat("\xff", 256))
	for i, d := range base58Digits {
		inv[d] = byte(i)
	}
	alpha, inverse := false, false
	var nearA, nearI []string
	value := func(n, v string) {
		alpha = alpha || v == base58Digits
		inverse = inverse || v == string(inv)
		switch {
		case len(v) >= 57 && len(v) <= 59:
			nearA = append(nearA, fmt.Sprintf("%s = %q", n, v))
		case len(v) >= 128 && len(v) <= 256:
			nearI = append(nearI, fmt.Sprintf("%s = %x", n, v))
		}
	}
	for _, n := range pk.Types.Scope().Names() {
		switch o := pk.Types.Scope().Lookup(n).(type) {
		case *types.Const:
			if o.Val().Kind() == constant.String {
				value(n, constant.StringVal(o.Val()))
			}
		case *types.Var:
			if g := pk.SSA.Var(n); g != nil {
				if v := e.load(st, globTerm(g), o.Type()); v.op == OStr {
					value(n, v.sym)
				} else if isSliceType(o.Type()) {
					if v := e.content(st, v); v.op == OStr {
						value(n, v.sym)
					}
				}
			}
		}
	}
	c.must(alpha, "base58 alphabet", "xbase", "no constant or variable of the package is the published Base58 alphabet: %s", strings.Join(nearA, "; "))
	c.must(inverse, "base58 inverse alphabet", "xbase", "no table of the package is the inverse of the published Base58 alphabet: %s", strings.Join(nearI, "; "))
	c.count("package-level tables searched", len(nearA)+len(nearI))
	c.sample("Base58 alphabet and inverse table found by value in package xbase")
}
