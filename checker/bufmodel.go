package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// bufModels replaces the two variable-length integer primitives of the byte
// buffer by atoms, so that callers are not split four ways per count. C02
// proves that the primitives implement these atoms. Everything else of the
// buffer is analysed from its body.
func bufModels(e *Engine) {
	p := e.prog
	wb, rb := p.Func("xbase", "Buffer", "WriteBytes"), p.Func("xbase", "Buffer", "ReadBytes")
	bs, sk := p.Func("xbase", "Buffer", "Bytes"), p.Func("xbase", "Buffer", "Seek")
	need("xbase.Buffer.{WriteBytes,ReadBytes,Bytes,Seek}", wb != nil && rb != nil && bs != nil && sk != nil)
	sub := func(c *callCtx, fn *ssa.Function, st *State, args ...*Term) []Outcome {
		return c.e.inline(c.fr, c.instr, fn, nil, args, st)
	}
	one := func(o []Outcome) Outcome {
		if len(o) != 1 || o[0].panic {
			panic(&budgetError{"a buffer accessor has several outcomes"})
		}
		return o[0]
	}
	e.models["(*xbase.Buffer).WriteVarInt"] = func(c *callCtx) ([]Outcome, bool) {
		v := mkVI(c.args[1])
		sl := mkApp("newslice", nil, v)
		outs := sub(c, wb, c.st, c.args[0], sl)
		return outs, true
	}
	e.models["(*xbase.Buffer).ReadVarInt"] = func(c *callCtx) ([]Outcome, bool) {
		st := c.st
		o := one(sub(c, bs, st, c.args[0]))
		in := c.e.content(o.st, o.res)
		o = one(sub(c, sk, o.st, c.args[0]))
		pos := o.res
		v, w := mkReadVI(in, pos)
		var outs []Outcome
		for _, r := range sub(c, rb, o.st, c.args[0], w) {
			if r.panic {
				outs = append(outs, r)
				continue
			}
			er := r.res.args[1]
			if er == tNil {
				r.res = mkTup(v, tNil)
			} else {
				r.res = mkTup(tZero, er)
			}
			outs = append(outs, r)
		}
		return outs, true
	}
}

// mkVI is the variable-length integer encoding of v.
func mkVI(v *Term) *Term {
	if v.isInt() {
		return mkStr(encVarInt(v.ival))
	}
	return mkApp("VI", nil, v)
}

func encVarInt(v *big.Int) string {
	le := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(new(big.Int).Rsh(v, uint(8*i)).Uint64())
		}
		return string(b)
	}
	switch {
	case v.Cmp(big.NewInt(0xfd)) < 0:
		return le(1)
	case v.BitLen() <= 16:
		return "\xfd" + le(2)
	case v.BitLen() <= 32:
		return "\xfe" + le(4)
	}
	return "\xff" + le(8)
}

// mkReadVI is the value and width of the variable-length integer at pos.
func mkReadVI(in, pos *Term) (v, w *Term) {
	return mkApp("vi", nil, in, pos), mkApp("viw", nil, in, pos)
}

// mkVIW is the width of the encoding of v.
func mkVIW(v *Term) *Term {
	if v.isInt() {
		return mkInt(int64(len(encVarInt(v.ival))))
	}
	return mkApp("VIW", nil, v)
}

type anchorError struct{ what string }

func need(what string, ok bool) {
	if !ok {
		panic(&anchorError{what})
	}
}
