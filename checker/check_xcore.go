package main

import (
	"go/types"
	"strconv"
	"strings"
)

// parseModels: the instructions of a script are an unknown function of it
// (C13 decides what they are).
func parseModels(e *Engine) {
	bufModels(e)
	e.constGlobals(nil, "xvm")
	e.models["(*xvm.ScriptReader).AllInstructions"] = func(c *callCtx) ([]Outcome, bool) {
		sigma := e.reify(c.st, c.args[0])
		t := c.sig.Results().At(0).Type()
		return c.splitOn(mkApp("parses", tyBool, sigma), func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(mkApp("newslice", t, mkApp("instrs", t, sigma)), tNil)}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(tNil, c.errTerm())}
		}), true
	}
	// a parsed instruction of a code up to 75 carries that many bytes
	e.models["(*xvm.Instruction).Data"] = func(c *callCtx) ([]Outcome, bool) {
		in, op := e.prog.Named("xvm", "Instruction"), e.prog.Named("xvm", "opcode")
		da, dt := e.fieldOf(c.args[0], in, "data")
		oa, ot := e.fieldOf(c.args[0], in, "op")
		va, vt := e.fieldOf(e.load(c.st, oa, ot), op, "value")
		d := e.load(c.st, da, dt)
		lo, hi := c.st.facts.interval(e.load(c.st, va, vt))
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Sign() > 0 && lo.Int64() <= 75 {
			c.st.facts.assume(mkEq0(mkAddK(lenOf(e.content(c.st, d)), -lo.Int64())))
		}
		return c.ret(d), true
	}
	e.models["xvm.DisasmString"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("disasm", types.Typ[types.String], c.content(0))), true
	}
}

// pushModels: pushing data or a number onto a script is an unknown function of
// it (C17 decides which); sPush and sPushInt are its names in specifications.
func pushModels(e *Engine) {
	parseModels(e)
	wb := e.prog.Func("xbase", "Buffer", "WriteBytes")
	sb := e.prog.Named("xvm", "ScriptBuilder")
	push := func(name string, arg func(c *callCtx, i int) *Term) {
		sym := map[string]string{"AddData": "push", "AddInt64": "pushint"}[name]
		e.models["(*xvm.ScriptBuilder)."+name] = func(c *callCtx) ([]Outcome, bool) {
			ba, bt := e.fieldOf(c.args[0], sb, "buffer")
			v := mkApp("newslice", tyBytes, mkCont(mkApp(sym, tyBytes, arg(c, 1))))
			outs := c.e.inline(c.fr, c.instr, wb, nil, []*Term{e.load(c.st, ba, bt), v}, c.st)
			for i := range outs {
				if !outs[i].panic {
					outs[i].res = c.args[0]
				}
			}
			return outs, true
		}
		spec := map[string]string{"AddData": "sPush", "AddInt64": "sPushInt"}[name]
		for _, pk := range e.prog.Pkgs {
			e.models[pk.Rel+"."+spec] = func(c *callCtx) ([]Outcome, bool) {
				return c.ret(mkApp("newslice", tyBytes, mkCont(mkApp(sym, tyBytes, arg(c, 0))))), true
			}
		}
	}
	push("AddData", func(c *callCtx, i int) *Term { return c.content(i) })
	push("AddInt64", func(c *callCtx, i int) *Term { return c.args[i] })
}

// hashLen fixes the lengths of byte strings named by a letter and a length, as
// h20 and e16.
func hashLen(o *equivOpts) {
	o.setup = fixLens
}

// namedLen is the length a parameter's name states, or -1.
func namedLen(a *Term) int64 {
	_, name, _ := strings.Cut(a.sym, ".")
	if len(name) < 2 || name[0] != 'h' && name[0] != 'e' {
		return -1
	}
	n, err := strconv.Atoi(name[1:])
	if err != nil && len(name) > 2 {
		n, err = strconv.Atoi(name[2:])
	}
	if err != nil {
		return -1
	}
	return int64(n)
}

func fixLens(e *Engine, st *State, args []*Term) {
	for _, a := range args {
		if n := namedLen(a); n >= 0 {
			st.facts.assume(mkEq0(mkAddK(lenOf(e.content(st, a)), -n)))
		}
	}
}

// exactLens makes those lengths constants of the analysis.
func exactLens(e *Engine, st *State, args []*Term) {
	for i, a := range args {
		if n := namedLen(a); n >= 0 {
			in := e.content(st, a)
			st.facts.assume(mkEq0(mkAddK(lenOf(in), -n)))
			args[i] = mkApp("newslice", tyBytes, mkSub(in, tZero, mkInt(n)))
		}
	}
}

// txinModels: what a locking script is, and what its kind makes of a redeem
// script, are unknown functions (the other pairs decide them).
func txinModels(e *Engine) {
	bufModels(e)
	e.models["xcore.ParseLockingScript"] = func(c *callCtx) ([]Outcome, bool) {
		in := c.content(0)
		t := c.sig.Results().At(0).Type()
		return c.splitOn(mkApp("standard", tyBool, in), func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(mkApp("nonnil", t, mkApp("scriptof", t, in)), tNil)}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(tNil, c.errTerm())}
		}), true
	}
	iface := e.prog.Named("xcore", "Script").Underlying().(*types.Interface)
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		sig := m.Type().(*types.Signature)
		e.models["invoke (xcore.Script)."+m.Name()] = func(c *callCtx) ([]Outcome, bool) {
			args := []*Term{}
			for _, a := range c.args {
				args = append(args, e.reify(c.st, a))
			}
			sigma := mkTup(args...)
			t := sig.Results().At(0).Type()
			v := mkApp(m.Name(), t, sigma)
			if _, ok := t.Underlying().(*types.Slice); ok {
				_ = v
			}
			if sig.Results().Len() == 1 {
				return c.ret(v), true
			}
			return c.splitOn(mkApp(m.Name()+"ok", tyBool, sigma), func(st *State) Outcome {
				return Outcome{st: st, res: mkTup(v, tNil)}
			}, func(st *State) Outcome {
				return Outcome{st: st, res: mkTup(tNil, c.errTerm())}
			}), true
		}
	}
}

func init() {
	register(&checkDef{
		id:    "C14",
		rule:  "For every hash the script and the address of each kind are the published template and carry that hash; parsing arbitrary instructions gives a kind exactly for its template, the script, address and kind of that template's own hash; what is executed and signed for each kind is the published form.",
		specs: []string{"xcore/script", "xvm/parse"},
		floor: 20,
		run: func(c *Ctx) {
			c.specPairs("xcore", "Parse", false, parseModels)
			for _, p := range []string{"Lock", "Addr", "Final"} {
				c.specPairs("xcore", p, false, parseModels, hashLen)
			}
			c.specPairs("xcore", "Unlock", false, pushModels, hashLen)
			c.specPairs("xcore", "Multi", false, pushModels)
			c.specPairs("xcore", "TxIn", false, txinModels)
			c.specPairs("xvm", "AllInstr", false, func(e *Engine) { readModels(e, true) })
		},
	})
}
