package main

import (
	"go/types"
)

// fieldOf is the address and type of a named field of the struct p points to.
func (e *Engine) fieldOf(p *Term, named *types.Named, name string) (*Term, types.Type) {
	s := named.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkFld(p, i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type()
		}
	}
	panic(&anchorError{"field " + name + " of " + named.String()})
}

func (p *Program) Named(rel, name string) *types.Named {
	pk := p.ByRel[rel]
	need("package "+rel, pk != nil)
	o := pk.Types.Scope().Lookup(name)
	need("type "+rel+"."+name, o != nil)
	return o.Type().(*types.Named)
}

// vmState is the part of an engine that decides what execution does next: its
// stacks, and extra terms.
type vmState struct {
	e          *Engine
	dcell      *Term
	ccell      *Term
	dtyp, ctyp types.Type
	vm         *Term
}

func vmCells(e *Engine, st *State, vm *Term) vmState {
	eng, stk := e.prog.Named("xvm", "Engine"), e.prog.Named("xvm", "Stack")
	da, dt := e.fieldOf(vm, eng, "dstack")
	v := vmState{e: e, vm: vm}
	v.dcell, v.dtyp = e.fieldOf(e.load(st, da, dt), stk, "stk")
	v.ccell, v.ctyp = e.fieldOf(vm, eng, "cstack")
	return v
}

func (v vmState) get(st *State) (d, c *Term) {
	return v.e.reify(st, v.e.load(st, v.dcell, v.dtyp)), v.e.reify(st, v.e.load(st, v.ccell, v.ctyp))
}

func (v vmState) set(st *State, d, c *Term) {
	v.e.store(st, v.dcell, mkApp("newslice", v.dtyp, d), v.dtyp)
	v.e.store(st, v.ccell, mkApp("newslice", v.ctyp, c), v.ctyp)
}

// stepModel: one step is an unknown function of the program, of the number of
// steps taken in it, and of the stacks; it ends the program, fails, or changes
// the stacks and goes on. (The pair Step decides what a step is.)
func stepModel(e *Engine) {
	bufModels(e)
	e.constGlobals(nil, "xvm")
	e.models["(*xvm.Engine).Step"] = func(c *callCtx) ([]Outcome, bool) {
		vm := c.args[0]
		v := vmCells(e, c.st, vm)
		eng := e.prog.Named("xvm", "Engine")
		ra, rt := e.fieldOf(vm, eng, "reader")
		reader := e.load(c.st, ra, rt)
		kcell := mkFld(reader, cellPos, nil)
		k := c.st.mem[kcell]
		if k == nil {
			k = tZero
		}
		d, ct := v.get(c.st)
		sigma := mkTup(e.reify(c.st, reader), k, d, ct)
		ia, it := e.fieldOf(vm, eng, "instruction")
		more := func(st *State) Outcome {
			e.setCell(st, kcell, mkAddK(k, 1))
			v.set(st, mkApp("stepd", v.dtyp, sigma), mkApp("stepc", v.ctyp, sigma))
			e.store(st, ia, mkApp("nonnil", it, mkApp("stepi", it, sigma)), it)
			return Outcome{st: st, res: mkTup(tFalse, tNil)}
		}
		var outs []Outcome
		for _, o := range c.splitOn(mkApp("stepok", tyBool, sigma), func(st *State) Outcome {
			return Outcome{st: st}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(tTrue, c.errTerm())}
		}) {
			if o.res != nil {
				outs = append(outs, o)
				continue
			}
			cc := *c
			cc.st = o.st
			outs = append(outs, cc.splitOn(mkApp("stepdone", tyBool, sigma), func(st *State) Outcome {
				return Outcome{st: st, res: mkTup(tTrue, tNil)}
			}, more)...)
		}
		return outs, true
	}
	opaque := func(name string) {
		e.models[name] = func(c *callCtx) ([]Outcome, bool) {
			return c.ret(mkApp("text", c.sig.Results().At(0).Type(), mkStr(name))), true
		}
	}
	opaque("(*xvm.Stack).String")
	opaque("(*xvm.ScriptReader).DisasmRemaining")
}

// handlerModels: reading is an unknown function of the reader, executing an
// instruction an unknown transformation of the stacks.
func handlerModels(e *Engine) { readModels(e, false) }

func readModels(e *Engine, opaqueOp bool) {
	bufModels(e)
	e.constGlobals(nil, "xvm")
	e.models["(*xvm.ScriptReader).NextInstruction"] = func(c *callCtx) ([]Outcome, bool) {
		kcell := mkFld(c.args[0], cellPos, nil)
		k := c.st.mem[kcell]
		if k == nil {
			k = tZero
		}
		sigma := mkTup(e.reify(c.st, c.args[0]), k)
		e.setCell(c.st, kcell, mkAddK(k, 1))
		t := c.sig.Results().At(0).Type()
		var outs []Outcome
		for _, o := range c.splitOn(mkApp("readok", tyBool, sigma), func(st *State) Outcome {
			return Outcome{st: st}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(tNil, c.errTerm())}
		}) {
			if o.res != nil {
				outs = append(outs, o)
				continue
			}
			cc := *c
			cc.st = o.st
			outs = append(outs, cc.splitOn(mkApp("readend", tyBool, sigma), func(st *State) Outcome {
				return Outcome{st: st, res: mkTup(tNil, tNil)}
			}, func(st *State) Outcome {
				in := mkApp("nonnil", t, mkApp("instr", t, sigma))
				oa, ot := e.fieldOf(in, e.prog.Named("xvm", "Instruction"), "op")
				if opaqueOp {
					return Outcome{st: st, res: mkTup(in, tNil)}
				}
				e.setCell(st, oa, mkApp("nonnil", ot, mkApp("instrop", ot, sigma)))
				return Outcome{st: st, res: mkTup(in, tNil)}
			})...)
		}
		return outs, true
	}
	e.models["dyncall"] = func(c *callCtx) ([]Outcome, bool) {
		if len(c.args) != 2 {
			return nil, false
		}
		v := vmCells(e, c.st, c.args[1])
		d, ct := v.get(c.st)
		ia, it := e.fieldOf(c.args[1], e.prog.Named("xvm", "Engine"), "instruction")
		sigma := mkTup(c.args[0], e.load(c.st, ia, it), d, ct)
		v.set(c.st, mkApp("opd", v.dtyp, sigma), mkApp("opc", v.ctyp, sigma))
		return c.splitOn(mkApp("opok", tyBool, sigma), func(st *State) Outcome {
			return Outcome{st: st, res: tNil}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: c.errTerm()}
		}), true
	}
}

func init() {
	register(&checkDef{
		id:    "C10",
		rule:  "Verify, in terms of single steps, succeeds exactly when the published procedure does: every step of the unlocking script, of both scripts together and, for a script hash, of the redeem script succeeded, every conditional was closed and the final value is true; one step fails whenever its instruction cannot be read or its operation fails, and skips only unconditional instructions in branches not taken.",
		specs: []string{"xvm/engine", "xvm/ops", "xvm/sig"},
		floor: 5,
		run: func(c *Ctx) {
			c.specPairs("xvm", "Top", false, stepModel)
			c.specPairs("xvm", "Verify", false, stepModel)
			c.specPairs("xvm", "Exec", false, stepModel)
			c.specPairs("xvm", "Step", false, handlerModels)
			c.specPairs("xvm", "Empty", false, opModels)
			c.leanHandlers()
		},
	})
}
