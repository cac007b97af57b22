package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frameModels: streams as in netModels, and each message's Decode an unknown
// function of the payload (C01 decides what it does).
func frameModels(e *Engine) {
	netModels(e)
	e.models["invoke (xprotocol.Message).Command"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("command", types.Typ[types.String], c.args[0])), true
	}
	e.models["invoke (xprotocol.Message).Encode"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(c.bytesOut(mkApp("encoded", tyBytes, c.args[0]))), true
	}
	for _, f := range e.prog.Methods("xprotocol", "Decode") {
		n := e.prog.FuncName(f)
		if strings.Contains(n, "MsgUnhandle") {
			continue
		}
		e.models[n] = func(c *callCtx) ([]Outcome, bool) {
			d := c.content(1)
			return c.splitOn(mkApp("decodes:"+n, tyBool, d), func(st *State) Outcome {
				c.e.setCell(st, c.args[0], mkApp("decoded:"+n, nil, d))
				return Outcome{st: st, res: tNil}
			}, func(st *State) Outcome {
				return Outcome{st: st, res: c.errTerm()}
			}), true
		}
	}
}

func init() {
	register(&checkDef{
		id:    "C04",
		rule:  "The message constructor used by the receiver maps every command string to the published message type (the catch-all otherwise), and every message type's Command is the published constant of at most twelve bytes, for all inputs; every type implementing Message is covered.",
		specs: []string{"xprotocol/frame"},
		floor: 20,
		run: func(c *Ctx) {
			seen := map[string]string{}
			for _, t := range c.messageTypes() {
				n := t.Obj().Name()
				f := c.p.ByRel["xprotocol"].SSA.Func("specCmd" + n)
				if !c.must(f != nil, "message "+n, c.p.Pos(t.Obj().Pos()), "message type %s has no published command to be compared with", n) {
					continue
				}
				if k, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return).Results[0].(*ssa.Const); ok {
					s := k.Value.ExactString()
					c.must(seen[s] == "" && len(s) <= 14, "command "+s, c.p.Pos(t.Obj().Pos()), "command %s names two message types", s)
					seen[s] = n
				}
			}
			c.specPairs("xprotocol", "Cmd", false, nil)
		},
	})
	register(&checkDef{
		id:    "C05",
		rule:  "ReadMessage over an arbitrary byte stream yields a message exactly when the published frame is there (magic, command, length within 32 MiB, checksum of the payload), built from that payload, having consumed exactly that frame; memory for the payload is reserved only under the length limit; WriteMessage sends exactly the published frame of the message.",
		specs: []string{"xprotocol/frame"},
		floor: 15,
		run: func(c *Ctx) {
			c.specPairs("xprotocol", "Frame", false, func(e *Engine) {
				frameModels(e)
				e.hooks.Make = func(fr *frame, st *State, in ssa.Instruction, n, size *Term) {
					if n.isInt() {
						return
					}
					c.must(st.facts.prove(mkLe(n, mkInt(32<<20))), "reserve "+c.p.FuncName(fr.fn), c.p.Pos(in.Pos()), "memory for %s bytes is reserved without the length having been limited", clip(n.String()))
				}
			})
		},
	})
}
