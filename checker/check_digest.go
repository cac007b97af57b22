package main

import "go/types"

// digestModels: the tables of the package have the values they were
// initialised with; bitwise expressions are kept in canonical form.
func digestModels(e *Engine) {
	e.constGlobals(nil, "xcrypto/ripemd160")
	e.words, canonTrunc = true, true
	delete(e.models, "xcrypto/ripemd160.New")
}

// foldModels: the block function is a fold of an unknown function over whole
// blocks.
func foldModels(e *Engine) {
	e.models["xcrypto/ripemd160._Block"] = func(c *callCtx) ([]Outcome, bool) {
		st := c.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p := c.content(1)
		return c.splitOn(mkLt(lenOf(p), mkInt(64)), func(s *State) Outcome {
			return Outcome{st: s, res: tZero}
		}, func(s *State) Outcome {
			n := mkScale(mkShr(lenOf(p), mkInt(6)), newInt(nil).SetInt64(64))
			s.facts.assume(mkLe(mkInt(64), n))
			s.facts.assume(mkLe(n, lenOf(p)))
			s.facts.assume(mkLt(mkSubt(lenOf(p), n), mkInt(64)))
			for i := 0; i < st.NumFields(); i++ {
				a, ok := st.Field(i).Type().Underlying().(*types.Array)
				if !ok || !types.Identical(a.Elem(), types.Typ[types.Uint32]) {
					continue
				}
				cell := mkFld(c.args[0], i, types.NewPointer(st.Field(i).Type()))
				h := c.e.load(s, cell, st.Field(i).Type())
				c.e.setCell(s, cell, mkFold(h, mkSub(flatten(p), tZero, n), st.Field(i).Type()))
			}
			return Outcome{st: s, res: n}
		}), true
	}
}

// flatten writes an array with some elements replaced as a concatenation.
func flatten(s *Term) *Term {
	switch s.op {
	case OCat:
		var parts []*Term
		for _, a := range s.args {
			parts = append(parts, flatten(a))
		}
		return mkCat(parts...)
	case OUpd:
		in := flatten(s.args[0])
		if i, n := s.args[1], lenOf(in); i.isInt() && n.isInt() {
			next := mkAddK(i, 1)
			return mkCat(mkSub(in, tZero, i), mkUnit(s.args[2]), mkSub(in, next, mkSubt(n, next)))
		}
	}
	return s
}

// mkFold is the chaining value after more blocks.
func mkFold(s, m *Term, t types.Type) *Term {
	if lenOf(m).isK(0) {
		return s
	}
	if s.op == OApp && s.sym == "fold160" {
		return mkApp("fold160", t, s.args[0], mkCat(s.args[1], m))
	}
	return mkApp("fold160", t, s, m)
}

func init() {
	register(&checkDef{
		id:    "C34",
		rule:  "For every byte string the block function is the published compression function applied to each whole block in turn (all eighty rounds of both lines, in a canonical form of sums, rotations and truth tables), for every split the writes together feed it exactly the blocks of the concatenation, and Sum appends the published padding and returns the published bytes without changing the state.",
		specs: []string{"xcrypto/ripemd160/digest"},
		floor: 200,
		run: func(c *Ctx) {
			c.specPairs("xcrypto/ripemd160", "Block", true, digestModels, func(o *equivOpts) { o.setup = exactLens })
			c.specPairs("xcrypto/ripemd160", "Start", true, digestModels)
			fold := func(e *Engine) { digestModels(e); foldModels(e) }
			past := func(op byte) bool { return op > 63 }
			c.perCode("xcrypto/ripemd160", "WriteAt", fold, past)
			c.perCode("xcrypto/ripemd160", "SumAt", fold, past)
		},
	})
}
