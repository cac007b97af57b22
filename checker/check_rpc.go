package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&checkDef{
		id:    "C30",
		rule:  "Every client call, for every outcome of every step (request built, sent, answered with any status, any body, null result, error object, undecodable result), gives the decoded result exactly when the reply is a well-formed success and an error otherwise, never panics, has closed the body and released its timer by then; every request is sent with a time limit.",
		specs: []string{"xrpc/client"},
		floor: 20,
		run: func(c *Ctx) {
			for _, m := range c.p.Methods("xrpc", "Client") {
				if m.Object() != nil && m.Object().Exported() {
					c.must(c.p.ByRel["xrpc"].SSA.Func("impl"+m.Name()) != nil, "client method "+m.Name(), c.p.Pos(m.Pos()), "client call %s has no specification to be compared with", m.Name())
				}
			}
			c.specPairs("xrpc", "Get", false, c.rpcModels)
			need("requests sent", c.counts["requests sent"] > 0)
		},
	})
}

// rpcModels gives meaning to the HTTP and JSON libraries: every step may fail;
// a reply is an unknown function of the request; what a text decodes to is an
// unknown function of it, its pointers nil or not.
func (c0 *Ctx) rpcModels(e *Engine) {
	m := e.models
	e.mergeErr = false
	ghost := func(n string) *Term { return mkSym("lv:http."+n, nil) }
	get := func(st *State, n string) *Term {
		if v, ok := st.mem[ghost(n)]; ok {
			return v
		}
		return tZero
	}
	add := func(st *State, n string, k int64) { st.mem[ghost(n)] = mkAdd(get(st, n), mkInt(k)) }
	inner := func(t *Term) *Term {
		if t.op == OIface {
			return t.args[0]
		}
		return t
	}
	maybe := func(c *callCtx, lit *Term, yes func(st *State) *Term, nils ...*Term) []Outcome {
		return c.splitOn(lit, func(st *State) Outcome { return Outcome{st: st, res: yes(st)} }, func(st *State) Outcome {
			if len(nils) == 0 {
				return Outcome{st: st, res: c.errTerm()}
			}
			return Outcome{st: st, res: mkTup(append(append([]*Term{}, nils...), c.errTerm())...)}
		})
	}
	result := func(c *callCtx, i int) types.Type { return c.sig.Results().At(i).Type() }
	marshal := func(c *callCtx) ([]Outcome, bool) {
		v := e.reify(c.st, inner(c.args[0]))
		return maybe(c, mkApp("json.can", tyBool, v), func(st *State) *Term {
			return mkTup(mkApp("newslice", tyBytes, mkCont(mkApp("json.text", tyBytes, v))), tNil)
		}, tNil), true
	}
	m["encoding/json.Marshal"] = marshal
	rdr := func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("nonnil", result(c, 0), mkApp("reader", nil, c.content(0)))), true
	}
	m["bytes.NewReader"], m["bytes.NewBuffer"], m["strings.NewReader"], m["bytes.NewBufferString"] = rdr, rdr, rdr, rdr
	newReq := func(off int) Model {
		return func(c *callCtx) ([]Outcome, bool) {
			body := e.reify(c.st, inner(c.args[off+2]))
			meth := c.content(off)
			t := result(c, 0)
			ctx := tNil
			if off == 1 {
				ctx = e.reify(c.st, inner(c.args[0]))
			}
			return maybe(c, mkApp("http.can", tyBool, meth), func(st *State) *Term {
				st.mem[ghost("body")], st.mem[ghost("ctx")], st.mem[ghost("meth")] = body, ctx, meth
				return mkTup(mkApp("nonnil", t, mkSym("request", t)), tNil)
			}, tNil), true
		}
	}
	m["net/http.NewRequest"] = newReq(0)
	m["net/http.NewRequestWithContext"] = newReq(1)
	m["(*net/http.Request).SetBasicAuth"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(), true }
	m["(net/http.Header).Set"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(), true }
	m["(net/http.Header).Add"] = m["(net/http.Header).Set"]
	m["(*net/http.Request).WithContext"] = func(c *callCtx) ([]Outcome, bool) {
		c.st.mem[ghost("ctx")] = e.reify(c.st, inner(c.args[1]))
		return c.ret(c.args[0]), true
	}
	bg := func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("nonnil", result(c, 0), mkSym("background", nil))), true
	}
	m["context.Background"], m["context.TODO"] = bg, bg
	limited := func(c *callCtx) ([]Outcome, bool) {
		add(c.st, "timers", 1)
		return c.ret(mkTup(mkApp("nonnil", result(c, 0), mkApp("limited", nil, e.reify(c.st, c.args[1]))), mkApp("nonnil", result(c, 1), mkSym("cancel", nil)))), true
	}
	m["context.WithTimeout"], m["context.WithDeadline"] = limited, limited
	m["context.WithCancel"] = func(c *callCtx) ([]Outcome, bool) {
		add(c.st, "timers", 1)
		return c.ret(mkTup(c.args[0], mkApp("nonnil", result(c, 1), mkSym("cancel", nil)))), true
	}
	m["time.Now"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(mkSym("now", result(c, 0))), true }
	m["(time.Time).Add"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("later", result(c, 0), c.args[0], c.args[1])), true
	}
	m["dyncall"] = func(c *callCtx) ([]Outcome, bool) {
		if f := c.args[0]; f.op == OApp && f.sym == "nonnil" && f.args[0].sym == "cancel" {
			add(c.st, "timers", -1)
			return c.ret(), true
		}
		return nil, false
	}
	m["(*net/http.Client).Do"] = func(c *callCtx) ([]Outcome, bool) {
		ctx := get(c.st, "ctx")
		if e.side == "i" {
			c0.count("requests sent", 1)
			lim := ctx.op == OApp && ctx.sym == "nonnil" && ctx.args[0].op == OApp && ctx.args[0].sym == "limited"
			if !lim {
				if s, ok := c.sigRecv().(*types.Named); ok {
					a, t := e.fieldOf(c.args[0], s, "Timeout")
					v := e.load(c.st, a, t)
					lim = c.st.facts.prove(mkLe(tOne, v))
				}
			}
			c0.must(lim, "time limit of "+c.fr.fn.Name(), c0.p.Pos(c.instr.Pos()), "the request is sent without a time limit")
		}
		t := result(c, 0)
		reply := mkApp("reply", t, get(c.st, "meth"), get(c.st, "body"))
		return maybe(c, mkApp("sent", tyBool, reply), func(st *State) *Term {
			add(st, "bodies", 1)
			res := mkApp("nonnil", t, reply)
			if n, ok := t.(*types.Pointer).Elem().(*types.Named); ok {
				// a status is three digits
				a, ft := e.fieldOf(res, n, "StatusCode")
				v := e.load(st, a, ft)
				st.facts.assume(mkLe(tZero, v))
				st.facts.assume(mkLe(v, mkInt(999)))
			}
			return mkTup(res, tNil)
		}, tNil), true
	}
	closer := func(c *callCtx) ([]Outcome, bool) {
		c.st.mem[ghost("bodies")] = tZero
		return c.ret(mkApp("closed", result(c, 0), c.args[0])), true
	}
	m["invoke (io.ReadCloser).Close"] = closer
	m["invoke (io.Closer).Close"] = closer
	m["encoding/json.NewDecoder"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("nonnil", result(c, 0), mkApp("decoder", nil, mkApp("textof", tyBytes, e.reify(c.st, inner(c.args[0])))))), true
	}
	all := func(c *callCtx) ([]Outcome, bool) {
		r := e.reify(c.st, inner(c.args[0]))
		return maybe(c, mkApp("readable", tyBool, r), func(st *State) *Term {
			return mkTup(mkApp("newslice", tyBytes, mkCont(mkApp("textof", tyBytes, r))), tNil)
		}, tNil), true
	}
	m["io.ReadAll"], m["io/ioutil.ReadAll"] = all, all
	// fill stores an unknown value of its type, a pointer being nil or not
	var fill func(c *callCtx, sts []*State, addr *Term, t types.Type, v *Term) []*State
	fill = func(c *callCtx, sts []*State, addr *Term, t types.Type, v *Term) []*State {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if strings.HasSuffix(t.String(), "xrpc.Response") {
				for i := 0; i < u.NumFields(); i++ {
					sts = fill(c, sts, mkFld(addr, i, u.Field(i).Type()), u.Field(i).Type(), mkApp("json."+u.Field(i).Name(), u.Field(i).Type(), v))
				}
				return sts
			}
		case *types.Pointer:
			var out []*State
			for _, st := range sts {
				s2 := st.clone()
				lit := mkApp("json.null", tyBool, v)
				if st.facts.assume(lit) {
					e.store(st, addr, tNil, t)
					out = append(out, st)
				}
				if s2.facts.assume(mkNot(lit)) {
					e.store(s2, addr, mkApp("nonnil", t, v), t)
					out = append(out, s2)
				}
			}
			return out
		}
		for _, st := range sts {
			e.store(st, addr, v, t)
		}
		return sts
	}
	decode := func(c *callCtx, text, dst, src *Term) ([]Outcome, bool) {
		if dst.op != OIface {
			return nil, false
		}
		pt, ok := dst.any.(types.Type).Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		ty := mkStr(types.TypeString(pt.Elem(), nil))
		lit := mkApp("json.valid", tyBool, text, ty)
		var out []Outcome
		if src != nil {
			// read first
			st0 := c.st.clone()
			can := mkApp("readable", tyBool, src)
			if st0.facts.assume(mkNot(can)) {
				out = append(out, Outcome{st: st0, res: c.errTerm()})
			}
			if !c.st.facts.assume(can) {
				return out, true
			}
		}
		st2 := c.st.clone()
		if c.st.facts.assume(lit) {
			for _, st := range fill(c, []*State{c.st}, dst.args[0], pt.Elem(), mkApp("json.value", pt.Elem(), text, ty)) {
				out = append(out, Outcome{st: st, res: tNil})
			}
		}
		if st2.facts.assume(mkNot(lit)) {
			out = append(out, Outcome{st: st2, res: c.errTerm()})
		}
		return out, true
	}
	m["(*encoding/json.Decoder).Decode"] = func(c *callCtx) ([]Outcome, bool) {
		d := c.args[0]
		if d.op != OApp || d.sym != "nonnil" || d.args[0].sym != "decoder" {
			return nil, false
		}
		return decode(c, mkCont(d.args[0].args[0]), c.args[1], d.args[0].args[0].args[0])
	}
	m["encoding/json.Unmarshal"] = func(c *callCtx) ([]Outcome, bool) {
		return decode(c, c.content(0), c.args[1], nil)
	}
	for _, pk := range e.prog.Pkgs {
		m[pk.Rel+".sLeaks"] = func(c *callCtx) ([]Outcome, bool) {
			return c.ret(mkAdd(get(c.st, "timers"), get(c.st, "bodies"))), true
		}
	}
}

// sigRecv is the named type a method call's receiver points to.
func (c *callCtx) sigRecv() types.Type {
	if c.fn == nil || c.fn.Signature.Recv() == nil {
		return nil
	}
	t := c.fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return t
}
