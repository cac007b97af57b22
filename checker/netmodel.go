package main

import (
	"go/types"
)

// netModels gives meaning to buffered network streams: a reader is an unknown
// byte sequence with a position, a writer a sequence of pending bytes and a
// sequence of bytes already sent. Deadline calls and writes succeed; that
// their errors are handled is C18's subject.
func netModels(e *Engine) {
	m := e.models
	rd := func(c *callCtx, r *Term) (in, pos *Term) {
		if r.op == OIface {
			r = r.args[0]
		}
		in = mkApp("stream", tyBytes, c.e.reify(c.st, r))
		cell := mkFld(r, cellPos, nil)
		pos = c.st.mem[cell]
		if pos == nil {
			pos = mkApp("streampos", tyInt, r)
			c.st.facts.assume(mkLe(tZero, pos))
		}
		return
	}
	advance := func(c *callCtx, st *State, r, pos *Term) {
		if r.op == OIface {
			r = r.args[0]
		}
		c.e.setCell(st, mkFld(r, cellPos, nil), pos)
	}
	full := func(c *callCtx, r, n *Term, put func(st *State, data *Term)) []Outcome {
		in, pos := rd(c, r)
		end := mkAdd(pos, n)
		return c.splitOn(mkLe(end, lenOf(in)), func(st *State) Outcome {
			put(st, mkSub(in, pos, n))
			advance(c, st, r, end)
			return Outcome{st: st, res: tNil}
		}, func(st *State) Outcome {
			advance(c, st, r, mkApp("failedpos", tyInt, pos))
			return Outcome{st: st, res: c.errTerm()}
		})
	}
	std := m["io.ReadFull"]
	m["io.ReadFull"] = func(c *callCtx) ([]Outcome, bool) {
		r := c.args[0]
		if r.op != OIface || r.sym != "*bufio.Reader" {
			return std(c)
		}
		obj, off, n, _ := c.e.sliceParts(c.st, c.args[1])
		outs := full(c, r, n, func(st *State, data *Term) {
			c.e.setCell(st, obj, c.e.spliceIn(st, c.e.loadArr(st, obj), off, data))
		})
		for i := range outs {
			outs[i].res = mkTup(n, outs[i].res)
		}
		return outs, true
	}
	stdR := m["encoding/binary.Read"]
	m["encoding/binary.Read"] = func(c *callCtx) ([]Outcome, bool) {
		r, dst := c.args[0], c.args[2]
		if r.op != OIface || r.sym != "*bufio.Reader" || dst.op != OIface {
			if stdR != nil {
				return stdR(c)
			}
			return nil, false
		}
		pt, ok := dst.any.(types.Type).Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		w := byteWidth(pt.Elem())
		if w == 0 {
			return nil, false
		}
		le, ok := byteOrder(c.args[1])
		if !ok {
			return nil, false
		}
		return full(c, r, mkInt(int64(w)), func(st *State, data *Term) {
			v := mkUintLE(data)
			if !le {
				v = mkUintBE(data)
			}
			c.e.store(st, dst.args[0], v, pt.Elem())
		}), true
	}
	stdW := m["encoding/binary.Write"]
	m["encoding/binary.Write"] = func(c *callCtx) ([]Outcome, bool) {
		w, v := c.args[0], c.args[2]
		if w.op != OIface || w.sym != "*bytes.Buffer" || v.op != OIface {
			if stdW != nil {
				return stdW(c)
			}
			return nil, false
		}
		n := byteWidth(v.any.(types.Type))
		le, ok := byteOrder(c.args[1])
		if n == 0 || !ok {
			return nil, false
		}
		b := mkLE(n, v.args[0])
		if !le {
			b = mkBE(n, v.args[0])
		}
		cell := seqCell(w.args[0])
		c.e.setCell(c.st, cell, mkCat(c.e.seqOf(c.st, w.args[0]), b))
		return c.ret(tNil), true
	}
	ok := func(c *callCtx) ([]Outcome, bool) { return c.ret(tNil), true }
	for _, n := range []string{"SetReadDeadline", "SetWriteDeadline", "SetDeadline"} {
		m["invoke (net.Conn)."+n] = ok
	}
	bw := "(*bufio.Writer)."
	m[bw+"Write"] = func(c *callCtx) ([]Outcome, bool) {
		b := c.content(1)
		c.e.setCell(c.st, seqCell(c.args[0]), mkCat(c.e.pendingOf(c.st, c.args[0]), b))
		return c.ret(lenOf(b), tNil), true
	}
	m[bw+"WriteString"] = m[bw+"Write"]
	m[bw+"Flush"] = func(c *callCtx) ([]Outcome, bool) {
		w := c.args[0]
		c.e.setCell(c.st, mkFld(w, cellOut, nil), mkCat(c.e.sentOf(c.st, w), c.e.pendingOf(c.st, w)))
		c.e.setCell(c.st, seqCell(w), tEmpty)
		return c.ret(tNil), true
	}
	for _, pk := range e.prog.Pkgs {
		n := pk.Rel + "."
		m[n+"sSent"] = func(c *callCtx) ([]Outcome, bool) {
			return c.ret(mkApp("newslice", tyBytes, c.e.sentOf(c.st, c.args[0]))), true
		}
		m[n+"sTake"] = func(c *callCtx) ([]Outcome, bool) {
			var d *Term
			outs := full(c, c.args[0], c.args[1], func(st *State, data *Term) { d = data })
			for i := range outs {
				if outs[i].res == tNil {
					outs[i].res = mkTup(mkApp("newslice", tyBytes, d), tTrue)
				} else {
					outs[i].res = mkTup(tNil, tFalse)
				}
			}
			return outs, true
		}
		m[n+"sPos"] = func(c *callCtx) ([]Outcome, bool) {
			_, pos := rd(c, c.args[0])
			return c.ret(pos), true
		}
	}
}

// pendingOf: bytes buffered but not sent. Nothing is pending between messages.
func (e *Engine) pendingOf(st *State, w *Term) *Term {
	if v, ok := st.mem[seqCell(w)]; ok {
		return v
	}
	return tEmpty
}

func (e *Engine) sentOf(st *State, w *Term) *Term {
	if v, ok := st.mem[mkFld(w, cellOut, nil)]; ok {
		return v
	}
	return tEmpty
}

func byteWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	case types.Uint64, types.Int64:
		return 8
	}
	return 0
}

// byteOrder recognises the two encoding/binary byte orders.
func byteOrder(t *Term) (little, ok bool) {
	if t.op == OIface {
		switch t.sym {
		case "encoding/binary.littleEndian":
			return true, true
		case "encoding/binary.bigEndian":
			return false, true
		}
	}
	return false, false
}
