package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The arithmetic of the curve, decided in two layers. Functions between triples
// of numbers (Jacobian coordinates) are found by their signatures and judged as
// polynomials modulo p against the chord and tangent rules, each path under its
// own conditions. Then the four operations of the interface are analysed with
// those functions standing for the group operations on elements in normal
// form (integer combinations of points).

func curveP() *Term { return hexBig(curveConst["P"]) }

func eqn(a, b *Term) *Term { return mkEq(a, b, true) }

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// modP is the normal form of a polynomial modulo p, without the reduction.
func modP(t *Term) *Term {
	r := mkMod(t, curveP())
	if r.op == OApp && r.sym == "mod" && r.args[1] == curveP() {
		return r.args[0]
	}
	return r
}

func sameModP(a, b *Term) bool { return modP(mkSubt(a, b)).isK(0) }

// group elements and their coordinates
func jac(k string, g *Term) *Term {
	if g.isK(0) && k == "jZ" {
		return tZero
	}
	return mkApp(k, nil, g)
}

func coord(t *Term, k string) *Term {
	if t.op == OApp && t.sym == k {
		return t.args[0]
	}
	return nil
}

// elemA is the element with these affine coordinates.
func elemA(f *Facts, x, y *Term) *Term {
	if g := coord(x, "aX"); g != nil && g == coord(y, "aY") {
		return g
	}
	if f.prove(eqn(x, tZero)) && f.prove(eqn(y, tZero)) {
		return tZero
	}
	return mkApp("aff", nil, x, y)
}

// elemJ is the element with these Jacobian coordinates.
func elemJ(f *Facts, x, y, z *Term) *Term {
	if g := coord(x, "jX"); g != nil && g == coord(y, "jY") && g == coord(z, "jZ") {
		return g
	}
	if f.prove(eqn(z, tZero)) {
		return tZero
	}
	if f.prove(eqn(z, tOne)) {
		return elemA(f, x, y)
	}
	return mkApp("jac", nil, x, y, z)
}

type curveFn struct {
	fn   *ssa.Function
	recv int // parameters before the coordinates
	in   int
	out  int
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

// jacobianFuncs are the functions between triples.
func (c *Ctx) jacobianFuncs() (out []curveFn) {
	for _, f := range c.p.FuncsIn("xcrypto/secp256k1") {
		if f.Parent() != nil {
			continue
		}
		cf := curveFn{fn: f}
		ok := true
		for i, p := range f.Params {
			if isBigPtr(p.Type()) {
				cf.in++
			} else if i == 0 && f.Signature.Recv() != nil {
				cf.recv = 1
			} else {
				ok = false
			}
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isBigPtr(res.At(i).Type()) {
				cf.out++
			} else {
				ok = false
			}
		}
		if ok && (cf.out == 3 && (cf.in == 6 || cf.in == 5 || cf.in == 3) || cf.out == 2 && cf.in == 3) {
			out = append(out, cf)
		}
	}
	return
}

// groupOps makes these functions the operations of the group.
func groupOps(e *Engine, fs []curveFn, but *ssa.Function) {
	for _, cf := range fs {
		cf := cf
		if cf.fn == but {
			continue
		}
		e.models[e.prog.FuncName(cf.fn)] = func(c *callCtx) ([]Outcome, bool) {
			b := func(i int) *Term { return c.big(cf.recv + i) }
			var g *Term
			switch {
			case cf.in == 6:
				g = mkAdd(elemJ(c.st.facts, b(0), b(1), b(2)), elemJ(c.st.facts, b(3), b(4), b(5)))
			case cf.in == 5:
				g = mkAdd(elemJ(c.st.facts, b(0), b(1), b(2)), elemA(c.st.facts, b(3), b(4)))
			case cf.out == 3:
				g = mkScale(elemJ(c.st.facts, b(0), b(1), b(2)), newInt(nil).SetInt64(2))
			default:
				g = elemJ(c.st.facts, b(0), b(1), b(2))
				if g.isK(0) {
					return c.ret(newBigAt(c, "x", tZero), newBigAt(c, "y", tZero)), true
				}
				return c.ret(newBigAt(c, "x", mkApp("aX", nil, g)), newBigAt(c, "y", mkApp("aY", nil, g))), true
			}
			return c.ret(newBigAt(c, "x", jac("jX", g)), newBigAt(c, "y", jac("jY", g)), newBigAt(c, "z", jac("jZ", g))), true
		}
	}
}

func (c *Ctx) curveEngine() *Engine {
	e := c.engine()
	e.constGlobals(nil, "xcrypto/secp256k1")
	e.mergeErr, e.exact = false, true
	e.maxParts = 400
	return e
}

// curveState is the state after the curve was set up, and the curve.
func (c *Ctx) curveState(e *Engine) (*State, *Term) {
	f := c.p.ByRel["xcrypto/secp256k1"].SSA.Func("groupCurve")
	need("the curve", f != nil)
	os := e.Run(f, newState(), nil)
	need("one way to set up the curve", len(os) == 1 && !os[0].panic)
	v := os[0].res
	for v.op != OObj && len(v.args) > 0 {
		v = v.args[0]
	}
	return os[0].st, v
}

// the values of an outcome's results
func bigResults(e *Engine, o Outcome, n int) []*Term {
	var ps []*Term
	if o.res != nil && o.res.op == OTup {
		ps = o.res.args
	}
	if len(ps) != n {
		panic(&budgetError{"results are not " + fmt.Sprint(n) + " numbers"})
	}
	out := make([]*Term, n)
	for i, p := range ps {
		if p == tNil {
			return nil
		}
		out[i] = e.bigVal(o.st, p)
	}
	return out
}

func inField(f *Facts, t *Term) bool {
	lo, hi := f.interval(t)
	return lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(curveP().ival) < 0
}

// zeroModP: the path's conditions say that a polynomial is (yes) or is not (no)
// zero modulo p.
func zeroModP(f *Facts, a, b *Term) (yes, no bool) {
	p := curveP()
	forms := []*Term{eqn(mkMod(a, p), mkMod(b, p)), eqn(mkMod(mkSubt(a, b), p), tZero), eqn(mkMod(mkSubt(b, a), p), tZero)}
	for _, q := range forms {
		yes = yes || f.prove(q)
		no = no || f.prove(mkNot(q))
	}
	return
}

// jacobian judges one function between triples.
func (c *Ctx) jacobian(fs []curveFn, cf curveFn) {
	e := c.curveEngine()
	groupOps(e, fs, cf.fn)
	st, recv := c.curveState(e)
	where := c.p.FuncName(cf.fn)
	c.analysed(cf.fn)
	var args, v []*Term
	for i, p := range cf.fn.Params {
		if i < cf.recv {
			args = append(args, recv)
			continue
		}
		a := mkSym("c."+fmt.Sprint(i-cf.recv), p.Type())
		args = append(args, a)
		v = append(v, e.bigVal(st, a))
	}
	p := curveP()
	red := func(t *Term) { // a coordinate Z is reduced
		st.facts.assume(mkLe(tZero, t))
		st.facts.assume(mkLt(t, p))
	}
	red(v[2])
	z2 := tOne
	if cf.in == 6 {
		z2 = v[5]
		red(z2)
	}
	what := map[int]string{6: "sum", 5: "sum", 3: "double"}[cf.in]
	if cf.out == 2 {
		what = "affine coordinates"
	}
	pow := func(t *Term, n int) *Term {
		r := tOne
		for i := 0; i < n; i++ {
			r = mkMul(r, t)
		}
		return modP(r)
	}
	mul := func(ts ...*Term) *Term {
		r := tOne
		for _, t := range ts {
			r = modP(mkMul(r, t))
		}
		return r
	}
	k := func(n int64, t *Term) *Term { return mkScale(t, newInt(nil).SetInt64(n)) }
	// scaled: the triple is the expected one times (c², c³, c) for a constant
	scaled := func(r []*Term, x, y, z *Term) bool {
		rz, wz := asLinear(modP(r[2])), asLinear(modP(z))
		if rz.k.Sign() != 0 || wz.k.Sign() != 0 || len(rz.atoms) == 0 {
			return false
		}
		for j, a := range wz.atoms {
			if a != rz.atoms[0] {
				continue
			}
			cc := newInt(nil).ModInverse(wz.coefs[j], p.ival)
			cc.Mul(cc, rz.coefs[0]).Mod(cc, p.ival)
			if cc.Sign() == 0 {
				return false
			}
			ct := mkBig(cc)
			return sameModP(r[2], mkMul(ct, z)) && sameModP(r[0], mul(ct, ct, x)) && sameModP(r[1], mul(ct, ct, ct, y))
		}
		return false
	}
	outs := e.Run(cf.fn, st, args)
	c.must(len(outs) > 0, "no result", where, "the function never returns")
	for _, o := range outs {
		f := o.st.facts
		path := clipTo(factsString(f), 400)
		if o.panic {
			c.must(false, "fails", where, "the computation can fail: %s\npath: %s", o.why, path)
			continue
		}
		r := bigResults(e, o, cf.out)
		if r == nil {
			c.must(false, "nil", where, "no number is returned\npath: %s", path)
			continue
		}
		zero := func(t *Term) bool { return f.prove(eqn(t, tZero)) }
		// the work is left to another of these functions, judged by itself
		var g *Term
		switch {
		case cf.in == 6:
			g = mkAdd(elemJ(f, v[0], v[1], v[2]), elemJ(f, v[3], v[4], v[5]))
		case cf.in == 5:
			g = mkAdd(elemJ(f, v[0], v[1], v[2]), elemA(f, v[3], v[4]))
		case cf.out == 3:
			g = mkScale(elemJ(f, v[0], v[1], v[2]), newInt(nil).SetInt64(2))
		default:
			g = elemJ(f, v[0], v[1], v[2])
		}
		if cf.out == 2 && coord(r[0], "aX") == g && coord(r[1], "aY") == g ||
			cf.out == 3 && coord(r[0], "jX") == g && coord(r[1], "jY") == g && coord(r[2], "jZ") == g {
			c.count("paths", 1)
			continue
		}
		if cf.out == 2 {
			if zero(v[2]) {
				c.must(zero(r[0]) && zero(r[1]), what, where, "the point at infinity must have coordinates 0, 0")
				continue
			}
			nz := f.prove(mkNot(eqn(v[2], tZero)))
			inv := mkApp("inv", nil, mkMod(v[2], p), p)
			fermat := mkApp("modexp", nil, mkMod(v[2], p), mkBig(newInt(nil).Sub(p.ival, newInt(nil).SetInt64(2))), p)
			if v[2] != mkMod(v[2], p) {
				inv = mkApp("inv", nil, mkMod(v[2], p), p)
			}
			m := map[*Term]*Term{fermat: inv, mkApp("inv", nil, v[2], p): inv}
			x, y := subst(r[0], m), subst(r[1], m)
			c.must(nz && sameModP(x, mul(v[0], inv, inv)) && sameModP(y, mul(v[1], inv, inv, inv)) && inField(f, r[0]) && inField(f, r[1]),
				what, where, "the coordinates must be X/Z², Y/Z³ modulo p, reduced\npath: %s\nx: %s\ny: %s", path, clipTo(r[0].String(), 300), clipTo(r[1].String(), 300))
			continue
		}
		same := func(x, y, z *Term) bool {
			return sameModP(r[0], x) && sameModP(r[1], y) && sameModP(r[2], z) && (inField(f, r[2]) || zero(z) && zero(r[2]))
		}
		if cf.in == 3 {
			x, y, z := v[0], v[1], v[2]
			if zero(r[2]) {
				c.must(zero(z) || zero(mkMod(y, p)), what, where, "a path returns infinity for a finite point\npath: %s", path)
				continue
			}
			d, ee := k(4, mul(x, y, y)), k(3, mul(x, x))
			x3 := modP(mkSubt(mul(ee, ee), k(2, d)))
			y3 := modP(mkSubt(mul(ee, mkSubt(d, x3)), k(8, pow(y, 4))))
			c.must(scaled(r, x3, y3, k(2, mul(y, z))) && inField(f, r[2]), what, where,
				"the result is not the tangent rule's, modulo p\npath: %s\nX: %s\nY: %s\nZ: %s", path, clipTo(r[0].String(), 300), clipTo(r[1].String(), 300), clipTo(r[2].String(), 200))
			continue
		}
		x1, y1, z1, x2, y2 := v[0], v[1], v[2], v[3+0], v[4]
		if zero(z1) {
			c.must(same(x2, y2, z2), what, where, "infinity plus a point must be the point\npath: %s", path)
			continue
		}
		if z2 != tOne && zero(z2) {
			c.must(same(x1, y1, z1), what, where, "a point plus infinity must be the point\npath: %s", path)
			continue
		}
		u1, u2 := mul(x1, z2, z2), mul(x2, z1, z1)
		s1, s2 := mul(y1, z2, z2, z2), mul(y2, z1, z1, z1)
		ueq, une := zeroModP(f, u1, u2)
		seq, sne := zeroModP(f, s1, s2)
		if ueq && seq {
			g := coord(r[0], "jX")
			ok := g != nil && g == coord(r[1], "jY") && g == coord(r[2], "jZ") &&
				(g == k(2, elemJ(f, x1, y1, z1)) || g == k(2, elemJ(f, x2, y2, z2)))
			c.must(ok, what, where, "equal points must be doubled\npath: %s\nX: %s", path, clipTo(r[0].String(), 300))
			continue
		}
		finite := f.prove(mkNot(eqn(z1, tZero))) && (z2 == tOne || f.prove(mkNot(eqn(z2, tZero))))
		if !c.must(finite && (une || sne), what, where, "the path does not tell infinity or equal points from others\npath: %s", path) {
			continue
		}
		if ueq && zero(r[2]) {
			c.must(true, what, where, "")
			continue
		}
		h, rr := modP(mkSubt(u2, u1)), modP(mkSubt(s2, s1))
		h2 := mul(h, h)
		x3 := modP(mkSubt(mkSubt(mul(rr, rr), mul(h, h2)), k(2, mul(u1, h2))))
		y3 := modP(mkSubt(mul(rr, mkSubt(mul(u1, h2), x3)), mul(s1, h, h2)))
		c.must(scaled(r, x3, y3, mul(z1, z2, h)) && inField(f, r[2]), what, where,
			"the result is not the chord rule's, modulo p\npath: %s\nX: %s\nY: %s\nZ: %s", path, clipTo(r[0].String(), 300), clipTo(r[1].String(), 300), clipTo(r[2].String(), 200))
	}
	c.count("functions between triples", 1)
	c.sample("%s: %s, %d paths as polynomials modulo p", where, what, len(outs))
}

// groupLaw judges one operation of the interface.
func (c *Ctx) groupLaw(fs []curveFn, name string) {
	e := c.curveEngine()
	groupOps(e, fs, nil)
	if name == "groupMult" || name == "groupBaseMult" {
		// judged on their own
		for _, f := range c.p.FuncsIn("xcrypto/secp256k1") {
			f := f
			if f.Parent() != nil || f.Signature.Recv() == nil || f.Name() != "Add" && f.Name() != "Double" {
				continue
			}
			e.models[c.p.FuncName(f)] = func(c *callCtx) ([]Outcome, bool) {
				g := elemA(c.st.facts, c.big(1), c.big(2))
				if f.Name() == "Add" {
					g = mkAdd(g, elemA(c.st.facts, c.big(3), c.big(4)))
				} else {
					g = mkScale(g, newInt(nil).SetInt64(2))
				}
				if g.isK(0) {
					return c.ret(newBigAt(c, "x", tZero), newBigAt(c, "y", tZero)), true
				}
				return c.ret(newBigAt(c, "x", mkApp("aX", nil, g)), newBigAt(c, "y", mkApp("aY", nil, g))), true
			}
		}
	}
	fn := c.p.ByRel["xcrypto/secp256k1"].SSA.Func(name)
	need(name, fn != nil)
	var ka, kc *Term
	st := newState()
	var args []*Term
	for _, p := range fn.Params {
		a := mkSym("c."+p.Name(), p.Type())
		args = append(args, a)
		if !isBigPtr(p.Type()) {
			ka, kc = a, e.content(st, a)
		}
	}
	val := func(i int) *Term { return e.bigVal(st, args[i]) }
	for i, a := range args {
		if isBigPtr(a.typ) {
			st.facts.assume(mkLe(tZero, val(i)))
			st.facts.assume(mkLt(val(i), curveP()))
		}
	}
	if kc != nil {
		e.hooks.Close = func(l *loopAt) { l.closeGroup(ka, kc) }
	}
	v := make([]*Term, len(args))
	for i, a := range args {
		if isBigPtr(a.typ) {
			v[i] = val(i)
		}
	}
	if name == "groupMult" { // the point is not infinity
		st.facts.assume(mkNot(mkAnd([]*Term{eqn(v[0], tZero), eqn(v[1], tZero)})))
	}
	for _, o := range e.Run(fn, st, args) {
		f := o.st.facts
		path := clipTo(factsString(f), 300)
		if o.panic {
			c.must(false, "fails", name, "the operation can fail: %s\npath: %s", o.why, path)
			continue
		}
		r := bigResults(e, o, 2)
		if r == nil {
			c.must(false, "nil", name, "no number is returned\npath: %s", path)
			continue
		}
		var want *Term
		switch name {
		case "groupAdd":
			want = mkAdd(elemA(f, v[0], v[1]), elemA(f, v[2], v[3]))
		case "groupDouble":
			want = mkScale(elemA(f, v[0], v[1]), newInt(nil).SetInt64(2))
		case "groupMult":
			want = mkMul(mkUintBE(kc), elemA(f, v[0], v[1]))
		default:
			want = mkMul(mkUintBE(kc), mkApp("aff", nil, hexBig(curveConst["Gx"]), hexBig(curveConst["Gy"])))
		}
		got := elemA(f, r[0], r[1])
		n := hexBig(curveConst["N"])
		d := mkMod(mkSubt(got, want), n)
		ok := d.isK(0) || got.isK(0) && f.prove(eqn(jac("jZ", want), tZero))
		c.must(ok, "group law", name, "the result is not the published one\npath: %s\ngot: %s\nwant: %s", path, clipTo(got.String(), 400), clipTo(want.String(), 300))
	}
	c.count("operations", 1)
	c.sample("%s: every path returns the element of the group law", name)
}

// loopAt is a loop whose variables were just closed.
type loopAt struct {
	e     *Engine
	fr    *frame
	l     *loopInfo
	p     *Part
	back  []*Part
	order []*lvar
	it    *Term
	// install puts values of variables into a partition
}

// closeGroup closes the coordinates of an element that each iteration replaces
// by 256 times itself plus a byte of the scalar times a point: decided by one
// abstract iteration for each value of the byte.
func (l *loopAt) closeGroup(ka, kc *Term) {
	value := func(b *Part, v *lvar) *Term {
		if v.phi != nil {
			t := b.env[v.phi]
			if t == nil || !isBigPtr(v.phi.Type()) {
				return nil
			}
			return l.e.bigVal(b.st, t)
		}
		return b.st.mem[v.cell]
	}
	if len(l.back) == 0 {
		return
	}
	var vars []*lvar
	for _, v := range l.order {
		if v.phi != nil && isBigPtr(v.phi.Type()) || v.cell != nil && v.cell.op == OFld && v.cell.ival.Int64() == cellBig {
			vars = append(vars, v)
		}
	}
	switch len(vars) {
	case 3:
		for _, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			if l.closeAs(ka, kc, value, []string{"jX", "jY", "jZ"}, map[string]*lvar{"jX": vars[o[0]], "jY": vars[o[1]], "jZ": vars[o[2]]}) {
				return
			}
		}
	case 2:
		for o := 0; o < 2; o++ {
			if l.closeAs(ka, kc, value, []string{"aX", "aY"}, map[string]*lvar{"aX": vars[o], "aY": vars[1-o]}) {
				return
			}
		}
	}
}

// closeAs tries one way to read the variables as coordinates.
func (l *loopAt) closeAs(ka, kc *Term, value func(b *Part, v *lvar) *Term, kind []string, role map[string]*lvar) bool {
	group := map[*lvar]bool{}
	for _, v := range role {
		group[v] = true
	}
	elem := func(f *Facts, get func(r string) *Term) *Term {
		if len(kind) == 3 {
			return elemJ(f, get("jX"), get("jY"), get("jZ"))
		}
		return elemA(f, get("aX"), get("aY"))
	}
	initial := func(r string) *Term {
		v := role[r]
		if v.phi != nil {
			return l.e.bigVal(l.p.st, v.init)
		}
		return v.init
	}
	if !elem(l.p.st.facts, initial).isK(0) {
		return false
	}
	pre, suf := mkSym("c.before", kc.typ), mkSym("c.after", kc.typ)
	n := lenOf(pre)
	g := mkSym("c.element", nil)
	var point *Term
	for b := int64(0); b < 256; b++ {
		cont := mkCat(pre, mkUnit(mkInt(b)), suf)
		size := lenOf(cont)
		obj := intern(&Term{op: OObj, sym: "c.scalar", typ: ka.typ})
		m := map[*Term]*Term{kc: cont, ka: mkSlice(obj, tZero, size, size), lenOf(kc): size}
		q := l.p.clone()
		q.st.mem[obj] = cont
		for _, v := range l.order {
			if group[v] {
				continue
			}
			if v.closed == nil || v.obj != nil {
				return false
			}
			t := subst(v.closed, map[*Term]*Term{l.it: n})
			if v.phi != nil {
				q.env[v.phi] = t
			} else {
				q.st.mem[v.cell] = t
			}
		}
		for a, t := range q.env {
			q.env[a] = subst(t, m)
		}
		for a, t := range q.st.mem {
			q.st.mem[a] = subst(t, m)
		}
		f := &Facts{m: map[*Term]bool{}}
		for _, t := range q.st.facts.list() {
			f.assume(subst(t, m))
		}
		q.st.facts = f
		for r, v := range role {
			if v.phi != nil {
				q.env[v.phi] = v.sym
				q.st.mem[bigCell(v.sym)] = mkApp(r, nil, g)
			} else {
				q.st.mem[v.cell] = mkApp(r, nil, g)
			}
		}
		out := l.e.runRegion(l.fr, l.l.header, []*Part{q}, l.l.blocks, l.l.header)
		if len(out.exits) > 0 || len(out.outs) > 0 || len(out.back) == 0 {
			return false
		}
		for _, x := range out.back {
			got := elem(x.st.facts, func(r string) *Term {
				if t := value(x, role[r]); t != nil {
					return t
				}
				return tNil
			})
			d := mkSubt(got, mkScale(g, newInt(nil).SetInt64(256)))
			if b == 0 && !d.isK(0) {
				return false
			}
			if b == 1 {
				if point != nil && point != d {
					return false
				}
				point = d
			}
			if b > 1 && d != mkScale(point, newInt(nil).SetInt64(b)) {
				return false
			}
		}
	}
	if point == nil || occurs(point, g) || occurs(point, pre) || occurs(point, suf) {
		return false
	}
	at := mkMul(mkUintBE(mkSub(kc, tZero, l.it)), point)
	for r, v := range role {
		t := mkApp(r, nil, at)
		if v.phi != nil {
			t = mkApp("newobj", v.phi.Type(), t)
		}
		v.closed = t
	}
	return true
}

func init() {
	register(&checkDef{
		id:    "C33",
		rule:  "Every function between triples of coordinates is the chord or tangent rule (or the way back to affine coordinates) as a polynomial identity modulo p on each of its paths, with infinity, equal and opposite points told apart; Add, Double, ScalarMult and ScalarBaseMult built on them give the element of the group law for all points, and for scalars of every length and content.",
		specs: []string{"xcrypto/secp256k1/curve"},
		floor: 12,
		run: func(c *Ctx) {
			fs := c.jacobianFuncs()
			for _, cf := range fs {
				c.jacobian(fs, cf)
			}
			for _, n := range []string{"groupAdd", "groupDouble", "groupMult", "groupBaseMult"} {
				c.groupLaw(fs, n)
			}
			c.specPairs("xcrypto/secp256k1", "Curve", false, nil)
			c.specPairs("xcrypto/secp256k1", "OnCurve", true, nil)
		},
	})
}
