package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func intWidth(t types.Type) (bits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	}
	return 64, false, true
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// setTyp attaches a Go type to an untyped opaque term.
func setTyp(t *Term, typ types.Type) *Term {
	if t.typ == nil {
		switch t.op {
		case OSym, OLd, OApp, OAt, ORec, OObj, OSlice:
			t.typ = typ
		}
	}
	return t
}

func (e *Engine) simple(fr *frame, p *Part, in ssa.Instruction) {
	st := p.st
	set := func(v ssa.Value, t *Term) {
		if v.Type() != nil {
			setTyp(t, v.Type())
		}
		p.env[v] = t
	}
	v := func(x ssa.Value) *Term { return e.val(fr, p, x) }
	switch x := in.(type) {
	case *ssa.Alloc:
		set(x, e.alloc(st, fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), x.Type()))
	case *ssa.BinOp:
		set(x, e.binop(fr, p, x, v(x.X), v(x.Y)))
	case *ssa.UnOp:
		a := v(x.X)
		switch x.Op {
		case token.MUL:
			e.nilCheck(fr, st, x, a)
			set(x, e.load(st, a, x.Type()))
		case token.NOT:
			set(x, mkNot(a))
		case token.SUB:
			if isFloat(x.Type()) {
				set(x, mkApp("fneg", x.Type(), a))
			} else {
				set(x, e.wrap(fr, p, x, x.Type(), mkNeg(a)))
			}
		case token.XOR:
			bits, signed, _ := intWidth(x.Type())
			r := mkAddK(mkNeg(a), -1)
			if !signed {
				r = mkAdd(r, mkBig(pow2(bits)))
			}
			set(x, r)
		case token.ARROW:
			t := mkApp("recv", nil, append([]*Term{a, mkSym(fr.ctx, nil)}, e.iters...)...)
			if x.CommaOk {
				t = mkTup(t, mkApp("recvok", tyBool, t))
			}
			set(x, t)
		}
	case *ssa.Convert:
		set(x, e.convert(fr, p, x, v(x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		a := v(x.X)
		p.env[x] = a
	case *ssa.ChangeInterface:
		p.env[x] = v(x.X)
	case *ssa.MakeInterface:
		p.env[x] = intern(&Term{op: OIface, sym: types.TypeString(x.X.Type(), nil), args: []*Term{v(x.X)}, any: x.X.Type()})
	case *ssa.MultiConvert:
		p.env[x] = mkApp("multiconvert", x.Type(), v(x.X))
	case *ssa.SliceToArrayPointer:
		obj, off, n, _ := e.sliceParts(st, v(x.X))
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if e.hooks.Slice != nil && e.quiet == 0 {
			e.hooks.Slice(fr, st, x, tZero, mkInt(at.Len()), n)
		}
		if off.isK(0) && lenOf(e.loadArr(st, obj)).isK(at.Len()) {
			p.env[x] = obj
		} else {
			o := e.alloc(st, fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), x.Type())
			st.mem[o] = mkSub(e.content(st, v(x.X)), tZero, mkInt(at.Len()))
			p.env[x] = o
		}
	case *ssa.FieldAddr:
		a := v(x.X)
		e.nilCheck(fr, st, x, a)
		ft := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Type()
		if a.typ == nil {
			setTyp(a, x.X.Type())
		}
		p.env[x] = mkFld(a, x.Field, ft)
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		set(x, mkFieldOf(v(x.X), x.Field, s.Field(x.Field).Type()))
	case *ssa.IndexAddr:
		a, i := v(x.X), v(x.Index)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer: // array
			n := u.Elem().Underlying().(*types.Array).Len()
			e.nilCheck(fr, st, x, a)
			if e.hooks.Index != nil && e.quiet == 0 {
				e.hooks.Index(fr, st, x, mkInt(n), i)
			}
			e.assumeIndex(p, mkInt(n), i)
			if a.typ == nil {
				setTyp(a, x.X.Type())
			}
			p.env[x] = mkIdx(a, i, et)
		default:
			if a.op == OAlt {
				var na []*Term
				for k := 0; k < len(a.args); k += 2 {
					obj, off, _, _ := e.sliceParts(st, a.args[k+1])
					na = append(na, a.args[k], mkIdx(obj, mkAdd(off, i), et))
				}
				p.env[x] = mkAlt(na...)
				return
			}
			obj, off, n, _ := e.sliceParts(st, a)
			if e.hooks.Index != nil && e.quiet == 0 {
				e.hooks.Index(fr, st, x, n, i)
			}
			e.assumeIndex(p, n, i)
			p.env[x] = mkIdx(obj, mkAdd(off, i), et)
		}
	case *ssa.Index:
		a, i := v(x.X), v(x.Index)
		var n *Term
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			n = mkInt(at.Len())
		} else {
			n = mkLenOfValue(a)
		}
		if e.hooks.Index != nil && e.quiet == 0 {
			e.hooks.Index(fr, st, x, n, i)
		}
		e.assumeIndex(p, n, i)
		set(x, mkAt(a, i))
	case *ssa.Slice:
		e.slice(fr, p, x)
	case *ssa.MakeSlice:
		n, c := v(x.Len), v(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if e.hooks.Make != nil && e.quiet == 0 {
			e.hooks.Make(fr, st, x, n, c)
		}
		o := e.alloc(st, fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), nil)
		setTyp(o, types.NewSlice(et))
		z := zeroArray(n, zeroOf(et), et)
		if c != n {
			z = mkCat(z, zeroArray(mkSubt(c, n), zeroOf(et), et))
		}
		st.mem[o] = z
		st.facts.assume(mkLe0(mkNeg(n)))
		p.env[x] = mkSlice(o, tZero, n, c)
	case *ssa.MakeMap:
		o := e.alloc(st, fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), x.Type())
		st.mem[mkFld(o, cellMap, nil)] = mkSym("emptymap", nil)
		p.env[x] = o
	case *ssa.MakeChan:
		p.env[x] = e.alloc(st, fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), x.Type())
	case *ssa.MapUpdate:
		m := v(x.Map)
		k := e.reify(st, v(x.Key))
		if m.op == OAlt {
			panic(&budgetError{"map update through alternatives"})
		}
		c := mkFld(m, cellMap, nil)
		e.setCell(st, c, mkApp("mapset", nil, e.mapContent(st, m), k, v(x.Value)))
	case *ssa.MakeClosure:
		args := []*Term{funcTerm(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			args = append(args, v(b))
		}
		p.env[x] = intern(&Term{op: OClo, args: args})
	case *ssa.Range:
		p.env[x] = mkApp("iter", nil, v(x.X))
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.op == OTup && x.Index < len(t.args) {
			set(x, t.args[x.Index])
		} else {
			set(x, mkApp("ext", x.Type(), t, mkInt(int64(x.Index))))
		}
	case *ssa.Store:
		a, val := v(x.Addr), v(x.Val)
		e.nilCheck(fr, st, x, a)
		if e.hooks.Store != nil && e.quiet == 0 {
			e.hooks.Store(fr, st, x, a, val)
		}
		if a.op == OAlt {
			panic(&budgetError{"store through alternatives in " + fr.fn.String()})
		}
		e.store(st, a, val, x.Val.Type())
	case *ssa.Send:
	case *ssa.Select:
		var r []*Term
		r = append(r, mkApp("select", tyInt, append([]*Term{mkSym(fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), nil)}, e.iters...)...), mkApp("selok", tyBool, mkSym(fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), nil)))
		for i := range x.States {
			if x.States[i].Dir == types.RecvOnly {
				r = append(r, mkSym(fmt.Sprintf("selrecv:%s/%d.%d", fr.ctx, instrID(x), i), nil))
			}
		}
		p.env[x] = mkTup(r...)
	default:
		panic(&budgetError{fmt.Sprintf("instruction %T not handled in %s", in, fr.fn)})
	}
}

func (e *Engine) assumeIndex(p *Part, n, i *Term) {
	// execution continues only when the index was in range
	p.st.facts.assumeQuiet(mkLt(i, n))
	p.st.facts.assumeQuiet(mkLe0(mkNeg(i)))
}

// assumeQuiet adds a literal without contradiction checking.
func (f *Facts) assumeQuiet(l *Term) {
	if l.op == OBool || f.m[l] {
		return
	}
	if !f.proveCheap(l) {
		f.add(l)
	}
}

func (f *Facts) proveCheap(l *Term) bool {
	if f.m[l] {
		return true
	}
	if l.op == OLe0 {
		_, hi := f.interval(l.args[0])
		return hi != nil && hi.Sign() <= 0
	}
	return false
}

func (e *Engine) nilCheck(fr *frame, st *State, in ssa.Instruction, a *Term) {
	switch a.op {
	case OObj, OGlob, OFld, OIdx:
		return
	}
	if e.hooks.Nil != nil && e.quiet == 0 {
		e.hooks.Nil(fr, st, in, a)
	}
}

// wrap brings an exact integer result back into its type.
func (e *Engine) wrap(fr *frame, p *Part, in ssa.Instruction, t types.Type, r *Term) *Term {
	bits, signed, ok := intWidth(t)
	if !ok || bits == 64 {
		return r
	}
	lo, hi := p.st.facts.interval(r)
	tl, th := typeBounds(t)
	if lo != nil && hi != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return r
	}
	if p.st.facts.prove(mkLe(r, mkBig(th))) && p.st.facts.prove(mkLe(mkBig(tl), r)) {
		return r
	}
	if signed {
		return mkApp(fmt.Sprintf("swrap%d", bits), t, r)
	}
	return mkTrunc(bits, r)
}

func (e *Engine) binop(fr *frame, p *Part, x *ssa.BinOp, a, b *Term) *Term {
	t := x.X.Type()
	// guarded operands distribute
	if a.op == OAlt {
		var na []*Term
		for k := 0; k < len(a.args); k += 2 {
			na = append(na, a.args[k], e.binop(fr, p, x, a.args[k+1], b))
		}
		return mkAlt(na...)
	}
	if b.op == OAlt {
		var na []*Term
		for k := 0; k < len(b.args); k += 2 {
			na = append(na, b.args[k], e.binop(fr, p, x, a, b.args[k+1]))
		}
		return mkAlt(na...)
	}
	num := isInteger(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case num:
			r = mkEq0(mkSubt(a, b))
		case isString(t):
			r = mkEq(a, b, false)
		default:
			if _, ok := t.Underlying().(*types.Slice); ok {
				// only against nil
				if a.op == ONil {
					a, b = b, a
				}
				if a.op == OSlice && a.args[2].isK(0) && a.args[3].isK(0) {
					r = mkApp("isnil", tyBool, a)
				} else {
					r = mkEq(a, b, false)
				}
			} else {
				r = mkEq(a, b, false)
			}
		}
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if num {
			switch x.Op {
			case token.LSS:
				return mkLt(a, b)
			case token.LEQ:
				return mkLe(a, b)
			case token.GTR:
				return mkLt(b, a)
			}
			return mkLe(b, a)
		}
		// strings and floats: canonical strict/non-strict order
		switch x.Op {
		case token.GTR:
			return mkApp("less", tyBool, b, a)
		case token.LSS:
			return mkApp("less", tyBool, a, b)
		case token.LEQ:
			return mkNot(mkApp("less", tyBool, b, a))
		}
		return mkNot(mkApp("less", tyBool, a, b))
	}
	if isString(t) && x.Op == token.ADD {
		return mkCat(a, b)
	}
	if !num {
		if a.op == OFloat && b.op == OFloat {
			return mkApp("f"+x.Op.String(), t, a, b)
		}
		if (x.Op == token.ADD || x.Op == token.MUL) && a.id > b.id {
			a, b = b, a
		}
		if (x.Op == token.AND || x.Op == token.OR) && isBoolT(t) {
			return mkApp("b"+x.Op.String(), t, a, b)
		}
		return mkApp("f"+x.Op.String(), t, a, b)
	}
	rt := x.Type()
	r := e.arith(fr, p, x, x.Op, a, b, rt)
	if e.hooks.Arith != nil && e.quiet == 0 {
		e.hooks.Arith(fr, p.st, x, x.Op, a, b, r, rt)
	}
	return r
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Engine) arith(fr *frame, p *Part, in ssa.Instruction, op token.Token, a, b *Term, rt types.Type) *Term {
	bits, signed, _ := intWidth(rt)
	if e.words && bits == 32 && !signed && (op == token.AND || op == token.OR || op == token.XOR || op == token.AND_NOT) {
		if op == token.OR || op == token.XOR {
			if r := rotation(a, b); r != nil {
				return r
			}
		}
		plain := func(t *Term) bool {
			return !t.isInt() || t.ival.Sign() == 0 || t.ival.Cmp(allOnes) == 0
		}
		disjoint := op == token.OR && (orDisjoint(a, b) != nil || orDisjoint(b, a) != nil)
		if plain(a) && plain(b) && !disjoint {
			if r := mkTT(op, rt, a, b); r != nil {
				return r
			}
		}
	}
	switch op {
	case token.ADD:
		return e.wrap(fr, p, in, rt, mkAdd(a, b))
	case token.SUB:
		return e.wrap(fr, p, in, rt, mkSubt(a, b))
	case token.MUL:
		return e.wrap(fr, p, in, rt, mkMul(a, b))
	case token.QUO:
		if e.hooks.Div != nil && e.quiet == 0 {
			e.hooks.Div(fr, p.st, in, b)
		}
		if p.st.facts.prove(mkLe0(mkNeg(a))) && !nonNeg(a) && b.isInt() && b.ival.Sign() > 0 {
			n := b.ival.BitLen() - 1
			if pow2(n).Cmp(b.ival) == 0 {
				return mkShr(a, mkInt(int64(n)))
			}
		}
		return mkQuo(a, b)
	case token.REM:
		if e.hooks.Div != nil && e.quiet == 0 {
			e.hooks.Div(fr, p.st, in, b)
		}
		if b.isInt() && b.ival.Sign() > 0 {
			lo, hi := p.st.facts.interval(a)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
				return a
			}
		}
		return mkRem(a, b)
	case token.SHL:
		if k, ok := b.int64(); ok {
			if k >= int64(bits) {
				return tZero
			}
			return e.wrap64(fr, p, in, rt, mkScale(a, pow2(int(k))), bits, signed)
		}
		return mkApp("shl", rt, a, b)
	case token.SHR:
		if k, ok := b.int64(); ok {
			if nonNeg(a) || !signed {
				if k >= int64(bits) {
					return tZero
				}
			}
			// (a << s) >> s style on non-negative sums of multiples
			return shrLin(a, int(k))
		}
		return mkApp("shr", rt, a, b)
	case token.AND:
		if a.isInt() && b.isInt() {
			return mkBig(new(big.Int).And(a.ival, b.ival))
		}
		if a.isInt() {
			a, b = b, a
		}
		if b.isInt() && b.ival.Sign() < 0 {
			if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 {
				full := new(big.Int).Sub(pow2(hi.BitLen()), bigOne)
				if m := new(big.Int).And(full, b.ival); m.Cmp(full) == 0 {
					return a
				} else if len(asLinear(a).atoms) == 1 && hi.BitLen() <= 8 {
					return e.arith(fr, p, in, token.AND, a, mkBig(m), rt)
				}
			}
		}
		if b.isInt() {
			all := new(big.Int).Sub(pow2(bits), bigOne)
			if r := clearBits(a, new(big.Int).AndNot(all, b.ival)); r != nil {
				return r
			}
		}
		if b.isInt() && b.ival.Sign() >= 0 {
			if b.isK(0) {
				return tZero
			}
			// low-bit masks are truncations
			n := b.ival.BitLen()
			if new(big.Int).Sub(pow2(n), bigOne).Cmp(b.ival) == 0 {
				return mkTrunc(n, a)
			}
			if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 {
				// mask covers every bit a can have
				full := new(big.Int).Sub(pow2(hi.BitLen()), bigOne)
				if new(big.Int).And(full, b.ival).Cmp(full) == 0 {
					return a
				}
				if new(big.Int).And(full, b.ival).Sign() == 0 {
					return tZero
				}
			}
			// byte-aligned masks select a lane
			for k := 1; k < 8; k++ {
				if b.ival.Cmp(new(big.Int).Lsh(big.NewInt(255), uint(8*k))) == 0 {
					return mkScale(mkByte(a, k), pow2(8*k))
				}
			}
			return mkApp("and", rt, a, b)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("and", rt, a, b)
	case token.OR:
		if a.isInt() && b.isInt() {
			return mkBig(new(big.Int).Or(a.ival, b.ival))
		}
		if a.isK(0) {
			return b
		}
		if b.isK(0) {
			return a
		}
		if r := orDisjoint(a, b); r != nil {
			return r
		}
		if r := orDisjoint(b, a); r != nil {
			return r
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("or", rt, a, b)
	case token.XOR:
		if a.isInt() && b.isInt() {
			return mkBig(new(big.Int).Xor(a.ival, b.ival))
		}
		if a == b {
			return tZero
		}
		if a.isK(0) {
			return b
		}
		if b.isK(0) {
			return a
		}
		return mkXor(rt, a, b)
	case token.AND_NOT:
		if a.isInt() && b.isInt() {
			return mkBig(new(big.Int).AndNot(a.ival, b.ival))
		}
		if b.isInt() && !signed {
			m := new(big.Int).AndNot(new(big.Int).Sub(pow2(bits), bigOne), b.ival)
			return e.arith(fr, p, in, token.AND, a, mkBig(m), rt)
		}
		if b.isInt() && b.ival.Sign() >= 0 {
			if r := clearBits(a, b.ival); r != nil {
				return r
			}
		}
		return mkApp("andnot", rt, a, b)
	}
	return mkApp("op"+op.String(), rt, a, b)
}

// mkXor flattens and sorts.
func mkXor(rt types.Type, a, b *Term) *Term {
	var k = new(big.Int)
	cnt := map[*Term]int{}
	var order []*Term
	add := func(t *Term) {
		if t.isInt() {
			k.Xor(k, t.ival)
			return
		}
		if cnt[t] == 0 {
			order = append(order, t)
		}
		cnt[t]++
	}
	for _, t := range []*Term{a, b} {
		if t.op == OApp && t.sym == "xor" {
			for _, x := range t.args {
				add(x)
			}
		} else {
			add(t)
		}
	}
	var out []*Term
	for _, t := range order {
		if cnt[t]%2 == 1 {
			out = append(out, t)
		}
	}
	sortTerms(out)
	if k.Sign() != 0 {
		out = append(out, mkBig(k))
	}
	if len(out) == 0 {
		return tZero
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkApp("xor", rt, out...)
}

func (e *Engine) wrap64(fr *frame, p *Part, in ssa.Instruction, rt types.Type, r *Term, bits int, signed bool) *Term {
	if bits < 64 {
		return e.wrap(fr, p, in, rt, r)
	}
	lo, hi := bounds(r)
	tl, th := typeBounds(rt)
	if lo != nil && hi != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return r
	}
	if signed {
		if hi == nil {
			return r
		}
		return r
	}
	if hi != nil && hi.Cmp(th) > 0 {
		return mkTrunc(bits, r)
	}
	return r
}

func shrLin(a *Term, k int) *Term {
	if a.op == OLin {
		all := true
		m := map[*Term]*big.Int{}
		for i, c := range a.coefs {
			if new(big.Int).And(c, new(big.Int).Sub(pow2(k), bigOne)).Sign() != 0 {
				all = false
				break
			}
			m[a.args[i]] = new(big.Int).Rsh(c, uint(k))
		}
		if all && new(big.Int).And(a.ival, new(big.Int).Sub(pow2(k), bigOne)).Sign() == 0 {
			return fromMap(new(big.Int).Rsh(a.ival, uint(k)), m)
		}
	}
	return mkShr(a, mkInt(int64(k)))
}

// orDisjoint: a's bits all lie above b's, so or is addition.
// clearBits is x without the bits of m when those all belong to one term of x,
// whose terms occupy bit ranges of their own.
func clearBits(x *Term, m *big.Int) *Term {
	l := asLinear(x)
	if l.k.Sign() != 0 || m.Sign() <= 0 {
		return nil
	}
	if len(l.atoms) == 1 {
		if a := l.atoms[0]; a.op != OApp || a.sym != "uintle" && a.sym != "uintbe" {
			return nil
		}
	}
	used, hit := new(big.Int), -1
	var at uint
	for i, a := range l.atoms {
		lo, hi := bounds(a)
		if lo == nil || hi == nil || lo.Sign() < 0 || l.coefs[i].Sign() <= 0 {
			return nil
		}
		s := l.coefs[i].BitLen() - 1
		if pow2(s).Cmp(l.coefs[i]) != 0 {
			return nil
		}
		r := new(big.Int).Lsh(new(big.Int).Sub(pow2(hi.BitLen()), bigOne), uint(s))
		if new(big.Int).And(used, r).Sign() != 0 {
			return nil
		}
		used.Or(used, r)
		if new(big.Int).AndNot(m, r).Sign() == 0 {
			hit, at = i, uint(s)
		}
	}
	if hit < 0 {
		return nil
	}
	t, c := l.atoms[hit], l.coefs[hit]
	m = new(big.Int).Rsh(m, at)
	if k := (m.BitLen() - 1) / 8; k > 0 {
		if new(big.Int).AndNot(m, new(big.Int).Lsh(big.NewInt(255), uint(8*k))).Sign() != 0 {
			return nil
		}
		t, m, c = mkByte(t, k), new(big.Int).Rsh(m, uint(8*k)), new(big.Int).Lsh(c, uint(8*k))
	} else if _, hi := bounds(t); hi.BitLen() > 8 {
		t = mkByte(t, 0)
	}
	return linCombine(x, bigOne, mkApp("and", t.typ, t, mkBig(m)), new(big.Int).Neg(c))
}

func orDisjoint(a, b *Term) *Term {
	lo, hi := bounds(b)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return nil
	}
	n := hi.BitLen()
	l := asLinear(a)
	mask := new(big.Int).Sub(pow2(n), bigOne)
	if new(big.Int).And(l.k, mask).Sign() != 0 {
		return disjointLanes(a, b)
	}
	for i, c := range l.coefs {
		if new(big.Int).And(c, mask).Sign() != 0 {
			_ = i
			return disjointLanes(a, b)
		}
	}
	if !nonNeg(a) {
		return nil
	}
	return mkAdd(a, b)
}

// disjointLanes: every atom of both sums occupies its own bit range.
func disjointLanes(a, b *Term) *Term {
	type rng struct{ lo, hi int }
	var rs []rng
	for _, t := range []*Term{a, b} {
		l := asLinear(t)
		if l.k.Sign() != 0 {
			return nil
		}
		for i, at := range l.atoms {
			al, ah := bounds(at)
			if al == nil || ah == nil || al.Sign() < 0 || l.coefs[i].Sign() <= 0 {
				return nil
			}
			s := l.coefs[i].BitLen() - 1
			if pow2(s).Cmp(l.coefs[i]) != 0 {
				return nil
			}
			rs = append(rs, rng{s, s + ah.BitLen()})
		}
	}
	for i := range rs {
		for j := i + 1; j < len(rs); j++ {
			if rs[i].lo < rs[j].hi && rs[j].lo < rs[i].hi {
				return nil
			}
		}
	}
	return mkAdd(a, b)
}

func (e *Engine) convert(fr *frame, p *Part, in ssa.Instruction, a *Term, from, to types.Type) *Term {
	if a.op == OAlt {
		var na []*Term
		for k := 0; k < len(a.args); k += 2 {
			na = append(na, a.args[k], e.convert(fr, p, in, a.args[k+1], from, to))
		}
		return mkAlt(na...)
	}
	fi, ti := isInteger(from), isInteger(to)
	switch {
	case fi && ti:
		fb, fs, _ := intWidth(from)
		tb, ts, _ := intWidth(to)
		if e.hooks.Conv != nil && e.quiet == 0 {
			e.hooks.Conv(fr, p.st, in, a, from, to)
		}
		if tb > fb || tb == fb && fs == ts {
			if tb > fb && fs && !ts {
				// sign extension into an unsigned type
				if lo, _ := p.st.facts.interval(a); lo == nil || lo.Sign() < 0 {
					return mkApp("sext", to, a)
				}
			}
			return a
		}
		if tb == fb {
			return a
		}
		// narrowing
		tl, th := typeBounds(to)
		lo, hi := p.st.facts.interval(a)
		if tb == 8 && !ts && a.op == OApp && a.sym == "shr" {
			if k, ok := a.args[1].int64(); ok && k%8 == 0 && k > 0 {
				return mkByte(a.args[0], int(k/8))
			}
		}
		if lo != nil && hi != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			return a
		}
		if p.st.facts.prove(mkLe(a, mkBig(th))) && p.st.facts.prove(mkLe(mkBig(tl), a)) {
			return a
		}
		if ts {
			return mkApp(fmt.Sprintf("swrap%d", tb), to, a)
		}
		return mkTrunc(tb, a)
	case isString(to):
		if fi {
			if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if k, ok := a.int64(); ok {
					return mkStr(string(rune(k)))
				}
				return mkApp("rune2str", to, a)
			}
		}
		if isString(from) {
			return a
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.content(p.st, a)
			}
			return mkApp("runes2str", to, e.content(p.st, a))
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.newSlice(p.st, fmt.Sprintf("%s/%d", fr.ctx, instrID(in)), a, s.Elem())
			}
			return mkApp("str2runes", to, a)
		}
	case isFloat(to) && fi:
		return mkApp("float", to, a)
	case isFloat(from) && ti:
		if a.op == OApp && a.sym == "float" {
			return a.args[0]
		}
		if f, ok := floatVal(a); ok && math.Abs(f) < 1<<53 {
			return e.wrap(fr, p, in, to, mkInt(int64(f)))
		}
		return mkApp("toint", to, a)
	case isFloat(from) && isFloat(to):
		return a
	}
	return mkApp("conv", to, a)
}

func (e *Engine) slice(fr *frame, p *Part, x *ssa.Slice) {
	st := p.st
	a := e.val(fr, p, x.X)
	if a.op == OAlt {
		panic(&budgetError{"slicing of alternatives in " + fr.fn.String()})
	}
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.val(fr, p, v)
	}
	if isString(x.X.Type()) {
		n := mkLenOfValue(a)
		lo, hi := get(x.Low, tZero), get(x.High, n)
		if e.hooks.Slice != nil && e.quiet == 0 {
			e.hooks.Slice(fr, st, x, lo, hi, n)
		}
		st.facts.assumeQuiet(mkLe(hi, n))
		st.facts.assumeQuiet(mkLe(lo, hi))
		p.env[x] = mkSub(a, lo, mkSubt(hi, lo))
		return
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := mkInt(pt.Elem().Underlying().(*types.Array).Len())
		e.nilCheck(fr, st, x, a)
		lo, hi := get(x.Low, tZero), get(x.High, n)
		mx := get(x.Max, n)
		if e.hooks.Slice != nil && e.quiet == 0 {
			e.hooks.Slice(fr, st, x, lo, hi, n)
		}
		st.facts.assumeQuiet(mkLe(hi, n))
		st.facts.assumeQuiet(mkLe(lo, hi))
		if a.typ == nil {
			setTyp(a, x.X.Type())
		}
		p.env[x] = mkSlice(a, lo, mkSubt(hi, lo), mkSubt(mx, lo))
		return
	}
	obj, off, n, c := e.sliceParts(st, a)
	lo, hi := get(x.Low, tZero), get(x.High, n)
	mx := get(x.Max, c)
	if e.hooks.Slice != nil && e.quiet == 0 {
		lim := c
		if c.op == OApp && c.sym == "cap" {
			lim = n // the length is all that is known of the capacity
		}
		e.hooks.Slice(fr, st, x, lo, hi, lim)
	}
	if c.op == OApp && c.sym == "cap" {
		st.facts.assumeQuiet(mkLe(n, c))
	}
	st.facts.assumeQuiet(mkLe(hi, c))
	st.facts.assumeQuiet(mkLe(lo, hi))
	if x.Low == nil && x.High == nil && x.Max == nil {
		p.env[x] = a
		return
	}
	p.env[x] = mkSlice(obj, mkAdd(off, lo), mkSubt(hi, lo), mkSubt(mx, lo))
}

// next steps a map or string iterator; the element is opaque per iteration.
func (e *Engine) next(fr *frame, p *Part, x *ssa.Next) {
	it := e.val(fr, p, x.Iter)
	tag := mkSym(fmt.Sprintf("%s/%d", fr.ctx, instrID(x)), nil)
	args := append([]*Term{it, tag}, e.iters...)
	ok := mkApp("nextok", tyBool, args...)
	tt := x.Type().(*types.Tuple)
	k := mkApp("nextkey", tt.At(1).Type(), args...)
	v := mkApp("nextval", tt.At(2).Type(), args...)
	p.env[x] = mkTup(ok, k, v)
}

func (e *Engine) typeAssert(fr *frame, p *Part, x *ssa.TypeAssert) []*Part {
	a := e.val(fr, p, x.X)
	fin := func(p *Part, ok *Term, v *Term) {
		if x.CommaOk {
			p.env[x] = mkTup(v, ok)
		} else {
			p.env[x] = v
		}
	}
	if a.op == OIface {
		dt, _ := a.any.(types.Type)
		if dt != nil {
			if types.IsInterface(x.AssertedType) {
				if types.Implements(dt, x.AssertedType.Underlying().(*types.Interface)) {
					fin(p, tTrue, a)
					return []*Part{p}
				}
			} else if types.Identical(dt, x.AssertedType) {
				fin(p, tTrue, a.args[0])
				return []*Part{p}
			}
			if x.CommaOk {
				fin(p, tFalse, zeroOf(x.AssertedType))
				return []*Part{p}
			}
		}
	}
	if a.op == ONil && x.CommaOk {
		fin(p, tFalse, zeroOf(x.AssertedType))
		return []*Part{p}
	}
	if !x.CommaOk && e.hooks.Assert != nil && e.quiet == 0 {
		e.hooks.Assert(fr, p.st, x, a)
	}
	lit := mkApp("typeis:"+types.TypeString(x.AssertedType, nil), tyBool, a)
	val := mkApp("as:"+types.TypeString(x.AssertedType, nil), x.AssertedType, a)
	if !x.CommaOk {
		p.st.facts.assume(lit)
		fin(p, tTrue, val)
		return []*Part{p}
	}
	var out []*Part
	q := p.clone()
	if p.st.facts.assume(lit) {
		fin(p, tTrue, val)
		out = append(out, p)
	}
	if q.st.facts.assume(mkNot(lit)) {
		fin(q, tFalse, zeroOf(x.AssertedType))
		out = append(out, q)
	}
	return out
}

func (e *Engine) mapContent(st *State, m *Term) *Term {
	if m == tNil {
		return mkSym("emptymap", nil)
	}
	c := mkFld(m, cellMap, nil)
	if v, ok := st.mem[c]; ok {
		return v
	}
	if v, ok := e.globals[c]; ok {
		return v
	}
	return intern(&Term{op: OLd, args: []*Term{c}})
}

// lookup reads a map; an undecided key splits into present and absent.
func (e *Engine) lookup(fr *frame, p *Part, x *ssa.Lookup) []*Part {
	m := e.val(fr, p, x.X)
	k := e.reify(p.st, e.val(fr, p, x.Index))
	if isString(x.X.Type()) {
		n := mkLenOfValue(m)
		if e.hooks.Index != nil && e.quiet == 0 {
			e.hooks.Index(fr, p.st, x, n, k)
		}
		e.assumeIndex(p, n, k)
		p.env[x] = mkAt(m, k)
		return []*Part{p}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	fin := func(p *Part, v *Term, ok *Term) {
		if x.CommaOk {
			p.env[x] = mkTup(v, ok)
		} else {
			setTyp(v, x.Type())
			p.env[x] = v
		}
	}
	c := e.mapContent(p.st, m)
	num := isInteger(mt.Key())
	var out []*Part
	cur := p
	for {
		if c.op == OApp && c.sym == "mapset" {
			eq := mkEq(c.args[1], k, num)
			if eq == tTrue || cur.st.facts.prove(eq) {
				fin(cur, c.args[2], tTrue)
				return append(out, cur)
			}
			if eq != tFalse && !cur.st.facts.prove(mkNot(eq)) {
				q := cur.clone()
				if q.st.facts.assume(eq) {
					fin(q, c.args[2], tTrue)
					out = append(out, q)
				}
				cur.st.facts.assume(mkNot(eq))
			}
			c = c.args[0]
			continue
		}
		break
	}
	if c.op == OSym && c.sym == "emptymap" {
		fin(cur, zeroOf(mt.Elem()), tFalse)
		return append(out, cur)
	}
	has := mkApp("has", tyBool, c, k)
	v := mkApp("mapget", mt.Elem(), c, k)
	if !x.CommaOk {
		fin(cur, v, has)
		return append(out, cur)
	}
	q := cur.clone()
	if cur.st.facts.assume(has) {
		fin(cur, v, tTrue)
		out = append(out, cur)
	}
	if q.st.facts.assume(mkNot(has)) {
		fin(q, zeroOf(mt.Elem()), tFalse)
		out = append(out, q)
	}
	return out
}

// ---- calls ----

func (e *Engine) call(fr *frame, p *Part, in ssa.CallInstruction, c *ssa.CallCommon) []Outcome {
	fnv := e.val(fr, p, c.Value)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(fr, p, a))
	}
	return e.callWith(fr, p.st, in, c, fnv, args)
}

func (e *Engine) callWith(fr *frame, st *State, in ssa.CallInstruction, c *ssa.CallCommon, fnv *Term, args []*Term) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, in, b, c, args)
	}
	cc := &callCtx{e: e, fr: fr, st: st, args: args, instr: in, sig: c.Signature()}
	if c.IsInvoke() {
		recv := fnv
		if recv.op == OAlt {
			// the receiver is one of several guarded values
			var outs []Outcome
			for k := 0; k < len(recv.args); k += 2 {
				s := st.clone()
				if s.facts.assume(recv.args[k]) {
					outs = append(outs, e.callWith(fr, s, in, c, recv.args[k+1], args)...)
				}
			}
			return outs
		}
		if recv.op == OIface {
			if dt, ok := recv.any.(types.Type); ok && dt != nil {
				if m := e.prog.SSA.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); m != nil {
					return e.callFn(cc, m, nil, append([]*Term{recv.args[0]}, args...))
				}
			}
		}
		cc.name = "invoke " + c.Method.FullName()
		cc.args = append([]*Term{recv}, args...)
		if e.hooks.Nil != nil && e.quiet == 0 {
			e.hooks.Nil(fr, st, in.(ssa.Instruction), recv)
		}
		if e.hooks.Call != nil && e.quiet == 0 {
			e.hooks.Call(cc)
		}
		if m, ok := e.models[e.prog.shortName(cc.name)]; ok {
			if outs, ok := m(cc); ok {
				return outs
			}
		}
		return e.opaque(cc, cc.name, true)
	}
	switch fnv.op {
	case OFunc:
		return e.callFn(cc, fnv.any.(*ssa.Function), nil, args)
	case OClo:
		return e.callFn(cc, fnv.args[0].any.(*ssa.Function), fnv.args[1:], args)
	case OAlt:
		var outs []Outcome
		for k := 0; k < len(fnv.args); k += 2 {
			s := st.clone()
			if s.facts.assume(fnv.args[k]) {
				outs = append(outs, e.callWith(fr, s, in, c, fnv.args[k+1], args)...)
			}
		}
		return outs
	}
	cc.name = "dyncall"
	cc.args = append([]*Term{fnv}, args...)
	if e.hooks.Nil != nil && e.quiet == 0 {
		e.hooks.Nil(fr, st, in.(ssa.Instruction), fnv)
	}
	if e.hooks.Call != nil && e.quiet == 0 {
		e.hooks.Call(cc)
	}
	if m, ok := e.models["dyncall"]; ok {
		if outs, ok := m(cc); ok {
			return outs
		}
	}
	return e.opaque(cc, "dyncall", true)
}

func (e *Engine) callFn(cc *callCtx, fn *ssa.Function, bindings, args []*Term) []Outcome {
	cc.fn, cc.args = fn, args
	cc.name = fn.String()
	if o := fn.Origin(); o != nil {
		cc.name = o.String()
	}
	if e.hooks.Call != nil && e.quiet == 0 {
		e.hooks.Call(cc)
	}
	if m, ok := e.models[e.prog.shortName(cc.name)]; ok {
		if outs, ok := m(cc); ok {
			return outs
		}
	}
	if fn.Blocks == nil && fn.Synthetic != "" && fn.Pkg == nil {
		// wrappers are built on demand
	}
	if fn.Blocks == nil {
		return e.opaque(cc, cc.name, false)
	}
	if e.noInline != nil && e.noInline(fn) {
		return e.opaque(cc, cc.name, true)
	}
	if e.active[fn] > 0 || cc.fr != nil && cc.fr.depth > e.maxDepth {
		e.note("recursion " + fn.String())
		return e.opaque(cc, cc.name, true)
	}
	var site ssa.Instruction
	if cc.instr != nil {
		site = cc.instr.(ssa.Instruction)
	}
	return e.inline(cc.fr, site, fn, bindings, args, cc.st)
}

// shortName strips the module path.
func (p *Program) shortName(s string) string {
	out := ""
	for {
		i := indexOf(s, p.Module+"/")
		if i < 0 {
			return out + s
		}
		out += s[:i]
		s = s[i+len(p.Module)+1:]
	}
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// opaque gives a call uninterpreted results; impure calls forget reachable memory.
func (e *Engine) opaque(cc *callCtx, name string, impure bool) []Outcome {
	st := cc.st
	pure := purePackage(name) && !impure
	var ra []*Term
	for _, a := range cc.args {
		ra = append(ra, e.reify(st, a))
	}
	tag := e.prog.shortName(name)
	if !pure {
		ra = append(ra, mkSym(fmt.Sprintf("@%s/%d", cc.fr.ctx, instrID(cc.instr.(ssa.Instruction))), nil))
		ra = append(ra, e.iters...)
		for _, a := range cc.args {
			e.havoc(st, a, fmt.Sprintf("%s/%d", cc.fr.ctx, instrID(cc.instr.(ssa.Instruction))))
		}
	}
	return []Outcome{{st: st, res: opaqueResults(tag, cc.sig, ra)}}
}

func opaqueResults(tag string, sig *types.Signature, ra []*Term) *Term {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mkApp(tag, res.At(0).Type(), ra...)
	}
	var r []*Term
	for i := 0; i < res.Len(); i++ {
		r = append(r, mkApp(fmt.Sprintf("%s#%d", tag, i), res.At(i).Type(), ra...))
	}
	return mkTup(r...)
}

func (e *Engine) builtin(fr *frame, st *State, in ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term) []Outcome {
	ret := func(t *Term) []Outcome { return []Outcome{{st: st, res: t}} }
	name := fmt.Sprintf("%s/%d", fr.ctx, instrID(in.(ssa.Instruction)))
	switch b.Name() {
	case "len":
		v := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return ret(mkApp("len", tyInt, e.mapContent(st, v)))
		}
		if v.op == OAlt {
			var na []*Term
			for k := 0; k < len(v.args); k += 2 {
				na = append(na, v.args[k], mkLenOfValue(v.args[k+1]))
			}
			return ret(mkAlt(na...))
		}
		if v.op == OApp && v.sym == "newslice" {
			return ret(lenOf(v.args[0]))
		}
		return ret(mkLenOfValue(v))
	case "cap":
		_, _, _, cp := e.sliceParts(st, args[0])
		return ret(cp)
	case "append":
		et := elemOf(c.Args[0].Type())
		x := e.content(st, args[0])
		y := e.content(st, args[1])
		if lenOf(y).isK(0) && (args[0] == tNil || args[0].op == OSlice) {
			return ret(args[0])
		}
		s := e.newSlice(st, name, mkCat(x, y), et)
		// capacity after append is unspecified
		return ret(mkSlice(s.args[0], tZero, s.args[2], mkApp("cap", tyInt, s.args[0], s.args[2])))
	case "copy":
		src := e.content(st, args[1])
		obj, off, n, _ := e.sliceParts(st, args[0])
		m := lenOf(src)
		if obj == tNil {
			return ret(tZero)
		}
		var k *Term
		switch {
		case st.facts.prove(mkLe(m, n)):
			k = m
		case st.facts.prove(mkLe(n, m)):
			k = n
			src = mkSub(src, tZero, n)
		default:
			// which is shorter is undecided: split
			s2 := st.clone()
			var outs []Outcome
			if st.facts.assume(mkLe(m, n)) {
				st.mem[obj] = e.spliceIn(st, e.loadArr(st, obj), off, src)
				outs = append(outs, Outcome{st: st, res: m})
			}
			if s2.facts.assume(mkLt(n, m)) {
				s2.mem[obj] = e.spliceIn(s2, e.loadArr(s2, obj), off, mkSub(src, tZero, n))
				outs = append(outs, Outcome{st: s2, res: n})
			}
			return outs
		}
		e.setCell(st, obj, e.spliceIn(st, e.loadArr(st, obj), off, src))
		return ret(k)
	case "delete":
		m := args[0]
		e.setCell(st, mkFld(m, cellMap, nil), mkApp("mapdel", nil, e.mapContent(st, m), e.reify(st, args[1])))
		return ret(nil)
	case "print", "println", "close":
		return ret(nil)
	case "min", "max":
		if isInteger(c.Args[0].Type()) && len(args) == 2 {
			lit := mkLe(args[0], args[1])
			x, y := args[0], args[1]
			if b.Name() == "max" {
				x, y = y, x
			}
			if st.facts.prove(lit) {
				return ret(x)
			}
			if st.facts.prove(mkNot(lit)) {
				return ret(y)
			}
			s2 := st.clone()
			var outs []Outcome
			if st.facts.assume(lit) {
				outs = append(outs, Outcome{st: st, res: x})
			}
			if s2.facts.assume(mkNot(lit)) {
				outs = append(outs, Outcome{st: s2, res: y})
			}
			return outs
		}
	case "recover":
		return ret(mkApp("recover", nil))
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	return ret(mkApp("builtin:"+b.Name(), c.Signature().Results().At(0).Type(), args...))
}

// spliceIn writes part into seq knowing the facts.
func (e *Engine) spliceIn(st *State, seq, off, part *Term) *Term {
	n := lenOf(part)
	if n.isK(0) {
		return seq
	}
	l := lenOf(seq)
	end := mkAdd(off, n)
	if off.isK(0) && (n == l || st.facts.prove(mkEq0(mkSubt(n, l)))) {
		return part
	}
	if tail := mkSubt(l, end); seq.op == OStr && !off.isInt() && (tail.isK(0) || st.facts.prove(mkEq0(tail))) {
		// a constant that ends in zeros, overwritten from somewhere among them
		j := int64(len(strings.TrimRight(seq.sym, "\x00")))
		if j > 0 && int(j) < len(seq.sym) && st.facts.prove(mkLe(mkInt(j), off)) {
			return mkCat(mkStr(seq.sym[:j]), mkZero(mkAddK(off, -j), tZero), part)
		}
	}
	tail := mkSubt(l, end)
	if tail.isK(0) || st.facts.prove(mkEq0(tail)) {
		return mkCat(mkSub(seq, tZero, off), part)
	}
	if st.facts.prove(mkLe0(mkNeg(tail))) {
		return mkCat(mkSub(seq, tZero, off), part, mkSub(seq, end, tail))
	}
	return splice(seq, off, part)
}
