package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed value of the abstract domain: two program values that
// the analysis proves equal have the same *Term.
type Op uint8

const (
	OInt  Op = iota // ival
	OStr            // constant byte sequence, sym
	OBool           // sym "true"/"false"
	ONil
	OFloat // sym
	OSym   // named symbol
	OGlob  // address of a package variable
	OFunc  // function
	OObj   // allocated object
	OFld   // address of field ival of args[0]
	OIdx   // address of element args[1] of array at args[0]
	OLd    // content of address args[0] on entry
	OApp   // uninterpreted operation sym(args)
	OLin   // ival + sum coefs[i]*args[i]
	OCat   // sequence concatenation
	OUnit  // one-element sequence
	OLE    // ival bytes, little-endian, of args[0]
	OBE    // ival bytes, big-endian, of args[0]
	OZero  // args[0] copies of args[1]
	OStar  // args[0] repetitions of sequence args[1] over bound variable ival
	OSub   // subsequence args[0][args[1]:+args[2]]
	OAt    // element args[1] of sequence args[0]
	OUpd   // sequence args[0] with element args[1] replaced by args[2]
	OStruct
	OSlice // backing address, offset, length, capacity
	OIface // sym = dynamic type, args[0] = value
	OClo   // closure: args[0] = function, rest bindings
	OTup
	OBV    // bound variable ival
	ORec   // recurrence: args[0]=init, args[1]=trip, args[2]=body over acc bound var and index
	OAcc   // accumulator bound variable of level ival
	OSum   // sum of args[1] over bound variable ival < args[0]
	OAlt   // guarded alternatives: pairs guard, value
	OFirst // least value of bound variable ival that refutes args[0]
	OAnd   // conjunction of literals (only inside OAlt guards / OAll)
	OAll   // for all bound variable ival < args[0]: args[1]
	OLe0   // args[0] <= 0
	OEq    // args[0] == args[1] (or linear == 0 with one arg)
	ONot
)

type Term struct {
	op    Op
	id    int
	args  []*Term
	sym   string
	ival  *big.Int
	coefs []*big.Int
	typ   types.Type // Go type when known; not part of identity
	any   interface{}
	bvmax int // highest bound-variable level inside
	deep  bool
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func keyOf(t *Term) string {
	var b []byte
	b = append(b, byte(t.op))
	b = binary.AppendUvarint(b, uint64(len(t.args)))
	for _, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if t.ival != nil {
		b = append(b, 1)
		s := t.ival.Text(36)
		b = append(b, s...)
	}
	b = append(b, 0)
	for _, c := range t.coefs {
		b = append(b, c.Text(36)...)
		b = append(b, ',')
	}
	b = append(b, 0)
	b = append(b, t.sym...)
	return string(b)
}

func intern(t *Term) *Term {
	k := keyOf(t)
	if o, ok := termTab[k]; ok {
		if o.typ == nil && t.typ != nil {
			o.typ = t.typ
		}
		return o
	}
	termSeq++
	t.id = termSeq
	for _, a := range t.args {
		if a.bvmax > t.bvmax {
			t.bvmax = a.bvmax
		}
	}
	if t.op == OBV || t.op == OAcc {
		if l := int(t.ival.Int64()); l > t.bvmax {
			t.bvmax = l
		}
	}
	if t.op == OStar || t.op == OSum || t.op == OAll || t.op == ORec || t.op == OFirst {
		if l := int(t.ival.Int64()); l > t.bvmax {
			t.bvmax = l
		}
	}
	termTab[k] = t
	return t
}

var (
	bigOne = big.NewInt(1)
	tTrue  = intern(&Term{op: OBool, sym: "true"})
	tFalse = intern(&Term{op: OBool, sym: "false"})
	tNil   = intern(&Term{op: ONil})
	tZero  = mkInt(0)
	tOne   = mkInt(1)
	tEmpty = intern(&Term{op: OStr, sym: ""})
)

func mkBig(v *big.Int) *Term { return intern(&Term{op: OInt, ival: new(big.Int).Set(v)}) }
func mkInt(v int64) *Term    { return intern(&Term{op: OInt, ival: big.NewInt(v)}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term                    { return intern(&Term{op: OStr, sym: s}) }
func mkSym(name string, typ types.Type) *Term { return intern(&Term{op: OSym, sym: name, typ: typ}) }
func mkApp(sym string, typ types.Type, args ...*Term) *Term {
	return intern(&Term{op: OApp, sym: sym, args: args, typ: typ})
}
func mkTup(args ...*Term) *Term { return intern(&Term{op: OTup, args: args}) }
func mkFld(base *Term, i int, typ types.Type) *Term {
	return intern(&Term{op: OFld, args: []*Term{base}, ival: big.NewInt(int64(i)), typ: typ})
}
func mkIdx(base, i *Term, typ types.Type) *Term {
	return intern(&Term{op: OIdx, args: []*Term{base, i}, typ: typ})
}
func mkSlice(obj, off, n, cap *Term) *Term {
	return intern(&Term{op: OSlice, args: []*Term{obj, off, n, cap}})
}
func mkBV(level int) *Term { return intern(&Term{op: OBV, ival: big.NewInt(int64(level))}) }

func (t *Term) isInt() bool { return t.op == OInt }
func (t *Term) isK(v int64) bool {
	return t.op == OInt && t.ival.IsInt64() && t.ival.Int64() == v
}
func (t *Term) int64() (int64, bool) {
	if t.op == OInt && t.ival.IsInt64() {
		return t.ival.Int64(), true
	}
	return 0, false
}

// ---- linear arithmetic ----

type linear struct {
	k     *big.Int
	atoms []*Term
	coefs []*big.Int
}

func asLinear(t *Term) linear {
	switch t.op {
	case OInt:
		return linear{k: t.ival}
	case OLin:
		return linear{k: t.ival, atoms: t.args, coefs: t.coefs}
	}
	return linear{k: new(big.Int), atoms: []*Term{t}, coefs: []*big.Int{bigOne}}
}

func fromMap(k *big.Int, m map[*Term]*big.Int) *Term {
	var atoms []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return mkBig(k)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	coefs := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		coefs[i] = m[a]
	}
	if k.Sign() == 0 && len(atoms) == 1 && coefs[0].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	return intern(&Term{op: OLin, ival: new(big.Int).Set(k), args: atoms, coefs: coefs})
}

func linCombine(a *Term, ca *big.Int, b *Term, cb *big.Int) *Term {
	la, lb := asLinear(a), asLinear(b)
	k := new(big.Int).Mul(la.k, ca)
	k.Add(k, new(big.Int).Mul(lb.k, cb))
	m := map[*Term]*big.Int{}
	add := func(l linear, c *big.Int) {
		for i, at := range l.atoms {
			v := new(big.Int).Mul(l.coefs[i], c)
			if o, ok := m[at]; ok {
				v.Add(v, o)
			}
			m[at] = v
		}
	}
	add(la, ca)
	add(lb, cb)
	return foldLanes(foldShr(fromMap(k, m)))
}

// foldShr puts a number together again: 2^s (x >> s) + (x mod 2^s) = x.
func foldShr(t *Term) *Term {
	if t.op != OLin {
		return t
	}
	for i, a := range t.args {
		if a.op != OApp || a.sym != "shr" || !a.args[1].isInt() || a.args[1].ival.BitLen() > 16 {
			continue
		}
		s, _ := a.args[1].int64()
		c, r := new(big.Int).QuoRem(t.coefs[i], pow2(int(s)), new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		low := mkTrunc(int(s), a.args[0])
		for j, b := range t.args {
			if b != low || t.coefs[j].Cmp(c) != 0 {
				continue
			}
			m := map[*Term]*big.Int{}
			for k, x := range t.args {
				if k != i && k != j {
					m[x] = t.coefs[k]
				}
			}
			return foldShr(linCombine(fromMap(t.ival, m), bigOne, a.args[0], c))
		}
	}
	return t
}

func mkAdd(a, b *Term) *Term { return linCombine(a, bigOne, b, bigOne) }
func mkSubt(a, b *Term) *Term {
	return linCombine(a, bigOne, b, big.NewInt(-1))
}
func mkNeg(a *Term) *Term { return linCombine(a, big.NewInt(-1), tZero, bigOne) }
func mkScale(a *Term, c *big.Int) *Term {
	return linCombine(a, c, tZero, bigOne)
}
func mkAddK(a *Term, k int64) *Term { return mkAdd(a, mkInt(k)) }

// mkMul multiplies, distributing over sums so products are polynomials in normal form.
func mkMul(a, b *Term) *Term {
	if a.isInt() {
		return mkScale(b, a.ival)
	}
	if b.isInt() {
		return mkScale(a, b.ival)
	}
	la, lb := asLinear(a), asLinear(b)
	if (len(la.atoms)+1)*(len(lb.atoms)+1) > 4000 {
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("mulbig", nil, a, b)
	}
	m := map[*Term]*big.Int{}
	k := new(big.Int).Mul(la.k, lb.k)
	put := func(at *Term, c *big.Int) {
		if c.Sign() == 0 {
			return
		}
		if o, ok := m[at]; ok {
			c = new(big.Int).Add(c, o)
		}
		m[at] = c
	}
	for i, x := range la.atoms {
		put(x, new(big.Int).Mul(la.coefs[i], lb.k))
		for j, y := range lb.atoms {
			put(monomial(x, y), new(big.Int).Mul(la.coefs[i], lb.coefs[j]))
		}
	}
	for j, y := range lb.atoms {
		put(y, new(big.Int).Mul(lb.coefs[j], la.k))
	}
	return fromMap(k, m)
}

func monomial(x, y *Term) *Term {
	var f []*Term
	add := func(t *Term) {
		if t.op == OApp && t.sym == "mul" {
			f = append(f, t.args...)
		} else {
			f = append(f, t)
		}
	}
	add(x)
	add(y)
	sort.Slice(f, func(i, j int) bool { return f[i].id < f[j].id })
	return mkApp("mul", nil, f...)
}

// foldLanes turns a sum of byte lanes over one sequence back into one number.
func foldLanes(t *Term) *Term {
	if t.op != OLin || t.ival.Sign() != 0 || len(t.args) < 2 || len(t.args) > 8 {
		return t
	}
	if r := foldBytes(t); r != nil {
		return r
	}
	type lane struct {
		sh  int
		seq *Term
		idx *Term
	}
	var lanes []lane
	for i, a := range t.args {
		c := t.coefs[i]
		if c.Sign() <= 0 {
			return t
		}
		bl := c.BitLen() - 1
		if bl%8 != 0 || new(big.Int).Lsh(bigOne, uint(bl)).Cmp(c) != 0 {
			return t
		}
		sh := bl / 8
		switch {
		case a.op == OAt:
			lo, hi := bounds(a)
			if lo == nil || lo.Sign() < 0 || hi == nil || hi.Cmp(big.NewInt(255)) > 0 {
				return t
			}
			lanes = append(lanes, lane{sh, a.args[0], a.args[1]})
		case a.op == OApp && (a.sym == "uintle" || a.sym == "uintbe"):
			n, _ := lenOf(a.args[0]).int64()
			seq, off := a.args[0], tZero
			if seq.op == OSub {
				seq, off = a.args[0].args[0], a.args[0].args[1]
			}
			for k := int64(0); k < n; k++ {
				s := k
				if a.sym == "uintbe" {
					s = n - 1 - k
				}
				lanes = append(lanes, lane{sh + int(s), seq, mkAddK(off, k)})
			}
		default:
			return t
		}
	}
	sort.Slice(lanes, func(i, j int) bool { return lanes[i].sh < lanes[j].sh })
	n := len(lanes)
	le, be := true, true
	for i, l := range lanes {
		if l.sh != i || l.seq != lanes[0].seq {
			return t
		}
		if l.idx != mkAddK(lanes[0].idx, int64(i)) {
			le = false
		}
		if l.idx != mkAddK(lanes[0].idx, int64(-i)) {
			be = false
		}
	}
	if le {
		return mkUintLE(mkSub(lanes[0].seq, lanes[0].idx, mkInt(int64(n))))
	}
	if be {
		return mkUintBE(mkSub(lanes[0].seq, lanes[n-1].idx, mkInt(int64(n))))
	}
	return t
}

// foldBytes turns a sum of the low byte lanes of one number into that number.
func foldBytes(t *Term) *Term {
	var x *Term
	have := map[int]bool{}
	for i, a := range t.args {
		c := t.coefs[i]
		bl := c.BitLen() - 1
		if a.op != OApp || a.sym != "byte" && a.sym != "trunc" || c.Sign() <= 0 || bl%8 != 0 || pow2(bl).Cmp(c) != 0 {
			return nil
		}
		if x != nil && x != a.args[0] {
			return nil
		}
		x = a.args[0]
		k, _ := a.args[1].int64()
		if a.sym == "byte" {
			if int(k) != bl/8 || have[int(k)] {
				return nil
			}
			have[int(k)] = true
			continue
		}
		if bl != 0 || k%8 != 0 {
			return nil
		}
		for j := 0; j < int(k/8); j++ {
			if have[j] {
				return nil
			}
			have[j] = true
		}
	}
	for j := range have {
		if j >= len(have) {
			return nil
		}
	}
	if x == nil {
		return nil
	}
	return mkTrunc(8*len(have), x)
}

// mkUintLE is the number whose little-endian bytes are seq.
func mkUintLE(seq *Term) *Term {
	n, ok := lenOf(seq).int64()
	if !ok {
		return mkApp("uintle", nil, seq)
	}
	switch seq.op {
	case OStr:
		v := new(big.Int)
		for i := len(seq.sym) - 1; i >= 0; i-- {
			v.Lsh(v, 8)
			v.Or(v, big.NewInt(int64(seq.sym[i])))
		}
		return mkBig(v)
	case OLE:
		return mkTrunc(int(n)*8, seq.args[0])
	case OUnit:
		return seq.args[0]
	case OZero:
		return tZero
	case OCat:
		// all items of known width: sum of shifted parts
		sum, sh := tZero, uint(0)
		for _, it := range seq.args {
			w, ok := lenOf(it).int64()
			if !ok {
				return mkApp("uintle", nil, seq)
			}
			sum = mkAdd(sum, mkScale(mkUintLE(it), new(big.Int).Lsh(bigOne, sh)))
			sh += uint(w) * 8
		}
		return sum
	}
	return mkApp("uintle", nil, seq)
}

func mkUintBE(seq *Term) *Term {
	n, ok := lenOf(seq).int64()
	if !ok {
		if seq.op == OApp && seq.sym == "bigbytes" {
			return seq.args[0]
		}
		if seq.op == OStr {
			return mkBig(new(big.Int).SetBytes([]byte(seq.sym)))
		}
		return mkApp("uintbe", nil, seq)
	}
	if seq.op == OApp && seq.sym == "pad" && n <= 1024 {
		if lo, hi := bounds(seq.args[0]); lo != nil && lo.Sign() >= 0 && hi != nil && hi.BitLen() <= int(8*n) {
			return seq.args[0]
		}
	}
	switch seq.op {
	case OStr:
		return mkBig(new(big.Int).SetBytes([]byte(seq.sym)))
	case OBE:
		return mkTrunc(int(n)*8, seq.args[0])
	case OUnit:
		return seq.args[0]
	case OZero:
		return tZero
	case OCat:
		sum, sh := tZero, uint(0)
		for i := len(seq.args) - 1; i >= 0; i-- {
			it := seq.args[i]
			w, ok := lenOf(it).int64()
			if !ok {
				return mkApp("uintbe", nil, seq)
			}
			sum = mkAdd(sum, mkScale(mkUintBE(it), new(big.Int).Lsh(bigOne, sh)))
			sh += uint(w) * 8
		}
		return sum
	}
	return mkApp("uintbe", nil, seq)
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

// mkTrunc keeps the low n bits.
func mkTrunc(n int, x *Term) *Term {
	if n == 8 && x.op == OApp && x.sym == "shr" {
		if s, ok := x.args[1].int64(); ok && s%8 == 0 {
			return mkByte(x.args[0], int(s/8))
		}
	}
	lo, hi := bounds(x)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(n)) < 0 {
		return x
	}
	if x.isInt() {
		m := new(big.Int).Mod(x.ival, pow2(n))
		return mkBig(m)
	}
	if x.op == OApp && x.sym == "trunc" {
		w, _ := x.args[1].int64()
		if int(w) >= n {
			return mkTrunc(n, x.args[0])
		}
		return x
	}
	if n < 8 && x.op == OApp && x.sym == "byte" && x.args[1].isK(0) {
		return mkTrunc(n, x.args[0])
	}
	if n == 8 {
		return mkByte(x, 0)
	}
	if x.op == OLin {
		// drop multiples of 2^n, strip inner truncations
		m := map[*Term]*big.Int{}
		changed := false
		for i, a := range x.args {
			c := new(big.Int).Mod(x.coefs[i], pow2(n))
			if c.Cmp(x.coefs[i]) != 0 && c.Sign() == 0 {
				changed = true
				continue
			}
			m[a] = x.coefs[i]
		}
		if changed {
			return mkTrunc(n, fromMap(x.ival, m))
		}
		if canonTrunc {
			r := mkBig(new(big.Int).Mod(x.ival, pow2(n)))
			changed = r.ival.Cmp(x.ival) != 0
			for i, a := range x.args {
				c := new(big.Int).Mod(x.coefs[i], pow2(n))
				changed = changed || c.Cmp(x.coefs[i]) != 0
				if a.op == OApp && a.sym == "trunc" {
					if w, _ := a.args[1].int64(); int(w) >= n {
						a, changed = a.args[0], true
					}
				}
				r = linCombine(r, bigOne, a, c)
			}
			if changed {
				return mkTrunc(n, r)
			}
		}
	}
	return mkApp("trunc", nil, x, mkInt(int64(n)))
}

// canonTrunc: sums modulo a power of two are kept without inner reductions,
// with reduced coefficients.
var canonTrunc bool

// mkByte is byte k of x.
func mkByte(x *Term, k int) *Term {
	if x.isInt() {
		v := new(big.Int).Rsh(x.ival, uint(8*k))
		return mkBig(v.And(v, big.NewInt(255)))
	}
	lo, hi := bounds(x)
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		if hi.Cmp(pow2(8*k)) < 0 {
			return tZero
		}
		if k == 0 && hi.Cmp(pow2(8)) < 0 {
			return x
		}
	}
	if x.op == OApp {
		switch x.sym {
		case "trunc":
			w, _ := x.args[1].int64()
			if 8*(k+1) <= int(w) {
				return mkByte(x.args[0], k)
			}
			if 8*k >= int(w) {
				return tZero
			}
		case "shr":
			if s, ok := x.args[1].int64(); ok && s%8 == 0 {
				return mkByte(x.args[0], k+int(s/8))
			}
		case "uintle":
			if n, ok := lenOf(x.args[0]).int64(); ok {
				if int64(k) >= n {
					return tZero
				}
				return mkAt(x.args[0], mkInt(int64(k)))
			}
		case "uintbe":
			if n, ok := lenOf(x.args[0]).int64(); ok {
				if int64(k) >= n {
					return tZero
				}
				return mkAt(x.args[0], mkInt(n-1-int64(k)))
			}
		}
	}
	if x.op == OLin && new(big.Int).Mod(x.ival, pow2(8)).Sign() == 0 {
		// scaled by a power of 256
		all := true
		for _, c := range x.coefs {
			if new(big.Int).Mod(c, pow2(8)).Sign() != 0 {
				all = false
			}
		}
		if all {
			if k == 0 {
				return tZero
			}
			m := map[*Term]*big.Int{}
			for i, a := range x.args {
				m[a] = new(big.Int).Rsh(x.coefs[i], 8)
			}
			return mkByte(fromMap(new(big.Int).Rsh(x.ival, 8), m), k-1)
		}
	}
	return mkApp("byte", nil, x, mkInt(int64(k)))
}

// ---- sequences ----

func mkUnit(x *Term) *Term {
	if x.isInt() && x.ival.IsInt64() && x.ival.Int64() >= 0 && x.ival.Int64() < 256 {
		return mkStr(string([]byte{byte(x.ival.Int64())}))
	}
	return intern(&Term{op: OUnit, args: []*Term{x}})
}

func mkLE(n int, x *Term) *Term { return mkEnd(OLE, n, x) }
func mkBE(n int, x *Term) *Term { return mkEnd(OBE, n, x) }

func mkEnd(op Op, n int, x *Term) *Term {
	if n == 0 {
		return tEmpty
	}
	if x.isInt() {
		b := make([]byte, n)
		v := new(big.Int).Mod(x.ival, pow2(8*n))
		for i := 0; i < n; i++ {
			c := byte(new(big.Int).Rsh(v, uint(8*i)).Uint64() & 255)
			if op == OLE {
				b[i] = c
			} else {
				b[n-1-i] = c
			}
		}
		return mkStr(string(b))
	}
	if n == 1 {
		return mkUnit(mkByte(x, 0))
	}
	for x.op == OApp && x.sym == "trunc" {
		w, _ := x.args[1].int64()
		if int(w) < 8*n {
			break
		}
		x = x.args[0]
	}
	if x.op == OApp && (x.sym == "uintle" && op == OLE || x.sym == "uintbe" && op == OBE) {
		if m, ok := lenOf(x.args[0]).int64(); ok && m == int64(n) {
			return x.args[0]
		}
	}
	if lo, hi := bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 {
		m := (hi.BitLen() + 7) / 8
		if m < 1 {
			m = 1
		}
		if m < n {
			z := mkStr(string(make([]byte, n-m)))
			if op == OLE {
				return mkCat(mkEnd(op, m, x), z)
			}
			return mkCat(z, mkEnd(op, m, x))
		}
	}
	return intern(&Term{op: op, args: []*Term{x}, ival: big.NewInt(int64(n))})
}

func mkZero(n, z *Term) *Term {
	if n.isK(0) {
		return tEmpty
	}
	if k, ok := n.int64(); ok && k <= 4096 && z.isK(0) {
		return mkStr(string(make([]byte, k)))
	}
	return intern(&Term{op: OZero, args: []*Term{n, z}})
}

// zeroArray keeps non-byte zero arrays apart from byte strings.
func zeroArray(n, z *Term, elem types.Type) *Term {
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return mkZero(n, z)
	}
	if n.isK(0) {
		return tEmpty
	}
	return intern(&Term{op: OZero, args: []*Term{n, z}})
}

func mkCat(items ...*Term) *Term {
	var flat []*Term
	var push func(t *Term)
	push = func(t *Term) {
		switch t.op {
		case OCat:
			for _, a := range t.args {
				push(a)
			}
			return
		case ONil:
			return
		case OStr:
			if t.sym == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].op == OStr {
				flat[n-1] = mkStr(flat[n-1].sym + t.sym)
				return
			}
		case OSub:
			if t.args[2].isK(0) {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].op == OSub && flat[n-1].args[0] == t.args[0] &&
				mkAdd(flat[n-1].args[1], flat[n-1].args[2]) == t.args[1] {
				flat[n-1] = mkSub(t.args[0], flat[n-1].args[1], mkAdd(flat[n-1].args[2], t.args[2]))
				return
			}
			if n := len(flat); n > 0 && flat[n-1].op == OUnit && flat[n-1].args[0].op == OAt {
				if a := flat[n-1].args[0]; a.args[0] == t.args[0] && mkAddK(a.args[1], 1) == t.args[1] {
					flat[n-1] = mkSub(t.args[0], a.args[1], mkAddK(t.args[2], 1))
					return
				}
			}
		case OZero:
			if n := len(flat); n > 0 && flat[n-1].op == OZero && flat[n-1].args[1] == t.args[1] {
				flat[n-1] = intern(&Term{op: OZero, args: []*Term{mkAdd(flat[n-1].args[0], t.args[0]), t.args[1]}})
				return
			}
		case OApp:
			// leading zeros up to a fixed width
			if n := len(flat); n > 0 && t.sym == "bigbytes" && flat[n-1].op == OZero && flat[n-1].args[1].isK(0) {
				if w := mkAdd(flat[n-1].args[0], lenOf(t)); w.isInt() {
					flat = flat[:n-1]
					push(mkPad(t.args[0], w))
					return
				}
			}
		}
		flat = append(flat, t)
		// fold runs of byte lanes and of elements
		foldTail(&flat)
	}
	for _, it := range items {
		push(it)
	}
	if len(flat) == 0 {
		return tEmpty
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return intern(&Term{op: OCat, args: flat})
}

// laneRun reads an item as bytes i..j (ascending) or descending of x.
func byteLane(t *Term) (x *Term, k int, ok bool) {
	if t.op != OUnit {
		return
	}
	a := t.args[0]
	if a.op == OApp && a.sym == "byte" {
		n, _ := a.args[1].int64()
		return a.args[0], int(n), true
	}
	return
}

func foldTail(flat *[]*Term) {
	f := *flat
	n := len(f)
	// element run: Unit(At(s,i)), Unit(At(s,i+1)) -> Sub(s,i,2)
	if n >= 2 && f[n-1].op == OUnit && f[n-1].args[0].op == OAt {
		a := f[n-1].args[0]
		p := f[n-2]
		if p.op == OUnit && p.args[0].op == OAt && p.args[0].args[0] == a.args[0] && mkAddK(p.args[0].args[1], 1) == a.args[1] {
			*flat = append(f[:n-2:n-2], mkSub(a.args[0], p.args[0].args[1], mkInt(2)))
			return
		}
		if p.op == OSub && p.args[0] == a.args[0] && mkAdd(p.args[1], p.args[2]) == a.args[1] {
			*flat = append(f[:n-2:n-2], mkSub(a.args[0], p.args[1], mkAddK(p.args[2], 1)))
			return
		}
	}
	x, k, ok := byteLane(f[n-1])
	if !ok {
		// the top byte of a value whose remaining lanes were narrower may be a plain unit
		return
	}
	// descending run ending at 0 -> BE
	if k == 0 {
		w := 1
		for i := n - 2; i >= 0; i-- {
			y, kk, ok := byteLane(f[i])
			if !ok || y != x || kk != w {
				break
			}
			w++
		}
		if w > 1 {
			*flat = append(f[:n-w:n-w], mkBE(w, x))
		}
		return
	}
	// ascending run 0..k, the front possibly folded already
	if n >= 2 {
		p := f[n-2 : n]
		if y, kk, ok := byteLane(p[0]); ok && y == x && kk == 0 && k == 1 {
			*flat = append(f[:n-2:n-2], mkLE(2, x))
			return
		}
		if p[0].op == OLE && p[0].args[0] == x && p[0].ival.Cmp(big.NewInt(int64(k))) == 0 {
			*flat = append(f[:n-2:n-2], mkLE(k+1, x))
			return
		}
	}
}

func catItems(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t == tEmpty {
		return nil
	}
	return []*Term{t}
}

// lenOf is the number of elements of a sequence.
func lenOf(t *Term) *Term {
	switch t.op {
	case OStr:
		return mkInt(int64(len(t.sym)))
	case OUnit:
		return tOne
	case OLE, OBE:
		return mkBig(t.ival)
	case OZero:
		return t.args[0]
	case OCat:
		s := tZero
		for _, a := range t.args {
			s = mkAdd(s, lenOf(a))
		}
		return s
	case OSub:
		return t.args[2]
	case OUpd:
		return lenOf(t.args[0])
	case OStar:
		return mkSum(t.args[0], lenOf(t.args[1]), int(t.ival.Int64()))
	case ONil:
		return tZero
	case OApp:
		if n, ok := fixedLen[t.sym]; ok {
			return mkInt(n)
		}
		if t.sym == "cont" {
			return mkApp("len", tyInt, t.args[0])
		}
		if t.sym == "VI" {
			return mkVIW(t.args[0])
		}
		if t.sym == "pad" { // big-endian bytes of args[0] padded on the left to args[1]
			return t.args[1]
		}
		if t.sym == "rev" {
			return lenOf(t.args[0])
		}
	}
	if t.typ != nil {
		if a, ok := t.typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	if t.op == OAlt {
		var common *Term
		same := true
		for i := 1; i < len(t.args); i += 2 {
			l := lenOf(t.args[i])
			if common != nil && l != common {
				same = false
			}
			common = l
		}
		if same {
			return common
		}
	}
	return mkApp("len", tyInt, t)
}

var fixedLen = map[string]int64{"sha256": 32, "sha512": 64, "sha1": 20, "ripemd160": 20, "hmac-sha512": 64, "hmac-sha256": 32}

var (
	tyInt   types.Type = types.Typ[types.Int]
	tyByte  types.Type = types.Typ[types.Uint8]
	tyBool  types.Type = types.Typ[types.Bool]
	tyU64   types.Type = types.Typ[types.Uint64]
	tyU32   types.Type = types.Typ[types.Uint32]
	tyI64   types.Type = types.Typ[types.Int64]
	tyI32   types.Type = types.Typ[types.Int32]
	tyU16   types.Type = types.Typ[types.Uint16]
	tyBytes types.Type = types.NewSlice(tyByte)
)

// nonNeg decides 0 <= t by interval only.
func nonNeg(t *Term) bool {
	lo, _ := bounds(t)
	return lo != nil && lo.Sign() >= 0
}

// mkSub is seq[off:off+n].
func mkSub(seq, off, n *Term) *Term {
	if n.isK(0) {
		return tEmpty
	}
	if off.isK(0) && n == lenOf(seq) {
		return seq
	}
	switch seq.op {
	case OSub:
		return mkSub(seq.args[0], mkAdd(seq.args[1], off), n)
	case OStr:
		o, ok1 := off.int64()
		k, ok2 := n.int64()
		if ok1 && ok2 && o >= 0 && k >= 0 && o+k <= int64(len(seq.sym)) {
			return mkStr(seq.sym[o : o+k])
		}
		if !ok2 && len(seq.sym) > 0 && strings.Trim(seq.sym, "\x00") == "" {
			return mkZero(n, tZero)
		}
	case OZero:
		return mkZeroLike(n, seq)
	case OLE, OBE:
		o, ok1 := off.int64()
		k, ok2 := n.int64()
		if ok1 && ok2 && o >= 0 && o+k <= seq.ival.Int64() {
			var it []*Term
			for i := o; i < o+k; i++ {
				it = append(it, mkUnit(mkAt(seq, mkInt(i))))
			}
			return mkCat(it...)
		}
	case OStar:
		if lenOf(seq.args[1]).isK(1) && off.isK(0) {
			// prefix of a repetition
			return mkStar(n, seq.args[1], int(seq.ival.Int64()))
		}
	case OUpd:
		// update outside the window
		i := seq.args[1]
		if d, ok := mkSubt(i, off).int64(); ok {
			if d < 0 {
				return mkSub(seq.args[0], off, n)
			}
			if m, ok := n.int64(); ok && d >= m {
				return mkSub(seq.args[0], off, n)
			}
		}
	case OCat:
		if r := subConst(seq, off, n); r != nil {
			return r
		}
		// beyond the last item's start there is only the last item
		if last, ok := lastStart(seq, off); ok {
			return mkSub(seq.args[len(seq.args)-1], last, n)
		}
		var out []*Term
		rest, need := off, n
		for i, it := range seq.args {
			if need.isK(0) {
				break
			}
			l := lenOf(it)
			d := mkSubt(rest, l)
			if len(out) == 0 && nonNeg(d) {
				rest = d
				continue
			}
			// starts inside it
			if !rest.isK(0) && !(nonNeg(rest) && nonNeg(mkSubt(l, rest))) {
				return intern(&Term{op: OSub, args: []*Term{seq, off, n}})
			}
			avail := mkSubt(l, rest)
			if nonNeg(mkSubt(need, avail)) {
				out = append(out, mkSub(it, rest, avail))
				need = mkSubt(need, avail)
				rest = tZero
				continue
			}
			if nonNeg(mkSubt(avail, need)) {
				out = append(out, mkSub(it, rest, need))
				need = tZero
				rest = tZero
				break
			}
			if rest.isK(0) && i > 0 && len(out) == 0 {
				// undecided length but aligned start: drop the prefix
				return intern(&Term{op: OSub, args: []*Term{mkCat(seq.args[i:]...), tZero, n}})
			}
			return intern(&Term{op: OSub, args: []*Term{seq, off, n}})
		}
		if need.isK(0) {
			return mkCat(out...)
		}
	}
	if n.isK(1) {
		return mkUnit(mkAt(seq, off))
	}
	return intern(&Term{op: OSub, args: []*Term{seq, off, n}})
}

func mkZeroLike(n, z *Term) *Term {
	if n.isK(0) {
		return tEmpty
	}
	return intern(&Term{op: OZero, args: []*Term{n, z.args[1]}})
}

// subConst is mkSub of a concatenation whose lengths are all known.
func subConst(seq, off, n *Term) *Term {
	o, ok1 := off.int64()
	k, ok2 := n.int64()
	if !ok1 || !ok2 || o < 0 || k <= 0 {
		return nil
	}
	var out []*Term
	for _, it := range seq.args {
		var l int64 = 1
		if it.op != OUnit {
			var ok bool
			if l, ok = lenOf(it).int64(); !ok {
				return nil
			}
		}
		if o >= l {
			o -= l
			continue
		}
		m := l - o
		if m > k {
			m = k
		}
		if o == 0 && m == l {
			out = append(out, it)
		} else {
			out = append(out, mkSub(it, mkInt(o), mkInt(m)))
		}
		o, k = 0, k-m
		if k == 0 {
			return mkCat(out...)
		}
	}
	return nil
}

// lastStart reports whether off lies at or after the start of the last item,
// and where in it.
func lastStart(seq, off *Term) (*Term, bool) {
	rest := off
	for _, it := range seq.args[:len(seq.args)-1] {
		rest = mkSubt(rest, lenOf(it))
		if !nonNeg(rest) {
			return nil, false
		}
	}
	return rest, true
}

// mkAt is element i of seq.
func mkAt(seq, i *Term) *Term {
	switch seq.op {
	case OStr:
		if k, ok := i.int64(); ok && k >= 0 && k < int64(len(seq.sym)) {
			return mkInt(int64(seq.sym[k]))
		}
	case OUnit:
		if i.isK(0) {
			return seq.args[0]
		}
	case OLE:
		if k, ok := i.int64(); ok && k >= 0 && k < seq.ival.Int64() {
			return mkByte(seq.args[0], int(k))
		}
	case OBE:
		if k, ok := i.int64(); ok && k >= 0 && k < seq.ival.Int64() {
			return mkByte(seq.args[0], int(seq.ival.Int64()-1-k))
		}
	case OZero:
		return seq.args[1]
	case OSub:
		return mkAt(seq.args[0], mkAdd(seq.args[1], i))
	case OStar:
		if lenOf(seq.args[1]).isK(1) {
			b := mkAt(seq.args[1], tZero)
			return subst1(b, mkBV(int(seq.ival.Int64())), i)
		}
	case OUpd:
		if seq.args[1] == i {
			return seq.args[2]
		}
		if d, ok := mkSubt(seq.args[1], i).int64(); ok && d != 0 {
			return mkAt(seq.args[0], i)
		}
	case OCat:
		rest := i
		for k, it := range seq.args {
			if k == len(seq.args)-1 && nonNeg(rest) {
				return mkAt(it, rest)
			}
			l := lenOf(it)
			d := mkSubt(rest, l)
			if nonNeg(d) {
				rest = d
				continue
			}
			if nonNeg(mkSubt(mkAddK(l, -1), rest)) && (k == 0 || nonNeg(rest)) {
				return mkAt(it, rest)
			}
			break
		}
	case OAlt:
		var na []*Term
		for k := 0; k < len(seq.args); k += 2 {
			na = append(na, seq.args[k], mkAt(seq.args[k+1], i))
		}
		return mkAlt(na...)
	}
	return intern(&Term{op: OAt, args: []*Term{seq, i}, typ: elemType(seq)})
}

func elemType(seq *Term) types.Type {
	if seq.typ == nil {
		if seq.op == OApp && seq.sym == "cont" && seq.args[0].typ != nil {
			return elemOf(seq.args[0].typ)
		}
		if (seq.op == OUpd || seq.op == OSub || seq.op == OCat) && len(seq.args) > 0 {
			return elemType(seq.args[0])
		}
		switch seq.op {
		case OStr, OLE, OBE:
			return tyByte
		case OApp:
			if _, ok := fixedLen[seq.sym]; ok {
				return tyByte
			}
			if seq.sym == "bigbytes" || seq.sym == "pad" {
				return tyByte
			}
			if seq.sym == "rev" {
				return elemType(seq.args[0])
			}
		case OZero:
			if seq.args[1].isK(0) {
				return tyByte
			}
		}
		return nil
	}
	return elemOf(seq.typ)
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return tyByte
		}
	}
	return nil
}

func mkUpd(seq, i, v *Term) *Term {
	switch seq.op {
	case OStr, OCat, OZero, OLE, OBE, OUnit:
		if !i.isInt() && seq.op != OCat {
			break
		}
		l := lenOf(seq)
		tail := mkSubt(l, mkAddK(i, 1))
		if nonNeg(i) && nonNeg(tail) {
			head := mkSub(seq, tZero, i)
			rest := mkSub(seq, mkAddK(i, 1), tail)
			if !badSub(head, seq) && !badSub(rest, seq) {
				return mkCat(head, mkUnit(v), rest)
			}
		}
	case OUpd:
		if seq.args[1] == i {
			return mkUpd(seq.args[0], i, v)
		}
	}
	return intern(&Term{op: OUpd, args: []*Term{seq, i, v}, typ: seq.typ})
}

func badSub(s, of *Term) bool { return s.op == OSub && s.args[0] == of }

// splice writes part at offset off of seq.
func splice(seq, off, part *Term) *Term {
	n := lenOf(part)
	if n.isK(0) {
		return seq
	}
	if n == lenOf(seq) && off.isK(0) {
		return part
	}
	if off.isK(0) {
		if n == lenOf(seq) {
			return part
		}
	}
	end := mkAdd(off, n)
	tail := mkSubt(lenOf(seq), end)
	if nonNeg(off) && (nonNeg(tail)) {
		return mkCat(mkSub(seq, tZero, off), part, mkSub(seq, end, tail))
	}
	return mkApp("splice", nil, seq, off, part)
}

// mkStar repeats body (over bound variable level) n times.
func mkStar(n, body *Term, level int) *Term {
	if body == tEmpty || n.isK(0) {
		return tEmpty
	}
	if n.isK(1) {
		return subst1(body, mkBV(level), tZero)
	}
	bv := mkBV(level)
	// the iterations before the first that refutes a condition satisfy it
	if n.op == OFirst && hasOp(body, OAlt) {
		c := subst1(n.args[0], mkBV(int(n.ival.Int64())), bv)
		m := map[*Term]*Term{c: tTrue}
		if c.op == OAnd {
			for _, a := range c.args {
				m[a] = tTrue
			}
		}
		body = substMemo(body, m, map[*Term]*Term{})
	}
	// a repetition of s[i] over the whole of s is s itself
	if body.op == OUnit && body.args[0].op == OAt && body.args[0].args[1] == bv && !occurs(body.args[0].args[0], bv) {
		return mkSub(body.args[0].args[0], tZero, n)
	}
	if body.op == OUnit && body.args[0].op == OAt && !occurs(body.args[0].args[0], bv) {
		d := mkSubt(body.args[0].args[1], bv)
		if !occurs(d, bv) {
			return mkSub(body.args[0].args[0], d, n)
		}
		// and backwards, its reverse
		if x := body.args[0].args[0]; lenOf(x) == n && body.args[0].args[1] == mkSubt(mkSubt(n, bv), mkInt(1)) {
			return mkRev(x)
		}
	}
	if !occurs(body, bv) {
		if l := lenOf(body); l.isK(1) && body.op == OStr {
			return mkZeroKind(n, mkInt(int64(body.sym[0])))
		}
	}
	if k, ok := n.int64(); ok && k > 0 && k <= 64 {
		var it []*Term
		for i := int64(0); i < k; i++ {
			it = append(it, subst1(body, bv, mkInt(i)))
		}
		return mkCat(it...)
	}
	return intern(&Term{op: OStar, args: []*Term{n, body}, ival: big.NewInt(int64(level))})
}

func hasOp(t *Term, op Op) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.op == op {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func mkZeroKind(n, z *Term) *Term {
	if k, ok := n.int64(); ok && k >= 0 && k <= 4096 {
		return mkStr(strings.Repeat(string([]byte{byte(z.ival.Int64())}), int(k)))
	}
	return intern(&Term{op: OZero, args: []*Term{n, z}})
}

func mkSum(n, body *Term, level int) *Term {
	bv := mkBV(level)
	if !occurs(body, bv) {
		return mkMul(n, body)
	}
	if n.isK(0) {
		return tZero
	}
	if n.isK(1) {
		return subst1(body, bv, tZero)
	}
	// split linearly
	l := asLinear(body)
	if len(l.atoms) > 1 || l.k.Sign() != 0 {
		s := mkMul(n, mkBig(l.k))
		for i, a := range l.atoms {
			s = mkAdd(s, mkScale(mkSum(n, a, level), l.coefs[i]))
		}
		return s
	}
	if len(l.atoms) == 1 && l.coefs[0].Cmp(bigOne) != 0 {
		return mkScale(mkSum(n, l.atoms[0], level), l.coefs[0])
	}
	if v := numericAlt(body); v != nil {
		return mkSum(n, v, level)
	}
	return intern(&Term{op: OSum, args: []*Term{n, body}, ival: big.NewInt(int64(level))})
}

// numericAlt writes a guarded number as its first branch plus one guarded
// multiple per atom, so that sums of it fall apart linearly; nil if it is in
// that form already.
func numericAlt(t *Term) *Term {
	if t.op == OApp && t.sym == "len" && t.args[0].op == OAlt {
		var na []*Term
		for i := 0; i < len(t.args[0].args); i += 2 {
			na = append(na, t.args[0].args[i], lenOf(t.args[0].args[i+1]))
		}
		return mkAlt(na...)
	}
	if t.op != OAlt {
		return nil
	}
	base := t.args[1]
	if base.op != OInt && base.op != OLin && !isNumeric(base) {
		return nil
	}
	parts := map[*Term][]*big.Int{}
	var atoms []*Term
	k := make([]*big.Int, len(t.args)/2)
	for i := 0; i < len(t.args); i += 2 {
		l := asLinear(mkSubt(t.args[i+1], base))
		k[i/2] = l.k
		for j, a := range l.atoms {
			if parts[a] == nil {
				parts[a] = make([]*big.Int, len(t.args)/2)
				atoms = append(atoms, a)
			}
			parts[a][i/2] = l.coefs[j]
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	nz := 0
	for _, c := range k {
		if c.Sign() != 0 {
			nz = 1
		}
	}
	if base == tZero && nz+len(atoms) <= 1 {
		return nil
	}
	r := base
	if nz > 0 {
		var na []*Term
		for i := range k {
			na = append(na, t.args[2*i], mkBig(k[i]))
		}
		r = mkAdd(r, mkAlt(na...))
	}
	for _, a := range atoms {
		var na []*Term
		for i := range k {
			c := parts[a][i]
			if c == nil {
				c = new(big.Int)
			}
			na = append(na, t.args[2*i], mkScale(a, c))
		}
		r = mkAdd(r, mkAlt(na...))
	}
	return r
}

func mkRec(init, n, body *Term, level int) *Term {
	if n.isK(0) {
		return init
	}
	if r := splitRec(init, n, body, level); r != nil {
		return r
	}
	if r := revRec(init, n, body, level); r != nil {
		return r
	}
	// a short array whose elements are written one by one
	if w, ok := lenOf(init).int64(); ok && body.op == OUpd && w > 0 && w <= 16 {
		items := make([]*Term, w)
		for i := range items {
			items[i] = mkAt(mkAcc(level), mkInt(int64(i)))
		}
		t := body
		done := map[int64]bool{}
		for t.op == OUpd {
			i, ok := t.args[1].int64()
			if !ok || i < 0 || i >= w {
				break
			}
			if !done[i] {
				items[i], done[i] = t.args[2], true
			}
			t = t.args[0]
		}
		if t == mkAcc(level) {
			for i := range items {
				items[i] = mkUnit(items[i])
			}
			body = mkCat(items...)
		}
	}
	return intern(&Term{op: ORec, args: []*Term{init, n, body}, ival: big.NewInt(int64(level))})
}

// mkFirst is the least value of the bound variable that refutes c.
func mkFirst(c *Term, level int) *Term {
	bv := mkBV(level)
	// two ends meeting: the first i with 2i+2 > x, for x >= 0, is x/2
	if c.op == OLe0 {
		x := mkSubt(mkAdd(mkAdd(bv, bv), mkInt(2)), c.args[0])
		if !occurs(x, bv) {
			if lo, _ := bounds(x); lo != nil && lo.Sign() >= 0 {
				return mkShr(x, mkInt(1))
			}
		}
	}
	return intern(&Term{op: OFirst, args: []*Term{c}, ival: big.NewInt(int64(level)), typ: tyU64})
}

// revRec recognises the two usual ways to reverse a sequence: swapping the ends
// up to the middle, and writing each element at its mirrored place.
func revRec(init, n, body *Term, level int) *Term {
	acc, bv := mkAcc(level), mkBV(level)
	l := lenOf(init)
	if body.op != OUpd || l == nil || occurs(l, bv) || occurs(l, acc) {
		return nil
	}
	mirror := mkSubt(mkSubt(l, bv), mkInt(1))
	if in := body.args[0]; in.op == OUpd && in.args[0] == acc {
		if n != mkShr(l, mkInt(1)) && n != mkQuo(l, mkInt(2)) {
			return nil
		}
		lo, hi := mkAt(acc, bv), mkAt(acc, mirror)
		if in.args[1] == bv && in.args[2] == hi && body.args[1] == mirror && body.args[2] == lo ||
			in.args[1] == mirror && in.args[2] == lo && body.args[1] == bv && body.args[2] == hi {
			return mkRev(init)
		}
		return nil
	}
	v := body.args[2]
	if body.args[0] != acc || n != l || v.op != OAt {
		return nil
	}
	x := v.args[0]
	if occurs(x, acc) || occurs(x, bv) || lenOf(x) != l {
		return nil
	}
	if body.args[1] == mirror && v.args[1] == bv || body.args[1] == bv && v.args[1] == mirror {
		return mkRev(x)
	}
	return nil
}

// splitRec folds over the parts of a concatenation one after the other.
func splitRec(init, n, body *Term, level int) *Term {
	bv := mkBV(level)
	var x *Term
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok || !occurs(t, bv) {
			return
		}
		seen[t] = true
		if t == bv {
			ok = false
			return
		}
		if t.op == OAt && t.args[1] == bv && !occurs(t.args[0], bv) {
			if x != nil && x != t.args[0] {
				ok = false
			}
			x = t.args[0]
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if !ok || x == nil || x.op != OCat || lenOf(x) != n {
		return nil
	}
	acc := mkSym("fold:acc", nil)
	pos := mkSym("fold:pos", tyU64)
	el := mkSym("fold:el", nil)
	b := subst(body, map[*Term]*Term{mkAt(x, bv): el, mkAcc(level): acc})
	for _, it := range catItems(x) {
		if it.op == OUnit {
			init = substUnder(subst1(b, el, it.args[0]), acc, init)
			continue
		}
		if it.op == OStr && len(it.sym) == 1 {
			init = substUnder(subst1(b, el, mkAt(it, tZero)), acc, init)
			continue
		}
		bi := subst1(b, el, mkAt(it, pos))
		lv := bi.bvmax + 1
		init = mkRec(init, lenOf(it), subst(bi, map[*Term]*Term{pos: mkBV(lv), acc: mkAcc(lv)}), lv)
	}
	return init
}

// substUnder replaces a symbol, moving binders above those of the value.
func substUnder(t, x, v *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == x {
			return v
		}
		if !occurs(t, x) {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := append([]*Term{}, t.args...)
		var r *Term
		if t.op == ORec && occurs(args[2], x) {
			lv := int(t.ival.Int64())
			p, a := mkSym(fmt.Sprintf("su:%d", lv), tyU64), mkSym(fmt.Sprintf("sa:%d", lv), nil)
			body := rec(subst(args[2], map[*Term]*Term{mkBV(lv): p, mkAcc(lv): a}))
			nl := body.bvmax + 1
			r = mkRec(rec(args[0]), rec(args[1]), subst(body, map[*Term]*Term{p: mkBV(nl), a: mkAcc(nl)}), nl)
		} else {
			for i := range args {
				args[i] = rec(args[i])
			}
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func mkAcc(level int) *Term { return intern(&Term{op: OAcc, ival: big.NewInt(int64(level))}) }

// mkAlt builds guarded alternatives.
func mkAlt(pairs ...*Term) *Term {
	for i := 0; i < len(pairs); i += 2 {
		if pairs[i] == tFalse && len(pairs) > 2 {
			rest := append(append([]*Term{}, pairs[:i]...), pairs[i+2:]...)
			return mkAlt(rest...)
		}
		if pairs[i] == tTrue {
			return pairs[i+1]
		}
	}
	if len(pairs) == 2 {
		return pairs[1]
	}
	same := true
	for i := 3; i < len(pairs); i += 2 {
		if pairs[i] != pairs[1] {
			same = false
		}
	}
	if same && len(pairs) > 0 {
		return pairs[1]
	}
	if m := collapseAlt(pairs, nil); m != nil {
		return mkAlt(m...)
	}
	type pr struct{ g, v *Term }
	var ps []pr
	for i := 0; i < len(pairs); i += 2 {
		ps = append(ps, pr{pairs[i], pairs[i+1]})
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].g.id < ps[j].g.id })
	var out []*Term
	for _, p := range ps {
		out = append(out, p.g, p.v)
	}
	return intern(&Term{op: OAlt, args: out})
}

// collapseAlt merges two branches whose guards differ in one complementary
// literal and whose values agree (after using the literal if it is an
// equality). It returns nil if nothing merges.
func collapseAlt(pairs []*Term, clean func(*Term) *Term) []*Term {
	lits := func(g *Term) []*Term {
		if g.op == OAnd {
			return g.args
		}
		return []*Term{g}
	}
	if clean == nil {
		clean = func(t *Term) *Term { return t }
	}
	for i := 0; i < len(pairs); i += 2 {
		for j := 0; j < len(pairs); j += 2 {
			if i == j {
				continue
			}
			var only []*Term
			gi, gj := lits(pairs[i]), lits(pairs[j])
			in := map[*Term]bool{}
			for _, l := range gj {
				in[l] = true
			}
			var common []*Term
			for _, l := range gi {
				if in[l] {
					common = append(common, l)
					delete(in, l)
				} else {
					only = append(only, l)
				}
			}
			if len(only) != 1 || len(in) != 1 || !in[mkNot(only[0])] {
				continue
			}
			same := pairs[i+1] == pairs[j+1]
			if !same {
				if x, k := pinned(only[0]); x != nil {
					same = clean(subst1(pairs[j+1], x, k)) == clean(pairs[i+1])
				}
			}
			if !same {
				continue
			}
			var out []*Term
			for k := 0; k < len(pairs); k += 2 {
				if k != i && k != j {
					out = append(out, pairs[k], pairs[k+1])
				}
			}
			return append(out, mkAnd(common), pairs[j+1])
		}
	}
	return nil
}

// pinned views an equality literal as atom = constant.
func pinned(g *Term) (*Term, *Term) {
	if g.op != OEq || len(g.args) != 1 {
		return nil, nil
	}
	l := asLinear(g.args[0])
	if len(l.atoms) != 1 {
		return nil, nil
	}
	q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.k), l.coefs[0], new(big.Int))
	if r.Sign() != 0 {
		return nil, nil
	}
	return l.atoms[0], mkBig(q)
}

func mkAnd(lits []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, l := range lits {
		if l == tFalse {
			return tFalse
		}
		if l == tTrue || seen[l] {
			continue
		}
		seen[l] = true
		out = append(out, l)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: OAnd, args: out})
}

// ---- literals ----

func gcdOf(l linear) *big.Int {
	g := new(big.Int)
	for _, c := range l.coefs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

// mkLe0 is the literal t <= 0 over the integers.
func mkLe0(t *Term) *Term {
	lo, hi := bounds(t)
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	l := asLinear(t)
	if len(l.atoms) == 1 && l.atoms[0].op == OApp && l.atoms[0].sym == "sgn" {
		// c*sgn(x) + k <= 0
		x := l.atoms[0].args[0]
		var ok [3]bool
		for i, s := range []int64{-1, 0, 1} {
			v := new(big.Int).Mul(l.coefs[0], big.NewInt(s))
			v.Add(v, l.k)
			ok[i] = v.Sign() <= 0
		}
		switch ok {
		case [3]bool{true, true, true}:
			return tTrue
		case [3]bool{false, false, false}:
			return tFalse
		case [3]bool{true, true, false}:
			return mkLe0(x)
		case [3]bool{true, false, false}:
			return mkLe0(mkAddK(x, 1))
		case [3]bool{false, true, true}:
			return mkLe0(mkNeg(x))
		case [3]bool{false, false, true}:
			return mkLe0(mkSubt(tOne, x))
		}
	}
	if g := gcdOf(l); g.Cmp(bigOne) > 0 {
		m := map[*Term]*big.Int{}
		for i, a := range l.atoms {
			m[a] = new(big.Int).Quo(l.coefs[i], g)
		}
		// k/g rounded up
		k := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(l.k), g))
		t = fromMap(k, m)
	}
	return intern(&Term{op: OLe0, args: []*Term{t}})
}

func mkLe(a, b *Term) *Term { return mkLe0(mkSubt(a, b)) }
func mkLt(a, b *Term) *Term { return mkLe0(mkAddK(mkSubt(a, b), 1)) }

// mkEq0 is the literal t == 0.
func mkEq0(t *Term) *Term {
	if t.isInt() {
		return mkBool(t.ival.Sign() == 0)
	}
	lo, hi := bounds(t)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	l := asLinear(t)
	if len(l.atoms) == 1 && l.atoms[0].op == OApp && (l.atoms[0].sym == "sgn" || l.atoms[0].sym == "bitlen") && l.k.Sign() == 0 {
		return mkEq0(l.atoms[0].args[0])
	}
	if len(l.atoms) == 1 && l.atoms[0].op == OApp && l.atoms[0].sym == "sgn" {
		// sgn(x) == s
		v := new(big.Int).Neg(l.k)
		v.Quo(v, l.coefs[0])
		x := l.atoms[0].args[0]
		if v.Cmp(bigOne) == 0 {
			return mkLe0(mkSubt(tOne, x))
		}
		return mkLe0(mkAddK(x, 1))
	}
	g := gcdOf(l)
	if g.Sign() != 0 && new(big.Int).Mod(l.k, g).Sign() != 0 {
		return tFalse
	}
	// sign-normalise on the first atom
	neg := l.coefs[0].Sign() < 0
	if neg || g.Cmp(bigOne) > 0 {
		m := map[*Term]*big.Int{}
		d := new(big.Int).Set(g)
		if neg {
			d.Neg(d)
		}
		for i, a := range l.atoms {
			m[a] = new(big.Int).Quo(l.coefs[i], d)
		}
		t = fromMap(new(big.Int).Quo(l.k, d), m)
	}
	// a non-negative value equals zero exactly when it is at most zero
	return intern(&Term{op: OEq, args: []*Term{t}})
}

func isNumeric(t *Term) bool {
	switch t.op {
	case OInt, OLin, OSum:
		return true
	}
	return false
}

// mkEq compares two values.
func mkEq(a, b *Term, num bool) *Term {
	if a == b {
		return tTrue
	}
	if num || isNumeric(a) || isNumeric(b) {
		return mkEq0(mkSubt(a, b))
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool {
		if b == tTrue {
			return a
		}
		return mkNot(a)
	}
	if a.op == OStr && b.op == OStr {
		return mkBool(a.sym == b.sym)
	}
	if isSeqOp(a) && isSeqOp(b) {
		d := mkSubt(lenOf(a), lenOf(b))
		if lo, hi := bounds(d); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		// numbers written in the same number of bytes
		if a.op == OApp && b.op == OApp && a.sym == "pad" && b.sym == "pad" && a.args[1] == b.args[1] {
			if n, ok := a.args[1].int64(); ok && n <= 1024 && mkUintBE(a) == a.args[0] && mkUintBE(b) == b.args[0] {
				return mkEq0(mkSubt(a.args[0], b.args[0]))
			}
		}
		if a.op == OCat && b.op == OCat || a.op == OCat && b.op == OStr || a.op == OStr && b.op == OCat {
			if r := eqSeq(a, b); r != nil {
				return r
			}
		}
		if lenOf(a).isK(0) && lenOf(b).isK(0) {
			return tTrue
		}
		if lenOf(a).isK(0) {
			return mkEq0(lenOf(b))
		}
		if lenOf(b).isK(0) {
			return mkEq0(lenOf(a))
		}
	}
	if a.op == ONil || b.op == ONil {
		x := a
		if a.op == ONil {
			x = b
		}
		switch x.op {
		case OObj, OGlob, OFld, OIdx, OClo, OFunc, OIface:
			return tFalse
		case OSlice:
			return tFalse
		case OApp:
			if nonNilApp[x.sym] {
				return tFalse
			}
			if x.sym == "newslice" {
				if lo, _ := bounds(lenOf(x.args[0])); lo != nil && lo.Sign() > 0 {
					return tFalse
				}
			}
		}
		return intern(&Term{op: OEq, args: []*Term{x, tNil}})
	}
	if a.op == OObj && b.op == OObj {
		return tFalse
	}
	if a.op == OFunc && b.op == OFunc {
		return tFalse
	}
	if a.op == OIface && b.op == OIface && a.sym != b.sym {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, args: []*Term{a, b}})
}

var nonNilApp = map[string]bool{"err": true, "nonnil": true}

func isSeqOp(t *Term) bool {
	switch t.op {
	case OStr, OCat, OLE, OBE, OZero, OStar, OSub, OUpd, OUnit:
		return true
	case OApp:
		_, ok := fixedLen[t.sym]
		return ok || t.sym == "cont" || t.sym == "bigbytes" || t.sym == "pad"
	}
	return t.typ != nil && isSeqType(t.typ)
}

func isSeqType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// eqSeq peels equal ends of two concatenations.
func eqSeq(a, b *Term) *Term {
	x, y := catItems(a), catItems(b)
	if len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		return mkEq(mkCat(x[1:]...), mkCat(y[1:]...), false)
	}
	if n, m := len(x), len(y); n > 0 && m > 0 && x[n-1] == y[m-1] {
		return mkEq(mkCat(x[:n-1]...), mkCat(y[:m-1]...), false)
	}
	if len(x) > 0 && len(y) > 0 && x[0].op == OStr && y[0].op == OStr {
		s, t := x[0].sym, y[0].sym
		k := 0
		for k < len(s) && k < len(t) && s[k] == t[k] {
			k++
		}
		if k < len(s) && k < len(t) {
			return tFalse
		}
		return mkEq(mkCat(append([]*Term{mkStr(s[k:])}, x[1:]...)...), mkCat(append([]*Term{mkStr(t[k:])}, y[1:]...)...), false)
	}
	return nil
}

func mkNot(t *Term) *Term {
	switch t.op {
	case OBool:
		return mkBool(t != tTrue)
	case ONot:
		return t.args[0]
	case OLe0:
		return mkLe0(mkSubt(tOne, t.args[0]))
	}
	return intern(&Term{op: ONot, args: []*Term{t}})
}

// ---- intervals ----

func typeBounds(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(0), big.NewInt(255)
	case types.Uint16:
		return big.NewInt(0), big.NewInt(65535)
	case types.Uint32:
		return big.NewInt(0), big.NewInt(1<<32 - 1)
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(pow2(64), bigOne)
	case types.Int8:
		return big.NewInt(-128), big.NewInt(127)
	case types.Int16:
		return big.NewInt(-32768), big.NewInt(32767)
	case types.Int32:
		return big.NewInt(-1 << 31), big.NewInt(1<<31 - 1)
	case types.Int64, types.Int:
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), bigOne)
	}
	return
}

// bounds is the interval of a numeric term known from its shape alone.
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OInt:
		return t.ival, t.ival
	case OBV:
		return new(big.Int), nil
	case OLin:
		lo, hi = new(big.Int).Set(t.ival), new(big.Int).Set(t.ival)
		for i, a := range t.args {
			l, h := bounds(a)
			if t.coefs[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(l, t.coefs[i]))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(h, t.coefs[i]))
				}
			}
			if lo == nil && hi == nil {
				return
			}
		}
		return
	case ORec:
		// acc + (something never negative) never falls below its start
		d := mkSubt(t.args[2], mkAcc(int(t.ival.Int64())))
		if isNumeric(d) || d.op == OApp {
			{
				if l, _ := bounds(d); l != nil && l.Sign() >= 0 && hasAccOnce(t) {
					l0, _ := bounds(t.args[0])
					return l0, nil
				}
			}
		}
		return nil, nil
	case OSum:
		if nonNeg(t.args[0]) {
			if l, _ := bounds(t.args[1]); l != nil && l.Sign() >= 0 {
				return new(big.Int), nil
			}
		}
		return nil, nil
	case OApp:
		switch t.sym {
		case "len", "cap":
			if x := t.args[0]; t.sym == "len" && x.op == OApp && x.sym == "bigbytes" {
				if lo, hi := bounds(x.args[0]); lo != nil && lo.Sign() >= 0 && hi != nil {
					return new(big.Int), big.NewInt(int64(hi.BitLen()+7) / 8)
				}
			}
			return new(big.Int), pow2(56)
		case "byte":
			return new(big.Int), big.NewInt(255)
		case "trunc":
			n, _ := t.args[1].int64()
			return new(big.Int), new(big.Int).Sub(pow2(int(n)), bigOne)
		case "sgn":
			return big.NewInt(-1), big.NewInt(1)
		case "uintle", "uintbe":
			if n, ok := lenOf(t.args[0]).int64(); ok {
				return new(big.Int), new(big.Int).Sub(pow2(int(8*n)), bigOne)
			}
			return new(big.Int), nil
		case "shr":
			l, h := bounds(t.args[0])
			if s, ok := t.args[1].int64(); ok && l != nil && l.Sign() >= 0 {
				if h != nil {
					h = new(big.Int).Rsh(h, uint(s))
				}
				return new(big.Int).Rsh(l, uint(s)), h
			}
		case "and":
			for _, a := range t.args {
				if l, h := bounds(a); l != nil && l.Sign() >= 0 {
					if a.isInt() {
						return new(big.Int), h
					}
				}
			}
		case "inv": // below the modulus
			if t.args[1].isInt() {
				return new(big.Int), new(big.Int).Sub(t.args[1].ival, bigOne)
			}
		case "mod":
			if t.args[1].isInt() {
				return new(big.Int), new(big.Int).Sub(t.args[1].ival, bigOne)
			}
			return new(big.Int), nil
		case "rem":
			if t.args[1].isInt() && nonNeg(t.args[0]) {
				return new(big.Int), new(big.Int).Sub(t.args[1].ival, bigOne)
			}
		case "quo":
			l, h := bounds(t.args[0])
			if t.args[1].isInt() && t.args[1].ival.Sign() > 0 && l != nil && l.Sign() >= 0 {
				if h != nil {
					h = new(big.Int).Quo(h, t.args[1].ival)
				}
				return new(big.Int).Quo(l, t.args[1].ival), h
			}
		case "mul":
			for _, a := range t.args {
				if !nonNeg(a) {
					return nil, nil
				}
			}
			return new(big.Int), nil
		case "viw", "VIW":
			return bigOne, big.NewInt(9)
		case "mapget":
			if t.args[0].op == OSym && t.args[0].sym == "wordindex" {
				return new(big.Int), big.NewInt(2047)
			}
		case "ecaddX", "ecaddY", "ecmulX", "ecmulY", "ecdblX", "ecdblY":
			return new(big.Int), new(big.Int).Sub(hexBig(curveConst["P"]).ival, bigOne)
		case "vi":
			return new(big.Int), new(big.Int).Sub(pow2(64), bigOne)
		case "bitlen":
			return new(big.Int), nil
		}
	case OAlt:
		for i := 1; i < len(t.args); i += 2 {
			l, h := bounds(t.args[i])
			if i == 1 {
				lo, hi = l, h
				continue
			}
			if lo != nil && (l == nil || l.Cmp(lo) < 0) {
				lo = l
			}
			if hi != nil && (h == nil || h.Cmp(hi) > 0) {
				hi = h
			}
		}
		return
	}
	if t.typ != nil {
		return typeBounds(t.typ)
	}
	return nil, nil
}

// hasAccOnce: the recurrence body is acc plus other terms.
func hasAccOnce(t *Term) bool {
	acc := mkAcc(int(t.ival.Int64()))
	l := asLinear(t.args[2])
	for i, a := range l.atoms {
		if a == acc && l.coefs[i].Cmp(bigOne) == 0 {
			return true
		}
	}
	return false
}

// ---- substitution ----

func occurs(t, x *Term) bool {
	if x.op == OBV || x.op == OAcc {
		if t.bvmax < int(x.ival.Int64()) {
			return false
		}
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func subst1(t, x, v *Term) *Term {
	if !occurs(t, x) {
		return t
	}
	return subst(t, map[*Term]*Term{x: v})
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	if v, ok := m[t]; ok {
		return v
	}
	if len(t.args) == 0 {
		return t
	}
	if v, ok := memo[t]; ok {
		return v
	}
	args := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OLin:
		s := mkBig(t.ival)
		for i := range a {
			s = linCombine(s, bigOne, a[i], t.coefs[i])
		}
		return s
	case OCat:
		return mkCat(a...)
	case OUnit:
		return mkUnit(a[0])
	case OLE:
		return mkLE(int(t.ival.Int64()), a[0])
	case OBE:
		return mkBE(int(t.ival.Int64()), a[0])
	case OZero:
		if a[1].isInt() && t.args[1].isInt() && elemType(t) == tyByte {
			return mkZeroKind(a[0], a[1])
		}
		return intern(&Term{op: OZero, args: a})
	case OStar:
		return mkStar(a[0], a[1], int(t.ival.Int64()))
	case OSum:
		return mkSum(a[0], a[1], int(t.ival.Int64()))
	case ORec:
		return mkRec(a[0], a[1], a[2], int(t.ival.Int64()))
	case OSub:
		return mkSub(a[0], a[1], a[2])
	case OAt:
		return mkAt(a[0], a[1])
	case OUpd:
		return mkUpd(a[0], a[1], a[2])
	case OAlt:
		return mkAlt(a...)
	case OAnd:
		return mkAnd(a)
	case ONot:
		return mkNot(a[0])
	case OLe0:
		return mkLe0(a[0])
	case OEq:
		if len(a) == 1 {
			return mkEq0(a[0])
		}
		return mkEq(a[0], a[1], false)
	case OApp:
		return reApp(t, a)
	}
	n := *t
	n.args = a
	n.id, n.bvmax = 0, 0
	return intern(&n)
}

func reApp(t *Term, a []*Term) *Term {
	switch t.sym {
	case "mul":
		r := a[0]
		for _, x := range a[1:] {
			r = mkMul(r, x)
		}
		return r
	case "trunc":
		n, _ := a[1].int64()
		return mkTrunc(int(n), a[0])
	case "byte":
		n, _ := a[1].int64()
		return mkByte(a[0], int(n))
	case "uintle":
		return mkUintLE(a[0])
	case "uintbe":
		return mkUintBE(a[0])
	case "len":
		return mkLenOfValue(a[0])
	case "cont":
		return mkCont(a[0])
	case "sgn":
		return mkSgn(a[0])
	case "mod":
		return mkMod(a[0], a[1])
	case "shr":
		return mkShr(a[0], a[1])
	case "fv":
		n, _ := a[1].int64()
		return mkFieldOf(a[0], int(n), t.typ)
	case "pad":
		return mkPad(a[0], a[1])
	case "bigbytes":
		return mkBigBytes(a[0])
	case "proj0", "proj1", "proj2", "proj3", "proj4", "proj5", "proj6", "proj7":
		return mkProj(int(t.sym[4]-'0'), t.typ, a[0])
	case "splice":
		return splice(a[0], a[1], a[2])
	case "quo":
		return mkQuo(a[0], a[1])
	case "rem":
		return mkRem(a[0], a[1])
	case "rev":
		return mkRev(a[0])
	case "xor":
		r := a[0]
		for _, x := range a[1:] {
			r = mkXor(t.typ, r, x)
		}
		return r
	case "and", "or":
		if len(a) == 2 {
			x, y := a[0], a[1]
			if x.isInt() && y.isInt() {
				z := new(big.Int)
				if t.sym == "and" {
					return mkBig(z.And(x.ival, y.ival))
				}
				return mkBig(z.Or(x.ival, y.ival))
			}
			if x.isK(0) {
				x, y = y, x
			}
			if y.isK(0) {
				if t.sym == "and" {
					return tZero
				}
				return x
			}
			if t.sym == "or" {
				if r := orDisjoint(x, y); r != nil {
					return r
				}
				if r := orDisjoint(y, x); r != nil {
					return r
				}
			}
			if !y.isInt() && x.id > y.id {
				x, y = y, x
			}
			return mkApp(t.sym, t.typ, x, y)
		}
	}
	if isTT(t) {
		return substTT(t.sym, t.typ, a)
	}
	if t.sym == "rotl32" {
		return mkRotl(a[0], a[1])
	}
	return mkApp(t.sym, t.typ, a...)
}

// mkRev is the reversed sequence.
func mkRev(s *Term) *Term {
	switch s.op {
	case OStr:
		b := []byte(s.sym)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return mkStr(string(b))
	case OUnit:
		return s
	case OLE:
		return mkBE(int(s.ival.Int64()), s.args[0])
	case OBE:
		return mkLE(int(s.ival.Int64()), s.args[0])
	case OZero:
		return s
	case OCat:
		var out []*Term
		for i := len(s.args) - 1; i >= 0; i-- {
			out = append(out, mkRev(s.args[i]))
		}
		return mkCat(out...)
	case OApp:
		if s.sym == "rev" {
			return s.args[0]
		}
	}
	return mkApp("rev", nil, s)
}

func mkSgn(x *Term) *Term {
	if x.isInt() {
		return mkInt(int64(x.ival.Sign()))
	}
	return mkApp("sgn", tyInt, x)
}

// mkPad is the big-endian bytes of x left-padded with zeros to n bytes.
func mkPad(x, n *Term) *Term {
	if k, ok := n.int64(); ok {
		if x.isInt() && x.ival.BitLen() <= int(8*k) {
			return mkBE(int(k), x)
		}
		if x.op == OApp && x.sym == "uintbe" {
			if m, ok := lenOf(x.args[0]).int64(); ok && m <= k {
				return mkCat(mkStr(string(make([]byte, k-m))), x.args[0])
			}
		}
		if k <= 8 {
			if lo, hi := bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(int(8*k))) < 0 {
				return mkBE(int(k), x)
			}
		}
	}
	return mkApp("pad", nil, x, n)
}

// mkBigBytes is the minimal big-endian form of x.
func mkBigBytes(x *Term) *Term {
	if x.isInt() {
		return mkStr(string(x.ival.Bytes()))
	}
	return mkApp("bigbytes", nil, x)
}

// mkMod is Euclidean x mod n with nested reductions removed.
func mkMod(x, n *Term) *Term {
	if x.isInt() && n.isInt() && n.ival.Sign() > 0 {
		return mkBig(new(big.Int).Mod(x.ival, n.ival))
	}
	x = stripMod(x, n)
	if n.isInt() && n.ival.Sign() > 0 {
		l := asLinear(x)
		m := map[*Term]*big.Int{}
		for i, a := range l.atoms {
			m[a] = new(big.Int).Mod(l.coefs[i], n.ival)
		}
		x = fromMap(new(big.Int).Mod(l.k, n.ival), m)
		if lo, hi := bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(n.ival) < 0 {
			return x
		}
	}
	if x.op == OApp && x.sym == "mod" && x.args[1] == n {
		return x
	}
	if x.isK(0) {
		return x
	}
	return mkApp("mod", nil, x, n)
}

func stripMod(x, n *Term) *Term {
	inv := func(t *Term) bool { return t.op == OApp && t.sym == "mod" && t.args[1] == n }
	has := false
	l := asLinear(x)
	for _, a := range l.atoms {
		if inv(a) {
			has = true
		}
		if a.op == OApp && a.sym == "mul" {
			for _, f := range a.args {
				if inv(f) {
					has = true
				}
			}
		}
	}
	if !has {
		return x
	}
	s := mkBig(l.k)
	for i, a := range l.atoms {
		v := a
		if inv(a) {
			v = a.args[0]
		} else if a.op == OApp && a.sym == "mul" {
			v = tOne
			for _, f := range a.args {
				if inv(f) {
					f = f.args[0]
				}
				v = mkMul(v, f)
			}
		}
		s = linCombine(s, bigOne, v, l.coefs[i])
	}
	return stripMod(s, n)
}

func mkShr(x, s *Term) *Term {
	k, ok := s.int64()
	if ok && canonTrunc && k%8 != 0 && x.op == OLin {
		// multiples of 2^k are shifted on their own
		m := pow2(int(k))
		hi, lo := mkBig(new(big.Int).Rsh(x.ival, uint(k))), mkBig(new(big.Int).Mod(x.ival, m))
		for i, c := range x.coefs {
			r := new(big.Int).Mod(c, m)
			hi = linCombine(hi, bigOne, x.args[i], new(big.Int).Rsh(c, uint(k)))
			lo = linCombine(lo, bigOne, x.args[i], r)
		}
		if !hi.isK(0) {
			return mkAdd(hi, mkShr(lo, s))
		}
	}
	if ok && k == 0 {
		return x
	}
	if ok && x.isInt() {
		return mkBig(new(big.Int).Rsh(x.ival, uint(k)))
	}
	if ok {
		if lo, hi := bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(int(k))) < 0 {
			return tZero
		}
		if x.op == OApp && x.sym == "shr" {
			if j, ok := x.args[1].int64(); ok {
				return mkShr(x.args[0], mkInt(j+k))
			}
		}
		if lo, hi := bounds(x); k%8 == 0 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(int(k)+8)) < 0 {
			return mkByte(x, int(k)/8)
		}
		if x.op == OApp && x.sym == "byte" && k < 8 {
			return mkApp("shr", nil, x, s)
		}
	}
	return mkApp("shr", nil, x, s)
}

func mkQuo(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.ival, b.ival))
	}
	if b.isK(1) {
		return a
	}
	// division of a non-negative value by a power of two is a shift
	if b.isInt() && b.ival.Sign() > 0 && nonNeg(a) {
		n := b.ival.BitLen() - 1
		if pow2(n).Cmp(b.ival) == 0 {
			return mkShr(a, mkInt(int64(n)))
		}
	}
	return mkApp("quo", nil, a, b)
}

func mkRem(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		return mkBig(new(big.Int).Rem(a.ival, b.ival))
	}
	if b.isInt() && b.ival.Sign() > 0 && nonNeg(a) {
		if _, hi := bounds(a); hi != nil && hi.Cmp(b.ival) < 0 {
			return a
		}
		n := b.ival.BitLen() - 1
		if pow2(n).Cmp(b.ival) == 0 {
			return mkTrunc(n, a)
		}
	}
	return mkApp("rem", nil, a, b)
}

// mkFieldOf is field i of a struct value.
func mkFieldOf(x *Term, i int, typ types.Type) *Term {
	if x.op == OStruct {
		return x.args[i]
	}
	if x.op == OAlt {
		var na []*Term
		for k := 0; k < len(x.args); k += 2 {
			na = append(na, x.args[k], mkFieldOf(x.args[k+1], i, typ))
		}
		return mkAlt(na...)
	}
	return mkApp("fv", typ, x, mkInt(int64(i)))
}

func mkStruct(typ types.Type, fields []*Term) *Term {
	if len(fields) > 0 {
		f0 := fields[0]
		if f0.op == OApp && f0.sym == "fv" {
			base, all := f0.args[0], true
			for i, f := range fields {
				if f.op != OApp || f.sym != "fv" || f.args[0] != base || !f.args[1].isK(int64(i)) {
					all = false
					break
				}
			}
			if all && base.typ != nil && types.Identical(base.typ, typ) {
				return base
			}
		}
	}
	return intern(&Term{op: OStruct, args: fields, sym: typ.String(), typ: typ})
}

// mkCont is the content of a symbolic slice value.
func mkCont(s *Term) *Term {
	switch s.op {
	case ONil:
		return tEmpty
	}
	if s == tEmpty {
		return s
	}
	return mkApp("cont", s.typ, s)
}

func mkLenOfValue(v *Term) *Term {
	if v.op == ONil {
		return tZero
	}
	if isSeqOp(v) {
		return lenOf(v)
	}
	if v.op == OSlice {
		return v.args[2]
	}
	if v.op == OApp && v.sym == "newslice" {
		return lenOf(v.args[0])
	}
	return mkApp("len", tyInt, v)
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	join := func(sep string, a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, sep)
	}
	switch t.op {
	case OInt:
		if t.ival.BitLen() > 64 {
			return "0x" + t.ival.Text(16)
		}
		return t.ival.String()
	case OStr:
		return fmt.Sprintf("x'%x'", t.sym)
	case OBool, OFloat, OSym:
		return t.sym
	case OGlob:
		return "&" + t.sym
	case OFunc:
		return "func " + t.sym
	case ONil:
		return "nil"
	case OObj:
		return "obj:" + t.sym
	case OFld:
		return t.args[0].str(d+1) + "." + fieldName(t)
	case OIdx:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OLd:
		return "*" + t.args[0].str(d+1)
	case OApp:
		return t.sym + "(" + join(", ", t.args) + ")"
	case OLin:
		var s []string
		for i, a := range t.args {
			c := t.coefs[i].String()
			if c == "1" {
				s = append(s, a.str(d+1))
			} else {
				s = append(s, c+"*"+a.str(d+1))
			}
		}
		if t.ival.Sign() != 0 {
			s = append(s, t.ival.String())
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OCat:
		return "[" + join(" ++ ", t.args) + "]"
	case OUnit:
		return "<" + t.args[0].str(d+1) + ">"
	case OLE:
		return fmt.Sprintf("LE%s(%s)", t.ival, t.args[0].str(d+1))
	case OBE:
		return fmt.Sprintf("BE%s(%s)", t.ival, t.args[0].str(d+1))
	case OZero:
		return t.args[1].str(d+1) + "^" + t.args[0].str(d+1)
	case OStar:
		return fmt.Sprintf("(%s)*{i%s<%s}", t.args[1].str(d+1), t.ival, t.args[0].str(d+1))
	case OSum:
		return fmt.Sprintf("sum{i%s<%s}(%s)", t.ival, t.args[0].str(d+1), t.args[1].str(d+1))
	case ORec:
		return fmt.Sprintf("rec{i%s<%s}(init %s; %s)", t.ival, t.args[1].str(d+1), t.args[0].str(d+1), t.args[2].str(d+1))
	case OSub:
		return fmt.Sprintf("%s[%s:+%s]", t.args[0].str(d+1), t.args[1].str(d+1), t.args[2].str(d+1))
	case OAt:
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case OUpd:
		return fmt.Sprintf("%s{[%s]=%s}", t.args[0].str(d+1), t.args[1].str(d+1), t.args[2].str(d+1))
	case OStruct:
		return "{" + join(", ", t.args) + "}"
	case OSlice:
		return "slice(" + join(", ", t.args) + ")"
	case OIface:
		return "iface " + t.sym + "(" + join(", ", t.args) + ")"
	case OClo:
		return "closure(" + join(", ", t.args) + ")"
	case OTup:
		return "(" + join(", ", t.args) + ")"
	case OBV:
		return "i" + t.ival.String()
	case OAcc:
		return "acc" + t.ival.String()
	case OAlt:
		var s []string
		for i := 0; i < len(t.args); i += 2 {
			s = append(s, t.args[i].str(d+1)+" => "+t.args[i+1].str(d+1))
		}
		return "alt{" + strings.Join(s, " | ") + "}"
	case OAnd:
		return "(" + join(" && ", t.args) + ")"
	case OFirst:
		return fmt.Sprintf("first{i%s}!(%s)", t.ival, t.args[0].str(d+1))
	case OAll:
		return fmt.Sprintf("all{i%s<%s}(%s)", t.ival, t.args[0].str(d+1), t.args[1].str(d+1))
	case OLe0:
		return t.args[0].str(d+1) + " <= 0"
	case OEq:
		if len(t.args) == 1 {
			return t.args[0].str(d+1) + " == 0"
		}
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	}
	return "?"
}

func fieldName(t *Term) string {
	i := int(t.ival.Int64())
	b := t.args[0].typ
	if b != nil {
		if p, ok := b.Underlying().(*types.Pointer); ok {
			b = p.Elem()
		}
		if s, ok := b.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprintf("f%d", i)
}

func newInt(_ *big.Int) *big.Int { return new(big.Int) }
