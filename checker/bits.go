package main

import (
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Bitwise expressions over 32-bit words in a canonical form: the truth table of
// the combination over its words (at most six). Tables that are 1 on all zeros
// are written as the complement (2³²-1-x) of their complement, so each function
// has one form.

const ttMax = 6

var allOnes = new(big.Int).Sub(pow2(32), bigOne)

type ttab struct {
	tab   uint64
	atoms []*Term
}

func isTT(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.sym, "tt:") }

func ttOf(t *Term) ttab {
	if t.isInt() {
		if t.ival.Sign() == 0 {
			return ttab{}
		}
		if t.ival.Cmp(allOnes) == 0 {
			return ttab{tab: 1}
		}
	}
	if isTT(t) {
		n, _ := strconv.ParseUint(t.sym[3:], 16, 64)
		return ttab{n, t.args}
	}
	if t.op == OLin && len(t.args) == 1 && t.ival.Cmp(allOnes) == 0 && t.coefs[0].IsInt64() && t.coefs[0].Int64() == -1 {
		x := ttOf(t.args[0])
		x.tab = ^x.tab & mask(len(x.atoms))
		return x
	}
	return ttab{2, []*Term{t}}
}

func mask(n int) uint64 {
	if n == 6 {
		return ^uint64(0)
	}
	return 1<<(1<<uint(n)) - 1
}

// over is the table of x over more atoms.
func (x ttab) over(atoms []*Term) uint64 {
	pos := make([]int, len(x.atoms))
	for i, a := range x.atoms {
		for j, b := range atoms {
			if a == b {
				pos[i] = j
			}
		}
	}
	var r uint64
	for v := 0; v < 1<<uint(len(atoms)); v++ {
		w := 0
		for i, j := range pos {
			w |= (v >> uint(j) & 1) << uint(i)
		}
		r |= (x.tab >> uint(w) & 1) << uint(v)
	}
	return r
}

func (x ttab) term(rt types.Type) *Term {
	// the words in order, without those that do not matter
	var atoms []*Term
	for i, a := range x.atoms {
		dep := false
		for v := 0; v < 1<<uint(len(x.atoms)); v++ {
			if x.tab>>uint(v)&1 != x.tab>>uint(v^(1<<uint(i)))&1 {
				dep = true
			}
		}
		if dep {
			atoms = append(atoms, a)
		}
	}
	sortTerms(atoms)
	tab := x.over(atoms)
	if len(atoms) != len(x.atoms) {
		// project: dropped words are taken as zero
		idx := map[*Term]int{}
		for j, a := range atoms {
			idx[a] = j
		}
		tab = 0
		for v := 0; v < 1<<uint(len(atoms)); v++ {
			w := 0
			for i, a := range x.atoms {
				if j, ok := idx[a]; ok {
					w |= (v >> uint(j) & 1) << uint(i)
				}
			}
			tab |= (x.tab >> uint(w) & 1) << uint(v)
		}
	}
	neg := tab&1 == 1
	if neg {
		tab = ^tab & mask(len(atoms))
	}
	var r *Term
	switch {
	case len(atoms) == 0:
		r = tZero
	case len(atoms) == 1:
		r = atoms[0]
	default:
		r = mkApp("tt:"+strconv.FormatUint(tab, 16), rt, atoms...)
	}
	if neg {
		r = mkAdd(mkNeg(r), mkBig(allOnes))
	}
	return r
}

// mkTT combines two words; nil where there are too many.
func mkTT(op token.Token, rt types.Type, a, b *Term) *Term {
	x, y := ttOf(a), ttOf(b)
	atoms := append([]*Term{}, x.atoms...)
	for _, t := range y.atoms {
		if !contains(atoms, t) {
			atoms = append(atoms, t)
		}
	}
	if len(atoms) > ttMax {
		return nil
	}
	p, q := x.over(atoms), y.over(atoms)
	var r uint64
	switch op {
	case token.AND:
		r = p & q
	case token.OR:
		r = p | q
	case token.XOR:
		r = p ^ q
	default:
		r = p &^ q
	}
	return ttab{r & mask(len(atoms)), atoms}.term(rt)
}

// substTT rebuilds a combination after its words changed.
func substTT(sym string, rt types.Type, args []*Term) *Term {
	n, _ := strconv.ParseUint(sym[3:], 16, 64)
	// by Shannon expansion over the old words, from the table itself
	r := tZero
	for v := 0; v < 1<<uint(len(args)); v++ {
		if n>>uint(v)&1 == 0 {
			continue
		}
		m := mkBig(allOnes)
		for i, a := range args {
			op := token.AND
			if v>>uint(i)&1 == 0 {
				op = token.AND_NOT
			}
			if m = mkTT(op, rt, m, a); m == nil {
				return mkApp(sym, rt, args...)
			}
		}
		if r = mkTT(token.OR, rt, r, m); r == nil {
			return mkApp(sym, rt, args...)
		}
	}
	return r
}

// rotation recognises x<<k | x>>(32-k).
func rotation(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		if b.op == OApp && b.sym == "byte" && b.args[1].isK(3) { // x>>24
			x := mkTrunc(32, b.args[0])
			if mkTrunc(32, mkScale(x, pow2(8))) == a {
				return mkRotl(x, mkInt(8))
			}
		}
		if b.op == OApp && b.sym == "shr" {
			if s, ok := b.args[1].int64(); ok && s > 0 && s < 32 {
				x := b.args[0]
				if mkTrunc(32, mkScale(x, pow2(int(32-s)))) == a {
					if lo, hi := bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= 32 {
						return mkRotl(x, mkInt(32-s))
					}
				}
			}
		}
		a, b = b, a
	}
	return nil
}

// mkRotl is the rotation of a 32-bit word to the left.
func mkRotl(x, s *Term) *Term {
	if k, ok := s.int64(); ok {
		k = (k%32 + 32) % 32
		if k == 0 {
			return x
		}
		if x.isInt() {
			return mkBig(new(big.Int).SetUint64(uint64(bits.RotateLeft32(uint32(x.ival.Uint64()), int(k)))))
		}
		if x.op == OApp && x.sym == "rotl32" {
			if j, ok := x.args[1].int64(); ok {
				return mkRotl(x.args[0], mkInt(k+j))
			}
		}
		s = mkInt(k)
	}
	return mkApp("rotl32", tyU32, x, s)
}
