package main

import (
	"math/big"
	"sort"
)

// Facts is a set of literals known to hold on a partition.
type Facts struct {
	m   map[*Term]bool
	cls []*Term // the clauses among them
	idx *factIdx
}

// factIdx is rebuilt whenever the facts change.
type factIdx struct {
	plain map[*Term]bool // texts of plain bytes only
	bnd   map[*Term][2]*big.Int
	by    map[*Term][]*Term // inequalities (<= 0) over two or more atoms, by atom
	fail  map[*Term]int     // not provable with this search depth
	good  map[*Term]bool
}

func (f *Facts) add(l *Term) {
	if !f.m[l] {
		f.m[l] = true
		f.idx = nil
		if l.op == ONot && l.args[0].op == OAnd {
			f.cls = append(f.cls[:len(f.cls):len(f.cls)], l)
		}
	}
}

func (f *Facts) del(l *Term) {
	delete(f.m, l)
	f.idx = nil
}

func (f *Facts) index() *factIdx {
	if f.idx != nil {
		return f.idx
	}
	x := &factIdx{bnd: map[*Term][2]*big.Int{}, by: map[*Term][]*Term{}, fail: map[*Term]int{}, good: map[*Term]bool{}}
	f.idx = x
	var not map[*Term][]*big.Int // values an atom does not take
	for g := range f.m {
		switch {
		case g.op == OLe0:
			l := asLinear(g.args[0])
			if len(l.atoms) == 1 {
				x.tighten(l.atoms[0], l, false)
				continue
			}
			for _, a := range l.atoms {
				x.by[a] = append(x.by[a], g.args[0])
			}
		case g.op == OEq && len(g.args) == 1:
			l := asLinear(g.args[0])
			if len(l.atoms) == 1 {
				x.tighten(l.atoms[0], l, true)
				continue
			}
			ng := mkNeg(g.args[0])
			for _, a := range l.atoms {
				x.by[a] = append(x.by[a], g.args[0], ng)
			}
		case g.op == OAll && g.args[1].op == OLe0:
			// every byte of a text is plain
			l := asLinear(g.args[1].args[0])
			if len(l.atoms) != 1 || l.coefs[0].Cmp(bigOne) != 0 || l.k.Sign() >= 0 || l.k.Cmp(big.NewInt(-128)) <= 0 {
				continue
			}
			if a := l.atoms[0]; a.op == OAt && a.args[1] == mkBV(int(g.ival.Int64())) && lenOf(a.args[0]) == g.args[0] {
				if x.plain == nil {
					x.plain = map[*Term]bool{}
				}
				x.plain[a.args[0]] = true
			}
		case g.op == ONot && g.args[0].op == OEq && len(g.args[0].args) == 1:
			l := asLinear(g.args[0].args[0])
			if len(l.atoms) == 1 {
				if not == nil {
					not = map[*Term][]*big.Int{}
				}
				v, r := new(big.Int).QuoRem(new(big.Int).Neg(l.k), l.coefs[0], new(big.Int))
				if r.Sign() == 0 {
					not[l.atoms[0]] = append(not[l.atoms[0]], v)
				}
			}
		}
	}
	for a, vs := range not {
		b, ok := x.bnd[a]
		if !ok {
			b[0], b[1] = bounds(a)
		}
		for again := true; again; {
			again = false
			for _, v := range vs {
				if b[0] != nil && b[0].Cmp(v) == 0 {
					b[0] = new(big.Int).Add(v, bigOne)
					again = true
				}
				if b[1] != nil && b[1].Cmp(v) == 0 {
					b[1] = new(big.Int).Sub(v, bigOne)
					again = true
				}
			}
		}
		x.bnd[a] = b
	}
	for _, gs := range x.by {
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	}
	return x
}

func (x *factIdx) tighten(a *Term, l linear, eq bool) {
	b, ok := x.bnd[a]
	if !ok {
		b[0], b[1] = bounds(a)
	}
	c := l.coefs[0]
	nk := new(big.Int).Neg(l.k)
	if eq {
		v := new(big.Int).Quo(nk, c)
		x.bnd[a] = [2]*big.Int{v, v}
		return
	}
	v := new(big.Int).Div(nk, new(big.Int).Abs(c))
	if c.Sign() > 0 {
		if b[1] == nil || v.Cmp(b[1]) < 0 {
			b[1] = v
		}
	} else {
		v.Neg(v)
		if b[0] == nil || v.Cmp(b[0]) > 0 {
			b[0] = v
		}
	}
	x.bnd[a] = b
}

func newFacts() *Facts { return &Facts{m: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{m: make(map[*Term]bool, len(f.m)+4)}
	for k := range f.m {
		n.m[k] = true
	}
	n.idx = f.idx
	n.cls = f.cls
	return n
}

func (f *Facts) list() []*Term {
	var l []*Term
	for k := range f.m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// assume adds a literal; false means the partition is now empty.
func (f *Facts) assume(l *Term) bool {
	switch l.op {
	case OBool:
		return l == tTrue
	case OAnd:
		for _, a := range l.args {
			if !f.assume(a) {
				return false
			}
		}
		return true
	}
	if f.prove(mkNot(l)) {
		return false
	}
	f.add(l)
	// a single bit is clear or set
	if x, k, set := bitLit(l); x != nil {
		bit := mkBig(pow2(k))
		if set {
			f.add(mkEq0(mkSubt(mkApp("and", x.typ, x, bit), bit)))
		}
		if _, hi := bounds(x); hi != nil && hi.BitLen() == k+1 {
			r := mkSubt(x, mkTrunc(k, x))
			if set {
				r = mkSubt(r, bit)
			}
			f.add(mkEq0(r))
		}
	}
	// clauses with one literal left
	for _, c := range f.cls {
		if c != l && !contains(c.args[0].args, l) && !contains(c.args[0].args, mkNot(l)) || !f.m[c] {
			continue
		}
		var left []*Term
		for _, a := range c.args[0].args {
			if !f.prove(a) {
				left = append(left, a)
			}
		}
		if len(left) == 1 && !f.prove(mkNot(left[0])) && !f.assume(mkNot(left[0])) {
			return false
		}
	}
	// nil slices are empty
	if l.op == OEq && len(l.args) == 2 && (l.args[0] == tNil || l.args[1] == tNil) {
		x := l.args[0]
		if x == tNil {
			x = l.args[1]
		}
		if x.typ != nil && elemOf(x.typ) != nil && x.op != OObj {
			f.add(mkEq0(mkLenOfValue(x)))
		}
	}
	// a guarded value that equals something rules guards out
	q, same := l, true
	if q.op == ONot {
		q, same = q.args[0], false
	}
	if q.op == OEq && len(q.args) == 2 && (q.args[0].op == OAlt || q.args[1].op == OAlt) {
		a, b := q.args[0], q.args[1]
		if a.op != OAlt {
			a, b = b, a
		}
		var keep []*Term
		for i := 0; i < len(a.args); i += 2 {
			if eq := mkEq(a.args[i+1], b, false); same && eq != tFalse || !same && eq != tTrue {
				keep = append(keep, a.args[i])
			}
		}
		if len(keep) == 1 && !f.prove(keep[0]) && !f.assume(keep[0]) {
			return false
		}
	}
	// boolean recurrences "stay true unless": all iterations avoided the unless
	if all := allOfFlag(l); all != nil {
		f.add(all)
	}
	return true
}

// bitLit reads a literal that says bit k of x is set or clear.
func bitLit(l *Term) (x *Term, k int, set bool) {
	neg := l.op == ONot
	if neg {
		l = l.args[0]
	}
	if l.op != OEq || len(l.args) != 1 {
		return nil, 0, false
	}
	a := l.args[0]
	if a.op != OApp || a.sym != "and" || len(a.args) != 2 || !a.args[1].isInt() || a.args[1].ival.Sign() <= 0 {
		return nil, 0, false
	}
	k = a.args[1].ival.BitLen() - 1
	if pow2(k).Cmp(a.args[1].ival) != 0 {
		return nil, 0, false
	}
	return a.args[0], k, neg
}

// allOfFlag turns "a flag started true, was only ever cleared under g, and is
// still true" into "g held in no iteration".
func allOfFlag(l *Term) *Term {
	t := l
	want := tTrue
	if t.op == ONot {
		t, want = t.args[0], tFalse
	}
	if t.op != ORec || t.args[0] != want || t.args[2].op != OAlt {
		return nil
	}
	level := int(t.ival.Int64())
	acc := mkAcc(level)
	alt := t.args[2]
	var guards []*Term
	for i := 0; i < len(alt.args); i += 2 {
		if alt.args[i+1] == acc {
			guards = append(guards, alt.args[i])
		} else if alt.args[i+1] != mkNot(want) {
			return nil
		}
	}
	if len(guards) != 1 {
		return nil
	}
	return mkAll(t.args[1], guards[0], level)
}

func mkAll(n, body *Term, level int) *Term {
	if body == tTrue {
		return tTrue
	}
	return intern(&Term{op: OAll, args: []*Term{n, body}, ival: big.NewInt(int64(level))})
}

// prove decides whether the facts imply the literal.
func (f *Facts) prove(l *Term) bool {
	switch l.op {
	case OBool:
		return l == tTrue
	case OAnd:
		for _, a := range l.args {
			if !f.prove(a) {
				return false
			}
		}
		return true
	}
	if f.m[l] {
		return true
	}
	switch l.op {
	case OLe0:
		return f.proveLe(l.args[0], 4)
	case OEq:
		if len(l.args) == 1 {
			return f.proveLe(l.args[0], 3) && f.proveLe(mkNeg(l.args[0]), 3)
		}
		if isSeqOp(l.args[0]) && isSeqOp(l.args[1]) && false {
			return false
		}
	case ONot:
		e := l.args[0]
		if e.op == OEq && len(e.args) == 1 {
			return f.proveLe(mkAddK(e.args[0], 1), 3) || f.proveLe(mkSubt(tOne, e.args[0]), 3)
		}
		if e.op == OEq && len(e.args) == 2 && e.args[0] != tNil && e.args[1] != tNil {
			a, b := e.args[0], e.args[1]
			if isSeqOp(a) || isSeqOp(b) {
				// different lengths differ
				d := mkSubt(mkLenOfValue(a), mkLenOfValue(b))
				if f.proveLe(mkAddK(d, 1), 2) || f.proveLe(mkSubt(tOne, d), 2) {
					return true
				}
			}
			// x == c known for another constant c
			for g := range f.m {
				if g.op == OEq && len(g.args) == 2 {
					x, c := g.args[0], g.args[1]
					if c == a || c == b {
						x, c = c, x
					}
					if (x == a && mkEq(c, b, false) == tFalse) || (x == b && mkEq(c, a, false) == tFalse) {
						return true
					}
				}
			}
		}
		if e.op == OAnd {
			for _, a := range e.args {
				if f.prove(mkNot(a)) {
					return true
				}
			}
		}
	}
	return false
}

// atomBounds tightens the interval of an atom with single-atom facts.
func (f *Facts) atomBounds(a *Term) (lo, hi *big.Int) {
	x := f.index()
	if b, ok := x.bnd[a]; ok {
		lo, hi = b[0], b[1]
	} else {
		lo, hi = bounds(a)
	}
	if x.plain != nil && a.op == OAt {
		// changing the case of plain bytes leaves them plain
		s := a.args[0]
		for s.op == OApp && (s.sym == "lower" || s.sym == "upper") {
			s = s.args[0]
		}
		if x.plain[s] && (hi == nil || hi.Cmp(bigPlain) > 0) {
			hi = bigPlain
		}
	}
	return
}

var bigPlain = big.NewInt(127)

func (f *Facts) interval(t *Term) (lo, hi *big.Int) {
	l := asLinear(t)
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, a := range l.atoms {
		al, ah := f.atomBounds(a)
		if l.coefs[i].Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(al, l.coefs[i]))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, l.coefs[i]))
			}
		}
	}
	return
}

// proveLe decides t <= 0 by intervals and by subtracting known inequalities.
func (f *Facts) proveLe(t *Term, depth int) bool {
	if t.isInt() {
		return t.ival.Sign() <= 0
	}
	if _, hi := f.interval(t); hi != nil && hi.Sign() <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	l := asLinear(t)
	if len(l.atoms) > 8 {
		return false
	}
	try := func(ft *Term) bool {
		fl := asLinear(ft)
		if len(fl.atoms) < 2 && depth < 4 && len(fl.atoms) > 0 && false {
			return false
		}
		for i, a := range l.atoms {
			for j, b := range fl.atoms {
				if a != b || l.coefs[i].Sign() != fl.coefs[j].Sign() {
					continue
				}
				// t*|cf| - ft*|ct| <= 0 suffices
				cf, ct := new(big.Int).Abs(fl.coefs[j]), new(big.Int).Abs(l.coefs[i])
				nt := linCombine(t, cf, ft, new(big.Int).Neg(ct))
				if cf.Cmp(bigOne) > 0 {
					// t < 1 over the integers
					nt = mkAdd(nt, mkBig(new(big.Int).Sub(bigOne, cf)))
				}
				if len(asLinear(nt).atoms) > len(l.atoms)+2 {
					continue
				}
				if f.proveLe(nt, depth-1) {
					return true
				}
			}
		}
		return false
	}
	idx := f.index()
	if idx.good[t] {
		return true
	}
	if d, ok := idx.fail[t]; ok && d >= depth {
		return false
	}
	ok := func() bool {
		tried := map[*Term]bool{}
		for _, a := range l.atoms {
			for _, g := range idx.by[a] {
				if tried[g] {
					continue
				}
				tried[g] = true
				if try(g) {
					return true
				}
			}
		}
		// structural facts about the atoms themselves
		for _, a := range l.atoms {
			for _, s := range f.atomFacts(a) {
				if try(s) {
					return true
				}
			}
		}
		return false
	}()
	if ok {
		idx.good[t] = true
	} else {
		idx.fail[t] = depth
	}
	return ok
}

// atomFacts lists inequalities (<= 0) that always hold for an atom.
func (f *Facts) atomFacts(a *Term) []*Term {
	if a.op != OApp {
		return nil
	}
	nonNeg := func(t *Term) bool {
		if nonNeg(t) {
			return true
		}
		lo, _ := f.interval(t)
		return lo != nil && lo.Sign() >= 0
	}
	switch a.sym {
	case "shr":
		// a <= x/2^s
		if s, ok := a.args[1].int64(); ok && s <= 64 && nonNeg(a.args[0]) {
			p := pow2(int(s))
			return []*Term{linCombine(a, p, a.args[0], big.NewInt(-1)),
				mkAdd(linCombine(a.args[0], bigOne, a, new(big.Int).Neg(p)), mkBig(new(big.Int).Sub(bigOne, p)))}
		}
	case "quo":
		if a.args[1].isInt() && a.args[1].ival.Sign() > 0 && nonNeg(a.args[0]) {
			p := a.args[1].ival
			return []*Term{linCombine(a, p, a.args[0], big.NewInt(-1)),
				mkAdd(linCombine(a.args[0], bigOne, a, new(big.Int).Neg(p)), mkBig(new(big.Int).Sub(bigOne, p)))}
		}
	case "uintle":
		// the last byte bounds the whole
		if n, ok := lenOf(a.args[0]).int64(); ok && n > 1 && n <= 8 {
			m := pow2(int(8 * (n - 1)))
			d := linCombine(a, bigOne, mkAt(a.args[0], mkInt(n-1)), new(big.Int).Neg(m))
			return []*Term{mkNeg(d), mkAdd(d, mkBig(new(big.Int).Sub(bigOne, m)))}
		}
	case "rem", "trunc", "byte", "and":
		if nonNeg(a.args[0]) {
			return []*Term{mkSubt(a, a.args[0])}
		}
	case "len":
		if a.args[0].op == OApp && a.args[0].sym == "bigbytes" {
			return nil
		}
	}
	return nil
}

// meet keeps the facts true in both.
func meetFacts(a, b *Facts) *Facts {
	n := newFacts()
	for g := range a.m {
		if b.m[g] || b.prove(g) {
			n.add(g)
		}
	}
	for g := range b.m {
		if !n.m[g] && a.prove(g) {
			n.add(g)
		}
	}
	return n
}
