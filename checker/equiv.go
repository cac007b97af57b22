package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specModels gives meaning to the modelled specification helpers.
func specModels(e *Engine) {
	for _, pk := range e.prog.Pkgs {
		n := pk.Rel + "."
		e.models[n+"sVI"] = func(c *callCtx) ([]Outcome, bool) {
			return c.ret(mkApp("newslice", tyBytes, mkVI(c.args[0]))), true
		}
		e.models[n+"sVISize"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(mkVIW(c.args[0])), true }
		e.models[n+"sReadVI"] = func(c *callCtx) ([]Outcome, bool) {
			v, w := mkReadVI(c.content(0), c.args[1])
			return c.ret(v, w), true
		}
	}
	e.models["xbase.VarIntSerializeSize"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(mkVIW(c.args[0])), true }
}

// equivOpts tunes one comparison.
type equivOpts struct {
	pure    bool // the implementation must not write through its arguments
	setup   func(e *Engine, st *State, args []*Term)
	globals bool
	maxDiff int
}

// cleanVal normalises a reified value: empty and nil slices are the same bytes.
func cleanVal(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op == OApp && t.sym == "newslice" && t.args[0] == tEmpty {
			r = tNil
		} else if len(t.args) > 0 {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
			for r.op == OAlt {
				m := collapseAlt(r.args, rec)
				if m == nil {
					break
				}
				r = mkAlt(m...)
			}
			if r.op == OApp && r.sym == "newslice" && r.typ != nil {
				r = mkApp("newslice", nil, r.args...)
			}
			if r.op == OApp && r.sym == "newobj" && r.typ != nil && isPtrToBasicLess(r.typ) {
				r = mkApp("newobj", nil, r.args...)
			}
			if r.op == OApp && r.sym == "newslice" && r.args[0] == tEmpty {
				r = tNil
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func isPtrToBasicLess(types.Type) bool { return true }

// equalUnder decides whether two values are the same under the facts.
func equalUnder(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if depth == 0 {
		return false
	}
	if isNumericTerm(a) || isNumericTerm(b) {
		if f.prove(mkEq(a, b, true)) || sumsCancel(f, mkSubt(a, b), depth-1) {
			return true
		}
	}
	if a.op == OAlt || b.op == OAlt {
		return equalAlt(f, a, b, depth)
	}
	// slices by content
	ca, oka := sliceContent(a)
	cb, okb := sliceContent(b)
	if oka != okb {
		// a value of unknown type compared with a slice
		if !oka && a.typ == nil && a.op == OApp && a.sym == "fv" {
			ca, oka = mkCont(a), true
		}
		if !okb && b.typ == nil && b.op == OApp && b.sym == "fv" {
			cb, okb = mkCont(b), true
		}
	}
	if oka && okb {
		return equalSeq(f, ca, cb, depth)
	}
	if isSeqOp(a) && isSeqOp(b) {
		return equalSeq(f, a, b, depth)
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		if f.prove(a) && f.prove(b) || f.prove(mkNot(a)) && f.prove(mkNot(b)) {
			return true
		}
		fa, fb := f.clone(), f.clone()
		okA := !fa.assume(a) || fa.prove(b) || contradictory(fa)
		okB := !fb.assume(b) || fb.prove(a) || contradictory(fb)
		if okA && okB {
			return true
		}
	}
	if a.op == b.op && a.sym == b.sym && len(a.args) == len(b.args) && len(a.args) > 0 && sameIval(a, b) && sameCoefs(a, b) {
		for i := range a.args {
			if !equalUnder(f, a.args[i], b.args[i], depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

func contradictory(f *Facts) bool {
	_, ok := jointly(f, newFacts())
	return !ok
}

func sameIval(a, b *Term) bool {
	if (a.ival == nil) != (b.ival == nil) {
		return false
	}
	return a.ival == nil || a.ival.Cmp(b.ival) == 0
}

func sameCoefs(a, b *Term) bool {
	if len(a.coefs) != len(b.coefs) {
		return false
	}
	for i := range a.coefs {
		if a.coefs[i].Cmp(b.coefs[i]) != 0 {
			return false
		}
	}
	return true
}

func isNumericTerm(t *Term) bool {
	switch t.op {
	case OInt, OLin, OSum:
		return true
	}
	return isNumeric(t)
}

func isBoolTerm(t *Term) bool {
	switch t.op {
	case OBool, OLe0, OEq, ONot, OAnd, OAll:
		return true
	}
	return t.typ != nil && isBoolT(t.typ)
}

// sliceContent views a slice value as its content.
func sliceContent(t *Term) (*Term, bool) {
	if t == tNil {
		return tEmpty, true
	}
	if t.op == OApp && t.sym == "newslice" {
		return t.args[0], true
	}
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok && !isSeqOp(t) {
			return mkCont(t), true
		}
	}
	return nil, false
}

func equalAlt(f *Facts, a, b *Term, depth int) bool {
	if a.op != OAlt {
		a, b = b, a
	}
	for i := 0; i < len(a.args); i += 2 {
		g := f.clone()
		if !g.assume(a.args[i]) {
			continue
		}
		g, x, y := atIndex(g, a.args[i+1], b)
		if g == nil {
			continue
		}
		if !equalUnder(g, x, y, depth-1) {
			return false
		}
	}
	return true
}

// sumsCancel decides d == 0 when d adds up repetitions over the same count
// whose bodies cancel index by index.
func sumsCancel(f *Facts, d *Term, depth int) bool {
	if depth <= 0 {
		return false
	}
	l := asLinear(d)
	var n *Term
	body, rest := tZero, mkBig(l.k)
	i := mkSym("it:sum", tyU64)
	for j, a := range l.atoms {
		if a.op == OSum && (n == nil || a.args[0] == n) {
			n = a.args[0]
			body = mkAdd(body, mkScale(subst1(a.args[1], mkBV(int(a.ival.Int64())), i), l.coefs[j]))
			continue
		}
		rest = mkAdd(rest, mkScale(a, l.coefs[j]))
	}
	if n == nil {
		return false
	}
	rl := asLinear(rest)
	for j, a := range rl.atoms {
		if a == n {
			body = mkAdd(body, mkBig(rl.coefs[j]))
			rest = mkSubt(rest, mkScale(n, rl.coefs[j]))
			break
		}
	}
	if rest != tZero && !f.prove(mkEq0(rest)) && !sumsCancel(f, rest, depth-1) {
		return false
	}
	g := f.clone()
	if !g.assume(mkLt(i, n)) {
		return true
	}
	return zeroByCases(g, body, depth+4)
}

// zeroByCases splits on the guards inside a number until it vanishes.
func zeroByCases(f *Facts, t *Term, depth int) bool {
	if t == tZero || f.prove(mkEq0(t)) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, a := range asLinear(t).atoms {
		if x := numericAlt(a); x != nil && a.op != OAlt {
			if zeroByCases(f, mkAdd(mkSubt(t, mkScale(a, coefOf(t, a))), mkScale(x, coefOf(t, a))), depth-1) {
				return true
			}
			continue
		}
		if a.op != OAlt {
			continue
		}
		for i := 0; i < len(a.args); i += 2 {
			g := f.clone()
			if !g.assume(a.args[i]) {
				continue
			}
			if !zeroByCases(g, subst1(t, a, a.args[i+1]), depth-1) {
				return false
			}
		}
		return true
	}
	return sumsCancel(f, t, depth-1)
}

func coefOf(t, a *Term) *big.Int {
	l := asLinear(t)
	for i, x := range l.atoms {
		if x == a {
			return l.coefs[i]
		}
	}
	return new(big.Int)
}

// pickOne resolves a repetition that emits something for one index only.
func pickOne(f *Facts, t *Term) *Term {
	if t.op != OStar || t.args[1].op != OAlt {
		return t
	}
	alt := t.args[1]
	bv := mkBV(int(t.ival.Int64()))
	var at *Term
	for i := 0; i < len(alt.args); i += 2 {
		if alt.args[i+1] == tEmpty {
			continue
		}
		gs := []*Term{alt.args[i]}
		if gs[0].op == OAnd {
			gs = gs[0].args
		}
		var e *Term
		for _, g := range gs {
			if g.op != OEq || len(g.args) != 1 {
				continue
			}
			c := coefOf(g.args[0], bv)
			if c.CmpAbs(bigOne) != 0 {
				continue
			}
			// c*i + r == 0
			r := mkSubt(g.args[0], mkScale(bv, c))
			if c.Sign() > 0 {
				r = mkNeg(r)
			}
			if !occurs(r, bv) {
				e = r
			}
		}
		if e == nil || at != nil && at != e {
			return t
		}
		at = e
	}
	if at == nil || !f.prove(mkLe(tZero, at)) || !f.prove(mkLt(at, t.args[0])) {
		return t
	}
	return subst1(alt, bv, at)
}

// decideAlt drops the branches the facts exclude.
func decideAlt(f *Facts, t *Term) *Term {
	var na []*Term
	for i := 0; i < len(t.args); i += 2 {
		if g := f.clone(); g.assume(t.args[i]) {
			na = append(na, t.args[i], t.args[i+1])
		}
	}
	if len(na) == 0 {
		return t
	}
	return mkAlt(na...)
}

// equalSeq aligns two sequences item by item.
func equalSeq(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.op == OAlt || b.op == OAlt {
		return equalAlt(f, a, b, depth)
	}
	drop := func(items []*Term) []*Term {
		var out []*Term
		for _, it := range items {
			if f.prove(mkEq0(lenOf(it))) {
				continue
			}
			it = pickOne(f, it)
			if it.op == OAlt {
				it = decideAlt(f, it)
			}
			if it.op == OSub && it.args[1] == tZero && f.prove(mkEq0(mkSubt(it.args[2], lenOf(it.args[0])))) {
				it = it.args[0]
			}
			if it.op == OUnit && it.args[0].op == OAt && it.args[0].args[1] == tZero && f.prove(mkEq0(mkAddK(lenOf(it.args[0].args[0]), -1))) {
				it = it.args[0].args[0]
			}
			if it.op == OUpd {
				s, i := it.args[0], it.args[1]
				n := lenOf(s)
				if f.prove(mkLe(tZero, i)) && f.prove(mkLt(i, n)) {
					it = mkCat(mkSub(s, tZero, i), mkUnit(it.args[2]), mkSub(s, mkAddK(i, 1), mkSubt(n, mkAddK(i, 1))))
					for _, x := range catItems(it) {
						if !f.prove(mkEq0(lenOf(x))) {
							out = append(out, x)
						}
					}
					continue
				}
			}
			out = append(out, catItems(it)...)
		}
		return out
	}
	x, y := drop(catItems(a)), drop(catItems(b))
	if depth > 0 {
		for i, it := range x {
			if it.op == OAlt {
				return splitSeq(f, x, i, mkCat(y...), depth)
			}
		}
		for i, it := range y {
			if it.op == OAlt {
				return splitSeq(f, y, i, mkCat(x...), depth)
			}
		}
	}
	peels := 0
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p == q {
			x, y = x[1:], y[1:]
			continue
		}
		// constant prefixes of different length
		if p.op == OStr && q.op == OStr {
			n := len(p.sym)
			if len(q.sym) < n {
				n = len(q.sym)
			}
			if p.sym[:n] != q.sym[:n] {
				return false
			}
			x, y = x[1:], y[1:]
			if len(p.sym) > n {
				x = append([]*Term{mkStr(p.sym[n:])}, x...)
			}
			if len(q.sym) > n {
				y = append([]*Term{mkStr(q.sym[n:])}, y...)
			}
			continue
		}
		ok := false
		if p.op == q.op && p.op != OStr {
			switch p.op {
			case OStar:
				if nx, ny, done := starTail(f, x, y, depth-1); done {
					x, y = nx, ny
					continue
				}
				ok = f.prove(mkEq(p.args[0], q.args[0], true)) && starBody(f, p, q, depth-1)
			case OSub:
				ok = (p.args[0] == q.args[0] || equalSeq(f, p.args[0], q.args[0], depth-1)) &&
					f.prove(mkEq(p.args[1], q.args[1], true)) && f.prove(mkEq(p.args[2], q.args[2], true))
			default:
				ok = p.sym == q.sym && len(p.args) == len(q.args) && sameIval(p, q) && len(p.args) > 0
				for i := 0; ok && i < len(p.args); i++ {
					ok = equalUnder(f, p.args[i], q.args[i], depth-1)
				}
			}
		}
		if !ok {
			// whole of one side against one item of the other
			if len(x) == 1 && len(y) == 1 && p.op == OAlt || q.op == OAlt && len(y) == 1 && len(x) == 1 {
				return equalAlt(f, p, q, depth-1)
			}
			// split an item so that the lengths meet
			if nx, ny, done := splitAlign(f, x, y); done {
				x, y = nx, ny
				continue
			}
			if peels < 4 && (p.op == OStar) != (q.op == OStar) {
				peels++
				if p.op == OStar {
					if h := starHead(f, p); h != nil {
						x = append(h, x[1:]...)
						continue
					}
				} else if h := starHead(f, q); h != nil {
					y = append(h, y[1:]...)
					continue
				}
			}
			return false
		}
		x, y = x[1:], y[1:]
	}
	return len(x) == 0 && len(y) == 0
}

// splitAlign cuts the longer of two leading items of known lengths.
func splitAlign(f *Facts, x, y []*Term) (nx, ny []*Term, ok bool) {
	lp, ok1 := lenOf(x[0]).int64()
	lq, ok2 := lenOf(y[0]).int64()
	if !ok1 || !ok2 || lp == lq {
		if ok1 && ok2 && lp > 1 && lp <= 64 && (x[0].op == OStr) != (y[0].op == OStr) {
			return nil, nil, false
		}
		return nil, nil, false
	}
	cut := func(t *Term, n int64, whole int64) (h, r *Term, ok bool) {
		h, r = mkSub(t, tZero, mkInt(n)), mkSub(t, mkInt(n), mkInt(whole-n))
		return h, r, !badSub(h, t)
	}
	if lp > lq {
		h, r, good := cut(x[0], lq, lp)
		if !good {
			return nil, nil, false
		}
		return append([]*Term{h, r}, x[1:]...), y, true
	}
	h, r, good := cut(y[0], lp, lq)
	if !good {
		return nil, nil, false
	}
	return x, append([]*Term{h, r}, y[1:]...), true
}

// starTail aligns two repetitions of the same items whose counts differ by a
// small constant: the longer one's last items follow.
func starTail(f *Facts, x, y []*Term, depth int) (nx, ny []*Term, ok bool) {
	p, q := x[0], y[0]
	d, isC := mkSubt(p.args[0], q.args[0]).int64()
	if !isC || d == 0 || d > 4 || d < -4 {
		return nil, nil, false
	}
	if d < 0 {
		ny, nx, ok = starTail(f, y, x, depth)
		return
	}
	if !f.prove(mkLe(tZero, q.args[0])) || !starBody(f, q, p, depth) {
		return nil, nil, false
	}
	var tail []*Term
	for j := int64(0); j < d; j++ {
		tail = append(tail, catItems(subst1(p.args[1], mkBV(int(p.ival.Int64())), mkAddK(q.args[0], j)))...)
	}
	return append(tail, x[1:]...), y[1:], true
}

// starHead is a repetition as its first item and the rest.
func starHead(f *Facts, p *Term) []*Term {
	if !f.prove(mkLe(tOne, p.args[0])) {
		return nil
	}
	lv := int(p.ival.Int64())
	bv := mkBV(lv)
	i := mkSym("it:shift", tyU64)
	rest := subst1(subst1(p.args[1], bv, mkAddK(i, 1)), i, bv)
	out := append([]*Term{}, catItems(subst1(p.args[1], bv, tZero))...)
	return append(out, catItems(mkStar(mkAddK(p.args[0], -1), rest, lv))...)
}

// starBody compares the bodies of two repetitions for every index.
func starBody(f *Facts, p, q *Term, depth int) bool {
	l1, l2 := int(p.ival.Int64()), int(q.ival.Int64())
	i := mkSym("it:any", tyU64)
	b1, b2 := subst1(p.args[1], mkBV(l1), i), subst1(q.args[1], mkBV(l2), i)
	if b1 == b2 {
		return true
	}
	g := f.clone()
	if !g.assume(mkLt(i, p.args[0])) {
		return true
	}
	instAll(g)
	return equalSeq(g, b1, b2, depth) || equalUnder(g, b1, b2, depth)
}

// instAll adds the instances of "for every iteration" facts at named indices.
func instAll(f *Facts) {
	for round := 0; round < 2; round++ {
		var idx []*Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OSym && strings.HasPrefix(t.sym, "it:") || t.op == OFirst && !openTerm(t) {
				idx = append(idx, t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for g := range f.m {
			walk(g)
		}
		sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
		for _, g := range f.list() {
			if g.op != OAll {
				continue
			}
			n, body, lv := g.args[0], g.args[1], int(g.ival.Int64())
			for _, i := range append(idx, tZero, mkAddK(n, -1)) {
				if occurs(n, i) {
					continue
				}
				if !f.prove(mkLt(i, n)) || !f.prove(mkLe(tZero, i)) {
					continue
				}
				inst := subst1(body, mkBV(lv), i)
				if inst.op != OBool {
					if !f.assume(inst) {
						f.add(tFalse)
					}
				} else if inst == tFalse {
					f.add(tFalse)
				}
			}
		}
		if len(idx) == 0 {
			break
		}
	}
}

// openTerm: the term mentions a bound variable it does not bind itself.
func openTerm(t *Term) bool {
	var rec func(t *Term, bound map[int64]bool, seen map[*Term]bool) bool
	rec = func(t *Term, bound map[int64]bool, seen map[*Term]bool) bool {
		if t.bvmax == 0 || seen[t] {
			return false
		}
		seen[t] = true
		switch t.op {
		case OBV, OAcc:
			return !bound[t.ival.Int64()]
		case OStar, OSum, OAll, ORec, OFirst:
			k := t.ival.Int64()
			if !bound[k] {
				b := map[int64]bool{k: true}
				for x := range bound {
					b[x] = true
				}
				bound, seen = b, map[*Term]bool{}
			}
		}
		for _, a := range t.args {
			if rec(a, bound, seen) {
				return true
			}
		}
		return false
	}
	return rec(t, nil, map[*Term]bool{})
}

// jointly builds the facts of two partitions holding together; false if they cannot.
func jointly(a, b *Facts) (*Facts, bool) {
	for l := range b.m {
		if l.op != OAll && a.m[mkNot(l)] {
			return nil, false
		}
	}
	f := a.clone()
	for _, l := range b.list() {
		if !f.assume(l) {
			return nil, false
		}
	}
	f, ok := rewriteFacts(f, fitAtoms(f))
	if !ok {
		return nil, false
	}
	for i := 0; i < 6; i++ {
		n := len(f.m)
		if f, ok = rewriteFacts(f, knownAtoms(f)); !ok {
			return nil, false
		}
		if len(f.m) == n {
			break
		}
		if f, ok = rewriteFacts(f, fitAtoms(f)); !ok {
			return nil, false
		}
	}
	instAll(f)
	if f.m[tFalse] {
		return nil, false
	}
	// a late fact may contradict an early one
	for _, l := range f.list() {
		if l.op == OAll {
			continue
		}
		f.del(l)
		bad := f.prove(mkNot(l))
		f.add(l)
		if bad {
			return nil, false
		}
	}
	return f, true
}

// fitAtoms collects truncations that cut nothing off under the facts.
func fitAtoms(f *Facts, vals ...*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	// a truncation that cuts nothing off
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.sym == "trunc" {
			if w, ok := t.args[1].int64(); ok {
				lo, hi := f.interval(t.args[0])
				if lo != nil && lo.Sign() >= 0 && hi != nil && hi.BitLen() <= int(w) {
					m[t] = t.args[0]
				}
			}
		}
		// a padded number that fills its width
		if t.op == OApp && t.sym == "pad" {
			if b := mkBigBytes(t.args[0]); f.prove(mkEq0(mkSubt(lenOf(b), t.args[1]))) {
				m[t] = b
			}
		}
		// bytes of a number that were already its shortest form
		if t.op == OApp && t.sym == "bigbytes" && t.args[0].op == OApp && t.args[0].sym == "uintbe" {
			if x := t.args[0].args[0]; f.prove(mkEq0(mkSubt(lenOf(t), lenOf(x)))) {
				m[t] = x
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, g := range f.list() {
		walk(g)
	}
	for _, v := range vals {
		walk(v)
	}
	return m
}

// collectFirst finds the closed exit indices a term mentions.
func collectFirst(t *Term, into map[*Term]bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OFirst && !openTerm(t) {
			into[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
}

// knownAtoms collects the atoms the facts pin to a constant.
func knownAtoms(f *Facts) map[*Term]*Term {
	m := map[*Term]*Term{}
	firsts := map[*Term]bool{}
	for _, g := range f.list() {
		collectFirst(g, firsts)
	}
	for t := range firsts {
		// the first iteration already leaves
		if f.prove(mkNot(subst1(t.args[0], mkBV(int(t.ival.Int64())), tZero))) {
			m[t] = tZero
		}
	}
	for _, g := range f.list() {
		h := g
		if h.op == ONot && h.args[0].op == OEq && len(h.args[0].args) == 1 {
			h = h.args[0]
		}
		if g.op == OLe0 || h != g {
			if l := asLinear(h.args[0]); len(l.atoms) == 1 {
				if lo, hi := f.atomBounds(l.atoms[0]); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
					m[l.atoms[0]] = mkBig(lo)
				}
			}
		}
		if g.op == OEq && len(g.args) == 1 {
			l := asLinear(g.args[0])
			if len(l.atoms) == 1 {
				q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.k), l.coefs[0], new(big.Int))
				if r.Sign() == 0 {
					m[l.atoms[0]] = mkBig(q)
				}
			}
		}
		if g.op == OEq && len(g.args) == 2 {
			x, y := g.args[0], g.args[1]
			if y.op != OStr && y.op != OInt {
				x, y = y, x
			}
			if y.op == OStr && x.op != OStr {
				m[x] = y
			}
		}
	}
	for x, k := range m {
		if x.op == OApp && x.sym == "len" && k.isK(0) && (x.args[0].op == OApp && strings.HasPrefix(x.args[0].sym, "proj") || x.args[0].op == OSym) {
			m[x.args[0]] = tEmpty
		}
		if x.op == OApp && (x.sym == "uintle" || x.sym == "uintbe") && k.isInt() {
			if n, ok := lenOf(x.args[0]).int64(); ok && n > 0 && n <= 8 {
				op := OLE
				if x.sym == "uintbe" {
					op = OBE
				}
				if s := mkEnd(op, int(n), k); s.op == OStr {
					m[x.args[0]] = s
				}
			}
		}
	}
	return m
}

// rewriteFacts replaces pinned atoms by their constants inside other facts.
func rewriteFacts(f *Facts, m map[*Term]*Term) (*Facts, bool) {
	if len(m) == 0 {
		return f, true
	}
	memo := map[*Term]*Term{}
	n := f.clone()
	// congruence: an atom whose parts are pinned keeps its pinned value
	for x, k := range m {
		if len(x.args) == 0 {
			continue
		}
		args := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			args[i] = substMemo(a, m, memo)
			ch = ch || args[i] != a
		}
		if ch && !n.assume(mkEq(rebuild(x, args), k, isNumericTerm(k))) {
			return nil, false
		}
	}
	for _, g := range f.list() {
		h := substMemo(g, m, memo)
		if h == g || h == tTrue {
			continue
		}
		if h == tFalse || !n.assume(h) {
			return nil, false
		}
	}
	return n, true
}

type outcomeVal struct {
	o   Outcome
	val *Term
}

func (e *Engine) symArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for _, prm := range fn.Params {
		args = append(args, mkSym(strings.TrimPrefix(fn.Name(), "impl")+"."+prm.Name(), prm.Type()))
	}
	return args
}

func (e *Engine) runVals(fn *ssa.Function, st *State, args []*Term) []outcomeVal {
	var vs []outcomeVal
	for _, o := range e.Run(fn, st, args) {
		if o.st.facts != nil {
			instAll(o.st.facts)
			if o.st.facts.m[tFalse] {
				continue
			}
		}
		v := tNil
		if o.res != nil {
			v = cleanVal(e.reify(o.st, o.res))
		}
		vs = append(vs, outcomeVal{o, v})
	}
	return vs
}

// equiv compares an implementation with its specification: for every pair of
// outcomes that can occur together the results must be the same value.
func (c *Ctx) equiv(e *Engine, what string, impl, spec *ssa.Function, opt equivOpts) {
	if c.safe {
		c.safeRun(e, what, impl, opt)
		return
	}
	need(what+": implementation and specification", impl != nil && spec != nil && impl.Blocks != nil && spec.Blocks != nil)
	args := e.symArgs(impl)
	if len(spec.Params) != len(args) {
		panic(&anchorError{what + ": parameter lists differ"})
	}
	st1, st2 := newState(), newState()
	if opt.setup != nil {
		opt.setup(e, st1, args)
		opt.setup(e, st2, args)
	}
	e.side = "i"
	iv := e.runVals(impl, st1, args)
	hk := e.hooks
	e.hooks = Hooks{}
	e.side = "s"
	sv := e.runVals(spec, st2, args)
	e.side = "i"
	e.hooks = hk
	if len(iv) == 0 || len(sv) == 0 {
		panic(&budgetError{what + ": no outcomes"})
	}
	pairs := 0
	for _, a0 := range iv {
		for _, b := range sv {
			a := a0
			f, ok := jointly(a.o.st.facts, b.o.st.facts)
			if !ok {
				continue
			}
			pairs++
			if m := fitAtoms(f, a.val, b.val); len(m) > 0 {
				memo := map[*Term]*Term{}
				a.val, b.val = cleanVal(substMemo(a.val, m, memo)), cleanVal(substMemo(b.val, m, memo))
			}
			for i := 0; i < 4; i++ {
				m := knownAtoms(f)
				if len(m) == 0 {
					break
				}
				memo := map[*Term]*Term{}
				a.val, b.val = cleanVal(substMemo(a.val, m, memo)), cleanVal(substMemo(b.val, m, memo))
			}
			c.obligation()
			switch {
			case (a.o.panic || b.o.panic) && equalCases(f, tTrue, tFalse, 2):
				c.discharged()
			case b.o.panic:
				c.fail(what, e.where2(b.o), "the specification has a panicking outcome compatible with this path: "+b.o.why)
			case a.o.panic:
				c.fail(what, e.where2(a.o), "the implementation panics: "+a.o.why)
			case !equalCases(f, a.val, b.val, 2):
				d := firstDiff(f, a.val, b.val)
				if os.Getenv("TOKU_DEBUG") != "" {
					fmt.Println("IMPL FACTS", factsString(a.o.st.facts))
				}
				c.fail(what, e.where2(a.o), fmt.Sprintf("result differs from the published value\n  computed:  %s\n  published: %s\n  full computed:  %s\n  full published: %s\n  under: %s", clip(d[0]), clip(d[1]), clip(a.val.String()), clip(b.val.String()), clip(factsString(f))))
			default:
				c.discharged()
			}
		}
	}
	if pairs == 0 {
		panic(&budgetError{what + ": no compatible outcomes"})
	}
	if opt.pure {
		c.checkPure(e, what, iv, args)
	}
}

// equalCases compares two values, if need be value by value of an atom that
// takes few.
func equalCases(f *Facts, a, b *Term, depth int) bool {
	if equalUnder(f, a, b, 14) {
		return true
	}
	if depth == 0 {
		return false
	}
	x, lo, hi := caseAtom(f, a, b)
	if x == nil {
		return false
	}
	for v := lo; v <= hi; v++ {
		g := f.clone()
		if !g.assume(mkEq0(mkAddK(x, -v))) {
			continue
		}
		m := map[*Term]*Term{x: mkInt(v)}
		g, ok := jointly(g, newFacts())
		if ok {
			g, ok = rewriteFacts(g, m)
		}
		if !ok {
			continue
		}
		memo := map[*Term]*Term{}
		if !equalCases(g, cleanVal(substMemo(a, m, memo)), cleanVal(substMemo(b, m, memo)), depth-1) {
			return false
		}
	}
	return true
}

var nonlinear = map[string]bool{"trunc": true, "mod": true, "rem": true, "quo": true, "ediv": true, "shr": true, "shl": true, "and": true, "bor": true, "xor": true, "pow": true}

// caseAtom finds the atom of fewest values inside non-linear arithmetic.
func caseAtom(f *Facts, vals ...*Term) (*Term, int64, int64) {
	var best *Term
	var blo, bhi int64
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || openTerm(t) && t.op != OAll {
			return
		}
		seen[t] = true
		if t.op == OApp && nonlinear[t.sym] {
			for _, a := range t.args {
				if a.isInt() || openTerm(a) {
					continue
				}
				for _, x := range asLinear(a).atoms {
					if x.op != OSym && x.op != OAt && !(x.op == OApp && x.sym == "len") {
						continue
					}
					lo, hi := f.interval(x)
					if lo == nil || hi == nil || !lo.IsInt64() || !hi.IsInt64() || hi.Int64() == lo.Int64() || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(256)) > 0 {
						continue
					}
					if l, h := lo.Int64(), hi.Int64(); best == nil || h-l < bhi-blo {
						best, blo, bhi = x, l, h
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, g := range f.list() {
		walk(g)
	}
	for _, v := range vals {
		walk(v)
	}
	return best, blo, bhi
}

func clip(s string) string {
	if len(s) > 3000 && os.Getenv("TOKU_DEBUG") == "" {
		return s[:3000] + "..."
	}
	return s
}

func factsString(f *Facts) string {
	var s []string
	for _, g := range f.list() {
		s = append(s, g.String())
	}
	return strings.Join(s, " ; ")
}

// checkPure: no cell reachable from an argument may have changed.
func (c *Ctx) checkPure(e *Engine, what string, iv []outcomeVal, args []*Term) {
	for _, a := range iv {
		if a.o.panic {
			continue
		}
		c.obligation()
		bad := ""
		for cell, v := range a.o.st.mem {
			r := rootOf(cell)
			if r.op == OObj || r.op == OGlob {
				continue
			}
			if r.op == OSym && strings.HasPrefix(r.sym, "lv:") {
				continue
			}
			init := e.initialCell(newState(), cell, v)
			if v != init && !equalUnder(a.o.st.facts, v, init, 8) {
				bad = fmt.Sprintf("%s was %s and becomes %s", cell, clip(init.String()), clip(v.String()))
			}
		}
		if a.o.st.epoch+a.o.st.fields > 0 {
			bad = "memory behind the arguments may have changed"
		}
		if bad != "" {
			c.fail(what, e.where2(a.o), "the call changes its argument: "+bad)
		} else {
			c.discharged()
		}
	}
}

func (e *Engine) where2(o Outcome) string {
	if o.instr == nil {
		return "-"
	}
	return e.where(&frame{fn: o.instr.Parent()}, o.instr)
}

// firstDiff descends to the first differing part, for the report.
func firstDiff(f *Facts, a, b *Term) [2]string {
	for d := 0; d < 30; d++ {
		if a.op != b.op || a.sym != b.sym || len(a.args) != len(b.args) || len(a.args) == 0 {
			break
		}
		moved := false
		for i := range a.args {
			if !equalUnder(f, a.args[i], b.args[i], 10) {
				a, b = a.args[i], b.args[i]
				moved = true
				break
			}
		}
		if !moved {
			break
		}
	}
	return [2]string{a.String(), b.String()}
}

// atIndex replaces an arbitrary index by the expression the facts equate it with.
func atIndex(f *Facts, a, b *Term) (*Facts, *Term, *Term) {
	for _, g := range f.list() {
		if g.op != OEq || len(g.args) != 1 {
			continue
		}
		l := asLinear(g.args[0])
		for j, x := range l.atoms {
			if x.op != OSym || !strings.HasPrefix(x.sym, "it:") || l.coefs[j].CmpAbs(bigOne) != 0 {
				continue
			}
			r := mkSubt(g.args[0], mkScale(x, l.coefs[j]))
			if l.coefs[j].Sign() > 0 {
				r = mkNeg(r)
			}
			if occurs(r, x) || r.op == OSym && strings.HasPrefix(r.sym, "it:") && r.id > x.id {
				continue
			}
			n, ok := rewriteFacts(f, map[*Term]*Term{x: r})
			if !ok {
				return nil, a, b
			}
			n.del(g)
			return atIndex(n, subst1(a, x, r), subst1(b, x, r))
		}
	}
	return f, a, b
}

// splitSeq compares with each branch of a guarded part in turn.
func splitSeq(f *Facts, items []*Term, i int, other *Term, depth int) bool {
	alt := items[i]
	for k := 0; k < len(alt.args); k += 2 {
		g := f.clone()
		if !g.assume(alt.args[k]) {
			continue
		}
		its := append(append(append([]*Term{}, items[:i]...), alt.args[k+1]), items[i+1:]...)
		g, x, y := atIndex(g, mkCat(its...), other)
		if g == nil {
			continue
		}
		if !equalSeq(g, x, y, depth-1) {
			return false
		}
	}
	return true
}
