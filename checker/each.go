package main

import (
	"go/types"
	"strings"
)

// Writes through the elements of a list of frozen records.
//
// A record allocated in an iteration of a loop is kept, after the loop, as the
// value newobj(fields) of that iteration. A later write through such a pointer
// is a cell of its own, fld(newobj(fields), k); a loop that writes one field of
// each element leaves the cell each(fld(P, k)) = eachv(V, n): for every s < n,
// field k of P(s) is V(s), where s is a symbol of that loop.

const eachSym = "each:"

func isEach(a *Term) bool { return a.op == OApp && a.sym == "each" }

func isNewobj(t *Term) bool { return t.op == OApp && t.sym == "newobj" }

// matchSym finds the value of s for which the pattern is the term. Sums keep
// their parts in an order of their own, so what the places of s hold are only
// candidates; the substitution decides.
func matchSym(p, t, s *Term) *Term {
	var cands []*Term
	seen := map[[2]*Term]bool{}
	var rec func(p, t *Term)
	rec = func(p, t *Term) {
		if p == s {
			for _, c := range cands {
				if c == t {
					return
				}
			}
			if len(cands) < 8 {
				cands = append(cands, t)
			}
			return
		}
		k := [2]*Term{p, t}
		if p == t || seen[k] || p.op != t.op || p.sym != t.sym || len(p.args) != len(t.args) || !occurs(p, s) {
			return
		}
		seen[k] = true
		for i := range p.args {
			rec(p.args[i], t.args[i])
		}
	}
	rec(p, t)
	for _, c := range cands {
		if subst1(p, s, c) == t {
			return c
		}
	}
	return nil
}

func eachParts(a, v *Term) (addr, s, val, n *Term) {
	return a.args[0], a.args[1], v.args[0], v.args[1]
}

func samePtrType(a, b *Term) bool {
	if a.typ == nil || b.typ == nil {
		return true
	}
	return types.Identical(a.typ, b.typ)
}

// loadEach is the value of field i of a frozen record after the writes of the
// loops that ended, or nil if none of them can have written it.
func (e *Engine) loadEach(st *State, addr *Term, typ types.Type) *Term {
	base := addr.args[0]
	var hit *Term
	if _, ok := st.mem[lostKey]; ok {
		return mkApp("ld@lost:"+e.side, typ, addr)
	}
	for a, v := range st.mem {
		if !isEach(a) {
			if a.op == OFld && a != addr && a.ival.Cmp(addr.ival) == 0 && isNewobj(a.args[0]) && samePtrType(a.args[0], base) && e.sameElem(st, a.args[0], base) {
				return mkApp("ld@written:"+e.side, typ, addr, v)
			}
			continue
		}
		pa := a.args[0]
		if pa.ival.Cmp(addr.ival) != 0 || !samePtrType(pa.args[0], base) {
			continue
		}
		if v.op != OApp || v.sym != "eachv" {
			return mkApp("ld@each:"+e.side, typ, addr, v)
		}
		pa, s, val, n := eachParts(a, v)
		if n.isK(0) {
			continue
		}
		j := matchSym(pa.args[0], base, s)
		if j == nil {
			return mkApp("ld@each:"+e.side, typ, addr, a, v)
		}
		if st.facts.prove(mkLe0(mkSubt(n, j))) {
			continue
		}
		if hit != nil || !st.facts.prove(mkLe0(mkAddK(mkSubt(j, n), 1))) {
			return mkApp("ld@each:"+e.side, typ, addr, a, v)
		}
		hit = subst1(val, s, j)
	}
	return hit
}

// sameElem: the two frozen records can be the same element of one list.
func (e *Engine) sameElem(st *State, a, b *Term) bool {
	// elements of one list differ in the position only
	if a == b {
		return true
	}
	diff := map[[2]*Term]bool{}
	var rec func(x, y *Term) bool
	rec = func(x, y *Term) bool {
		if x == y {
			return true
		}
		if isNumericTerm(x) && isNumericTerm(y) && len(diff) < 64 {
			diff[[2]*Term{x, y}] = true
			return true
		}
		if x.op != y.op || x.sym != y.sym || len(x.args) != len(y.args) {
			return false
		}
		for i := range x.args {
			if !rec(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	}
	if !rec(a, b) {
		return false
	}
	for d := range diff {
		z := mkSubt(d[0], d[1])
		if z.isInt() && z.ival.Sign() != 0 || st.facts.prove(mkNot(mkEq0(z))) {
			return false
		}
	}
	return true
}

// written rewrites the frozen records of a value to their present fields.
func (e *Engine) written(st *State, v *Term) *Term {
	type cell struct{ a, v *Term }
	var cells []cell
	ptrs := false
	for a, x := range st.mem {
		if isEach(a) || a.op == OFld && a.ival.Int64() < 1000 && isNewobj(a.args[0]) {
			cells = append(cells, cell{a, x})
		}
		if a.op == OApp && a.sym == "ptr" && a.args[0].op == OApp && a.args[0].sym == "newslice" {
			ptrs = true
		}
	}
	if _, ok := st.mem[lostKey]; ok && hasFrozen(v) {
		return mkApp("lost@"+e.side, v.typ, v)
	}
	if len(cells) == 0 && !ptrs || !hasFrozen(v) {
		return v
	}
	memo := map[*Term]*Term{}
	depth := 0
	var rec func(t *Term, bounds map[*Term]*Term) *Term
	fieldNow := func(t *Term, i int, bounds map[*Term]*Term) (*Term, bool) {
		var hit *Term
		for _, c := range cells {
			if !isEach(c.a) {
				if c.a.ival.Int64() != int64(i) || !samePtrType(c.a.args[0], t) {
					continue
				}
				if c.a.args[0] == t {
					dep := len(bounds) == 0
					for s := range bounds {
						dep = dep || occurs(t, s)
					}
					if !dep {
						return mkApp("fld@written:"+e.side, nil, t, c.v), true
					}
					return e.reify(st, c.v), true
				}
				if e.sameElem(st, c.a.args[0], t) {
					return mkApp("fld@written:"+e.side, nil, t, c.v), true
				}
				continue
			}
			if c.a.args[0].ival.Int64() != int64(i) || !samePtrType(c.a.args[0].args[0], t) {
				continue
			}
			if c.v.op != OApp || c.v.sym != "eachv" {
				return mkApp("fld@each:"+e.side, nil, t, c.v), true
			}
			pa, s, val, n := eachParts(c.a, c.v)
			if n.isK(0) {
				continue
			}
			j := matchSym(pa.args[0], t, s)
			if j != nil && st.facts.prove(mkLe0(mkSubt(n, j))) {
				continue
			}
			in := j != nil && hit == nil
			if in && bounds[j] != nil {
				in = st.facts.prove(mkLe0(mkSubt(bounds[j], n)))
			} else if in {
				in = st.facts.prove(mkLe0(mkAddK(mkSubt(j, n), 1)))
			}
			if !in {
				return mkApp("fld@each:"+e.side, nil, t, c.a, c.v), true
			}
			hit = subst1(val, s, j)
		}
		return hit, hit != nil
	}
	rec = func(t *Term, bounds map[*Term]*Term) *Term {
		if len(t.args) == 0 || depth > 60 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		depth++
		defer func() { depth-- }()
		r := t
		switch {
		case isNewobj(t):
			sv := t.args[0]
			var s *types.Struct
			styp := sv.typ
			if t.typ != nil {
				if p, ok := t.typ.Underlying().(*types.Pointer); ok {
					styp = p.Elem()
				}
			}
			if styp != nil {
				s, _ = isStruct(styp)
			}
			if s == nil {
				break
			}
			f := make([]*Term, s.NumFields())
			ch := false
			for i := range f {
				old := mkFieldOf(sv, i, s.Field(i).Type())
				if x, ok := fieldNow(t, i, bounds); ok {
					f[i] = x
				} else {
					f[i] = rec(old, bounds)
				}
				ch = ch || f[i] != old
			}
			if ch {
				r = mkApp("newobj", t.typ, mkStruct(styp, f))
			}
		case t.op == OApp && t.sym == "newslice":
			c := t.args[0]
			if x, ok := st.mem[mkApp("ptr", nil, t)]; ok {
				c = e.reify(st, x)
			}
			if c = rec(c, bounds); c != t.args[0] {
				r = mkApp("newslice", t.typ, c)
			}
		case t.op == OStar:
			bv := mkBV(int(t.ival.Int64()))
			s := mkSym(eachSym+"open:"+strings.Repeat("'", len(bounds)), tyU64)
			nb := map[*Term]*Term{s: t.args[0]}
			for k, v := range bounds {
				nb[k] = v
			}
			body := subst1(t.args[1], bv, s)
			nw := rec(body, nb)
			n := rec(t.args[0], bounds)
			if nw != body || n != t.args[0] {
				lv := nw.bvmax + 1
				r = mkStar(n, subst1(nw, s, mkBV(lv)), lv)
			}
		default:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a, bounds)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(v, nil)
}

// eachCells are the fields that each iteration writes through a different
// frozen record: their addresses, in terms of the iteration.
func eachCells(back []*Part, it *Term, addr func(a *Term) *Term) (cells []*Term, lost bool) {
	seen := map[*Term]bool{}
	for _, b := range back {
		for a0 := range b.st.mem {
			a := addr(a0)
			if seen[a] || isEach(a) || !occurs(a, it) {
				if isEach(a) && occurs(a, it) {
					lost = true // nested: not followed
				}
				continue
			}
			seen[a] = true
			r := rootOf(a)
			if isNewobj(r) && a.op == OFld && a.args[0] == r && a.ival.Int64() < 1000 {
				cells = append(cells, a)
			} else if r.op != OObj && hasFrozen(r) {
				lost = true
			}
		}
	}
	sortTerms(cells)
	return
}

var lostKey = mkApp("lost", nil, tNil)

// eachWrites adds what the iterations wrote through the elements to the states
// that leave the loop.
func (e *Engine) eachWrites(r *regionOut, pre *Facts, it, ev *Term, cells []*Term, key func(*Term) *Term, order []*lvar) {
	now, lost := eachCells(r.back, it, func(a *Term) *Term { return a })
	if len(now) == 0 && len(cells) == 0 && !lost {
		return
	}
	known := map[*Term]bool{}
	for _, a := range cells {
		known[a] = true
	}
	for _, a := range now {
		if !known[a] {
			lost = true
		}
	}
	base := &Part{st: &State{facts: pre}}
	for _, a := range cells {
		s, _ := isStruct(elemOfPtr(a.args[0]))
		var vals []*Term
		for _, b := range r.back {
			var v *Term
			if x, ok := b.st.mem[a]; ok {
				v = x
			} else if s != nil {
				i := int(a.ival.Int64())
				v = e.load(b.st, a, s.Field(i).Type())
			} else {
				lost = true
				v = tNil
			}
			v = e.reify(b.st, v)
			for _, o := range order {
				if o.closed == nil && (occurs(v, o.sym) || o.obj != nil && occurs(v, o.obj)) {
					lost = true
				}
			}
			vals = append(vals, v)
		}
		same := true
		for _, v := range vals {
			same = same && v == vals[0]
		}
		v := vals[0]
		if !same {
			var pr []*Term
			for i, b := range r.back {
				pr = append(pr, guardOf(b, base, r.back), vals[i])
			}
			v = mkAlt(pr...)
		}
		val := mkApp("eachv", nil, subst1(v, it, ev), it)
		for _, x := range r.exits {
			x.p.st.mem[key(a)] = val
		}
		for _, o := range r.outs {
			o.st.mem[key(a)] = val
		}
	}
	if lost {
		for _, x := range r.exits {
			x.p.st.mem[lostKey] = tTrue
		}
		for _, o := range r.outs {
			o.st.mem[lostKey] = tTrue
		}
	}
}

func elemOfPtr(t *Term) types.Type {
	if t.typ != nil {
		if p, ok := t.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	if isNewobj(t) && t.args[0].typ != nil {
		return t.args[0].typ
	}
	return types.Typ[types.Invalid]
}

func hasFrozen(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if isNewobj(t) || t.op == OApp && t.sym == "newslice" {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// frozenUnits are the records of single-element sequences of pointers to them.
func frozenUnits(ts []*Term) (out []*Term) {
	differ := false
	for _, t := range ts {
		if t.op != OUnit || !isNewobj(t.args[0]) || t.args[0].args[0].op != OStruct || t.args[0].typ == nil {
			return nil
		}
		r := t.args[0].args[0]
		if len(out) > 0 && (!types.Identical(out[0].typ, r.typ)) {
			return nil
		}
		differ = differ || t != ts[0]
		out = append(out, r)
	}
	if !differ {
		return nil
	}
	return out
}
