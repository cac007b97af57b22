package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// lvar is a location the loop changes: a header phi or a memory cell.
type lvar struct {
	phi    *ssa.Phi
	cell   *Term
	sym    *Term // its symbolic value at the head of an arbitrary iteration
	obj    *Term // for slice values: the symbolic backing object
	cont   *Term // and its content symbol
	init   *Term // value (content for slices) before the loop
	closed *Term
}

func sortTerms(t []*Term) { sort.Slice(t, func(i, j int) bool { return t[i].id < t[j].id }) }

// condConst: the header's own branch is decided.
func (e *Engine) tryUnroll(fr *frame, l *loopInfo, p *Part) (regionOut, bool) {
	hi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return regionOut{}, false
	}
	// one successor must leave the loop
	if l.blocks[hi.Block().Succs[0]] && l.blocks[hi.Block().Succs[1]] {
		return regionOut{}, false
	}
	saveSteps := e.steps
	fail := func() (regionOut, bool) {
		e.steps = saveSteps + (e.steps-saveSteps)/8
		return regionOut{}, false
	}
	var out regionOut
	cur := []*Part{p.clone()}
	// each turn makes its own objects
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	for it := 0; it < 300; it++ {
		fr.ctx = fmt.Sprintf("%s~%d.%d", ctx, l.header.Index, it)
		var next []*Part
		for _, q := range cur {
			r := e.runRegion(fr, l.header, []*Part{q}, l.blocks, l.header)
			fromHeader := 0
			for _, x := range r.exits {
				if x.from == l.header {
					fromHeader++
				}
			}
			if fromHeader > 0 && (len(r.back) > 0 || len(r.exits) > fromHeader || len(r.outs) > 0) {
				// the branch was not decided
				return fail()
			}
			if fromHeader == 0 && len(r.back) == 0 && len(r.exits) == 0 && len(r.outs) == 0 {
				continue
			}
			out.exits = append(out.exits, r.exits...)
			out.outs = append(out.outs, r.outs...)
			next = append(next, r.back...)
		}
		next = e.joinParts(fr, l.header, next)
		if len(next) == 0 {
			return out, true
		}
		if len(next) > 6 || e.steps-saveSteps > 200000 {
			return fail()
		}
		cur = next
	}
	return fail()
}

func (e *Engine) loop(fr *frame, l *loopInfo, p *Part) regionOut {
	// objects of an earlier run of this loop are not confused with ours
	if out, ok := e.tryUnroll(fr, l, p); ok {
		return out
	}
	lid := fmt.Sprintf("%s:L%d", fr.ctx, l.header.Index)
	for _, it := range e.iters {
		lid += "," + fmt.Sprint(it.id)
	}
	itSym := mkSym("it:"+lid, tyU64)
	e.iters = append(e.iters, itSym)
	defer func() { e.iters = e.iters[:len(e.iters)-1] }()

	phis := []*ssa.Phi{}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
	}
	vars := map[interface{}]*lvar{}
	var order []*lvar

	install := func(q *Part, final bool) {
		for _, v := range order {
			val := v.sym
			if final && v.closed != nil {
				val = v.closed
			}
			if v.obj != nil { // slice variable
				c := v.cont
				if final && v.closed != nil {
					c = v.closed
				}
				q.st.mem[v.obj] = c
				n := lenOf(c)
				val = mkSlice(v.obj, tZero, n, mkApp("cap", tyInt, v.obj, n))
			}
			if v.phi != nil {
				q.env[v.phi] = val
			} else {
				q.st.mem[v.cell] = val
			}
		}
	}
	headVal := func(q *Part, v *lvar) *Term {
		if v.phi != nil {
			return q.env[v.phi]
		}
		return q.st.mem[v.cell]
	}
	var r regionOut
	var q0 *Part
	var fresh map[*Term]bool
	e.quiet++
	for round := 0; ; round++ {
		if round > 60 {
			e.quiet--
			panic(&budgetError{"loop does not stabilise in " + fr.fn.String()})
		}
		q := p.clone()
		install(q, false)
		q0 = q.clone()
		logStart := len(e.allocLog)
		r = e.runRegion(fr, l.header, []*Part{q}, l.blocks, l.header)
		fresh = map[*Term]bool{}
		for _, o := range e.allocLog[logStart:] {
			fresh[o] = true
		}
		changed := false
		addVar := func(v *lvar) {
			changed = true
			order = append(order, v)
		}
		for _, b := range r.back {
			for _, phi := range phis {
				if b.env[phi] == q0.env[phi] || vars[phi] != nil {
					continue
				}
				v := &lvar{phi: phi, init: p.env[phi]}
				vars[phi] = v
				name := fmt.Sprintf("lv:%s:%d", lid, len(order))
				nf := fr.info
				_ = nf
				if _, ok := phi.Type().Underlying().(*types.Slice); ok {
					v.obj = intern(&Term{op: OObj, sym: name + ":obj", typ: phi.Type()})
					v.cont = mkSym(name+":cont", types.NewSlice(elemOf(phi.Type())))
					v.init = e.content(p.st, p.env[phi])
					v.sym = v.cont
				} else {
					v.sym = mkSym(name, phi.Type())
				}
				addVar(v)
			}
			keys := map[*Term]bool{}
			for a := range b.st.mem {
				keys[a] = true
			}
			for a := range q0.st.mem {
				keys[a] = true
			}
			var ks []*Term
			for a := range keys {
				ks = append(ks, a)
			}
			sortTerms(ks)
			for _, a := range ks {
				if vars[a] != nil || fresh[rootOf(a)] || varying(a, order) {
					continue
				}
				isLVObj := false
				for _, v := range order {
					if v.obj == a {
						isLVObj = true
					}
				}
				if isLVObj {
					continue
				}
				nv, ok := b.st.mem[a]
				ov, ok2 := q0.st.mem[a]
				if !ok {
					continue
				}
				if !ok2 {
					ov = e.initialCell(p.st, a, nv)
				}
				if ok && nv == ov {
					continue
				}
				v := &lvar{cell: a, init: ov}
				if !ok2 {
					v.init = ov
				}
				vars[a] = v
				name := fmt.Sprintf("lv:%s:%d", lid, len(order))
				var t types.Type
				if nv.typ != nil {
					t = nv.typ
				} else if ov.typ != nil {
					t = ov.typ
				} else {
					t = a.typ
				}
				if nv.op == OSlice || nv.op == OApp && nv.sym == "newslice" {
					et := types.Type(nil)
					if nv.op == OSlice && nv.args[0].typ != nil {
						et = elemOf(nv.args[0].typ)
					}
					v.obj = intern(&Term{op: OObj, sym: name + ":obj"})
					if et != nil {
						v.obj.typ = types.NewSlice(et)
						v.cont = mkSym(name+":cont", types.NewSlice(et))
					} else {
						v.cont = mkSym(name+":cont", nil)
					}
					v.init = e.content(p.st, ov)
					v.sym = v.cont
				} else if isSeqOp(nv) || isSeqOp(ov) {
					if et := elemType(nv); et != nil {
						t = types.NewSlice(et)
					} else if et := elemType(ov); et != nil {
						t = types.NewSlice(et)
					}
					v.sym = mkSym(name+":seq", t)
				} else {
					v.sym = mkSym(name, t)
				}
				addVar(v)
			}
		}
		if !changed {
			break
		}
	}
	// closed forms
	e.closeVars(fr, p, q0, r.back, order, itSym, fresh)
	if e.hooks.Close != nil {
		e.hooks.Close(&loopAt{e: e, fr: fr, l: l, p: p, back: r.back, order: order, it: itSym})
	}
	e.quiet--
	if len(order) == 0 && len(r.back) == 0 && e.quiet > 0 {
		return r
	}
	// final pass with the closed forms
	fin := p.clone()
	closedOf := map[*Term]*Term{}
	for _, v := range order {
		if v.closed != nil && v.obj == nil {
			closedOf[v.sym] = v.closed
		}
	}
	ecells, elost := eachCells(r.back, itSym, func(a *Term) *Term { return subst(a, closedOf) })
	evSym := mkSym(eachSym+lid, tyU64)
	eachKey := func(a *Term) *Term { return mkApp("each", nil, subst1(a, itSym, evSym), evSym) }
	if elost {
		fin.st.mem[lostKey] = tTrue
	}
	for _, a := range ecells {
		fin.st.mem[eachKey(a)] = mkApp("eachv", nil, mkSym("pending:"+lid, nil), itSym)
	}
	// writes to a different element in each iteration: forget symbolic memory
	fieldsOnly := false
	for _, b := range r.back {
		for a := range b.st.mem {
			if r := rootOf(a); r.op != OObj && r.op != OGlob && !isEach(a) && !isNewobj(r) && varying(a, order) {
				if a.op == OFld && a.args[0].op != OFld && a.args[0].op != OIdx && a.ival.Int64() < 1000 {
					fieldsOnly = true
					continue
				}
				fin.st.epoch++
				e.note("element writes in a loop in " + e.prog.FuncName(fr.fn))
				goto bumped
			}
		}
	}
	if fieldsOnly {
		fin.st.fields++
		e.note("field writes in a loop in " + e.prog.FuncName(fr.fn))
	}
bumped:
	install(fin, true)
	pre := fin.st.facts.clone()
	_ = headVal
	r = e.runRegion(fr, l.header, []*Part{fin}, l.blocks, l.header)
	e.eachWrites(&r, pre, itSym, evSym, ecells, eachKey, order)

	// facts common to every iteration that went on
	var common []*Term
	if len(r.back) > 0 {
		seen := map[*Term]bool{}
		for k, b0 := range r.back {
			for _, f := range b0.st.facts.list() {
				if seen[f] || pre.m[f] || !occurs(f, itSym) || mentionsFresh(f, fresh) {
					continue
				}
				seen[f] = true
				all := true
				for j, b := range r.back {
					if j != k && !b.st.facts.m[f] && (f.op == OAll || !b.st.facts.prove(f)) {
						all = false
						break
					}
				}
				if all {
					common = append(common, f)
				}
			}
		}
		common = strongest(common)
		if d := wentOn(&Part{st: &State{facts: pre}}, r.back, itSym, fresh); d != nil {
			common = append(common, d)
		}
	}
	var out regionOut
	out.outs = r.outs
	first, leaves := firstExit(itSym, r, common)
	for _, x := range r.exits {
		out.exits = append(out.exits, e.finishExit(x, itSym, pre, r.back, common, first, leaves)...)
	}
	if first != nil {
		for i, o := range out.outs {
			if leaves(o.st) {
				e.substState(o.st, itSym, first, common)
				out.outs[i].res = subst1(o.res, itSym, first)
			}
		}
	}
	return out
}

// wentOn is the condition under which an iteration went on, when it did so in
// one of several ways: one of their guards held.
func wentOn(base *Part, back []*Part, it *Term, fresh map[*Term]bool) *Term {
	if len(back) < 2 || len(back) > 8 {
		return nil
	}
	var guards [][]*Term
	for _, b := range back {
		g := guardOf(b, base, back)
		lits := []*Term{g}
		if g.op == OAnd {
			lits = g.args
		}
		if g.op == OBool || len(lits) > 4 || !occurs(g, it) || mentionsFresh(g, fresh) {
			return nil
		}
		for _, l := range lits {
			if l.op == OAll || l.op == OAnd {
				return nil
			}
		}
		guards = append(guards, lits)
	}
	sort.SliceStable(guards, func(i, j int) bool { return len(guards[i]) < len(guards[j]) })
	none := base.st.facts.clone()
	var neg []*Term
	for _, lits := range guards {
		var keep []*Term
		for _, l := range lits {
			if !none.prove(l) {
				keep = append(keep, l)
			}
		}
		n := mkNot(mkAnd(keep))
		if n.op == OBool || !none.assume(n) {
			return nil
		}
		neg = append(neg, n)
	}
	d := mkNot(mkAnd(neg))
	if d.op == OBool {
		return nil
	}
	return d
}

// varying: the address itself depends on a location the loop changes.
func varying(a *Term, order []*lvar) bool {
	for _, v := range order {
		if occurs(a, v.sym) {
			return true
		}
	}
	return false
}

func mentionsFresh(t *Term, fresh map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if fresh[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// initialCell is the value of a cell before anything wrote it.
func (e *Engine) initialCell(st *State, a, like *Term) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if a.op == OFld && a.ival.Int64() >= 1000 {
		switch a.ival.Int64() {
		case cellBig, cellPos:
			if a.args[0].op == OObj {
				return tZero
			}
		case cellSeq, cellOut, cellAux:
			if a.args[0].op == OObj {
				return tEmpty
			}
		}
		return e.defaultOf(&State{epoch: st.epoch, fields: st.fields, hav: map[*Term]bool{rootOf(a): true}}, a, like.typ)
	}
	if a.op == OApp && a.sym == "ptr" {
		return e.loadArr(st, a)
	}
	t := a.typ
	if t == nil {
		t = like.typ
	}
	if t == nil {
		return intern(&Term{op: OLd, args: []*Term{a}})
	}
	if a.op == OObj || a.op == OSym || a.op == OGlob {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
	}
	return e.load(st, a, t)
}

// guardOf is the condition under which an iteration took this path.
func guardOf(b *Part, base *Part, others []*Part) *Term {
	var lits []*Term
	for _, f := range b.st.facts.list() {
		if base.st.facts.m[f] {
			continue
		}
		inAll := true
		for _, o := range others {
			if o != b && !o.st.facts.m[f] && !o.st.facts.prove(f) {
				inAll = false
				break
			}
		}
		if inAll {
			continue
		}
		lits = append(lits, f)
	}
	// drop what the others imply
	var keep []*Term
	for i, f := range lits {
		rest := base.st.facts.clone()
		for j, g := range lits {
			if j != i && (j > i || contains(keep, g)) {
				rest.add(g)
			}
		}
		if rest.prove(f) {
			continue
		}
		keep = append(keep, f)
	}
	return mkAnd(keep)
}

func contains(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// closeVars finds the value of each changed location after itSym iterations.
func (e *Engine) closeVars(fr *frame, p, q0 *Part, back []*Part, order []*lvar, it *Term, fresh map[*Term]bool) {
	if len(back) == 0 || len(order) == 0 {
		return
	}
	guards := make([]*Term, len(back))
	for i, b := range back {
		guards[i] = guardOf(b, q0, back)
	}
	// value of each variable at the end of each path
	vals := map[*lvar][]*Term{}
	for _, v := range order {
		for _, b := range back {
			var x *Term
			if v.phi != nil {
				x = b.env[v.phi]
			} else {
				x = b.st.mem[v.cell]
				if x == nil {
					x = v.sym
				}
			}
			if v.obj != nil {
				x = e.content(b.st, x)
			}
			if mentionsFresh(x, fresh) {
				x = e.reify(b.st, x)
			}
			vals[v] = append(vals[v], x)
		}
	}
	closed := map[*Term]*Term{} // symbol -> closed form in it
	apply := func(t *Term) *Term { return subst(t, closed) }
	unresolved := func(t *Term, self *lvar) bool {
		for _, v := range order {
			if v != self && v.closed == nil && occurs(t, v.sym) {
				return true
			}
		}
		return false
	}
	var alt func(ts []*Term) *Term
	alt = func(ts []*Term) *Term {
		var pr []*Term
		// one record per iteration, whose fields depend on the path
		if rs := frozenUnits(ts); rs != nil {
			f := make([]*Term, len(rs[0].args))
			for i := range f {
				fs := make([]*Term, len(rs))
				for k, r := range rs {
					fs[k] = r.args[i]
				}
				f[i] = alt(fs)
			}
			return mkUnit(mkApp("newobj", ts[0].args[0].typ, mkStruct(rs[0].typ, f)))
		}
		// paths with the same value share a guard
		byVal := map[*Term][]int{}
		var keys []*Term
		for i, t := range ts {
			if byVal[t] == nil {
				keys = append(keys, t)
			}
			byVal[t] = append(byVal[t], i)
		}
		if len(keys) == 1 {
			return keys[0]
		}
		for _, k := range keys {
			var sub []*Part
			for _, i := range byVal[k] {
				sub = append(sub, back[i])
			}
			if len(sub) == 1 {
				pr = append(pr, apply(guards[byVal[k][0]]), k)
				continue
			}
			// common part of the guards of these paths
			f := sub[0].st.facts
			for _, s := range sub[1:] {
				f = meetFacts(f, s.st.facts)
			}
			m := &Part{st: &State{facts: f}}
			var others []*Part
			for i, b := range back {
				if ts[i] != k {
					others = append(others, b)
				}
			}
			g := guardOf(m, q0, append(others, m))
			if g == tTrue {
				// no common literal tells these paths apart: complement of the rest
				var neg []*Term
				for i := range back {
					if ts[i] != k {
						neg = append(neg, mkNot(apply(guards[i])))
					}
				}
				g = mkAnd(neg)
			}
			pr = append(pr, apply(g), k)
		}
		return mkAlt(pr...)
	}
	for progress := true; progress; {
		progress = false
		for _, v := range order {
			if v.closed != nil {
				continue
			}
			xs := make([]*Term, len(back))
			for i := range back {
				xs[i] = apply(vals[v][i])
			}
			// induction and sums
			if v.obj == nil && !isSeqLike(v) {
				ds := make([]*Term, len(xs))
				ok := true
				for i, x := range xs {
					ds[i] = mkSubt(x, v.sym)
					if occurs(ds[i], v.sym) || !numericVar(v) {
						ok = false
						break
					}
				}
				if ok {
					d := alt(ds)
					if !unresolved(d, v) {
						if !occurs(d, it) {
							v.closed = mkAdd(v.init, mkMul(d, it))
						} else {
							lv := d.bvmax + 1
							v.closed = mkAdd(v.init, mkSum(it, subst1(d, it, mkBV(lv)), lv))
						}
						closed[v.sym] = v.closed
						progress = true
						continue
					}
				}
			}
			// appended and prepended sequences
			if isSeqLike(v) {
				if c := closeSeq(v, xs, alt, it, unresolved); c != nil {
					v.closed = c
					closed[v.sym] = c
					progress = true
					continue
				}
			}
		}
		if progress {
			continue
		}
		// general recurrence of one variable
		for _, v := range order {
			if v.closed != nil {
				continue
			}
			xs := make([]*Term, len(back))
			for i := range back {
				xs[i] = apply(vals[v][i])
			}
			x := alt(xs)
			if unresolved(x, v) || mentionsFresh(x, fresh) || v.obj != nil && false {
				continue
			}
			// primed: the value before the loop is that of an iteration before the first
			if !occurs(x, v.sym) && occurs(x, it) && equalUnder(p.st.facts, v.init, subst1(x, it, mkInt(-1)), 4) {
				v.closed = subst1(x, it, mkAddK(it, -1))
				closed[v.sym] = v.closed
				progress = true
				break
			}
			lv := x.bvmax + 1
			body := subst(x, map[*Term]*Term{v.sym: mkAcc(lv), it: mkBV(lv)})
			if !occurs(body, mkAcc(lv)) && !occurs(body, mkBV(lv)) && v.init == body {
				v.closed = v.init
			} else {
				v.closed = mkRec(v.init, it, body, lv)
				setTyp(v.closed, v.sym.typ)
			}
			closed[v.sym] = v.closed
			progress = true
			break
		}
		if !progress {
			progress = closeJoint(order, it, closed, func(v *lvar) *Term {
				xs := make([]*Term, len(back))
				for i := range back {
					xs[i] = apply(vals[v][i])
				}
				if x := alt(xs); !mentionsFresh(x, fresh) {
					return x
				}
				return nil
			})
		}
	}
	for _, v := range order {
		if v.closed == nil {
			e.note("loop value without closed form in " + e.prog.FuncName(fr.fn))
		}
	}
}

// closeJoint closes a smallest group of variables that determine each other's
// next values: each is its place in a recurrence over the group's tuple,
// ordered by first use from the variable itself.
func closeJoint(order []*lvar, it *Term, closed map[*Term]*Term, next func(v *lvar) *Term) bool {
	bySym := map[*Term]*lvar{}
	for _, v := range order {
		if v.closed == nil {
			bySym[v.sym] = v
		}
	}
	body := map[*lvar]*Term{}
	for _, v := range order {
		if v.closed == nil {
			body[v] = next(v)
		}
	}
	group := func(v *lvar) []*lvar {
		g := []*lvar{v}
		in := map[*lvar]bool{v: true}
		for i := 0; i < len(g); i++ {
			if body[g[i]] == nil {
				return nil
			}
			seen := map[*Term]bool{}
			var rec func(t *Term)
			rec = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if w := bySym[t]; w != nil && !in[w] {
					in[w] = true
					g = append(g, w)
				}
				for _, a := range t.args {
					rec(a)
				}
			}
			rec(body[g[i]])
		}
		return g
	}
	var best []*lvar
	for _, v := range order {
		if v.closed != nil {
			continue
		}
		if g := group(v); g != nil && (best == nil || len(g) < len(best)) {
			best = g
		}
	}
	if best == nil {
		return false
	}
	forms := make([]*Term, len(best))
	for i, v := range best {
		g := group(v)
		lv := 1
		for _, w := range g {
			if b := body[w].bvmax + 1; b > lv {
				lv = b
			}
		}
		m := map[*Term]*Term{it: mkBV(lv)}
		for k, w := range g {
			m[w.sym] = mkProj(k, w.sym.typ, mkAcc(lv))
		}
		var init, next []*Term
		for _, w := range g {
			init = append(init, w.init)
			next = append(next, subst(body[w], m))
		}
		forms[i] = mkProj(0, v.sym.typ, mkRec(mkTup(init...), it, mkTup(next...), lv))
	}
	for i, v := range best {
		v.closed = forms[i]
		closed[v.sym] = forms[i]
	}
	return true
}

// mkProj is a component of a tuple.
func mkProj(k int, typ types.Type, t *Term) *Term {
	if t.op == OTup && k < len(t.args) {
		return t.args[k]
	}
	return mkApp(fmt.Sprintf("proj%d", k), typ, t)
}

// firstExit is the number of the iteration that leaves a loop whose every
// exit refutes one of the facts common to the iterations that went on: the
// least at which one of them does not hold.
func firstExit(it *Term, r regionOut, common []*Term) (*Term, func(st *State) bool) {
	refutes := func(st *State, f *Term) bool {
		n := mkNot(f)
		return st.facts.m[n] || n.op == OAnd && st.facts.prove(n)
	}
	isCommon := map[*Term]bool{}
	for _, f := range common {
		isCommon[f] = f.op != OAll
	}
	// conjunctions of common facts that a state refutes as a whole
	joint := func(st *State, ok func(*Term) bool) [][]*Term {
		var out [][]*Term
	next:
		for _, g := range st.facts.list() {
			if g.op != ONot || g.args[0].op != OAnd {
				continue
			}
			for _, a := range g.args[0].args {
				if !ok(a) {
					continue next
				}
			}
			out = append(out, g.args[0].args)
		}
		return out
	}
	isUsed := map[*Term]bool{}
	states := []*State{}
	for _, x := range r.exits {
		states = append(states, x.p.st)
	}
	for _, o := range r.outs {
		states = append(states, o.st)
	}
	for _, st := range states {
		for _, f := range common {
			if f.op != OAll && refutes(st, f) {
				isUsed[f] = true
			}
		}
		for _, fs := range joint(st, func(t *Term) bool { return isCommon[t] }) {
			for _, f := range fs {
				isUsed[f] = true
			}
		}
	}
	var used []*Term
	for _, f := range common {
		if isUsed[f] {
			used = append(used, f)
		}
	}
	if len(used) == 0 {
		return nil, nil
	}
	c := mkAnd(used)
	lv := c.bvmax + 1
	t := mkFirst(subst1(c, it, mkBV(lv)), lv)
	return t, func(st *State) bool {
		for _, f := range used {
			if refutes(st, f) {
				return true
			}
		}
		return len(joint(st, func(t *Term) bool { return isUsed[t] })) > 0
	}
}

func numericVar(v *lvar) bool {
	if v.sym.typ != nil {
		if isInteger(v.sym.typ) {
			return true
		}
		if _, ok := v.sym.typ.Underlying().(*types.Basic); ok {
			return false
		}
	}
	if v.cell != nil && v.cell.op == OFld {
		switch v.cell.ival.Int64() {
		case cellBig, cellPos:
			return true
		}
	}
	return isNumeric(v.init)
}

func isSeqLike(v *lvar) bool {
	if v.obj != nil {
		return true
	}
	if v.sym.typ != nil && isSeqType(v.sym.typ) {
		return true
	}
	return isSeqOp(v.init) || v.sym.typ != nil && elemOf(v.sym.typ) != nil && v.cell != nil
}

// closeSeq handles append, prepend and fill-by-index accumulation.
func closeSeq(v *lvar, xs []*Term, alt func([]*Term) *Term, it *Term, unresolved func(*Term, *lvar) bool) *Term {
	self := v.sym
	app, pre := true, true
	var as, ps []*Term
	for _, x := range xs {
		items := catItems(x)
		if x == self {
			as, ps = append(as, tEmpty), append(ps, tEmpty)
			continue
		}
		if len(items) > 0 && items[0] == self {
			as = append(as, mkCat(items[1:]...))
		} else {
			app = false
		}
		if len(items) > 0 && items[len(items)-1] == self {
			ps = append(ps, mkCat(items[:len(items)-1]...))
		} else {
			pre = false
		}
	}
	try := func(ts []*Term) *Term {
		for _, t := range ts {
			if unresolved(t, v) {
				return nil
			}
		}
		b := alt(ts)
		if unresolved(b, v) {
			return nil
		}
		return b
	}
	if app {
		if b := try(as); b != nil {
			lv := b.bvmax + 1
			if occurs(b, self) {
				// items that refer to what was written so far (offsets): by recurrence only
				return nil
			}
			return mkCat(v.init, mkStar(it, subst1(b, it, mkBV(lv)), lv))
		}
	}
	if pre {
		if b := try(ps); b != nil && !occurs(b, self) {
			lv := b.bvmax + 1
			rev := subst1(b, it, mkSubt(mkAddK(it, -1), mkBV(lv)))
			return mkCat(mkStar(it, rev, lv), v.init)
		}
	}
	// a fixed number of items is cut off the front each time
	if len(xs) == 1 && xs[0].op == OSub && xs[0].args[0] == self {
		k := xs[0].args[1]
		if k.isInt() && k.ival.Sign() > 0 && xs[0].args[2] == mkSubt(lenOf(self), k) {
			off := mkMul(k, it)
			return mkSub(v.init, off, mkSubt(lenOf(v.init), off))
		}
	}
	// fill: v[it+c] = x, one path
	if len(xs) == 1 && xs[0].op == OUpd && xs[0].args[0] == self {
		i, x := xs[0].args[1], xs[0].args[2]
		if !occurs(x, self) && !unresolved(x, v) && !occurs(i, self) {
			c := mkSubt(i, it)
			if !occurs(c, it) {
				lv := x.bvmax + 1
				end := mkAdd(c, it)
				star := mkStar(it, mkUnit(subst1(x, it, mkBV(lv))), lv)
				return mkFill(v.init, c, it, star, end)
			}
		}
	}
	// piecewise fill: splice(self, w*it+c, part) with part of fixed width w
	if len(xs) == 1 && xs[0].op == OApp && xs[0].sym == "splice" && xs[0].args[0] == self {
		off, part := xs[0].args[1], xs[0].args[2]
		if w, ok := lenOf(part).int64(); ok && !occurs(part, self) && !unresolved(part, v) {
			c := mkSubt(off, mkScale(it, big.NewInt(w)))
			if !occurs(c, it) && !occurs(c, self) {
				lv := part.bvmax + 1
				star := mkStar(it, subst1(part, it, mkBV(lv)), lv)
				return mkFill(v.init, c, mkScale(it, big.NewInt(w)), star, mkAdd(c, mkScale(it, big.NewInt(w))))
			}
		}
	}
	return nil
}

// mkFill is init with [c, end) replaced by star; the tail is cut once end is known.
func mkFill(init, c, n, star, end *Term) *Term {
	head := tEmpty
	if !c.isK(0) {
		head = mkSub(init, tZero, c)
	}
	tail := mkSubt(lenOf(init), end)
	return mkCat(head, star, mkSub(init, end, tail))
}

// finishExit replaces the iteration counter by the trip count where an exit decides it.
func (e *Engine) finishExit(x exitPart, it *Term, pre *Facts, back []*Part, common []*Term, first *Term, leaves func(*State) bool) []exitPart {
	st := x.p.st
	var trip *Term
	var forks []exitPart
	for _, f := range st.facts.list() {
		if pre.m[f] {
			continue
		}
		if f.op == OEq && len(f.args) == 1 {
			l := asLinear(f.args[0])
			for i, a := range l.atoms {
				if a == it {
					c := l.coefs[i]
					rest := linCombine(f.args[0], bigOne, it, new(big.Int).Neg(c))
					if occurs(rest, it) {
						continue
					}
					if c.Cmp(bigOne) == 0 {
						trip = mkNeg(rest)
					} else if c.Cmp(big.NewInt(-1)) == 0 {
						trip = rest
					}
				}
			}
			if trip != nil {
				break
			}
		}
	}
	if trip == nil {
		for _, f := range st.facts.list() {
			if pre.m[f] || f.op != OLe0 {
				continue
			}
			l := asLinear(f.args[0])
			for i, a := range l.atoms {
				if a != it || l.coefs[i].Sign() >= 0 {
					continue
				}
				c := new(big.Int).Neg(l.coefs[i])
				A := linCombine(f.args[0], bigOne, it, c) // A <= c*it
				if occurs(A, it) {
					continue
				}
				// every iteration that went on had the opposite
				neg := mkNot(f)
				ok := len(back) > 0
				for _, b := range back {
					if !b.st.facts.prove(neg) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				n := A
				if c.Cmp(bigOne) != 0 {
					n = mkQuo(mkAdd(A, mkBig(new(big.Int).Sub(c, bigOne))), mkBig(c))
					if lo, _ := pre.interval(A); lo == nil || lo.Sign() < 0 {
						if !pre.prove(mkLe0(mkNeg(A))) {
							continue
						}
					}
				}
				if pre.prove(mkLe0(mkNeg(A))) {
					trip = n
				} else {
					// the loop may not run at all
					q := x.p.clone()
					if q.st.facts.assume(mkLe0(A)) && q.st.facts.assume(mkEq0(it)) {
						forks = append(forks, e.substExit(exitPart{x.from, x.to, q}, it, tZero, nil))
					}
					if st.facts.assume(mkLe0(mkSubt(tOne, A))) {
						trip = n
					} else {
						return forks
					}
				}
				break
			}
			if trip != nil {
				break
			}
		}
	}
	if trip == nil && first != nil && leaves(st) {
		trip = first
	}
	if trip == nil {
		// all completed iterations satisfied the common facts
		for _, f := range common {
			lv := f.bvmax + 1
			st.facts.add(mkAll(it, subst1(f, it, mkBV(lv)), lv))
		}
		return append(forks, x)
	}
	return append(forks, e.substExit(x, it, trip, common))
}

func (e *Engine) substState(st *State, it, trip *Term, common []*Term) {
	m := map[*Term]*Term{it: trip}
	memo := map[*Term]*Term{}
	nf := newFacts()
	for f := range st.facts.m {
		g := substMemo(f, m, memo)
		if g != tTrue && g.op != OBool {
			nf.add(g)
		}
	}
	for _, f := range common {
		lv := f.bvmax + 1
		nf.add(mkAll(trip, subst1(f, it, mkBV(lv)), lv))
	}
	st.facts = nf
	nm := make(map[*Term]*Term, len(st.mem))
	for a, v := range st.mem {
		nm[substMemo(a, m, memo)] = substMemo(v, m, memo)
	}
	st.mem = nm
}

func (e *Engine) substExit(x exitPart, it, trip *Term, common []*Term) exitPart {
	e.substState(x.p.st, it, trip, common)
	m := map[*Term]*Term{it: trip}
	memo := map[*Term]*Term{}
	for k, v := range x.p.env {
		x.p.env[k] = substMemo(v, m, memo)
	}
	for i := range x.p.defers {
		d := x.p.defers[i]
		d.args = append([]*Term{}, d.args...)
		for j := range d.args {
			d.args[j] = substMemo(d.args[j], m, memo)
		}
	}
	return x
}

// strongest drops bounds that another bound on the same quantity implies.
func strongest(fs []*Term) []*Term {
	best := map[string]*Term{}
	key := func(f *Term) string {
		l := asLinear(f.args[0])
		var b strings.Builder
		for i, a := range l.atoms {
			fmt.Fprintf(&b, "%d*%d,", a.id, l.coefs[i])
		}
		return b.String()
	}
	for _, f := range fs {
		if f.op != OLe0 {
			continue
		}
		k := key(f)
		if o := best[k]; o == nil || asLinear(o.args[0]).k.Cmp(asLinear(f.args[0]).k) < 0 {
			best[k] = f
		}
	}
	var out []*Term
	for _, f := range fs {
		if f.op != OLe0 || best[key(f)] == f {
			out = append(out, f)
		}
	}
	return out
}
