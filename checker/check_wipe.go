package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id:    "C29",
		rule:  "The fields that hold one-time secrets are those that values derived from a nonce are stored into, or that hold a private key; from every combination of them that a history of calls can leave set, every path of the closing method zeroes each such number in place and drops each key. A function that draws a nonce and neither returns nor stores it has zeroed it, and what is derived from it, at every exit.",
		floor: 20,
		run:   func(c *Ctx) { newWipes(c).check() },
	})
}

type wipes struct {
	c       *Ctx
	funcs   []*ssa.Function
	tainted map[ssa.Value]bool
	fields  map[string]*wfield // "rel.T#i"
	cells   map[ssa.Value]bool // allocs holding a secret
	rets    map[*ssa.Function]bool
}

type wfield struct {
	named *types.Named
	index int
	key   bool // a private key: dropped, not zeroed
}

var nonceSources = []string{"xcrypto/ecdsa.NonceRFC6979", "xcrypto/schnorr.GetK0"}

func newWipes(c *Ctx) *wipes {
	w := &wipes{c: c, tainted: map[ssa.Value]bool{}, fields: map[string]*wfield{}, cells: map[ssa.Value]bool{}, rets: map[*ssa.Function]bool{}}
	for _, f := range c.p.Funcs {
		if r := c.p.RelOf(f); !c.p.InMock(f) && !c.p.IsSpec(f) && f.Blocks != nil && (r == "xcrypto" || strings.HasPrefix(r, "xcrypto/")) && f.Synthetic == "" {
			w.funcs = append(w.funcs, f)
		}
	}
	for _, s := range nonceSources {
		i := strings.LastIndexByte(s, '.')
		f := c.p.Func(s[:i], "", s[i+1:])
		need("nonce function "+s, f != nil)
		w.rets[f] = true
	}
	w.taint()
	return w
}

func secretType(t types.Type) bool {
	switch t.String() {
	case "*math/big.Int", "math/big.Int", "[]byte":
		return true
	}
	return false
}

func isKeyPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && (n.Obj().Name() == "PrvKey" || n.Obj().Name() == "PrivateKey")
}

// carries lists the methods of big numbers whose result tells the nonce that
// goes in.
var carries = map[string]bool{"Set": true, "ModInverse": true, "Mod": true, "Neg": true, "Sub": true, "SetBytes": true, "Bytes": true, "FillBytes": true, "Lsh": true, "Rsh": true, "Abs": true, "Rem": true}

func (w *wipes) fieldKey(x ssa.Value, i int) (string, *types.Named) {
	t := derefType(x.Type())
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", nil
	}
	return fmt.Sprintf("%s.%s#%d", n.Obj().Pkg().Path(), n.Obj().Name(), i), n
}

func (w *wipes) taint() {
	inside := map[*ssa.Function]bool{}
	for _, f := range w.funcs {
		inside[f] = true
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !w.tainted[v] {
				w.tainted[v] = true
				changed = true
			}
		}
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Phi:
						for _, e := range x.Edges {
							if w.tainted[e] {
								mark(x)
							}
						}
					case *ssa.Extract:
						if w.tainted[x.Tuple] && secretType(x.Type()) {
							mark(x)
						}
					case *ssa.Slice:
						if w.tainted[x.X] {
							mark(x)
						}
					case *ssa.ChangeType:
						if w.tainted[x.X] {
							mark(x)
						}
					case *ssa.UnOp:
						if x.Op != token.MUL {
							continue
						}
						if w.tainted[x.X] || w.cells[x.X] {
							mark(x)
						}
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							if k, _ := w.fieldKey(fa.X, fa.Field); w.fields[k] != nil && !w.fields[k].key {
								mark(x)
							}
						}
					case *ssa.FieldAddr:
						// a number held by value
						if k, _ := w.fieldKey(x.X, x.Field); w.fields[k] != nil && !w.fields[k].key && derefType(x.Type()).String() == "math/big.Int" {
							mark(x)
						}
					case *ssa.Store:
						if !w.tainted[x.Val] {
							continue
						}
						switch a := x.Addr.(type) {
						case *ssa.FieldAddr:
							k, n := w.fieldKey(a.X, a.Field)
							if n != nil && w.fields[k] == nil {
								w.fields[k] = &wfield{named: n, index: a.Field}
								changed = true
							}
						case *ssa.Alloc, *ssa.FreeVar:
							if !w.cells[a] {
								w.cells[a] = true
								changed = true
							}
						}
					case *ssa.MakeClosure:
						for i, bd := range x.Bindings {
							fv := x.Fn.(*ssa.Function).FreeVars[i]
							if w.cells[bd] != w.cells[fv] {
								w.cells[bd], w.cells[fv] = true, true
								changed = true
							}
							if w.tainted[bd] {
								mark(fv)
							}
						}
					case *ssa.Return:
						for _, v := range x.Results {
							if w.tainted[v] && !w.rets[f] {
								w.rets[f] = true
								changed = true
							}
						}
					case ssa.CallInstruction:
						cc := x.Common()
						g := cc.StaticCallee()
						if g == nil {
							continue
						}
						if inside[g] {
							for i, a := range cc.Args {
								if w.tainted[a] && i < len(g.Params) && secretType(g.Params[i].Type()) {
									mark(g.Params[i])
								}
							}
							if v, ok := in.(ssa.Value); ok && w.rets[g] && !w.public(g, cc) {
								mark(v)
							}
							continue
						}
						if strings.HasPrefix(g.String(), "(*math/big.Int).") && carries[g.Name()] {
							any := false
							for i, a := range cc.Args {
								if i > 0 || g.Name() == "Bytes" {
									any = any || w.tainted[a]
								}
							}
							if !any {
								continue
							}
							if v, ok := in.(ssa.Value); ok && secretType(v.Type()) {
								mark(v)
							}
							// the receiver takes the value
							if g.Name() != "Bytes" && g.Name() != "FillBytes" && len(cc.Args) > 0 {
								mark(cc.Args[0])
								if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
									k, n := w.fieldKey(fa.X, fa.Field)
									if n != nil && w.fields[k] == nil {
										w.fields[k] = &wfield{named: n, index: fa.Field}
										changed = true
									}
								}
								if u, ok := cc.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
									if fa, ok := u.X.(*ssa.FieldAddr); ok {
										k, n := w.fieldKey(fa.X, fa.Field)
										if n != nil && w.fields[k] == nil {
											w.fields[k] = &wfield{named: n, index: fa.Field}
											changed = true
										}
									}
								}
							}
							if g.Name() == "FillBytes" {
								mark(cc.Args[1])
							}
						}
					}
				}
			}
		}
	}
}

// public: the call gives something derived from a secret only if one goes in.
func (w *wipes) public(g *ssa.Function, cc *ssa.CallCommon) bool {
	if w.source(g) {
		return false
	}
	// a function that returns what it is given is tainted by its arguments
	takes := false
	for _, p := range g.Params {
		if w.tainted[p] {
			takes = true
		}
	}
	if !takes {
		return false
	}
	for _, a := range cc.Args {
		if w.tainted[a] {
			return false
		}
	}
	return !w.draws(g, map[*ssa.Function]bool{})
}

func (w *wipes) source(g *ssa.Function) bool {
	for _, s := range nonceSources {
		if w.c.p.FuncName(g) == s {
			return true
		}
	}
	return false
}

func (w *wipes) draws(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || g.Blocks == nil {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(ssa.CallInstruction); ok {
				if h := x.Common().StaticCallee(); h != nil && (w.source(h) || w.draws(h, seen)) {
					return true
				}
			}
		}
	}
	return false
}

func (w *wipes) check() {
	c := w.c
	// sessions
	var sessions []*types.Named
	for _, rel := range c.p.rels() {
		if rel != "xcrypto" && !strings.HasPrefix(rel, "xcrypto/") {
			continue
		}
		sc := c.p.ByRel[rel].Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if m := n.Method(i); m.Name() == "Close" && m.Type().(*types.Signature).Params().Len() == 0 {
					sessions = append(sessions, n)
				}
			}
		}
	}
	need("a session with a closing method", len(sessions) >= 2)
	held := map[string]bool{}
	for _, n := range sessions {
		w.session(n, held)
	}
	for k, f := range w.fields {
		c.must(f.key || held[k], "session of "+c.typeName(f.named), "", "%s.%s holds a one-time secret and nothing closes it", c.typeName(f.named), structField(f.named, f.index))
	}
	n := 0
	for _, f := range w.funcs {
		n += w.locals(f)
	}
	c.count("closing methods", len(sessions))
	c.count("secret fields", len(held))
	c.count("local one-time secrets", n)
	need("functions that draw a nonce and keep it to themselves", n > 0)
}

func (p *Program) rels() []string {
	var out []string
	for r := range p.ByRel {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
}

// wpath is a secret inside a session: a field, or a field of a struct it
// holds.
type wpath struct {
	key   string
	idx   []int
	deref []bool // the struct is behind a pointer at this step
	keyp  bool
	name  string
	typ   types.Type
}

func (w *wipes) paths(n *types.Named, pre wpath, depth int) []wpath {
	var out []wpath
	s, ok := n.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		k := fmt.Sprintf("%s.%s#%d", n.Obj().Pkg().Path(), n.Obj().Name(), i)
		p := pre
		p.key = k
		p.idx = append(append([]int{}, pre.idx...), i)
		p.name = strings.TrimPrefix(pre.name+"."+s.Field(i).Name(), ".")
		p.typ = t
		if isKeyPtr(t) {
			p.keyp = true
			w.fields[k] = &wfield{named: n, index: i, key: true}
			out = append(out, p)
			continue
		}
		if w.fields[k] != nil {
			out = append(out, p)
			continue
		}
		in, isNamed := derefType(t).(*types.Named)
		if isNamed && in != n && in.Obj().Pkg() != nil && strings.HasPrefix(in.Obj().Pkg().Path(), w.c.p.Module) {
			_, ptr := t.(*types.Pointer)
			q := p
			q.deref = append(append([]bool{}, pre.deref...), ptr)
			out = append(out, w.paths(in, q, depth+1)...)
		}
	}
	return out
}

func (w *wipes) session(n *types.Named, held map[string]bool) {
	c := w.c
	name := c.typeName(n)
	ps := w.paths(n, wpath{}, 0)
	if len(ps) == 0 {
		return
	}
	ix := map[string]int{}
	for i, p := range ps {
		ix[p.key] = i
		held[p.key] = true
	}
	need("few secrets in "+name, len(ps) < 30)
	cl := c.p.SSA.FuncValue(methodOf(n, "Close"))
	need("(*"+name+").Close", cl != nil && cl.Blocks != nil)

	// what a history before closing can leave set
	flow := &setFlow{w: w, ix: ix, memo: map[string][]uint64{}, stack: map[*ssa.Function]bool{}, stores: map[*ssa.Function]bool{}}
	states := map[uint64]bool{}
	var work []uint64
	add := func(l []uint64) {
		for _, s := range l {
			if !states[s] {
				states[s] = true
				work = append(work, s)
			}
		}
	}
	var steps []*ssa.Function
	makers := 0
	for _, f := range w.funcs {
		if f.Parent() != nil {
			continue
		}
		makes := false
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if derefType(res.At(i).Type()) == types.Type(n) && f.Signature.Recv() == nil {
				makes = true
			}
		}
		if makes {
			makers++
			add(flow.run(f, 0, true))
			continue
		}
		if f != cl && flow.touches(f) && (f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil && f.Object().Exported()) {
			steps = append(steps, f)
		}
	}
	need("a constructor of "+name, makers > 0)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, f := range steps {
			add(flow.run(f, s, false))
		}
	}
	var list []uint64
	for s := range states {
		list = append(list, s)
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	c.count("reachable combinations", len(list))
	for _, s := range list {
		w.close(n, name, cl, ps, s)
	}
	c.analysed(cl)
}

func methodOf(n *types.Named, name string) *types.Func {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return n.Method(i)
		}
	}
	return nil
}

func (w *wipes) close(n *types.Named, name string, cl *ssa.Function, ps []wpath, set uint64) {
	c := w.c
	e := c.engine()
	st := newState()
	args := e.symArgs(cl)
	if _, ok := cl.Params[0].Type().(*types.Pointer); !ok {
		c.must(false, "receiver of "+name+".Close", c.p.Pos(cl.Pos()), "Close works on a copy of the session")
		return
	}
	recv := args[0]
	addrOf := func(st *State, p wpath) *Term {
		a := recv
		var t types.Type = n
		for k, i := range p.idx {
			s := t.Underlying().(*types.Struct)
			a = mkFld(a, i, types.NewPointer(s.Field(i).Type()))
			t = s.Field(i).Type()
			if k < len(p.deref) && p.deref[k] {
				a = e.load(st, a, t)
				t = derefType(t)
			}
		}
		return a
	}
	type start struct {
		obj *Term
		typ types.Type
	}
	vals := make([]start, len(ps))
	for i, p := range ps {
		a := addrOf(st, p)
		if p.typ.String() == "math/big.Int" {
			vals[i] = start{a, p.typ}
			continue
		}
		if set>>uint(i)&1 == 0 {
			e.store(st, a, tNil, p.typ)
			continue
		}
		o := e.alloc(st, "secret:"+p.name, p.typ)
		switch {
		case p.typ.String() == "*math/big.Int":
			st.mem[bigCell(o)] = mkSym("nonce:"+p.name, nil)
		case p.typ.String() == "[]byte":
			o = mkApp("nonnil", p.typ, mkSym("secret:"+p.name, nil))
		default:
			o = mkApp("nonnil", p.typ, mkSym("secret:"+p.name, nil))
		}
		vals[i] = start{o, p.typ}
		e.store(st, a, o, p.typ)
	}
	outs := e.Run(cl, st, args)
	need("an outcome of "+name+".Close", len(outs) > 0)
	for _, o := range outs {
		if o.st.facts != nil && o.st.facts.m[tFalse] {
			continue
		}
		where := c.p.Pos(cl.Pos())
		if o.instr != nil {
			where = c.p.Pos(o.instr.Pos())
		}
		if !c.must(!o.panic, name+".Close fails", where, "%s.Close can panic with %s set: %s", name, setNames(ps, set), o.why) {
			continue
		}
		for i, p := range ps {
			if vals[i].obj == nil {
				continue
			}
			now := e.load(o.st, addrOf(o.st, p), p.typ)
			if p.keyp {
				c.must(now == tNil, name+"."+p.name+" kept", where, "%s.Close can return with %s still in the session (%s set before)", name, p.name, setNames(ps, set))
				continue
			}
			if p.typ.String() == "[]byte" {
				c.must(now == tNil, name+"."+p.name+" kept", where, "%s.Close can return with %s still in the session (%s set before)", name, p.name, setNames(ps, set))
				continue
			}
			v := e.bigVal(o.st, vals[i].obj)
			c.must(v == tZero, name+"."+p.name+" left", where, "%s.Close can return with %s not zeroed (%s set before): it is %s", name, p.name, setNames(ps, set), clip(v.String()))
			if now != vals[i].obj && now != tNil && p.typ.String() == "*math/big.Int" {
				v := e.bigVal(o.st, now)
				c.must(v == tZero, name+"."+p.name+" left", where, "%s.Close can return with %s not zeroed", name, p.name)
			}
		}
	}
}

func setNames(ps []wpath, set uint64) string {
	var out []string
	for i, p := range ps {
		if set>>uint(i)&1 == 1 {
			out = append(out, p.name)
		}
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, ", ")
}

// setFlow follows which secret fields are set along the paths of a function.
type setFlow struct {
	w      *wipes
	ix     map[string]int
	memo   map[string][]uint64
	stack  map[*ssa.Function]bool
	stores map[*ssa.Function]bool
}

func (s *setFlow) touches(f *ssa.Function) bool {
	if v, ok := s.stores[f]; ok {
		return v
	}
	s.stores[f] = false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if s.index(x.Addr) >= 0 {
					s.stores[f] = true
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Blocks != nil && s.w.c.p.RelOf(g) == s.w.c.p.RelOf(f) && s.touches(g) {
					s.stores[f] = true
				}
			}
		}
	}
	return s.stores[f]
}

func (s *setFlow) index(addr ssa.Value) int {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return -1
	}
	k, _ := s.w.fieldKey(fa.X, fa.Field)
	if i, ok := s.ix[k]; ok {
		return i
	}
	return -1
}

func (s *setFlow) run(f *ssa.Function, in uint64, maker bool) []uint64 {
	key := fmt.Sprint(f.String(), in, maker)
	if v, ok := s.memo[key]; ok {
		return v
	}
	if s.stack[f] {
		return []uint64{in}
	}
	s.stack[f] = true
	defer delete(s.stack, f)
	type node struct {
		b *ssa.BasicBlock
		s uint64
	}
	seen := map[node]bool{}
	work := []node{{f.Blocks[0], in}}
	outs := map[uint64]bool{}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		cur := map[uint64]bool{n.s: true}
		for _, i := range n.b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if k := s.index(x.Addr); k >= 0 {
					next := map[uint64]bool{}
					kc, isNil := x.Val.(*ssa.Const)
					for v := range cur {
						if isNil && kc.IsNil() {
							next[v&^(1<<uint(k))] = true
						} else {
							next[v|1<<uint(k)] = true
						}
					}
					cur = next
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Blocks != nil && s.touches(g) {
					next := map[uint64]bool{}
					for v := range cur {
						for _, o := range s.run(g, v, false) {
							next[o] = true
						}
					}
					cur = next
				}
			case *ssa.Return:
				if maker && len(x.Results) > 0 {
					if k, ok := x.Results[0].(*ssa.Const); ok && k.IsNil() {
						continue
					}
				}
				for v := range cur {
					outs[v] = true
				}
			}
		}
		for _, b := range n.b.Succs {
			for v := range cur {
				work = append(work, node{b, v})
			}
		}
	}
	var out []uint64
	for v := range outs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	s.memo[key] = out
	return out
}

// locals: secrets that live in one call.
func (w *wipes) locals(f *ssa.Function) int {
	if f.Parent() != nil || !w.handles(f) {
		return 0
	}
	c := w.c
	g := w.groups(f)
	n := 0
	for id, grp := range g.list {
		if grp.param || grp.escapes || len(grp.defs) == 0 {
			continue
		}
		n++
		ok, where := w.wiped(f, g, id, grp.defs)
		c.must(ok, "secret of "+c.p.FuncName(f), where, "%s can return without zeroing %s, from which the key can be computed", c.p.FuncName(f), grp.name)
	}
	if n > 0 {
		c.analysed(f)
	}
	return n
}

// handles: the function draws a nonce itself or takes it from a session; what
// only receives numbers does not know that they are secret.
func (w *wipes) handles(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && (w.source(g) || w.rets[g] && w.draws(g, map[*ssa.Function]bool{})) {
					return true
				}
			case *ssa.FieldAddr:
				if k, _ := w.fieldKey(x.X, x.Field); w.fields[k] != nil && !w.fields[k].key {
					return true
				}
			}
		}
	}
	return false
}

type wgroup struct {
	defs    []ssa.Instruction
	name    string
	param   bool
	escapes bool
}

type wgroups struct {
	of   map[ssa.Value]int
	list []*wgroup
}

// groups puts together the names of each secret number in a function and the
// closures it makes.
func (w *wipes) groups(f *ssa.Function) *wgroups {
	parent := map[ssa.Value]ssa.Value{}
	var find func(v ssa.Value) ssa.Value
	find = func(v ssa.Value) ssa.Value {
		if parent[v] == nil {
			parent[v] = v
		}
		if parent[v] != v {
			parent[v] = find(parent[v])
		}
		return parent[v]
	}
	union := func(a, b ssa.Value) { parent[find(a)] = find(b) }
	var fs []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		fs = append(fs, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	type def struct {
		v ssa.Value
		i ssa.Instruction
	}
	var defs []def
	var outs []ssa.Value
	num := func(v ssa.Value) bool { return v.Type().String() == "*math/big.Int" }
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if _, ok := e.(*ssa.Const); !ok && num(x) && w.tainted[x] {
							union(x, e)
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && num(x) && w.tainted[x] {
						switch a := x.X.(type) {
						case *ssa.Alloc, *ssa.FreeVar:
							union(x, a)
						default:
							// held by a session
							outs = append(outs, x)
						}
					}
				case *ssa.Store:
					if num(x.Val) && w.tainted[x.Val] {
						switch a := x.Addr.(type) {
						case *ssa.Alloc, *ssa.FreeVar:
							union(x.Val, a)
						default:
							outs = append(outs, x.Val)
						}
					}
				case *ssa.MakeClosure:
					for i, bd := range x.Bindings {
						union(bd, x.Fn.(*ssa.Function).FreeVars[i])
					}
				case *ssa.Return:
					if f.Parent() == nil {
						for _, v := range x.Results {
							if num(v) {
								outs = append(outs, v)
							}
						}
					}
				case *ssa.Extract:
					if num(x) && w.tainted[x] {
						defs = append(defs, def{x, x})
					}
				case *ssa.Call:
					if !num(x) || !w.tainted[x] {
						continue
					}
					g := x.Call.StaticCallee()
					if g != nil && strings.HasPrefix(g.String(), "(*math/big.Int).") {
						if g.Name() != "SetInt64" && g.Name() != "SetUint64" {
							defs = append(defs, def{x.Call.Args[0], x})
						}
						union(x, x.Call.Args[0])
						continue
					}
					defs = append(defs, def{x, x})
				}
			}
		}
		for _, p := range f.Params {
			if num(p) && w.tainted[p] {
				outs = append(outs, p)
			}
		}
	}
	g := &wgroups{of: map[ssa.Value]int{}}
	ids := map[ssa.Value]int{}
	for _, d := range defs {
		r := find(d.v)
		id, ok := ids[r]
		if !ok {
			id = len(g.list)
			ids[r] = id
			g.list = append(g.list, &wgroup{name: nameOfValue(d.v)})
		}
		g.list[id].defs = append(g.list[id].defs, d.i)
	}
	for v := range parent {
		if id, ok := ids[find(v)]; ok {
			g.of[v] = id
		}
	}
	for _, d := range defs {
		g.of[d.v] = ids[find(d.v)]
	}
	for _, v := range outs {
		if id, ok := ids[find(v)]; ok {
			g.list[id].escapes = true
		}
	}
	return g
}

func nameOfValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "the result of " + f.Name()
		}
	case *ssa.Extract:
		return nameOfValue(x.Tuple)
	case *ssa.Alloc:
		if x.Comment != "" && x.Comment != "new" {
			return x.Comment
		}
	}
	return "a number derived from the nonce"
}

// wiped: on every path from a definition to a return the number is zeroed.
func (w *wipes) wiped(f *ssa.Function, g *wgroups, id int, defs []ssa.Instruction) (bool, string) {
	type node struct {
		b *ssa.BasicBlock
		s int // 0 not drawn, 1 live, 2 zeroed, 3 zeroing deferred
	}
	isDef := map[ssa.Instruction]bool{}
	for _, d := range defs {
		isDef[d] = true
	}
	seen := map[node]bool{}
	work := []node{{f.Blocks[0], 0}}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		s := n.s
		for _, in := range n.b.Instrs {
			if isDef[in] && s != 3 {
				s = 1
			}
			switch x := in.(type) {
			case *ssa.Defer:
				if w.zeroes(x.Common(), g, id, 0) {
					s = 3
				}
			case *ssa.Call:
				if s == 1 && w.zeroes(x.Common(), g, id, 0) {
					s = 2
				}
			case *ssa.Return:
				if s == 1 {
					return false, w.c.p.Pos(x.Pos())
				}
			}
		}
		for k, b := range n.b.Succs {
			t := s
			if iff, ok := n.b.Instrs[len(n.b.Instrs)-1].(*ssa.If); ok && s == 1 && failedDraw(iff.Cond, isDef, k == 0) {
				t = 0
			}
			work = append(work, node{b, t})
		}
	}
	return true, ""
}

// failedDraw: on this branch the draw returned an error.
func failedDraw(cond ssa.Value, isDef map[ssa.Instruction]bool, yes bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	x, y := b.X, b.Y
	if k, ok := x.(*ssa.Const); ok && k.IsNil() {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || !k.IsNil() {
		return false
	}
	e, ok := x.(*ssa.Extract)
	if !ok {
		return false
	}
	for d := range isDef {
		if d2, ok := d.(*ssa.Extract); ok && d2.Tuple == e.Tuple && e != d2 {
			return (b.Op == token.NEQ) == yes
		}
	}
	return false
}

func (w *wipes) zeroes(cc *ssa.CallCommon, g *wgroups, id int, depth int) bool {
	is := func(v ssa.Value) bool {
		k, ok := g.of[v]
		return ok && k == id
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if strings.HasPrefix(f.String(), "(*math/big.Int).") && len(cc.Args) > 0 && is(cc.Args[0]) {
		switch f.Name() {
		case "SetInt64", "SetUint64":
			k, ok := cc.Args[1].(*ssa.Const)
			return ok && k.Value != nil && constant.Sign(k.Value) == 0
		case "SetBits":
			k, ok := cc.Args[1].(*ssa.Const)
			return ok && k.IsNil()
		case "Sub", "Xor":
			return cc.Args[1] == cc.Args[2]
		}
		return false
	}
	if f.Blocks == nil || depth > 3 {
		return false
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return w.always(mc.Fn.(*ssa.Function), g, id, depth)
	}
	// a helper that zeroes what it is given
	for i, a := range cc.Args {
		if i >= len(f.Params) {
			break
		}
		if is(a) {
			h := &wgroups{of: map[ssa.Value]int{f.Params[i]: 0}}
			if w.always(f, h, 0, depth) {
				return true
			}
		}
	}
	// a variadic one
	for _, a := range cc.Args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		arr, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		holds := false
		for _, ref := range *arr.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && is(st.Val) {
						holds = true
					}
				}
			}
		}
		if holds && zeroesAll(f) {
			return true
		}
	}
	return false
}

// zeroesAll: the function zeroes each number of its last argument.
func zeroesAll(f *ssa.Function) bool {
	p := f.Params[len(f.Params)-1]
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			x, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			h := x.Call.StaticCallee()
			if h == nil || h.String() != "(*math/big.Int).SetInt64" {
				continue
			}
			if k, ok := x.Call.Args[1].(*ssa.Const); !ok || constant.Sign(k.Value) != 0 {
				continue
			}
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.X == p {
					return true
				}
			}
		}
	}
	return false
}

func (w *wipes) always(f *ssa.Function, g *wgroups, id int, depth int) bool {
	type node struct {
		b *ssa.BasicBlock
		s bool
	}
	seen := map[node]bool{}
	work := []node{{f.Blocks[0], false}}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		s := n.s
		for _, in := range n.b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				s = s || w.zeroes(x.Common(), g, id, depth+1)
			case *ssa.Return:
				if !s {
					return false
				}
			}
		}
		for k, b := range n.b.Succs {
			t := s
			// nothing to zero
			if iff, ok := n.b.Instrs[len(n.b.Instrs)-1].(*ssa.If); ok {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok {
					if c, ok := bo.Y.(*ssa.Const); ok && c.IsNil() {
						if gid, ok := g.of[bo.X]; ok && gid == id && (bo.Op == token.EQL) == (k == 0) {
							t = true
						}
					}
				}
			}
			work = append(work, node{b, t})
		}
	}
	return true
}
