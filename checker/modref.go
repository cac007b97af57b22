package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A bottom-up effect analysis over SSA. Every function gets a summary: which
// memory reachable from its parameters or from package variables it may write,
// which parameter memory it stores where, and what its results may refer to.
// Summaries are instantiated at every call, so helpers are judged by what
// their callers give them. Objects are access paths from parameters and
// globals, and allocation sites.

type mobjKind uint8

const (
	mParam mobjKind = iota
	mGlobal
	mChild
	mAlloc
	mFunc
	mFree
)

type mobj struct {
	kind   mobjKind
	n      int    // parameter number
	sub    string // leaf of an aggregate parameter, or path of a child
	parent *mobj
	g      *ssa.Global
	site   any // allocation: instruction, or [2]any{call, callee object}
	fn     *ssa.Function
	typ    types.Type // of the memory, when known
	depth  int
	id     int
	freed  string
}

type maddr struct {
	o *mobj
	p string
}

type maset map[maddr]bool

// bare drops the mark of a slice without spare capacity.
func (a maddr) bare() maddr {
	return maddr{a.o, strings.TrimSuffix(a.p, "^")}
}

func bareSet(s maset) maset {
	out := maset{}
	for a := range s {
		out[a.bare()] = true
	}
	return out
}

// spare are the slices an append may extend in place.
func spare(s maset) maset {
	out := maset{}
	for a := range s {
		if !strings.HasSuffix(a.p, "^") {
			out[a] = true
		}
	}
	return out
}

const appends = "appends into the memory"

type mval map[string]maset

type mwrite struct {
	fn   *ssa.Function // where the write happens
	pos  token.Pos
	what string
	born *ssa.Function // where the memory became a package variable's
	once bool
}

type mwkey struct {
	a maddr
	w mwrite
}

type minfo struct {
	m     *modref
	fn    *ssa.Function
	objs  map[string]*mobj
	vals  map[ssa.Value]mval
	cont  map[maddr]maset
	wr    map[mwkey]bool
	ret   mval
	dirty bool
	n     int
}

type modref struct {
	p     *Program
	info  map[*ssa.Function]*minfo
	ids   map[any]int
	impl  map[string][]*ssa.Function
	named []types.Type
	extn  map[string]int // unmodelled external callees that were given memory
	calls int
	cur   map[*ssa.Function]bool
	again bool
	noted map[string]bool
	took  map[string][]*ssa.Function
}

func newModref(p *Program) *modref {
	m := &modref{p: p, info: map[*ssa.Function]*minfo{}, ids: map[any]int{}, impl: map[string][]*ssa.Function{}, extn: map[string]int{}, noted: map[string]bool{}}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, ok := tn.Type().Underlying().(*types.Interface); ok {
					continue
				}
				m.named = append(m.named, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	return m
}

func (m *modref) ident(x any) int {
	if n, ok := m.ids[x]; ok {
		return n
	}
	n := len(m.ids) + 1
	m.ids[x] = n
	return n
}

// run computes all summaries to their common fixed point.
func (m *modref) run(funcs []*ssa.Function) {
	for _, f := range funcs {
		m.get(f)
	}
	for round := 0; ; round++ {
		if round > 60 {
			panic(&budgetError{"effect summaries do not settle"})
		}
		changed := false
		// functions may be added while going
		var list []*minfo
		for _, in := range m.info {
			list = append(list, in)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].n < list[j].n })
		for _, in := range list {
			for k := 0; ; k++ {
				in.dirty = false
				in.pass()
				if !in.dirty {
					break
				}
				changed = true
				if k > 200 {
					panic(&budgetError{"effects of " + in.fn.String() + " do not settle"})
				}
			}
		}
		if !changed && len(m.info) == len(list) {
			return
		}
	}
}

func (m *modref) get(f *ssa.Function) *minfo {
	in := m.info[f]
	if in == nil {
		in = &minfo{m: m, fn: f, objs: map[string]*mobj{}, vals: map[ssa.Value]mval{}, cont: map[maddr]maset{}, wr: map[mwkey]bool{}, ret: mval{}, n: len(m.info)}
		m.info[f] = in
	}
	return in
}

// ---- leaves and paths

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

var leafMemo = map[types.Type][]string{}

func leaves(t types.Type) []string {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, q := range leaves(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, q))
			}
		}
	case *types.Array:
		for _, q := range leaves(u.Elem()) {
			out = append(out, "[]"+q)
		}
	default:
		if tu, ok := t.(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				for _, q := range leaves(tu.At(i).Type()) {
					out = append(out, fmt.Sprintf("#%d%s", i, q))
				}
			}
		} else if pointerLike(t) {
			out = []string{""}
		}
	}
	leafMemo[t] = out
	return out
}

// step gives the type of the part of t that the first step of p selects, and
// the rest of p.
func pathType(t types.Type, p string) (types.Type, string) {
	last := ""
	for p != "" && t != nil {
		switch {
		case strings.HasPrefix(p, "[]"):
			a, ok := t.Underlying().(*types.Array)
			if !ok {
				return nil, last
			}
			t, p = a.Elem(), p[2:]
		case p[0] == '.':
			j := 1
			n := 0
			for j < len(p) && p[j] >= '0' && p[j] <= '9' {
				n = n*10 + int(p[j]-'0')
				j++
			}
			s, ok := t.Underlying().(*types.Struct)
			if !ok || n >= s.NumFields() {
				return nil, last
			}
			name := t.String()
			last = name + "." + s.Field(n).Name()
			t, p = s.Field(n).Type(), p[j:]
		case p[0] == 'k' || p[0] == 'v' || p[0] == 'c':
			switch u := t.Underlying().(type) {
			case *types.Map:
				if p[0] == 'k' {
					t = u.Key()
				} else {
					t = u.Elem()
				}
			case *types.Chan:
				t = u.Elem()
			default:
				return nil, last
			}
			p = p[1:]
		default:
			return nil, last
		}
	}
	return t, last
}

// pointee is the type of the memory a pointer-like value refers to (for a
// slice, its element; for a map or channel, the type itself).
func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map, *types.Chan:
		return t
	}
	return nil
}

// ---- objects

func (in *minfo) obj(key string, mk func() *mobj) *mobj {
	o := in.objs[key]
	if o == nil {
		o = mk()
		o.id = len(in.objs) + 1
		in.objs[key] = o
	}
	return o
}

func (in *minfo) param(i int, q string, t types.Type) *mobj {
	return in.obj(fmt.Sprintf("p%d%s", i, q), func() *mobj {
		lt, _ := pathType(t, q)
		return &mobj{kind: mParam, n: i, sub: q, typ: pointee(lt)}
	})
}

func (in *minfo) free(i int, q string, t types.Type) *mobj {
	return in.obj(fmt.Sprintf("f%d%s", i, q), func() *mobj {
		lt, _ := pathType(t, q)
		return &mobj{kind: mFree, n: i, sub: q, typ: pointee(lt)}
	})
}

func (in *minfo) global(g *ssa.Global) *mobj {
	return in.obj("g"+g.String(), func() *mobj {
		return &mobj{kind: mGlobal, g: g, typ: pointee(g.Type())}
	})
}

func (in *minfo) alloc(site any, t types.Type) *mobj {
	return in.obj(fmt.Sprintf("a%d", in.m.ident(site)), func() *mobj {
		return &mobj{kind: mAlloc, site: site, typ: t}
	})
}

func (in *minfo) funcObj(f *ssa.Function, site any) *mobj {
	return in.obj(fmt.Sprintf("F%d", in.m.ident(site)), func() *mobj {
		return &mobj{kind: mFunc, fn: f, site: site}
	})
}

const mDepth = 7

// child is the memory an unknown pointer stored at (o,p) refers to.
func (in *minfo) child(a maddr) *mobj {
	o := a.o
	if o.depth >= mDepth {
		return o
	}
	t, _ := pathType(o.typ, a.p)
	pt := pointee(t)
	// recursive structures fold
	if pt != nil {
		if _, ok := pt.(*types.Named); ok {
			for x := o; x != nil; x = x.parent {
				if x.kind == mChild && x.typ != nil && types.Identical(x.typ, pt) && x.sub == a.p && x.parent != nil && x.parent.typ != nil && o.typ != nil && types.Identical(x.parent.typ, o.typ) {
					return x
				}
			}
		}
	}
	return in.obj(fmt.Sprintf("c%d%s", o.id, a.p), func() *mobj {
		return &mobj{kind: mChild, parent: o, sub: a.p, typ: pt, depth: o.depth + 1}
	})
}

func (o *mobj) ext() bool {
	switch o.kind {
	case mParam, mGlobal, mFree:
		return true
	case mChild:
		return true
	}
	return false
}

func (o *mobj) root() *mobj {
	for o.kind == mChild {
		o = o.parent
	}
	return o
}

func (in *minfo) addSet(dst, src maset) {
	for a := range src {
		if !dst[a] {
			dst[a] = true
			in.dirty = true
		}
	}
}

func (in *minfo) addVal(v ssa.Value, q string, s maset) {
	if len(s) == 0 {
		return
	}
	mv := in.vals[v]
	if mv == nil {
		mv = mval{}
		in.vals[v] = mv
	}
	d := mv[q]
	if d == nil {
		d = maset{}
		mv[q] = d
	}
	in.addSet(d, s)
}

func (in *minfo) set(v ssa.Value, mv mval) {
	for q, s := range mv {
		in.addVal(v, q, s)
	}
}

func one(o *mobj, p string) maset { return maset{maddr{o, p}: true} }

// val is the set of addresses in every leaf of a value.
func (in *minfo) val(v ssa.Value) mval {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return mval{"": one(in.global(x), "")}
	case *ssa.Function:
		return mval{"": one(in.funcObj(x, x), "")}
	case *ssa.Builtin:
		return nil
	case *ssa.Parameter:
		for i, p := range in.fn.Params {
			if p == x {
				mv := in.vals[v]
				if mv == nil {
					for _, q := range leaves(x.Type()) {
						in.addVal(v, q, one(in.param(i, q, x.Type()), ""))
					}
					mv = in.vals[v]
				}
				return mv
			}
		}
	case *ssa.FreeVar:
		for i, p := range in.fn.FreeVars {
			if p == x {
				for _, q := range leaves(x.Type()) {
					in.addVal(v, q, one(in.free(i, q, x.Type()), ""))
				}
			}
		}
	}
	return in.vals[v]
}

// content is what is stored at an address.
func (in *minfo) content(a maddr) maset {
	out := maset{}
	for x := range in.cont[a] {
		out[x] = true
	}
	if a.o.ext() {
		out[maddr{in.child(a), ""}] = true
	}
	return out
}

func (in *minfo) load(s maset, t types.Type) mval {
	out := mval{}
	for _, q := range leaves(t) {
		d := maset{}
		for a := range s {
			if a.o.kind == mFunc {
				continue
			}
			a = a.bare()
			for x := range in.content(maddr{a.o, a.p + q}) {
				d[x] = true
			}
		}
		out[q] = d
	}
	return out
}

func (in *minfo) bind(a maddr, s maset) {
	d := in.cont[a]
	if d == nil {
		d = maset{}
		in.cont[a] = d
	}
	in.addSet(d, s)
}

// bindings are the captured variables of a closure.
func (in *minfo) bindings(o *mobj) (out []mval) {
	for k, v := range o.fn.FreeVars {
		mv := mval{}
		for _, q := range leaves(v.Type()) {
			mv[q] = in.cont[maddr{o, fmt.Sprintf("b%d%s", k, q)}]
		}
		out = append(out, mv)
	}
	return out
}

func (in *minfo) put(a maddr, s maset) {
	a = a.bare()
	if len(s) == 0 || a.o.kind == mFunc {
		return
	}
	d := in.cont[a]
	if d == nil {
		d = maset{}
		in.cont[a] = d
	}
	in.addSet(d, s)
}

func (in *minfo) store(s maset, mv mval) {
	for a := range s {
		a = a.bare()
		for q, x := range mv {
			in.put(maddr{a.o, a.p + q}, x)
		}
	}
}

func (in *minfo) write(s maset, pos token.Pos, what string) {
	for a := range s {
		in.write1(a.bare(), mwrite{fn: in.fn, pos: pos, what: what})
	}
}

func (in *minfo) write1(a maddr, w mwrite) {
	r := a.o.root()
	if r.kind == mAlloc || r.kind == mFunc {
		return
	}
	if r.kind == mGlobal && w.born == nil {
		w.born = in.fn
	}
	if !in.wr[mwkey{a, w}] {
		in.wr[mwkey{a, w}] = true
		in.dirty = true
	}
}

func sub(mv mval, prefix string) mval {
	out := mval{}
	for q, s := range mv {
		if strings.HasPrefix(q, prefix) {
			rest := q[len(prefix):]
			if prefix != "" && rest != "" && prefix[len(prefix)-1] != ']' && rest[0] >= '0' && rest[0] <= '9' {
				continue // .1 is not a prefix of .10
			}
			out[rest] = s
		}
	}
	return out
}

func shift(s maset, p string) maset {
	out := maset{}
	for a := range s {
		if a.o.kind == mFunc {
			continue
		}
		a = a.bare()
		out[maddr{a.o, a.p + p}] = true
	}
	return out
}

func wrap(prefix string, mv mval) mval {
	out := mval{}
	for q, s := range mv {
		out[prefix+q] = s
	}
	return out
}

func merge(a, b maset) maset {
	out := maset{}
	for x := range a {
		out[x] = true
	}
	for x := range b {
		out[x] = true
	}
	return out
}

// ---- one function

func (in *minfo) pass() {
	for _, b := range in.fn.Blocks {
		for _, i := range b.Instrs {
			in.instr(i)
		}
	}
}

func boxed(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return false
	}
	return true
}

func (in *minfo) instr(i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Alloc:
		in.addVal(x, "", one(in.alloc(x, pointee(x.Type())), ""))
	case *ssa.MakeSlice:
		in.addVal(x, "", one(in.alloc(x, pointee(x.Type())), ""))
	case *ssa.MakeMap:
		in.addVal(x, "", one(in.alloc(x, x.Type()), ""))
	case *ssa.MakeChan:
		in.addVal(x, "", one(in.alloc(x, x.Type()), ""))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		o := in.funcObj(f, x)
		for k, b := range x.Bindings {
			for q, set := range in.val(b) {
				in.bind(maddr{o, fmt.Sprintf("b%d%s", k, q)}, set)
			}
		}
		in.addVal(x, "", one(o, ""))
	case *ssa.FieldAddr:
		in.addVal(x, "", shift(in.val(x.X)[""], fmt.Sprintf(".%d", x.Field)))
	case *ssa.Field:
		in.set(x, sub(in.val(x.X), fmt.Sprintf(".%d", x.Field)))
	case *ssa.IndexAddr:
		s := in.val(x.X)[""]
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			s = shift(s, "[]")
		}
		in.addVal(x, "", bareSet(s))
	case *ssa.Index:
		in.set(x, sub(in.val(x.X), "[]"))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		s := shift(in.val(x.X)[""], "v")
		t := x.X.Type().Underlying().(*types.Map).Elem()
		mv := in.load(s, t)
		if x.CommaOk {
			mv = wrap("#0", mv)
		}
		in.set(x, mv)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			in.set(x, in.load(in.val(x.X)[""], x.Type()))
		case token.ARROW:
			s := shift(in.val(x.X)[""], "c")
			mv := in.load(s, x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				mv = wrap("#0", mv)
			}
			in.set(x, mv)
		}
	case *ssa.Store:
		s := in.val(x.Addr)[""]
		in.store(s, in.val(x.Val))
		in.write(s, x.Pos(), "assigns")
	case *ssa.MapUpdate:
		s := in.val(x.Map)[""]
		in.store(shift(s, "k"), in.val(x.Key))
		in.store(shift(s, "v"), in.val(x.Value))
		in.write(s, x.Pos(), "assigns an entry")
	case *ssa.Send:
		s := in.val(x.Chan)[""]
		in.store(shift(s, "c"), in.val(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			in.set(x, in.val(e))
		}
	case *ssa.ChangeType:
		in.set(x, in.val(x.X))
	case *ssa.ChangeInterface:
		in.set(x, in.val(x.X))
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			if _, str := x.X.Type().Underlying().(*types.Basic); str {
				in.addVal(x, "", one(in.alloc(x, pointee(x.Type())), ""))
				return
			}
		}
		in.set(x, in.val(x.X))
	case *ssa.SliceToArrayPointer:
		// the elements become an array's: fold its index step
		for a := range in.val(x.X)[""] {
			in.addVal(x, "", one(a.o, a.p))
		}
	case *ssa.MakeInterface:
		if !boxed(x.X.Type()) {
			in.set(x, in.val(x.X))
			return
		}
		o := in.alloc(x, x.X.Type())
		in.store(one(o, ""), in.val(x.X))
		in.addVal(x, "", one(o, ""))
	case *ssa.TypeAssert:
		s := in.val(x.X)[""]
		var mv mval
		if boxed(x.AssertedType) {
			mv = in.load(s, x.AssertedType)
		} else {
			mv = mval{"": in.dynamic(s, x.AssertedType)}
		}
		if x.CommaOk {
			mv = wrap("#0", mv)
		}
		in.set(x, mv)
	case *ssa.Slice:
		s := in.val(x.X)[""]
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			s = shift(s, "[]")
		}
		if _, str := x.X.Type().Underlying().(*types.Basic); str {
			return
		}
		switch {
		case capped(x):
			s = shift(s, "^")
		case x.High != nil:
			s = bareSet(s)
		}
		in.addVal(x, "", s)
	case *ssa.Extract:
		in.set(x, sub(in.val(x.Tuple), fmt.Sprintf("#%d", x.Index)))
	case *ssa.Range:
		in.set(x, in.val(x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		s := in.val(x.Iter)[""]
		m := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		in.set(x, wrap("#1", in.load(shift(s, "k"), m.Key())))
		in.set(x, wrap("#2", in.load(shift(s, "v"), m.Elem())))
	case *ssa.Select:
		for k, st := range x.States {
			if st.Dir == types.RecvOnly {
				s := shift(in.val(st.Chan)[""], "c")
				in.set(x, wrap(fmt.Sprintf("#%d", 2+k), in.load(s, st.Chan.Type().Underlying().(*types.Chan).Elem())))
			}
		}
	case *ssa.Return:
		for k, r := range x.Results {
			for q, s := range in.val(r) {
				key := fmt.Sprintf("#%d%s", k, q)
				if len(s) == 0 {
					continue
				}
				d := in.ret[key]
				if d == nil {
					d = maset{}
					in.ret[key] = d
				}
				in.addSet(d, s)
			}
		}
	case ssa.CallInstruction:
		in.call(x)
	}
}

// dynamic keeps the addresses an interface can hold under a concrete pointer type.
func (in *minfo) dynamic(s maset, t types.Type) maset {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return s
	}
	out := maset{}
	for a := range s {
		if at, _ := pathType(a.o.typ, a.p); at != nil && a.o.kind != mFunc && !a.o.ext() {
			if !types.Identical(at, pt.Elem()) {
				continue
			}
		}
		out[a] = true
	}
	return out
}

// ---- calls

func (in *minfo) call(x ssa.CallInstruction) {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		in.builtin(x, b)
		return
	}
	var args []mval
	if cc.IsInvoke() {
		recv := in.val(cc.Value)[""]
		for _, a := range cc.Args {
			args = append(args, in.val(a))
		}
		done := map[*ssa.Function]maset{}
		var order []*ssa.Function
		for _, f := range in.m.impls(cc) {
			done[f] = nil
			order = append(order, f)
		}
		outside := false
		for a := range recv {
			if a.o.kind == mFunc {
				continue
			}
			at, _ := pathType(a.o.typ, a.p)
			known := !a.o.ext() && at != nil
			hit := false
			for _, f := range order {
				rt := f.Signature.Recv().Type()
				if pt, ok := rt.(*types.Pointer); ok {
					if known && !types.Identical(pt.Elem(), at) {
						continue
					}
				} else if known && !types.Identical(rt, at) {
					// a value method called through a pointer
					continue
				}
				hit = true
				if done[f] == nil {
					done[f] = maset{}
				}
				done[f][a] = true
			}
			if !hit || a.o.ext() {
				outside = true
			}
		}
		if len(recv) == 0 {
			outside = true
		}
		for _, f := range order {
			s := done[f]
			if s == nil {
				continue
			}
			rv := mval{"": s}
			if rt := f.Signature.Recv().Type(); boxed(rt) {
				rv = in.load(s, rt)
			}
			in.apply(x, f, append([]mval{rv}, args...), nil, false)
		}
		if outside {
			in.external(x, invokeName(cc), append([]mval{{"": recv}}, args...))
		}
		return
	}
	for _, a := range cc.Args {
		args = append(args, in.val(a))
	}
	if f := cc.StaticCallee(); f != nil {
		var free []mval
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, in.val(b))
			}
		}
		in.callTo(x, f, args, free)
		return
	}
	for a := range in.val(cc.Value)[""] {
		if a.o.kind == mFunc {
			in.callTo(x, a.o.fn, args, in.bindings(a.o))
		} else {
			// a function from a table or a field: any of the repository's
			// functions of that type; the caller's own are the caller's business
			for _, f := range in.m.taken(cc.Signature()) {
				in.callTo(x, f, args, nil)
			}
			in.fresh(x, cc.Signature().Results())
		}
	}
}

func invokeName(cc *ssa.CallCommon) string {
	return "invoke (" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
}

func (in *minfo) callTo(x ssa.CallInstruction, f *ssa.Function, args, free []mval) {
	if f.Blocks != nil {
		in.apply(x, f, args, free, false)
		return
	}
	in.external(x, f.String(), args)
}

// impls are the repository's methods an interface call may reach.
func (m *modref) impls(cc *ssa.CallCommon) []*ssa.Function {
	it := cc.Value.Type().Underlying().(*types.Interface)
	key := types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
	if l, ok := m.impl[key]; ok {
		return l
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, t := range m.named {
		if !types.Implements(t, it) {
			continue
		}
		ms := m.p.SSA.MethodSets.MethodSet(t)
		sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel == nil {
			continue
		}
		f := m.p.SSA.MethodValue(sel)
		if f == nil || f.Blocks == nil || seen[f] || m.p.InMock(f) {
			continue
		}
		// a pointer's promoted value method is the value method
		if f.Synthetic != "" && f.Object() != nil {
			if g := m.p.SSA.FuncValue(f.Object().(*types.Func)); g != nil && g.Blocks != nil {
				if r := g.Signature.Recv(); r != nil && types.Identical(r.Type(), derefType(t)) {
					f = g
					if seen[f] {
						continue
					}
				}
			}
		}
		seen[f] = true
		out = append(out, f)
	}
	m.impl[key] = out
	return out
}

// taken are the repository's functions of a type whose value is used.
func (m *modref) taken(sig *types.Signature) []*ssa.Function {
	if m.took == nil {
		m.took = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		for _, fn := range m.p.Funcs {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for k, op := range i.Operands(nil) {
						f, ok := (*op).(*ssa.Function)
						if !ok || f.Blocks == nil || seen[f] {
							continue
						}
						if call, ok := i.(ssa.CallInstruction); ok {
							if k == 0 && !call.Common().IsInvoke() && call.Common().Value == *op {
								continue
							}
							// what is handed outside is called back there
							if g := call.Common().StaticCallee(); g != nil && g.Blocks == nil {
								continue
							}
						}
						seen[f] = true
						key := sigKey(f.Signature)
						m.took[key] = append(m.took[key], f)
					}
				}
			}
		}
	}
	return m.took[sigKey(sig)]
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			b.WriteString(types.TypeString(t.At(i).Type(), nil) + ",")
		}
		b.WriteString(";")
	}
	return b.String()
}

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (in *minfo) fresh(x ssa.CallInstruction, res *types.Tuple) {
	v, ok := x.(*ssa.Call)
	if !ok {
		return
	}
	for k := 0; k < res.Len(); k++ {
		t := res.At(k).Type()
		for _, q := range leaves(t) {
			lt, _ := pathType(t, q)
			key := q
			if res.Len() > 1 {
				key = fmt.Sprintf("#%d%s", k, q)
			}
			in.addVal(v, key, one(in.alloc([3]any{x, "fresh", key}, pointee(lt)), ""))
		}
	}
}

// apply instantiates a summary.
func (in *minfo) apply(x ssa.CallInstruction, f *ssa.Function, args, free []mval, once bool) {
	s := in.m.get(f)
	in.m.calls++
	memo := map[*mobj]maset{}
	var objMap func(o *mobj, depth int) maset
	objMap = func(o *mobj, depth int) maset {
		if r, ok := memo[o]; ok {
			return r
		}
		memo[o] = nil
		var out maset
		switch o.kind {
		case mParam:
			out = maset{}
			if o.n < len(args) {
				for a := range args[o.n][o.sub] {
					out[a] = true
				}
			}
		case mFree:
			out = maset{}
			if o.n < len(free) {
				for a := range free[o.n][o.sub] {
					out[a] = true
				}
			}
		case mGlobal:
			out = one(in.global(o.g), "")
		case mFunc:
			if _, ok := o.site.(*ssa.Function); ok {
				out = one(in.funcObj(o.fn, o.site), "")
			} else {
				site := o.site
				if y, ok := site.([2]any); ok {
					site = y[1]
				}
				out = one(in.funcObj(o.fn, [2]any{x, site}), "")
			}
		case mAlloc:
			site := o.site
			if y, ok := site.([2]any); ok {
				site = y[1]
			}
			out = one(in.alloc([2]any{x, site}, o.typ), "")
		case mChild:
			out = maset{}
			for a := range objMap(o.parent, depth+1) {
				if a.o.kind == mFunc {
					continue
				}
				a = a.bare()
				for c := range in.content(maddr{a.o, a.p + o.sub}) {
					out[c] = true
				}
			}
		}
		memo[o] = out
		return out
	}
	mapSet := func(set maset) maset {
		out := maset{}
		for a := range set {
			for b := range objMap(a.o, 0) {
				if a.p != "" {
					b = b.bare()
				}
				out[maddr{b.o, b.p + a.p}] = true
			}
		}
		return out
	}
	// what the results and parameters can reach must be carried over
	type item struct{ a maddr }
	live := map[*mobj]bool{}
	var mark func(o *mobj)
	mark = func(o *mobj) {
		if live[o] {
			return
		}
		live[o] = true
	}
	for _, set := range s.ret {
		for a := range set {
			mark(a.o)
		}
	}
	for a := range s.cont {
		if a.o.ext() {
			mark(a.o)
		}
	}
	for changed := true; changed; {
		changed = false
		for a, set := range s.cont {
			if !live[a.o] {
				continue
			}
			for b := range set {
				if !live[b.o] {
					live[b.o] = true
					changed = true
				}
			}
		}
	}
	for a, set := range s.cont {
		if !live[a.o] {
			continue
		}
		src := mapSet(set)
		for b := range mapSet(maset{a: true}) {
			if b.o.kind == mFunc {
				in.bind(b, src)
				continue
			}
			in.put(b, src)
		}
	}
	for k := range s.wr {
		w := k.w
		w.once = w.once || once
		for b := range mapSet(maset{k.a: true}) {
			if b.o.kind == mFunc || w.what == appends && strings.HasSuffix(b.p, "^") {
				continue
			}
			in.write1(b.bare(), w)
		}
	}
	if v, ok := x.(*ssa.Call); ok {
		n := f.Signature.Results().Len()
		for key, set := range s.ret {
			k := key
			if n == 1 {
				k = key[2:]
			}
			in.addVal(v, k, mapSet(set))
		}
	}
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// capped: appending to the slice always reallocates.
func capped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return x.Max != nil && x.High != nil && (x.Max == x.High || sameConst(x.Max, x.High) || sameLen(x.Max, x.High))
	case *ssa.ChangeType:
		return capped(x.X)
	case *ssa.Convert:
		return capped(x.X)
	}
	return false
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Int64() == y.Int64()
}

func sameLen(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	bx, ok1 := x.Call.Value.(*ssa.Builtin)
	by, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}

func (in *minfo) builtin(x ssa.CallInstruction, b *ssa.Builtin) {
	args := x.Common().Args
	switch b.Name() {
	case "append":
		v := x.(*ssa.Call)
		dst := in.val(args[0])[""]
		n := one(in.alloc(x, pointee(v.Type())), "")
		et := sliceElem(v.Type())
		out := merge(n, nil)
		if k, ok := args[1].(*ssa.Const); ok && k.IsNil() {
			out = merge(out, dst)
		} else if !capped(args[0]) {
			out = merge(out, spare(dst))
			in.write(spare(dst), x.Pos(), appends)
		} else {
			in.store(n, in.load(dst, et))
		}
		in.store(n, in.load(dst, et))
		if len(args) > 1 {
			if _, str := args[1].Type().Underlying().(*types.Basic); !str {
				in.store(out, in.load(in.val(args[1])[""], et))
			}
		}
		in.addVal(v, "", out)
	case "copy":
		dst := in.val(args[0])[""]
		in.write(dst, x.Pos(), "copies into the memory")
		if _, str := args[1].Type().Underlying().(*types.Basic); !str {
			in.store(dst, in.load(in.val(args[1])[""], sliceElem(args[0].Type())))
		}
	case "delete", "clear":
		in.write(in.val(args[0])[""], x.Pos(), "clears")
	}
}
