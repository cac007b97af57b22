package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id:    "C06",
		rule:  "Lock typestate over every path of every entry point, callees inlined: each lock taken is released at every exit and never taken twice; all uses of a connection's writer (reader) lie in one critical section of one lock of the shared stream, one section per frame; what is held while waiting for the peer is never acquired by senders or by closing; no callback runs under a lock; lock order has no cycle; state changed after construction is guarded by one lock. The receive loop stops at the first read failure and, on every path out, closes the socket and notifies once.",
		floor: 25,
		run:   func(c *Ctx) { c.locks() },
	})
}

// lstate is what is known at one point of one path.
type lstate struct {
	held   string // locks held, in order of acquisition: class@path joined by ","
	wr, rd int    // use of the writer / the reader: 0 none yet, 1 in this section, 2 section left
	closed bool
	told   int
	defers string // ids of deferred calls, latest last
}

func (s lstate) locks() []string {
	if s.held == "" {
		return nil
	}
	return strings.Split(s.held, ",")
}

func (s lstate) has(l string) bool {
	for _, x := range s.locks() {
		if x == l {
			return true
		}
	}
	return false
}

type lenv struct {
	fn   *ssa.Function
	vals map[ssa.Value]string
	key  string
}

type lockRun struct {
	c      *Ctx
	root   *ssa.Function
	defs   map[string]ldefer
	nd     int
	memo   map[string][]lstate
	stack  map[*ssa.Function]bool
	order  map[string]map[string]string // lock class -> taken while held -> where
	acq    map[*ssa.Function]map[string]bool
	usesW  []luse
	usesR  []luse
	fields map[string][]lfield
	touch  map[*ssa.Function]bool
	loop   *ssa.Function
	sites  int
}

type luse struct {
	root *ssa.Function
	pos  token.Pos
	fn   *ssa.Function
	held []string
}

type lfield struct {
	luse
	write bool
}

type ldefer struct {
	call ssa.CallInstruction
	env  *lenv
}

func (r *lockRun) path(v ssa.Value, env *lenv) string {
	if p, ok := env.vals[v]; ok {
		return p
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return "?" + x.Name()
	case *ssa.Global:
		return "global." + x.Name()
	case *ssa.Alloc:
		// a variable holding one value for its whole life is that value
		if st := soleStore(x); st != nil {
			if p := r.path(st, env); p != "" {
				return p
			}
		}
		return "new" + fmt.Sprint(x.Pos())
	case *ssa.FieldAddr:
		return r.path(x.X, env) + "." + structField(x.X.Type(), x.Field)
	case *ssa.Field:
		return r.path(x.X, env) + "." + structField(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return r.path(x.X, env)
		}
	case *ssa.MakeInterface:
		return r.path(x.X, env)
	case *ssa.ChangeType:
		return r.path(x.X, env)
	case *ssa.ChangeInterface:
		return r.path(x.X, env)
	case *ssa.TypeAssert:
		return r.path(x.X, env)
	case *ssa.Extract:
		return r.path(x.Tuple, env)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && len(f.Blocks) == 1 && len(env.key) < 400 {
			if ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				return r.path(ret.Results[0], r.bind(f, x, env))
			}
		}
		return "new" + fmt.Sprint(x.Pos())
	}
	return fmt.Sprintf("?%s%d", v.Name(), v.Pos())
}

func soleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if val != nil {
				return nil
			}
			val = st.Val
		}
	}
	if val == nil || !pointerLike(val.Type()) {
		return nil
	}
	return val
}

func structField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (r *lockRun) bind(f *ssa.Function, call ssa.CallInstruction, env *lenv) *lenv {
	e := &lenv{fn: f, vals: map[ssa.Value]string{}}
	cc := call.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for i, p := range f.Params {
		if i < len(args) {
			e.vals[p] = r.path(args[i], env)
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			e.vals[f.FreeVars[i]] = r.path(b, env)
		}
	}
	var ks []string
	for v, p := range e.vals {
		ks = append(ks, v.Name()+"="+p)
	}
	sort.Strings(ks)
	e.key = f.String() + "(" + strings.Join(ks, " ") + ")"
	return e
}

func isMutex(t types.Type) bool {
	s := derefType(t).String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func hasMutex(t types.Type) bool {
	if isMutex(t) {
		_, ptr := t.(*types.Pointer)
		return !ptr
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasMutex(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasMutex(u.Elem())
	}
	return false
}

// class names a lock by the field that holds it.
func lockClass(l string) string {
	if i := strings.IndexByte(l, '@'); i >= 0 {
		return l[:i]
	}
	return l
}

func lockPath(l string) string { return l[strings.IndexByte(l, '@')+1:] }

func (r *lockRun) lockID(v ssa.Value, env *lenv, shared bool) string {
	p := r.path(v, env)
	class := p
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			class = r.c.typeName(x.X.Type()) + "." + structField(x.X.Type(), x.Field)
		case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp:
			class = p[strings.LastIndexByte(p, '.')+1:]
		}
		break
	}
	if shared {
		class += "(shared)"
	}
	return class + "@" + p
}

// protects: a lock of an object made on the way protects nothing shared.
func protecting(held []string) []string {
	var out []string
	for _, l := range held {
		if !strings.HasPrefix(lockPath(l), "new") && !strings.Contains(l, "(shared)") {
			out = append(out, lockClass(l))
		}
	}
	return out
}

func (c *Ctx) locks() {
	rel := "xprotocol"
	pk := c.p.ByRel[rel]
	need("package xprotocol", pk != nil)
	r := &lockRun{c: c, defs: map[string]ldefer{}, order: map[string]map[string]string{}, acq: map[*ssa.Function]map[string]bool{}, fields: map[string][]lfield{}}
	r.loop = c.p.Func(rel, "Connection", "ReadLoop")
	need("(*Connection).ReadLoop", r.loop != nil)
	reading := map[*ssa.Function]bool{}
	_ = reading
	var roots []*ssa.Function
	for _, f := range c.p.Funcs {
		if c.p.InMock(f) || c.p.IsSpec(f) || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		// no value holding a lock is copied
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && hasMutex(v.Type()) {
						c.must(false, "copy of a lock in "+c.p.FuncName(f), c.p.Pos(i.Pos()), "%s copies a value that holds a lock: the copy guards nothing", c.p.FuncName(f))
					}
				}
			}
		}
		for _, p := range f.Params {
			if hasMutex(p.Type()) {
				c.must(false, "copy of a lock in "+c.p.FuncName(f), c.p.Pos(f.Pos()), "%s receives a lock by value", c.p.FuncName(f))
			}
		}
		if c.p.RelOf(f) != rel && !r.usesLocks(f) {
			continue
		}
		if f.Parent() == nil && (c.api(f) || c.p.RelOf(f) != rel) || f.Parent() != nil {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		r.entry(f)
		c.analysed(f)
	}
	c.count("entry points", len(roots))
	c.count("uses of the transport", len(r.usesW)+len(r.usesR))
	need("writes to the transport", len(r.usesW) > 0)
	need("reads from the transport", len(r.usesR) > 0)

	// one lock for all writes, one for all reads
	common := func(what string, uses []luse) map[string]bool {
		out := map[string]bool{}
		for _, l := range protecting(uses[0].held) {
			out[l] = true
		}
		for _, u := range uses[1:] {
			have := map[string]bool{}
			for _, l := range protecting(u.held) {
				have[l] = true
			}
			for l := range out {
				if !have[l] {
					delete(out, l)
				}
			}
		}
		where, by := uses[0], ""
		for _, u := range uses {
			if len(protecting(u.held)) == 0 {
				where, by = u, ", which holds none there"
			}
		}
		c.must(len(out) > 0, "guard of "+what, c.p.Pos(where.pos), "no single lock of the shared stream is held at every %s of the transport (%s, reached from %s%s)", what, c.p.FuncName(where.fn), c.p.FuncName(where.root), by)
		return out
	}
	common("write", r.usesW)
	common("read", r.usesR)

	// what is held while waiting for the peer
	waiting := map[string]luse{}
	for _, u := range r.usesR {
		for _, l := range u.held {
			waiting[lockClass(l)] = u
		}
	}
	blocked := map[string]luse{}
	for k, u := range waiting {
		blocked[k] = u
	}
	for _, u := range r.usesW {
		for _, l := range u.held {
			blocked[lockClass(l)] = u
		}
	}
	writers := map[*ssa.Function]bool{}
	readers := map[*ssa.Function]bool{}
	for _, u := range r.usesW {
		writers[u.root] = true
	}
	for _, u := range r.usesR {
		readers[u.root] = true
	}
	for _, f := range roots {
		for l := range r.acq[f] {
			if !readers[f] && writers[f] {
				u, bad := waiting[l]
				if !bad {
					u.fn = f
				}
				c.must(!bad, "sender waits for "+l, c.p.Pos(f.Pos()), "%s acquires %s, which %s holds while it waits for the peer", c.p.FuncName(f), l, c.p.FuncName(u.fn))
			}
			if !readers[f] && !writers[f] {
				u, bad := blocked[l]
				if !bad {
					u.fn = f
				}
				c.must(!bad, c.p.FuncName(f)+" waits for "+l, c.p.Pos(f.Pos()), "%s acquires %s, which %s holds while the transport blocks", c.p.FuncName(f), l, c.p.FuncName(u.fn))
			}
		}
	}
	// order
	var names []string
	for a := range r.order {
		names = append(names, a)
	}
	sort.Strings(names)
	for _, a := range names {
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			for y := range r.order[x] {
				if y == a {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if reach(y) {
						return true
					}
				}
			}
			return false
		}
		c.must(!reach(a), "order of "+a, "", "locks are taken in a cycle through %s", a)
	}
	// state changed after construction
	var fs []string
	for f := range r.fields {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		l := r.fields[f]
		var w *lfield
		for i := range l {
			if l[i].write {
				w = &l[i]
			}
		}
		if w == nil {
			c.must(true, "", "", "")
			continue
		}
		left := map[string]bool{}
		for i, u := range l {
			have := map[string]bool{}
			for _, k := range protecting(u.held) {
				have[k] = true
				if i == 0 {
					left[k] = true
				}
			}
			for k := range left {
				if !have[k] {
					delete(left, k)
				}
			}
		}
		c.must(len(left) > 0, "guard of "+f, c.p.Pos(w.pos), "%s changes %s and no single lock is held at every access of it", c.p.FuncName(w.fn), f)
	}
	r.afterFailure()
}

func (r *lockRun) usesLocks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && len(call.Common().Args) > 0 && isMutex(call.Common().Args[0].Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (r *lockRun) entry(f *ssa.Function) {
	r.root = f
	r.memo = map[string][]lstate{}
	r.stack = map[*ssa.Function]bool{}
	env := &lenv{fn: f, vals: map[ssa.Value]string{}, key: f.String()}
	for _, p := range f.Params {
		env.vals[p] = "arg." + p.Name()
	}
	for _, p := range f.FreeVars {
		env.vals[p] = "arg." + p.Name()
	}
	outs := r.run(f, env, lstate{})
	name := r.c.p.FuncName(f)
	leaked := ""
	for _, o := range outs {
		if o.held != "" {
			leaked = o.held
		}
	}
	r.c.must(leaked == "", "locks left by "+name, r.c.p.Pos(f.Pos()), "%s can return still holding %s", name, leaked)
	if f == r.loop {
		need("a way out of "+name, len(outs) > 0)
		for _, o := range outs {
			r.c.must(o.closed, "close at the end of "+name, r.c.p.Pos(f.Pos()), "%s can return without closing the socket", name)
			r.c.must(o.told == 1, "notification at the end of "+name, r.c.p.Pos(f.Pos()), "%s can return after %d disconnect notifications", name, o.told)
		}
	}
}

// run gives the states at the returns of a function entered in one state.
func (r *lockRun) run(f *ssa.Function, env *lenv, in lstate) []lstate {
	outer := in.defers
	in.defers = ""
	key := env.key + fmt.Sprint(in)
	if out, ok := r.memo[key]; ok {
		return restoreDefers(out, outer)
	}
	if r.stack[f] {
		return []lstate{{held: in.held, wr: in.wr, rd: in.rd, closed: in.closed, told: in.told, defers: outer}}
	}
	r.stack[f] = true
	defer delete(r.stack, f)
	type node struct {
		b *ssa.BasicBlock
		s lstate
	}
	seen := map[node]bool{}
	work := []node{{f.Blocks[0], in}}
	outs := map[lstate]bool{}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if len(seen) > 20000 {
			panic(&budgetError{"lock states of " + f.String()})
		}
		cur := []lstate{n.s}
		for _, i := range n.b.Instrs {
			var next []lstate
			for _, s := range cur {
				next = append(next, r.step(i, env, s)...)
			}
			cur = dedupe(next)
			if len(cur) == 0 {
				break
			}
			if _, ok := i.(*ssa.Return); ok {
				for _, s := range cur {
					s.defers = ""
					outs[s] = true
				}
			}
		}
		if _, ok := n.b.Instrs[len(n.b.Instrs)-1].(*ssa.Return); ok {
			continue
		}
		for k, succ := range n.b.Succs {
			for _, s := range cur {
				if iff, ok := n.b.Instrs[len(n.b.Instrs)-1].(*ssa.If); ok && r.nilNotice(iff.Cond, env, k == 0) {
					s.told = 1
				}
				work = append(work, node{succ, s})
			}
		}
	}
	var out []lstate
	for s := range outs {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	r.memo[key] = out
	return restoreDefers(out, outer)
}

func restoreDefers(l []lstate, d string) []lstate {
	out := make([]lstate, len(l))
	for i, s := range l {
		s.defers = d
		out[i] = s
	}
	return out
}

func dedupe(l []lstate) []lstate {
	seen := map[lstate]bool{}
	var out []lstate
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// nilNotice: the branch on which there is nobody to notify.
func (r *lockRun) nilNotice(cond ssa.Value, env *lenv, yes bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	x, y := b.X, b.Y
	if k, ok := x.(*ssa.Const); ok && k.IsNil() {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || !k.IsNil() || !r.notifier(x, env) {
		return false
	}
	return (b.Op == token.EQL) == yes
}

func (r *lockRun) notifier(v ssa.Value, env *lenv) bool {
	n, ok := v.Type().(*types.Named)
	return ok && n.Obj().Name() == "DisconnectFunc" && !strings.HasPrefix(r.path(v, env), "new")
}

func (r *lockRun) step(i ssa.Instruction, env *lenv, s lstate) []lstate {
	c := r.c
	switch x := i.(type) {
	case *ssa.Defer:
		id := fmt.Sprintf("d%p|%s", x, env.key)
		if _, ok := r.defs[id]; !ok {
			r.nd++
			r.defs[id] = ldefer{x, env}
		}
		for k, d := range strings.Split(s.defers, "\x00") {
			_ = k
			if d == id {
				c.must(false, "defer in a loop in "+c.p.FuncName(env.fn), c.p.Pos(x.Pos()), "%s defers in a loop: what it releases is released only at the end", c.p.FuncName(env.fn))
				return nil
			}
		}
		if s.defers == "" {
			s.defers = id
		} else {
			s.defers += "\x00" + id
		}
		return []lstate{s}
	case *ssa.RunDefers:
		cur := []lstate{s}
		if s.defers == "" {
			return cur
		}
		ids := strings.Split(s.defers, "\x00")
		for k := len(ids) - 1; k >= 0; k-- {
			d := r.defs[ids[k]]
			var next []lstate
			for _, t := range cur {
				next = append(next, r.call(d.call, d.env, t)...)
			}
			cur = dedupe(next)
		}
		for k := range cur {
			cur[k].defers = ""
		}
		return cur
	case *ssa.Go:
		return []lstate{s}
	case *ssa.Store:
		r.field(x.Addr, env, s, x.Pos(), true)
		return []lstate{s}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			r.field(x.X, env, s, x.Pos(), false)
		}
		return []lstate{s}
	case ssa.CallInstruction:
		return r.call(x, env, s)
	}
	return []lstate{s}
}

// field records an access to a field of a stream or connection that was not
// made on the way.
func (r *lockRun) field(addr ssa.Value, env *lenv, s lstate, pos token.Pos, write bool) {
	for {
		switch x := addr.(type) {
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				addr = x.X
				continue
			}
			// elements of a slice held in a field
			if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL && write {
				addr = u.X
				continue
			}
			return
		case *ssa.FieldAddr:
			n := r.c.typeName(x.X.Type())
			if n != "xprotocol.Stream" && n != "xprotocol.Connection" {
				if _, ok := x.X.(*ssa.FieldAddr); ok {
					addr = x.X
					continue
				}
				return
			}
			ft := x.Type().Underlying().(*types.Pointer).Elem()
			if isMutex(ft) || strings.HasPrefix(ft.String(), "sync") {
				return
			}
			p := r.path(x.X, env)
			if strings.HasPrefix(p, "new") {
				return
			}
			f := n + "." + structField(x.X.Type(), x.Field)
			r.fields[f] = append(r.fields[f], lfield{luse{r.root, pos, env.fn, s.locks()}, write})
			return
		default:
			return
		}
	}
}

func (r *lockRun) call(x ssa.CallInstruction, env *lenv, s lstate) []lstate {
	c := r.c
	cc := x.Common()
	fname := c.p.FuncName(env.fn)
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		if cc.Value.Name() == "copy" {
			r.argField(cc.Args[0], env, s, x.Pos())
		}
		return []lstate{s}
	}
	f := cc.StaticCallee()
	if f != nil && len(cc.Args) > 0 && f.Signature.Recv() != nil && isMutex(f.Signature.Recv().Type()) && f.Blocks == nil {
		shared := f.Name() == "RLock" || f.Name() == "RUnlock"
		id := r.lockID(cc.Args[0], env, shared)
		switch f.Name() {
		case "Lock", "RLock":
			other := r.lockID(cc.Args[0], env, !shared)
			c.must(!s.has(id) && !s.has(other), "double lock in "+fname, c.p.Pos(x.Pos()), "%s takes %s, which is already held on a path from %s: it waits for itself", fname, lockClass(id), c.p.FuncName(r.root))
			for _, h := range s.locks() {
				a := lockClass(h)
				if r.order[a] == nil {
					r.order[a] = map[string]string{}
				}
				if a != lockClass(id) {
					r.order[a][lockClass(id)] = c.p.Pos(x.Pos())
				}
			}
			if r.acq[r.root] == nil {
				r.acq[r.root] = map[string]bool{}
			}
			r.acq[r.root][lockClass(id)] = true
			if s.held == "" {
				s.held = id
			} else if !s.has(id) {
				s.held += "," + id
			}
			r.sites++
		case "Unlock", "RUnlock":
			if !c.must(s.has(id), "unlock in "+fname, c.p.Pos(x.Pos()), "%s releases %s, which is not held on a path from %s", fname, lockClass(id), c.p.FuncName(r.root)) {
				return nil
			}
			var rest []string
			for _, h := range s.locks() {
				if h != id {
					rest = append(rest, h)
				}
			}
			s.held = strings.Join(rest, ",")
			if s.wr == 1 && len(protecting(rest)) == 0 {
				s.wr = 2
			}
			if s.rd == 1 && len(protecting(rest)) == 0 {
				s.rd = 2
			}
		case "TryLock", "TryRLock":
			c.must(false, "try in "+fname, c.p.Pos(x.Pos()), "%s tries a lock: what follows cannot rely on it", fname)
		}
		return []lstate{s}
	}
	// transport
	kind, fresh := r.transport(cc, env)
	for _, k := range kind {
		u := luse{r.root, x.Pos(), env.fn, s.locks()}
		what, ph := "write", &s.wr
		if k == 'r' {
			what, ph = "read", &s.rd
			r.usesR = append(r.usesR, u)
		} else {
			r.usesW = append(r.usesW, u)
		}
		if r.root != r.loop {
			c.must(*ph != 2, what+" in a second section in "+fname, c.p.Pos(x.Pos()), "one call of %s %ss a frame in several critical sections (%s): another frame can come between", c.p.FuncName(r.root), what, fname)
		}
		*ph = 1
	}
	if fresh != "" {
		c.must(false, "new buffer in "+fname, c.p.Pos(x.Pos()), "%s wraps the transport of an existing stream in a new %s: bytes are lost or out of order", fname, fresh)
	}
	if f != nil && f.Blocks == nil && len(cc.Args) > 0 && f.Name() == "Reset" && strings.HasPrefix(f.String(), "(*bufio.") {
		c.must(strings.HasPrefix(r.path(cc.Args[0], env), "new"), "reset in "+fname, c.p.Pos(x.Pos()), "%s resets the buffer of an existing stream: after a failure a new frame would follow part of the old one", fname)
	}
	if cc.IsInvoke() && cc.Method.Name() == "Close" && len(cc.Args) == 0 && strings.HasSuffix(cc.Value.Type().String(), "net.Conn") && !strings.HasPrefix(r.path(cc.Value, env), "new") {
		s.closed = true
	}
	if f == nil && !cc.IsInvoke() {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			return r.run(g, r.bind(g, x, env), s)
		}
		// a callback
		c.must(len(s.locks()) == 0, "callback under a lock in "+fname, c.p.Pos(x.Pos()), "%s calls back while holding %s", fname, s.held)
		if r.notifier(cc.Value, env) {
			s.told++
			if s.told > 2 {
				s.told = 2
			}
		}
		return []lstate{s}
	}
	if f != nil && f.Blocks != nil && r.touches(f) {
		return r.run(f, r.bind(f, x, env), s)
	}
	// memory handed to functions that overwrite it
	if f != nil && f.Blocks == nil {
		for _, k := range extWrites[f.String()] {
			if k < len(cc.Args) {
				r.argField(cc.Args[k], env, s, x.Pos())
			}
		}
	}
	return []lstate{s}
}

func (r *lockRun) argField(v ssa.Value, env *lenv, s lstate, pos token.Pos) {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				r.field(x.X, env, s, pos, true)
				return
			}
			v = x.X
		case *ssa.UnOp:
			if _, ok := x.Type().Underlying().(*types.Slice); ok && x.Op == token.MUL {
				r.field(x.X, env, s, pos, true)
			}
			return
		default:
			return
		}
	}
}

// touches: the function (or one it calls) has to do with locks, the transport
// or callbacks.
func (r *lockRun) touches(f *ssa.Function) bool {
	if r.touch == nil {
		r.touch = map[*ssa.Function]bool{}
	}
	if v, ok := r.touch[f]; ok {
		return v
	}
	r.touch[f] = r.c.p.RelOf(f) == "xprotocol" || r.usesLocks(f)
	if r.touch[f] {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && g.Blocks != nil && r.touches(g) {
					r.touch[f] = true
				}
			}
		}
	}
	return r.touch[f]
}

// transport tells whether a call outside the repository reads or writes a
// shared connection.
func (r *lockRun) transport(cc *ssa.CallCommon, env *lenv) (kinds []byte, fresh string) {
	if f := cc.StaticCallee(); f != nil && f.Blocks != nil {
		return nil, ""
	}
	role := func(v ssa.Value) string {
		for {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
				continue
			}
			if ci, ok := v.(*ssa.ChangeInterface); ok {
				v = ci.X
				continue
			}
			break
		}
		p := r.path(v, env)
		if strings.HasPrefix(p, "new") || strings.HasPrefix(p, "?") {
			return ""
		}
		switch v.Type().String() {
		case "*bufio.Writer":
			return "w"
		case "*bufio.Reader":
			return "r"
		case "*bufio.ReadWriter":
			return "b"
		case "net.Conn", "io.ReadWriter", "io.ReadWriteCloser", "*net.TCPConn":
			return "c"
		case "io.Writer":
			return "w"
		case "io.Reader":
			return "r"
		}
		return ""
	}
	if cc.IsInvoke() {
		switch role(cc.Value) {
		case "c", "w", "r":
			switch cc.Method.Name() {
			case "Write":
				return []byte{'w'}, ""
			case "Read":
				return []byte{'r'}, ""
			}
		}
	}
	f := cc.StaticCallee()
	if f == nil && !cc.IsInvoke() {
		return nil, ""
	}
	for k, a := range cc.Args {
		ro := role(a)
		if ro == "" {
			continue
		}
		if f != nil && strings.HasPrefix(f.String(), "bufio.New") {
			// the constructor of a stream wraps the connection it is given,
			// which is its argument, not a field of an existing stream
			if strings.Count(r.path(a, env), ".") > 1 && !r.intoNew(cc, env) {
				return nil, "buffer"
			}
			continue
		}
		var pt types.Type
		sig := cc.Signature()
		if f != nil && f.Signature.Recv() != nil {
			if k == 0 {
				switch ro {
				case "w":
					return []byte{'w'}, ""
				case "r":
					switch f.Name() {
					case "Buffered", "Size":
						return nil, ""
					}
					return []byte{'r'}, ""
				case "b":
					if strings.HasPrefix(f.Name(), "Write") || f.Name() == "Flush" {
						return []byte{'w'}, ""
					}
					return []byte{'r'}, ""
				}
				continue
			}
			pt = sig.Params().At(min(k-1, sig.Params().Len()-1)).Type()
		} else if sig.Params().Len() > 0 {
			pt = sig.Params().At(min(k, sig.Params().Len()-1)).Type()
		}
		switch ro {
		case "w", "r":
			kinds = append(kinds, ro[0])
		case "c", "b":
			if pt != nil && pt.String() == "io.Reader" {
				kinds = append(kinds, 'r')
			} else if pt != nil && pt.String() == "io.Writer" {
				kinds = append(kinds, 'w')
			}
		}
	}
	return kinds, ""
}

// intoNew: the constructor keeps the result in a stream it is making.
func (r *lockRun) intoNew(cc *ssa.CallCommon, env *lenv) bool {
	for _, b := range env.fn.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok || call.Common() != cc {
				continue
			}
			for _, ref := range *call.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Val == call {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						_, isNew := fa.X.(*ssa.Alloc)
						return isNew
					}
				}
			}
		}
	}
	return false
}

// afterFailure: once reading a frame failed, the loop reads no more and
// delivers nothing.
func (r *lockRun) afterFailure() {
	c := r.c
	found := 0
	var funcs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var collect func(f *ssa.Function)
	collect = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		funcs = append(funcs, f)
		for _, a := range f.AnonFuncs {
			collect(a)
		}
	}
	collect(r.loop)
	for _, b := range r.loop.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && r.c.p.RelOf(g) == "xprotocol" {
					collect(g)
				}
			}
		}
	}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || g.Name() != "ReadMessage" {
					continue
				}
				found++
				// values that are the error
				errs := map[ssa.Value]bool{}
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
						errs[e] = true
					}
				}
				for changed := true; changed; {
					changed = false
					for _, b := range fn.Blocks {
						for _, i := range b.Instrs {
							if ph, ok := i.(*ssa.Phi); ok && !errs[ph] {
								for _, e := range ph.Edges {
									if errs[e] {
										errs[ph] = true
										changed = true
									}
								}
							}
						}
					}
				}
				// leave out the edges on which there is no error
				blocked := map[[2]*ssa.BasicBlock]bool{}
				for _, b := range fn.Blocks {
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					bo, ok := iff.Cond.(*ssa.BinOp)
					if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
						continue
					}
					x, y := bo.X, bo.Y
					if k, ok := x.(*ssa.Const); ok && k.IsNil() {
						x, y = y, x
					}
					if k, ok := y.(*ssa.Const); !ok || !k.IsNil() || !errs[x] {
						continue
					}
					k := 0
					if bo.Op == token.NEQ {
						k = 1
					}
					blocked[[2]*ssa.BasicBlock{b, b.Succs[k]}] = true
				}
				seen := map[*ssa.BasicBlock]bool{}
				bad := ""
				var walk func(b *ssa.BasicBlock, from int)
				walk = func(b *ssa.BasicBlock, from int) {
					for _, i := range b.Instrs[from:] {
						if c2, ok := i.(*ssa.Call); ok {
							if h := c2.Call.StaticCallee(); h != nil && h.Name() == "ReadMessage" {
								bad = "reads again"
							}
							if n, ok := c2.Call.Value.Type().(*types.Named); ok && n.Obj().Name() == "ReceiveFunc" {
								bad = "delivers a message"
							}
						}
					}
					for _, s := range b.Succs {
						if !blocked[[2]*ssa.BasicBlock{b, s}] && !seen[s] {
							seen[s] = true
							walk(s, 0)
						}
					}
				}
				idx := 0
				for k, j := range b.Instrs {
					if j == call {
						idx = k + 1
					}
				}
				walk(b, idx)
				c.must(bad == "", "after a read failure in "+c.p.FuncName(fn), c.p.Pos(call.Pos()), "after ReadMessage failed, %s %s instead of ending the connection", c.p.FuncName(fn), bad)
			}
		}
	}
	need("a read in the receive loop", found > 0)
}
