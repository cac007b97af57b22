package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id:    "C18",
		rule:  "Every call that can report an error, in every library function: on each path from the call the error is tested or returned before it is lost, and where it is not nil the function ends with an error of its own (or, having none to return, with nothing but zero results), never goes on, retries or returns success.",
		floor: 150,
		run:   func(c *Ctx) { newErrFlow(c).check() },
	})
}

type errFlow struct {
	c     *Ctx
	never map[*ssa.Function]bool // its error is always nil
	fails map[*ssa.Function]bool // its error is never nil
}

func isErrType(t types.Type) bool { return t.String() == "error" }

func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func newErrFlow(c *Ctx) *errFlow {
	x := &errFlow{c: c, never: map[*ssa.Function]bool{}, fails: map[*ssa.Function]bool{}}
	var fs []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Blocks != nil && errIndex(f.Signature) >= 0 && !c.p.IsSpec(f) {
			fs = append(fs, f)
			x.never[f], x.fails[f] = true, true
		}
	}
	// greatest fixpoints
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			k := errIndex(f.Signature)
			for _, b := range f.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				v := r.Results[k]
				if x.never[f] && !x.alwaysNil(v, 0) {
					x.never[f] = false
					changed = true
				}
				if x.fails[f] && !x.nonNil(v, nil, nil, 0) {
					x.fails[f] = false
					changed = true
				}
			}
		}
	}
	return x
}

func (x *errFlow) alwaysNil(v ssa.Value, depth int) bool {
	switch t := v.(type) {
	case *ssa.Const:
		return t.IsNil()
	case *ssa.Phi:
		if depth > 4 {
			return false
		}
		for _, e := range t.Edges {
			if e != v && !x.alwaysNil(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return !x.canFail(t)
	case *ssa.Extract:
		if call, ok := t.Tuple.(*ssa.Call); ok {
			return !x.canFail(call)
		}
	}
	return false
}

// noFail: operations documented never to report an error.
// (a buffered writer keeps its error for Flush)
func noFail(call ssa.CallInstruction) bool {
	cc := call.Common()
	name := ""
	if f := cc.StaticCallee(); f != nil {
		name = f.String()
	} else if cc.IsInvoke() {
		t := cc.Value.Type().String()
		switch {
		case t == "hash.Hash" || t == "hash.Hash32":
			return true
		case cc.Method.Name() == "Close":
			return true
		}
		return false
	}
	switch {
	case strings.HasPrefix(name, "(*bytes.Buffer).Write"), strings.HasPrefix(name, "(*bufio.Writer).Write"), strings.HasPrefix(name, "(*strings.Builder).Write"), strings.HasPrefix(name, "fmt.Print"), strings.HasSuffix(name, ").Close"):
		return true
	case strings.HasPrefix(name, "fmt.Fprint"), name == "encoding/binary.Write", name == "io.WriteString":
		// to memory, and of a type of fixed size
		mi, ok := cc.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		switch mi.X.Type().String() {
		case "*bytes.Buffer", "*strings.Builder":
		default:
			return false
		}
		if name != "encoding/binary.Write" {
			return true
		}
		d, ok := cc.Args[2].(*ssa.MakeInterface)
		return ok && fixedSize(d.X.Type())
	}
	return false
}

func fixedSize(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean) != 0 && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr
	case *types.Array:
		return fixedSize(u.Elem())
	case *types.Slice:
		return fixedSize(u.Elem())
	case *types.Pointer:
		return fixedSize(u.Elem())
	}
	return false
}

func (x *errFlow) canFail(call ssa.CallInstruction) bool {
	if noFail(call) {
		return false
	}
	if f := call.Common().StaticCallee(); f != nil {
		return !x.never[f]
	}
	return true
}

// nonNil: the value is an error for certain. alias is what is known to be the
// error on this path.
func (x *errFlow) nonNil(v ssa.Value, alias map[ssa.Value]bool, from map[*ssa.Phi]ssa.Value, depth int) bool {
	if alias[v] {
		return true
	}
	if depth > 5 {
		return false
	}
	switch t := v.(type) {
	case *ssa.MakeInterface:
		if p, ok := t.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			return x.fresh(t.X, depth+1)
		}
		return true
	case *ssa.ChangeInterface:
		return x.nonNil(t.X, alias, from, depth+1)
	case *ssa.Phi:
		if from != nil && from[t] != nil {
			return x.nonNil(from[t], alias, from, depth+1)
		}
		for _, e := range t.Edges {
			if e != v && !x.nonNil(e, alias, from, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL {
			return x.errGlobal(g)
		}
		if ia, ok := t.X.(*ssa.Alloc); ok && t.Op == token.MUL {
			if s := soleStore(ia); s != nil {
				return x.nonNil(s, alias, from, depth+1)
			}
		}
	case *ssa.Extract:
		if call, ok := t.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && f.Blocks != nil && x.fails[f] {
				return true
			}
		}
	case *ssa.Call:
		f := t.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch f.String() {
		case "errors.New", "fmt.Errorf":
			return true
		}
		if f.Blocks != nil && x.fails[f] {
			return true
		}
		// a wrapper of the error itself
		for _, a := range t.Call.Args {
			if alias[a] && len(f.Blocks) > 0 {
				return true
			}
			if sl, ok := a.(*ssa.Slice); ok && f.String() == "errors.Join" {
				_ = sl
				return true
			}
		}
	}
	return false
}

func (x *errFlow) fresh(v ssa.Value, depth int) bool {
	switch t := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		f := t.Call.StaticCallee()
		if f == nil || f.Blocks == nil || depth > 5 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !x.fresh(r.Results[0], depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range t.Edges {
			if e != v && !x.fresh(e, depth+1) {
				return false
			}
		}
		return depth < 6
	}
	return false
}

// errGlobal: a package variable set once to an error.
func (x *errFlow) errGlobal(g *ssa.Global) bool {
	n := 0
	ok := true
	for _, f := range append(x.c.p.Funcs, g.Pkg.Func("init")) {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, is := i.(*ssa.Store); is && st.Addr == g {
					n++
					ok = ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && x.nonNil(st.Val, nil, nil, 3)
				}
			}
		}
	}
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), x.c.p.Module) {
		return true // io.EOF and the like
	}
	return ok && n > 0
}

func (x *errFlow) check() {
	c := x.c
	sites, never := 0, 0
	for _, f := range c.p.Funcs {
		if c.p.InMock(f) || c.p.IsSpec(f) || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		seen := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := call.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				k := errIndex(call.Common().Signature())
				if k < 0 || isErrMaker(call) {
					continue
				}
				if display(call) || verdict(call) {
					continue
				}
				if !x.canFail(call) {
					never++
					continue
				}
				sites++
				seen++
				x.site(f, call, k)
			}
		}
		if seen > 0 {
			c.analysed(f)
		}
	}
	c.count("calls that can fail", sites)
	c.count("calls that cannot", never)
}

// display: text for a person to look at; what fails there is seen there.
func display(call ssa.CallInstruction) bool {
	f := call.Common().StaticCallee()
	if f == nil {
		return false
	}
	if strings.HasPrefix(f.String(), "(*text/tabwriter.Writer).") {
		return true
	}
	if strings.HasPrefix(f.String(), "fmt.Fprint") {
		mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
		return ok && (mi.X.Type().String() == "*text/tabwriter.Writer" || mi.X.Type().String() == "*os.File")
	}
	return false
}

// verdict: the caller's verifier, a function value with nothing but an error
// to give, answers a question; C12 compares what the answer leads to.
func verdict(call ssa.CallInstruction) bool {
	cc := call.Common()
	if cc.IsInvoke() || cc.StaticCallee() != nil {
		return false
	}
	return cc.Signature().Results().Len() == 1 && cc.Signature().Params().Len() >= 2
}

// isErrMaker: calls whose result is the error being made.
func isErrMaker(call ssa.CallInstruction) bool {
	sig := call.Common().Signature()
	return sig.Results().Len() == 1 && func() bool {
		f := call.Common().StaticCallee()
		if f == nil {
			return false
		}
		switch f.String() {
		case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap":
			return true
		}
		return f.Signature.Recv() == nil && f.Name() == "NewError" && strings.HasSuffix(f.Pkg.Pkg.Path(), "/xerror")
	}()
}

func (x *errFlow) site(f *ssa.Function, call ssa.CallInstruction, k int) {
	c := x.c
	name := c.p.FuncName(f)
	callee := calleeName(c, call.Common())
	key := "error of " + callee + " in " + c.p.FuncName(x.owner(f))
	where := c.p.Pos(call.Pos())
	val, ok := call.(*ssa.Call)
	if !ok {
		c.must(false, key, where, "%s calls %s in a go or defer statement and loses its error", name, callee)
		return
	}
	var err ssa.Value
	if val.Call.Signature().Results().Len() == 1 {
		err = val
	} else {
		for _, ref := range *val.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index == k {
				err = e
			}
		}
	}
	if err == nil || len(*err.Referrers()) == 0 {
		c.must(false, key, where, "%s drops the error of %s", name, callee)
		return
	}
	bad, at := x.follow(f, val, err)
	if at != token.NoPos {
		where = c.p.Pos(at)
	}
	c.must(bad == "", key, where, "%s: after %s (%s) %s", name, callee, c.p.Pos(call.Pos()), bad)
}

func calleeName(c *Ctx, cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		return c.p.FuncName(f)
	}
	if cc.IsInvoke() {
		return c.typeName(cc.Value.Type()) + "." + cc.Method.Name()
	}
	return "a function value"
}

// owner: the function that a helper with one user belongs to.
func (x *errFlow) owner(f *ssa.Function) *ssa.Function {
	for n := 0; n < 5; n++ {
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if f.Object() != nil && f.Object().Exported() {
			return f
		}
		by := map[*ssa.Function]bool{}
		var one *ssa.Function
		for _, s := range x.c.callers()[f] {
			if !x.c.p.InMock(s.Parent()) {
				by[s.Parent()] = true
				one = s.Parent()
			}
		}
		if len(by) != 1 || one == f {
			return f
		}
		f = one
	}
	return f
}

const (
	errUntested = iota
	errIs
	errNot
)

func (x *errFlow) follow(f *ssa.Function, call *ssa.Call, err ssa.Value) (string, token.Pos) {
	type node struct {
		b     *ssa.BasicBlock
		s     int
		alias string
		other bool
	}
	resErr := errIndex(f.Signature)
	// names of values, for the keys of the states visited
	show := func(a map[ssa.Value]bool) string {
		var l []string
		for v := range a {
			l = append(l, v.Name())
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	// the truth values a path has joined together
	flags := func(phis map[*ssa.Phi]ssa.Value) string {
		var l []string
		for p, v := range phis {
			if isBoolType(p.Type()) {
				l = append(l, p.Name()+"="+v.Name())
			}
		}
		sort.Strings(l)
		return "/" + strings.Join(l, ",")
	}
	seen := map[node]bool{}
	var bad string
	var at token.Pos
	// other: since the failure the input was found to be of another kind
	var walk func(b *ssa.BasicBlock, idx int, s int, other bool, alias map[ssa.Value]bool, phis map[*ssa.Phi]ssa.Value)
	walk = func(b *ssa.BasicBlock, idx int, s int, other bool, alias map[ssa.Value]bool, phis map[*ssa.Phi]ssa.Value) {
		if bad != "" {
			return
		}
		if idx == 0 {
			n := node{b, s, show(alias) + flags(phis), other}
			if seen[n] {
				return
			}
			seen[n] = true
		}
		cp := map[ssa.Value]bool{}
		for v := range alias {
			cp[v] = true
		}
		alias = cp
		for _, in := range b.Instrs[idx:] {
			switch t := in.(type) {
			case *ssa.Extract, *ssa.ChangeInterface:
				if ci, ok := t.(*ssa.ChangeInterface); ok && alias[ci.X] {
					alias[ci] = true
				}
			case *ssa.Store:
				switch a := t.Addr.(type) {
				case *ssa.Alloc:
					if alias[t.Val] {
						alias[a] = true
					} else {
						delete(alias, a)
					}
				case *ssa.IndexAddr:
					// an argument list
				default:
					if alias[t.Val] && s != errNot {
						// kept for later
						return
					}
				}
			case *ssa.UnOp:
				if t.Op == token.MUL && alias[t.X] {
					alias[t] = true
				}
			case *ssa.Call:
				if t == call {
					if s == errUntested {
						bad, at = "the error is overwritten by the next one before it is tested", t.Pos()
					} else if s == errIs && !other {
						bad, at = "failed, the function goes on and tries again", t.Pos()
					}
					return
				}
			case *ssa.Panic:
				bad, at = "failed, the function panics instead of reporting it", t.Pos()
				return
			case *ssa.Return:
				bad, at = x.exit(f, t, s, alias, phis, resErr)
				return
			}
		}
		if len(b.Succs) == 0 {
			return
		}
		iff, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for k, succ := range b.Succs {
			ns := s
			var cond ssa.Value
			yes := k == 0
			if iff != nil {
				cond = iff.Cond
				for i := 0; i < 8; i++ {
					if p, ok := cond.(*ssa.Phi); ok && phis[p] != nil {
						cond = phis[p]
					} else if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
						cond, yes = u.X, !yes
					} else {
						break
					}
				}
				if k, ok := cond.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != yes {
					continue // not this way
				}
				r := errTest(cond, alias, yes)
				if r == errIs && s == errNot || r == errNot && s == errIs {
					continue
				}
				if r != errUntested {
					ns = r
				}
			}
			no := other
			if iff != nil && s == errIs && otherKind(cond, call, yes) {
				no = true
			}
			if ns == errNot {
				continue // no error: nothing to follow
			}
			// names of the error in the next block
			na := map[ssa.Value]bool{}
			for v := range alias {
				na[v] = true
			}
			np := map[*ssa.Phi]ssa.Value{}
			for p, v := range phis {
				np[p] = v
			}
			pi := -1
			for j, p := range succ.Preds {
				if p == b {
					pi = j
				}
			}
			for _, in := range succ.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				in := p.Edges[pi]
				if q, ok := in.(*ssa.Phi); ok && phis[q] != nil {
					in = phis[q]
				}
				np[p] = in
				if alias[p.Edges[pi]] {
					na[p] = true
				} else {
					delete(na, p)
				}
			}
			walk(succ, 0, ns, no, na, np)
		}
	}
	idx := 0
	for j, in := range call.Block().Instrs {
		if in == call {
			idx = j + 1
		}
	}
	walk(call.Block(), idx, errUntested, false, map[ssa.Value]bool{err: true}, map[*ssa.Phi]ssa.Value{})
	return bad, at
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// errTest tells what a branch says about the error.
func errTest(cond ssa.Value, alias map[ssa.Value]bool, yes bool) int {
	switch t := cond.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return errTest(t.X, alias, !yes)
		}
	case *ssa.BinOp:
		if t.Op != token.EQL && t.Op != token.NEQ {
			return errUntested
		}
		a, b := t.X, t.Y
		if alias[b] {
			a, b = b, a
		}
		if !alias[a] {
			return errUntested
		}
		eq := (t.Op == token.EQL) == yes
		if k, ok := b.(*ssa.Const); ok && k.IsNil() {
			if eq {
				return errNot
			}
			return errIs
		}
		if eq {
			return errIs // it is one particular error
		}
	}
	return errUntested
}

func (x *errFlow) exit(f *ssa.Function, r *ssa.Return, s int, alias map[ssa.Value]bool, phis map[*ssa.Phi]ssa.Value, resErr int) (string, token.Pos) {
	if resErr >= 0 {
		v := r.Results[resErr]
		if alias[v] || phiIs(v, alias, phis) {
			return "", 0
		}
		if s == errUntested {
			if x.nonNil(v, alias, phis, 0) {
				return "", 0
			}
			return "the function can return without having looked at the error", r.Pos()
		}
		if x.nonNil(v, alias, phis, 0) {
			return "", 0
		}
		return "failed, the function can return without an error", r.Pos()
	}
	if s == errUntested {
		return "the function can return without having looked at the error", r.Pos()
	}
	for _, v := range r.Results {
		if !x.zeroValue(v, phis, 0) && !tells(v, alias, 0) {
			return fmt.Sprintf("failed, the function returns %s as if it had not", v.Type()), r.Pos()
		}
	}
	return "", 0
}

// otherKind: the branch finds that what the failed call was given is
// something else: another reading of it succeeds, or it looks like another.
func otherKind(cond ssa.Value, call *ssa.Call, yes bool) bool {
	in := map[ssa.Value]bool{}
	for _, a := range call.Call.Args {
		if _, ok := a.(*ssa.Const); !ok {
			in[a] = true
		}
	}
	var about func(v ssa.Value, d int) bool
	about = func(v ssa.Value, d int) bool {
		if in[v] {
			return true
		}
		if d > 6 {
			return false
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, o := range i.Operands(nil) {
				if *o != nil && about(*o, d+1) {
					return true
				}
			}
		}
		return false
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	if (b.Op == token.EQL) != yes {
		return false
	}
	if k, ok := b.Y.(*ssa.Const); ok && k.IsNil() {
		e, ok := b.X.(*ssa.Extract)
		return ok && e.Tuple != ssa.Value(call) && about(e.Tuple, 0)
	}
	return about(cond, 0)
}

// tells: the result is the text of the error, or what the function was given.
func tells(v ssa.Value, alias map[ssa.Value]bool, depth int) bool {
	if alias[v] {
		return true
	}
	if depth > 4 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Call:
		if t.Call.IsInvoke() {
			return tells(t.Call.Value, alias, depth+1)
		}
	}
	return false
}

func phiIs(v ssa.Value, alias map[ssa.Value]bool, phis map[*ssa.Phi]ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	w := phis[p]
	return w != nil && alias[w]
}

func (x *errFlow) zeroValue(v ssa.Value, phis map[*ssa.Phi]ssa.Value, depth int) bool {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return true
		}
		switch t.Value.Kind() {
		case constant.Bool:
			return !constant.BoolVal(t.Value)
		case constant.String:
			return constant.StringVal(t.Value) == ""
		case constant.Int:
			return constant.Sign(t.Value) <= 0
		}
	case *ssa.Phi:
		if w := phis[t]; w != nil && depth < 5 {
			return x.zeroValue(w, phis, depth+1)
		}
	case *ssa.UnOp:
		if a, ok := t.X.(*ssa.Alloc); ok && t.Op == token.MUL {
			// never stored into
			for _, ref := range *a.Referrers() {
				if _, ok := ref.(*ssa.Store); ok {
					return false
				}
			}
			return true
		}
	}
	return false
}
