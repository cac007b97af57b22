package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id:    "C19",
		rule:  "The initialisers are evaluated; every entry of every error table is filed under its own number, numbers are distinct over all tables, and at every site that raises an error (resolved through forwarding helpers to constants) the code is in the table used and the arguments match the message's placeholders in number and kind. Raising makes a fresh, well-formed error from the table's values and writes nothing else.",
		specs: []string{"xerror/raise"},
		floor: 120,
		run: func(c *Ctx) {
			c.specPairs("xerror", "Raise", true, func(e *Engine) {
				delete(e.models, "xerror.NewError")
				opaque(e, "xerror.caller", nil)
				e.models["fmt.Sprintf"] = func(c *callCtx) ([]Outcome, bool) {
					if f := c.args[0]; f.op == OStr && !strings.Contains(f.sym, "%") && (c.args[1] == tNil || c.args[1].op == OSlice && c.args[1].args[2].isK(0)) {
						return c.ret(f), true
					}
					return nil, false
				}
				e.constGlobals(nil, "xerror")
			})
			c.specPairs("xerror", "Text", true, nil)
			c.errorSites()
		},
	})
}

type errEntry struct {
	num     int64
	message string
}

func (c *Ctx) errorTables() (tables map[*ssa.Global]map[int64]errEntry) {
	named := c.p.Named("xerror", "Error")
	tables = map[*ssa.Global]map[int64]errEntry{}
	owner := map[int64]string{}
	for _, pk := range c.p.Pkgs {
		var e *Engine
		var st *State
		for _, n := range pk.Types.Scope().Names() {
			g := pk.SSA.Var(n)
			if g == nil {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			m, ok := t.Underlying().(*types.Map)
			if !ok || !types.Identical(m.Elem(), types.NewPointer(named)) {
				continue
			}
			if e == nil {
				e = c.engine()
				st = e.initGlobals(pk.Rel)
			}
			name := pk.Rel + "." + n
			where := c.p.Pos(g.Pos())
			tab := map[int64]errEntry{}
			tables[g] = tab
			mc := e.mapContent(st, e.load(st, globTerm(g), t))
			for ; mc.op == OApp && mc.sym == "mapset"; mc = mc.args[0] {
				k, ok := mc.args[1].int64()
				if !ok {
					panic(&budgetError{"key of " + name + ": " + clip(mc.args[1].String())})
				}
				if _, dup := tab[k]; dup {
					continue
				}
				get := func(f string) *Term {
					p, ft := e.fieldOf(mc.args[2], named, f)
					return e.load(st, p, ft)
				}
				num, ok1 := get("Num").int64()
				msg := get("Message")
				if !ok1 || msg.op != OStr {
					panic(&budgetError{fmt.Sprintf("entry %d of %s is not constant", k, name)})
				}
				tab[k] = errEntry{num, msg.sym}
				c.must(num == k, fmt.Sprintf("number of entry %d of %s", k, name), where, "the entry of %s under %d carries the number %d", name, k, num)
				if o := owner[num]; o != "" {
					c.must(false, fmt.Sprintf("number %d twice", num), where, "the number %d is used by %s and by %s", num, o, name)
				}
				owner[num] = name
				_, bad := verbs(msg.sym)
				c.must(bad == "", fmt.Sprintf("message of entry %d of %s", k, name), where, "message %q: %s", msg.sym, bad)
			}
			need("contents of "+name+": "+clip(mc.String()), mc.op == OSym && mc.sym == "emptymap" && len(tab) > 0)
			c.count("table entries", len(tab))
		}
	}
	need("error tables", len(tables) >= 3)
	return tables
}

// verbs are the placeholders of a format, in order.
func verbs(s string) (out []byte, bad string) {
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			i++
		}
		switch {
		case i >= len(s):
			return out, "ends inside a placeholder"
		case s[i] == '%':
		case strings.IndexByte("vTtbcdoOqxXUeEfFgGsp", s[i]) >= 0:
			out = append(out, s[i])
		default:
			return out, fmt.Sprintf("unknown placeholder %%%c", s[i])
		}
	}
	return out, ""
}

// fits: a value of the type prints under the verb.
func fits(verb byte, t types.Type) bool {
	if verb == 'v' || verb == 'T' || types.IsInterface(t) {
		return true
	}
	str := types.NewMethodSet(t)
	for _, m := range []string{"Error", "String"} {
		if sel := str.Lookup(nil, m); sel != nil && strings.IndexByte("sqxX", verb) >= 0 {
			return true
		}
	}
	info := types.BasicInfo(0)
	bytes := false
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info = u.Info()
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		bytes = ok && b.Kind() == types.Byte
		if ok {
			info = b.Info()
		}
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		bytes = ok && b.Kind() == types.Byte
		if ok {
			info = b.Info()
		}
	case *types.Pointer:
		if t.String() == "*math/big.Int" {
			return strings.IndexByte("bdoOxXs", verb) >= 0
		}
	}
	switch verb {
	case 't':
		return info&types.IsBoolean != 0
	case 'd', 'c', 'U', 'b', 'o', 'O':
		return info&types.IsInteger != 0
	case 'x', 'X':
		return bytes || info&(types.IsInteger|types.IsString|types.IsFloat) != 0
	case 's':
		return bytes || info&types.IsString != 0
	case 'q':
		return bytes || info&(types.IsString|types.IsInteger) != 0
	case 'e', 'E', 'f', 'F', 'g', 'G':
		return info&(types.IsFloat|types.IsComplex) != 0
	}
	return false
}

// raise is one call with its operands, resolved through callers where they
// are parameters.
type raise struct {
	site  token.Pos
	fn    *ssa.Function
	table *ssa.Global
	code  int64
	args  []types.Type
}

func (c *Ctx) errorSites() {
	tables := c.errorTables()
	target := c.p.Func("xerror", "", "NewError")
	need("xerror.NewError", target != nil)
	callers := c.callers()
	sites := 0
	var undecided func(fn *ssa.Function, pos token.Pos, what string)
	undecided = func(fn *ssa.Function, pos token.Pos, what string) {
		c.must(false, "raise in "+c.p.FuncName(fn), c.p.Pos(pos), "%s raises an error whose %s cannot be determined from the source", c.p.FuncName(fn), what)
	}
	// alternatives of a value: constants, or the parameter it comes from
	var flat func(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value
	flat = func(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			var out []ssa.Value
			for _, e := range x.Edges {
				out = append(out, flat(e, seen)...)
			}
			return out
		case *ssa.Convert:
			return flat(x.X, seen)
		case *ssa.ChangeType:
			return flat(x.X, seen)
		}
		return []ssa.Value{v}
	}
	type operands struct{ table, code, args ssa.Value }
	var visit func(fn *ssa.Function, pos token.Pos, o operands, chain []*ssa.Function)
	visit = func(fn *ssa.Function, pos token.Pos, o operands, chain []*ssa.Function) {
		for _, f := range chain {
			if f == fn {
				return
			}
		}
		var lifted bool
		for _, v := range []ssa.Value{o.table, o.code, o.args} {
			for _, a := range flat(v, map[ssa.Value]bool{}) {
				if p, ok := a.(*ssa.Parameter); ok && p.Parent() == fn {
					lifted = true
				}
			}
		}
		if lifted {
			calls := callers[fn]
			if calls == nil {
				undecided(fn, pos, "operands (never called directly)")
			}
			for _, call := range calls {
				arg := func(v ssa.Value) ssa.Value {
					fl := flat(v, map[ssa.Value]bool{})
					for _, a := range fl {
						if p, ok := a.(*ssa.Parameter); ok && p.Parent() == fn {
							if len(fl) > 1 {
								return nil
							}
							for i, q := range fn.Params {
								if q == p {
									return call.Common().Args[i]
								}
							}
						}
					}
					return v
				}
				n := operands{arg(o.table), arg(o.code), arg(o.args)}
				if n.table == nil || n.code == nil || n.args == nil {
					undecided(fn, pos, "operands (mixed with parameters)")
					continue
				}
				visit(call.Parent(), call.Pos(), n, append(chain, fn))
			}
			return
		}
		var g *ssa.Global
		for _, t := range flat(o.table, map[ssa.Value]bool{}) {
			u, ok := t.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				undecided(fn, pos, "table")
				return
			}
			x, ok := u.X.(*ssa.Global)
			if !ok || g != nil && g != x {
				undecided(fn, pos, "table")
				return
			}
			g = x
		}
		tab := tables[g]
		if tab == nil {
			undecided(fn, pos, "table")
			return
		}
		args, ok := variadic(o.args)
		if !ok {
			undecided(fn, pos, "list of arguments")
			return
		}
		name := c.p.FuncName(fn)
		for _, k := range flat(o.code, map[ssa.Value]bool{}) {
			num, ok := k.(*ssa.Const)
			if !ok || num.Value == nil {
				undecided(fn, pos, "code")
				continue
			}
			sites++
			ent, ok := tab[num.Int64()]
			c.must(ok, fmt.Sprintf("code %d raised in %s", num.Int64(), name), c.p.Pos(pos), "%s raises the code %d, which %s does not hold", name, num.Int64(), g.Name())
			if !ok {
				continue
			}
			vs, _ := verbs(ent.message)
			c.must(len(vs) == len(args), fmt.Sprintf("arguments of %d in %s", num.Int64(), name), c.p.Pos(pos), "%s raises %d with %d arguments; its message %q has %d placeholders", name, num.Int64(), len(args), ent.message, len(vs))
			for i := 0; i < len(vs) && i < len(args); i++ {
				for _, t := range args[i] {
					c.must(fits(vs[i], t), fmt.Sprintf("argument %d of %d in %s", i, num.Int64(), name), c.p.Pos(pos), "%s raises %d with a %s for the placeholder %%%c of %q", name, num.Int64(), t, vs[i], ent.message)
				}
			}
			c.sample(fmt.Sprintf("%s raises %d with %d arguments", name, num.Int64(), len(args)))
		}
	}
	for _, call := range callers[target] {
		if c.p.IsSpec(call.Parent()) {
			continue
		}
		a := call.Common().Args
		visit(call.Parent(), call.Pos(), operands{a[0], a[1], a[2]}, nil)
	}
	c.count("raising sites", sites)
	need("sites that raise errors", sites >= 40)

	// the functions passed around, and the tables and entries written
	named := c.p.Named("xerror", "Error")
	for _, fn := range c.p.Funcs {
		if c.p.IsSpec(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op == target {
						call, ok := in.(ssa.CallInstruction)
						c.must(ok && call.Common().Value == *op, "reference in "+c.p.FuncName(fn), c.p.Pos(in.Pos()), "%s passes xerror.NewError around: its sites cannot be determined", c.p.FuncName(fn))
					}
				}
				if fn.Name() == "init" && fn.Signature.Recv() == nil || strings.HasPrefix(fn.Name(), "init#") {
					continue
				}
				isTable := func(t types.Type) bool {
					m, ok := t.Underlying().(*types.Map)
					return ok && types.Identical(m.Elem(), types.NewPointer(named))
				}
				switch x := in.(type) {
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						c.must(!isTable(x.Call.Args[0].Type()), "table written in "+c.p.FuncName(fn), c.p.Pos(in.Pos()), "%s removes entries from an error table", c.p.FuncName(fn))
					}
				case *ssa.MapUpdate:
					if m, ok := x.Map.Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), types.NewPointer(named)) {
						c.must(false, "table written in "+c.p.FuncName(fn), c.p.Pos(in.Pos()), "%s writes to an error table", c.p.FuncName(fn))
					}
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && tables[g] != nil {
						c.must(false, "table written in "+c.p.FuncName(fn), c.p.Pos(in.Pos()), "%s replaces the error table %s", c.p.FuncName(fn), g.Name())
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type().Underlying(), types.NewPointer(named)) {
						for _, r := range flat(fa.X, map[ssa.Value]bool{}) {
							switch r.(type) {
							case *ssa.Alloc, *ssa.Call:
							default:
								c.must(false, "entry written in "+c.p.FuncName(fn), c.p.Pos(in.Pos()), "%s writes to an error it did not make", c.p.FuncName(fn))
							}
						}
					}
				}
			}
		}
	}
}

// callers maps every function to its static calls.
func (c *Ctx) callers() map[*ssa.Function][]ssa.CallInstruction {
	out := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil {
						out[f] = append(out[f], call)
					}
				}
			}
		}
	}
	for _, l := range out {
		sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	}
	return out
}

// variadic gives the static types of the arguments of a variadic call: one
// list per argument, of its alternatives.
func variadic(v ssa.Value) ([][]types.Type, bool) {
	if k, ok := v.(*ssa.Const); ok && k.IsNil() {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([][]types.Type, arr.Len())
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.IndexAddr:
			k, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *x.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != x {
					return nil, false
				}
				out[k.Int64()] = append(out[k.Int64()], staticTypes(st.Val)...)
			}
		case *ssa.Slice:
		default:
			return nil, false
		}
	}
	return out, true
}

func staticTypes(v ssa.Value) []types.Type {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok {
				out = append(out, e.Type())
				continue
			}
			out = append(out, staticTypes(e)...)
		}
		return out
	}
	return []types.Type{v.Type()}
}
