package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// setters are the functions a caller invokes to replace package state.
var setters = map[string][]string{
	"xcore/bip39.SetWordList": {"wordList", "wordMap"},
}

// types whose values are keys, signatures, scripts, addresses or constants: a
// method leaves them alone unless that is what it is for.
var valueLike = map[string][]string{
	"xcrypto.PrvKey": nil, "xcrypto.PubKey": nil,
	"xcrypto.SignatureEcdsa": {"Deserialize"}, "xcrypto.SignatureSchnorr": {"Deserialize"},
	"xcrypto/paillier.PubKey": nil, "xcrypto/paillier.PrvKey": nil,
	"xcrypto/secp256k1.BitCurve": nil, "crypto/ecdsa.PrivateKey": nil, "crypto/ecdsa.PublicKey": nil,
	"xcore/bip32.HDKey": nil, "network.Network": {"SetMagic", "SetPort", "SetLastBlock"},
	"xvm.Instruction": nil,
}

// memory a function is documented to fill or extend
var outputs = map[string]string{
	"(*xcrypto/ripemd160.digest).Sum in": "hash.Hash appends the digest to the slice given",
}

func init() {
	register(&checkDef{
		id:    "C31",
		rule:  "Effect summaries of every function (access paths from parameters and package variables, instantiated at each call): no function a caller can reach writes to a package variable, or to memory it holds, except initialisers, initialisation guarded by sync.Once, and the setter made for it; a variable initialised under a sync.Once is read only after it.",
		floor: 300,
		run: func(c *Ctx) {
			m := newModref(c.p)
			m.run(c.p.Funcs)
			c.globalEffects(m)
			c.onceReads(m)
			c.count("call instantiations", m.calls)
		},
	})
	register(&checkDef{
		id:    "C28",
		rule:  "Effect summaries of every function: no exported function writes (assignment, copy, append into spare capacity, in-place big-number arithmetic, library call that overwrites) to memory reachable from an argument, to a key, signature, script, address or table it is a method of, or to caller memory it kept earlier.",
		floor: 300,
		run: func(c *Ctx) {
			m := newModref(c.p)
			m.run(c.p.Funcs)
			c.callerEffects(m)
			c.count("call instantiations", m.calls)
		},
	})
}

// api: a function a caller outside the package can reach by name or through
// an interface.
func (c *Ctx) api(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" || c.p.InMock(f) || c.p.IsSpec(f) {
		return false
	}
	return ast.IsExported(f.Name())
}

func (c *Ctx) apiFuncs(m *modref) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if c.api(f) {
			out = append(out, f)
			c.analysed(f)
		}
	}
	need("exported functions", len(out) > 250)
	return out
}

func sortedWrites(in *minfo) []mwkey {
	var out []mwkey
	for k := range in.wr {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.w.pos != b.w.pos {
			return a.w.pos < b.w.pos
		}
		if x, y := in.show(a.a), in.show(b.a); x != y {
			return x < y
		}
		return !a.w.once && b.w.once
	})
	return out
}

func (c *Ctx) globalEffects(m *modref) {
	seen := map[string]bool{}
	for _, f := range c.apiFuncs(m) {
		name := c.p.FuncName(f)
		ok := true
		for _, k := range sortedWrites(m.get(f)) {
			r := k.a.o.root()
			if r.kind != mGlobal || k.w.once || r.g.Pkg == nil {
				continue
			}
			allowed := false
			for _, g := range setters[name] {
				allowed = allowed || g == r.g.Name()
			}
			if allowed {
				continue
			}
			gn := c.p.RelOf(k.w.born) + "." + r.g.Name()
			key := "write to " + r.g.Name() + " in " + c.p.FuncName(k.w.fn)
			ok = false
			if !seen[key] {
				seen[key] = true
				c.must(false, key, c.p.Pos(k.w.pos), "%s %s of package variable %s (%s), reached from %s", c.p.FuncName(k.w.fn), k.w.what, gn, m.get(f).show(k.a), name)
			}
		}
		if ok {
			c.must(true, "", "", "")
		}
	}
}

// onceReads: variables written under a sync.Once are loaded only where a call
// of Do comes first.
func (c *Ctx) onceReads(m *modref) {
	vars := map[*ssa.Global]bool{}
	inside := map[*ssa.Function]bool{}
	for _, in := range m.info {
		for k := range in.wr {
			r := k.a.o.root()
			if r.kind == mGlobal && k.w.once && k.a.o == r {
				vars[r.g] = true
				inside[k.w.fn] = true
			}
		}
	}
	for _, fn := range c.p.Funcs {
		if inside[fn] || fn.Name() == "init" || c.p.InMock(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for idx, i := range b.Instrs {
				u, ok := i.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok || !vars[g] {
					continue
				}
				first := false
				for d := b; d != nil && !first; d = d.Idom() {
					lim := len(d.Instrs)
					if d == b {
						lim = idx
					}
					for _, j := range d.Instrs[:lim] {
						if call, ok := j.(*ssa.Call); ok {
							if s := call.Call.StaticCallee(); s != nil && s.String() == "(*sync.Once).Do" {
								first = true
							}
						}
					}
				}
				c.must(first, "read of "+g.Name()+" in "+c.p.FuncName(fn), c.p.Pos(i.Pos()), "%s reads %s, which is initialised under a sync.Once, without making sure the initialisation is done", c.p.FuncName(fn), g.Name())
			}
		}
	}
}

func (c *Ctx) typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	t = derefType(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	p := strings.TrimPrefix(n.Obj().Pkg().Path(), c.p.Module+"/")
	return p + "." + n.Obj().Name()
}

// value: memory of this type belongs to whoever made it.
func (c *Ctx) value(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Byte
	}
	n := c.typeName(t)
	if n == "math/big.Int" {
		return true
	}
	_, ok := valueLike[n]
	return ok || c.standard(t)
}

// standard: the repository's script and address types.
func (c *Ctx) standard(t types.Type) bool {
	n := c.typeName(t)
	if n == "" {
		return false
	}
	for _, in := range []string{"Script", "Address"} {
		if it := c.p.Named("xcore", in); it != nil {
			if i, ok := it.Underlying().(*types.Interface); ok && types.Implements(types.NewPointer(derefType(t)), i) {
				return true
			}
		}
	}
	return false
}

// label is the field an object was reached through.
func label(o *mobj) string {
	for ; o != nil && o.kind == mChild; o = o.parent {
		if _, l := pathType(o.parent.typ, o.sub); l != "" {
			return l
		}
	}
	return ""
}

func (c *Ctx) callerEffects(m *modref) {
	api := c.apiFuncs(m)
	// fields that keep memory of a caller or of a package variable
	kept := map[string]string{}
	for _, f := range api {
		in := m.get(f)
		recv := f.Signature.Recv() != nil
		for a, set := range in.cont {
			if a.o.kind == mFunc {
				continue
			}
			_, l := pathType(a.o.typ, a.p)
			if l == "" {
				l = label(a.o)
			}
			if l == "" {
				continue
			}
			for b := range set {
				r := b.o.root()
				if r.kind != mParam && r.kind != mGlobal || r.kind == mParam && recv && r.n == 0 {
					continue
				}
				bt, _ := pathType(b.o.typ, b.p)
				if !c.value(bt) {
					continue
				}
				if old := kept[l]; old == "" || c.p.FuncName(f) < old {
					kept[l] = c.p.FuncName(f)
				}
			}
		}
	}
	c.count("fields that keep caller memory", len(kept))
	var names []string
	for l, f := range kept {
		names = append(names, l+" (from "+f+")")
	}
	sort.Strings(names)
	for _, n := range names {
		c.sample("kept: " + n)
	}
	seen := map[string]bool{}
	for _, f := range api {
		in := m.get(f)
		name := c.p.FuncName(f)
		recv := f.Signature.Recv() != nil
		ok := true
		for _, k := range sortedWrites(in) {
			r := k.a.o.root()
			if r.kind != mParam {
				continue
			}
			pn := f.Params[r.n].Name()
			why := ""
			if recv && r.n == 0 {
				rt := f.Signature.Recv().Type()
				if _, v := valueLike[c.typeName(rt)]; v || c.standard(rt) {
					allowed := false
					for _, n := range valueLike[c.typeName(rt)] {
						allowed = allowed || n == f.Name()
					}
					if !allowed {
						why = "its receiver"
					}
				}
				for o := k.a.o; o.kind == mChild; o = o.parent {
					if l := label(o); l != "" && kept[l] != "" && c.value(o.typ) {
						why = fmt.Sprintf("%s, which may be memory given to %s", l, kept[l])
					}
				}
			} else {
				why = "its argument " + pn
				if _, okay := outputs[name+" "+pn]; okay {
					why = ""
				}
			}
			if why == "" {
				continue
			}
			ok = false
			key := fmt.Sprintf("write to %s of %s in %s", pn, name, c.p.FuncName(k.w.fn))
			if !seen[key] {
				seen[key] = true
				c.must(false, key, c.p.Pos(k.w.pos), "%s writes to %s: %s %s (%s)", name, why, c.p.FuncName(k.w.fn), k.w.what, in.show(k.a))
			}
		}
		if ok {
			c.must(true, "", "", "")
		}
	}
}

func (in *minfo) show(a maddr) string {
	var s string
	switch o := a.o; o.kind {
	case mParam:
		s = "param" + fmt.Sprint(o.n) + o.sub
		if o.n < len(in.fn.Params) {
			s = in.fn.Params[o.n].Name() + o.sub
		}
	case mFree:
		s = "captured" + fmt.Sprint(o.n)
	case mGlobal:
		s = o.g.Name()
	case mChild:
		s = in.show(maddr{o.parent, o.sub}) + "->"
	default:
		s = "?"
	}
	return s + a.p
}
