package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pairs lists the implX/specX functions injected into a package.
func (c *Ctx) pairs(rel, prefix string) (names []string, impl, spec map[string]*ssa.Function) {
	pk := c.p.ByRel[rel]
	need("package "+rel, pk != nil)
	impl, spec = map[string]*ssa.Function{}, map[string]*ssa.Function{}
	for _, n := range sortedKeys(pk.SSA.Members) {
		f, ok := pk.SSA.Members[n].(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "impl"+prefix) {
			continue
		}
		s := strings.TrimPrefix(n, "impl")
		sp := pk.SSA.Func("spec" + s)
		need("specification of "+s, sp != nil)
		names = append(names, s)
		impl[s], spec[s] = f, sp
	}
	return
}

func sortedKeys(m map[string]ssa.Member) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// messageTypes are the types of a package that implement its Message interface.
func (c *Ctx) messageTypes() []*types.Named {
	pk := c.p.ByRel["xprotocol"]
	need("package xprotocol", pk != nil)
	obj := pk.Types.Scope().Lookup("Message")
	need("interface xprotocol.Message", obj != nil)
	it, ok := obj.Type().Underlying().(*types.Interface)
	need("interface xprotocol.Message", ok)
	var out []*types.Named
	for _, n := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) || types.Implements(nt, it) {
			if c.p.IsSpecPos(tn.Pos()) || isMockFile(c.p.Fset.Position(tn.Pos()).Filename) {
				continue
			}
			out = append(out, nt)
		}
	}
	return out
}

func (c *Ctx) wirePairs(prefix string, pure bool) {
	names, impl, spec := c.pairs("xprotocol", prefix)
	for _, n := range names {
		e := c.engine()
		bufModels(e)
		e.mergeErr, e.exact = false, true
		c.equiv(e, n, impl[n], spec[n], equivOpts{pure: pure})
		c.sample("%s: every path of %s agrees with the published layout", n, n)
		c.count("comparisons", 1)
	}
}

func init() {
	register(&checkDef{
		id:    "C01",
		rule:  "For every message type, the abstract value of Encode (all paths, loops summarised) equals the published byte layout of the message's fields; Decode of arbitrary bytes yields exactly the published fields or fails exactly when the published form is truncated or over its limit; Encode writes nothing through the message.",
		specs: []string{"xprotocol/wire", "xbase/buffer"},
		floor: 40,
		run: func(c *Ctx) {
			for _, t := range c.messageTypes() {
				pk := c.p.ByRel["xprotocol"]
				n := t.Obj().Name()
				c.must(pk.SSA.Func("implEnc"+n) != nil, "message "+n, c.p.Pos(t.Obj().Pos()), "message type %s has no published layout to be compared with", n)
			}
			c.wirePairs("Enc", true)
			c.wirePairs("Dec", false)
			c.leanVarInt()
		},
	})
}
