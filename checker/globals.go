package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals runs the initialisers of the named packages (all if none) and
// of those they import, in dependency order, over the abstract domain: tables
// built from literals come out exactly.
func (e *Engine) initGlobals(rels ...string) *State {
	// Terms and addresses are shared by all engines, so the initial state is
	// evaluated once for each setting it may depend on.
	key := fmt.Sprint(rels, e.side, e.wide, e.wideInt, e.exact, e.mergeErr, e.maxParts, len(e.models))
	if st := e.prog.inits[key]; st != nil {
		e.initState = st.clone()
		return e.initState
	}
	st := newState()
	q := e.quiet
	e.quiet++
	defer func() { e.quiet = q }()
	done := map[string]bool{}
	var run func(pk *Package)
	run = func(pk *Package) {
		if done[pk.Path] {
			return
		}
		done[pk.Path] = true
		for _, imp := range pk.Types.Imports() {
			if d := e.prog.byTypes[imp]; d != nil {
				run(d)
			}
		}
		f := pk.SSA.Func("init")
		if f == nil || f.Blocks == nil {
			return
		}
		guard := globTerm(pk.SSA.Var("init$guard"))
		st.mem[guard] = tFalse
		outs := e.Run(f, st, nil)
		var live []Outcome
		for _, o := range outs {
			if !o.panic {
				live = append(live, o)
			}
		}
		if len(live) != 1 {
			panic(&budgetError{fmt.Sprintf("initialiser of %s has %d outcomes", pk.Path, len(live))})
		}
		st = live[0].st
	}
	for _, pk := range e.prog.Pkgs {
		want := len(rels) == 0
		for _, r := range rels {
			want = want || r == pk.Rel
		}
		if want {
			run(pk)
		}
	}
	if e.prog.inits == nil {
		e.prog.inits = map[string]*State{}
	}
	e.prog.inits[key] = st
	e.initState = st.clone()
	return e.initState
}

// constGlobals publishes the initial values of package variables that only
// initialisation writes (see writtenGlobals), so that later analyses may read them.
func (e *Engine) constGlobals(written map[*ssa.Global]bool, rels ...string) {
	st := e.initGlobals(rels...)
	for a, v := range st.mem {
		r := rootOf(a)
		if r.op == OGlob {
			if g, ok := r.any.(*ssa.Global); ok && written[g] {
				continue
			}
		}
		e.globals[a] = v
	}
}

// errorGlobals says only that a package's error variables are set.
func (e *Engine) errorGlobals(rel string) {
	if e.globals == nil {
		e.globals = map[*Term]*Term{}
	}
	pk := e.prog.ByRel[rel]
	for _, n := range pk.Types.Scope().Names() {
		g := pk.SSA.Var(n)
		if g == nil {
			continue
		}
		if t := g.Type().Underlying().(*types.Pointer).Elem(); t == types.Universe.Lookup("error").Type() {
			e.globals[globTerm(g)] = mkApp("nonnil", t, mkSym("error:"+n, t))
		}
	}
}

func printState(e *Engine, st *State) {
	var ks []*Term
	for a := range st.mem {
		if rootOf(a).op == OGlob {
			continue
		}
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, a := range ks {
		s := st.mem[a].String()
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		fmt.Println("   ", a, "=", s)
	}
	var fs []string
	for _, f := range st.facts.list() {
		fs = append(fs, f.String())
	}
	fmt.Println("    facts:", strings.Join(fs, " ; "))
}
