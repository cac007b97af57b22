package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: tokucheck <property> | dump <pkg> <recv> <func>")
		os.Exit(2)
	}
	if os.Args[1] == "dump" {
		dumpMain(os.Args[2:])
		return
	}
	if os.Args[1] == "names" {
		p, err := Load(repoRoot())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dumpNames(p)
		return
	}
	if pf := os.Getenv("TOKU_PROF"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
		rc := runCheck(os.Args[1])
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(runCheck(os.Args[1]))
}

// dumpMain prints the outcomes of one function; a debugging aid.
func dumpMain(a []string) {
	p, err := Load(repoRoot())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f := p.Func(a[0], a[1], a[2])
	if f == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	e := newEngine(p)
	if len(a) > 3 && strings.Contains(a[3], "g") {
		e.initGlobals()
	}
	if len(a) > 3 && strings.Contains(a[3], "m") {
		bufModels(e)
		if strings.Contains(strings.Join(os.Args, " "), "hd") {
			hdModels(e)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(*budgetError); ok {
				fmt.Println("UNDECIDED:", b.msg)
				return
			}
			panic(r)
		}
	}()
	st := newState()
	var args []*Term
	for _, prm := range f.Params {
		args = append(args, mkSym(prm.Name(), prm.Type()))
	}
	outs := e.Run(f, st, args)
	for i, o := range outs {
		fmt.Printf("== outcome %d panic=%v\n", i, o.panic)
		if o.res != nil {
			fmt.Println("  res:", e.reify(o.st, o.res))
		}
		printState(e, o.st)
	}
	fmt.Println("steps", e.steps, "imprecision", e.imprec)
}
