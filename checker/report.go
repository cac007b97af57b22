package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// checkDef is one registered check.
type checkDef struct {
	id    string
	rule  string   // the rule applied, for the evidence
	specs []string // specification files injected into the analysed packages
	floor int      // least number of obligations confirmed by hand
	trust []string
	run   func(c *Ctx)
}

var checks = map[string]*checkDef{}

func register(d *checkDef) { checks[d.id] = d }

type failure struct {
	key, where, text string
}

// Ctx is one run of one check.
type Ctx struct {
	id       string
	p        *Program
	def      *checkDef
	obl      int
	ok       int
	fails    []failure
	seen     map[string]bool
	samples  []string
	safe     bool // run implementations alone and look at their accesses (C32)
	counts   map[string]int
	funcs    map[string]bool
	imprec   map[string]int
	thorough bool
	engines  []*Engine
}

func (c *Ctx) obligation() { c.obl++ }
func (c *Ctx) discharged() { c.ok++ }

// fail reports a violated obligation; key is rule+construct, never a line.
func (c *Ctx) fail(key, where, text string) {
	k := key + "\x00" + text
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.fails = append(c.fails, failure{key, where, text})
}

// must records one obligation and its verdict.
func (c *Ctx) must(ok bool, key, where, format string, a ...interface{}) bool {
	c.obl++
	if ok {
		c.ok++
		return true
	}
	c.fail(key, where, fmt.Sprintf(format, a...))
	return false
}

func (c *Ctx) sample(format string, a ...interface{}) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) count(what string, n int) { c.counts[what] += n }

func (c *Ctx) analysed(f *ssa.Function) {
	if f != nil {
		c.funcs[c.p.FuncName(f)] = true
	}
}

// engine makes an engine whose visited functions are reported as analysed.
func (c *Ctx) engine() *Engine {
	e := newEngine(c.p)
	specModels(e)
	c.engines = append(c.engines, e)
	return e
}

func verifDir() string {
	if d := os.Getenv("TOKU_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "checker")); err == nil {
			return d
		}
	}
	return "/verif"
}

type knownFinding struct{ prop, key, desc string }

// knownFindings reads the committed list: lines
//
//	finding: property=C10 key="..." text
func knownFindings() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(rest, " key=")
		if i < 0 {
			continue
		}
		k := knownFinding{prop: rest[:i]}
		q, err := strconv.QuotedPrefix(rest[i+5:])
		if err != nil {
			continue
		}
		k.key, _ = strconv.Unquote(q)
		k.desc = strings.TrimSpace(rest[i+5+len(q):])
		out = append(out, k)
	}
	return out
}

func runCheck(id string) int {
	start := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	c := &Ctx{id: id, def: def, seen: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}, imprec: map[string]int{}}
	c.thorough = os.Getenv("VERIF_TIER") == "thorough"
	func() {
		defer func() {
			r := recover()
			if r != nil && os.Getenv("TOKU_STACK") != "" {
				debug.PrintStack()
			}
			switch x := r.(type) {
			case nil:
			case *budgetError:
				c.fail("undecided", "-", "the analysis cannot decide the property on this code: "+x.msg)
			case *anchorError:
				c.fail("anchor", "-", "cannot find what the property is about: "+x.what)
			default:
				if os.Getenv("TOKU_DEBUG") != "" {
					panic(r)
				}
				c.fail("internal", "-", fmt.Sprintf("analysis failure: %v", r))
			}
		}()
		p, err := Load(repoRoot(), def.specs...)
		if err != nil {
			c.fail("load", "-", err.Error())
			return
		}
		c.p = p
		def.run(c)
		if len(c.fails) == 0 && c.obl < def.floor {
			c.fail("coverage", "-", fmt.Sprintf("only %d obligations found, %d were confirmed by hand: the rule no longer sees its instances", c.obl, def.floor))
		}
	}()
	for _, e := range c.engines {
		for f := range e.seenFn {
			if c.p.IsSpec(f) {
				continue
			}
			c.funcs[c.p.FuncName(f)] = true
		}
		for k, v := range e.imprec {
			c.imprec[k] += v
		}
	}
	known := knownFindings()
	var open []failure
	reported := map[string]bool{}
	for _, f := range c.fails {
		matched := false
		for _, k := range known {
			if k.prop == id && k.key == f.key {
				matched = true
				if !reported[k.key] {
					reported[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.desc)
				}
			}
		}
		if !matched {
			open = append(open, f)
		}
	}
	c.writeEvidence(start, len(open), len(reported))
	if len(open) == 0 {
		fmt.Printf("%s: held; %d obligations, %d functions analysed, %.1fs\n", id, c.obl, len(c.funcs), time.Since(start).Seconds())
		return 0
	}
	path := filepath.Join(verifDir(), "evidence", id+".violation.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: %d violation(s)\nrule: %s\n", id, len(open), def.rule)
	for _, f := range open {
		fmt.Fprintf(&b, "\n* [%s] %s\n  %s\n", f.key, f.where, strings.ToValidUTF8(f.text, "…"))
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, []byte(b.String()), 0o644)
	fmt.Print(b.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func (c *Ctx) writeEvidence(start time.Time, violations, known int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := "quick"
	if c.thorough {
		tier = "thorough"
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov := map[string]interface{}{
		"explanation":        "Static analysis of the repository's current source (type-checked syntax and SSA, every path of the functions listed; nothing is executed). Rule: " + c.def.rule,
		"obligations":        c.obl,
		"discharged":         c.ok,
		"rule":               c.def.rule,
		"samples":            c.samples,
		"functions":          fns,
		"functions_analysed": len(fns),
		"counts":             c.counts,
	}
	if len(c.imprec) > 0 {
		cov["imprecision"] = c.imprec
	}
	if known > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]interface{}{
		"property":    c.id,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": append([]string{"go/types and go/ssa represent the program the compiler builds", "standard-library calls behave as documented (the models in checker/models.go)"}, c.def.trust...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	if violations == 0 {
		os.Remove(filepath.Join(dir, c.id+".violation.txt"))
	}
}

func debugOnly() string { return os.Getenv("TOKU_ONLY") }
