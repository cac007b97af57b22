package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one partition of the abstract memory.
type State struct {
	mem    map[*Term]*Term
	facts  *Facts
	epoch  int
	fields int            // like epoch, but only struct fields may have changed
	hav    map[*Term]bool // objects whose unset cells are unknown
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: newFacts(), hav: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)+8), facts: s.facts.clone(), epoch: s.epoch, fields: s.fields, hav: s.hav}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr ssa.CallInstruction
}

// Part is a partition inside one function activation.
type Part struct {
	env    map[ssa.Value]*Term
	st     *State
	defers []deferred
}

func (p *Part) clone() *Part {
	n := &Part{env: make(map[ssa.Value]*Term, len(p.env)+8), st: p.st.clone(), defers: p.defers[:len(p.defers):len(p.defers)]}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type frame struct {
	fn       *ssa.Function
	info     *fnInfo
	ctx      string
	parent   *frame
	site     ssa.Instruction
	depth    int
	bindings []*Term
	args     []*Term
}

// Outcome is one way a call can end.
type Outcome struct {
	st    *State
	res   *Term // tuple for several results
	panic bool
	why   string
	instr ssa.Instruction // return or panic instruction
}

type callCtx struct {
	e     *Engine
	fr    *frame
	st    *State
	fn    *ssa.Function // static callee, if any
	name  string
	args  []*Term
	instr ssa.CallInstruction
	sig   *types.Signature
}

// Model gives the meaning of a call without analysing its body; ok=false declines.
type Model func(c *callCtx) (outs []Outcome, ok bool)

type Hooks struct {
	Index  func(fr *frame, st *State, in ssa.Instruction, n, i *Term)
	Slice  func(fr *frame, st *State, in ssa.Instruction, lo, hi, cap *Term)
	Make   func(fr *frame, st *State, in ssa.Instruction, n, size *Term)
	Nil    func(fr *frame, st *State, in ssa.Instruction, ptr *Term)
	Assert func(fr *frame, st *State, in ssa.Instruction, x *Term)
	Panic  func(fr *frame, st *State, in ssa.Instruction)
	Arith  func(fr *frame, st *State, in ssa.Instruction, op token.Token, x, y, r *Term, t types.Type)
	Div    func(fr *frame, st *State, in ssa.Instruction, y *Term)
	Conv   func(fr *frame, st *State, in ssa.Instruction, x *Term, from, to types.Type)
	Call   func(c *callCtx)
	Return func(fr *frame, st *State, in ssa.Instruction, res []*Term)
	Store  func(fr *frame, st *State, in ssa.Instruction, addr, val *Term)
	Close  func(l *loopAt)
}

type Engine struct {
	wideInt   bool  // and those of int
	wide      bool  // sums and conversions of 64-bit integers are followed modulo 2^64
	seqRand   bool  // random draws are told apart by their order on the path, not their site
	words     bool  // combinations of 32-bit words are kept as truth tables
	opByte    int64 // the operation byte perCode is at
	prog      *Program
	models    map[string]Model
	hooks     Hooks
	quiet     int
	steps     int
	budget    int
	maxParts  int
	maxDepth  int
	mergeErr  bool
	side      string // tells unknown memory of the two compared functions apart
	exact     bool   // partitions are merged only when nothing is lost
	globals   map[*Term]*Term
	infos     map[*ssa.Function]*fnInfo
	initState *State
	iters     []*Term
	allocLog  []*Term
	imprec    map[string]int
	seenFn    map[*ssa.Function]int
	noInline  func(fn *ssa.Function) bool
	active    map[*ssa.Function]int
	frames    int
	blocksN   map[*ssa.BasicBlock]bool
}

type budgetError struct{ msg string }

func newEngine(p *Program) *Engine {
	e := &Engine{prog: p, wide: os.Getenv("TOKU_WIDE") != "0", models: map[string]Model{}, budget: 3000000, maxParts: 96, maxDepth: 24, mergeErr: true,
		globals: map[*Term]*Term{}, infos: map[*ssa.Function]*fnInfo{}, imprec: map[string]int{}, seenFn: map[*ssa.Function]int{},
		active: map[*ssa.Function]int{}, blocksN: map[*ssa.BasicBlock]bool{}}
	stdModels(e)
	return e
}

func (e *Engine) note(what string) { e.imprec[what]++ }

// ---- function structure ----

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loopInfo
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	irred  bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		in.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if in.rpo[s] <= in.rpo[b] {
				if !s.Dominates(b) {
					in.irred = true
					continue
				}
				l := in.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, pr := range x.Preds {
						up(pr)
					}
				}
				up(b)
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar, nil:
			return false
		}
		return true
	}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		var ops []*ssa.Value
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				// phis are evaluated on the edge: they are live into the block
				u[phi] = true
				continue
			}
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if o != nil && *o != nil && tracked(*o) && !d[*o] {
					u[*o] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
	}
	for _, b := range fn.Blocks {
		in.liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			live := in.liveIn[b]
			add := func(v ssa.Value) {
				if !live[v] {
					live[v] = true
					ch = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range in.liveIn[s] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					if !def[b][v] {
						if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
							continue
						}
						add(v)
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for i, pr := range s.Preds {
						if pr == b && tracked(phi.Edges[i]) && !def[b][phi.Edges[i]] {
							if q, ok := phi.Edges[i].(*ssa.Phi); ok && q.Block() == b {
								continue
							}
							add(phi.Edges[i])
						}
					}
				}
			}
		}
	}
	e.infos[fn] = in
	return in
}

// ---- memory ----

func rootOf(a *Term) *Term {
	for a.op == OFld || a.op == OIdx {
		a = a.args[0]
	}
	return a
}

const (
	cellBig  = 1000 // value of a math/big.Int
	cellSeq  = 1001 // bytes written to a hash or bytes.Buffer
	cellOut  = 1002 // bytes written to an xbase.Buffer
	cellIn   = 1003 // bytes an xbase.Buffer reads from
	cellPos  = 1004 // its read position
	cellMap  = 1005 // content of a map
	cellAux  = 1006
	cellLock = 1007
)

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsFloat != 0:
			return intern(&Term{op: OFloat, sym: "0"})
		}
		return tNil
	case *types.Struct:
		var f []*Term
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, zeroOf(u.Field(i).Type()))
		}
		return mkStruct(t, f)
	case *types.Array:
		return zeroArray(mkInt(u.Len()), zeroOf(u.Elem()), u.Elem())
	}
	return tNil
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if isOpaqueStruct(t) {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// isOpaqueStruct: standard-library structs are kept whole.
func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "math/big", "sync", "bytes", "time", "net/http":
		return true
	}
	return false
}

func (e *Engine) defaultOf(st *State, addr *Term, typ types.Type) *Term {
	r := rootOf(addr)
	switch r.op {
	case OObj:
		if !st.hav[r] {
			return zeroOf(typ)
		}
	case OGlob:
		if v, ok := e.globals[addr]; ok {
			return v
		}
	case OApp:
		if r.sym == "ptr" && addr == r {
			return mkCont(r.args[0])
		}
	}
	if st.epoch+st.fields > 0 && r.op != OGlob {
		return mkApp(fmt.Sprintf("ld@%s%d.%d", e.side, st.epoch, st.fields), typ, addr)
	}
	return intern(&Term{op: OLd, args: []*Term{addr}, typ: typ})
}

// liveAlt drops the branches of a pointer that the facts exclude, and nil,
// which is not read through.
func liveAlt(st *State, t *Term) *Term {
	var na []*Term
	for k := 0; k < len(t.args); k += 2 {
		if t.args[k+1] == tNil || st.facts.prove(mkNot(t.args[k])) {
			continue
		}
		na = append(na, t.args[k], t.args[k+1])
	}
	switch len(na) {
	case 0:
		return t
	case 2:
		return na[1]
	case len(t.args):
		return t
	}
	return mkAlt(na...)
}

// load reads a cell.
func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if addr.op == OAlt {
		addr = liveAlt(st, addr)
		if addr.op != OAlt {
			return e.load(st, addr, typ)
		}
		var na []*Term
		for k := 0; k < len(addr.args); k += 2 {
			na = append(na, addr.args[k], e.load(st, addr.args[k+1], typ))
		}
		return mkAlt(na...)
	}
	if addr.op == OApp && addr.sym == "newobj" {
		return e.written(st, addr).args[0]
	}
	if v, ok := e.globals[addr]; ok {
		if r := rootOf(addr); addr.op == OGlob || r.op == OObj && !st.hav[r] || addr.op == OFld && addr.args[0].op == OApp && addr.args[0].sym == "nonnil" {
			return v
		}
	}
	if s, ok := isStruct(typ); ok && addr.op != OIdx {
		if addr.op == OFld && addr.args[0].op == OIdx || addr.op == OFld && addr.args[0].op == OApp && addr.args[0].sym == "newobj" {
			// part of an element
		} else {
			f := make([]*Term, s.NumFields())
			for i := range f {
				f[i] = e.load(st, mkFld(addr, i, s.Field(i).Type()), s.Field(i).Type())
			}
			return mkStruct(typ, f)
		}
	}
	switch addr.op {
	case OFld:
		base := addr.args[0]
		i := int(addr.ival.Int64())
		if base.op == OAlt {
			base = liveAlt(st, base)
			if base.op != OAlt {
				return e.load(st, mkFld(base, i, typ), typ)
			}
			var na []*Term
			for k := 0; k < len(base.args); k += 2 {
				na = append(na, base.args[k], e.load(st, mkFld(base.args[k+1], i, typ), typ))
			}
			return mkAlt(na...)
		}
		if base.op == OIdx && i < 1000 {
			return mkFieldOf(e.load(st, base, base.typ), i, typ)
		}
		if base.op == OApp && base.sym == "newobj" {
			if i >= 1000 {
				if base.args[0].op == OStruct || base.args[0].op == OApp && base.args[0].sym == "fv" {
					return e.defaultOf(st, addr, typ)
				}
				return base.args[0]
			}
			if v := e.loadEach(st, addr, typ); v != nil {
				return v
			}
			return mkFieldOf(base.args[0], i, typ)
		}
		if base.op == OFld && rootInElem(base) && i < 1000 {
			return mkFieldOf(e.load(st, base, base.typ), i, typ)
		}
		if base.op == OGlob && i < 1000 {
			if v, ok := e.globals[base]; ok {
				return mkFieldOf(v, i, typ)
			}
		}
	case OIdx:
		seq := e.loadArr(st, addr.args[0])
		v := mkAt(seq, addr.args[1])
		return v
	}
	return e.defaultOf(st, addr, typ)
}

// rootInElem: the address lies inside an element of an array.
func rootInElem(a *Term) bool {
	for a.op == OFld {
		a = a.args[0]
	}
	return a.op == OIdx || a.op == OApp && a.sym == "newobj"
}

// loadArr reads the whole array at an address.
func (e *Engine) loadArr(st *State, addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if v, ok := e.globals[addr]; ok && addr.op == OObj && !st.hav[addr] {
		return v
	}
	if addr.op == OApp && addr.sym == "ptr" {
		s := addr.args[0]
		if s.op == OApp && s.sym == "newslice" {
			return s.args[0]
		}
		if n := st.epoch; n > 0 || st.fields > 0 && !flatElems(s.typ) {
			if !flatElems(s.typ) {
				n += 1000 * st.fields
			}
			return mkApp(fmt.Sprintf("cont@%s%d", e.side, n), s.typ, s)
		}
		return mkCont(s)
	}
	var t types.Type
	if addr.typ != nil {
		t = addr.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	if t == nil {
		if addr.op == OObj {
			return mkApp("unknownarr", nil, addr)
		}
		t = types.NewArray(tyByte, 0)
		return intern(&Term{op: OLd, args: []*Term{addr}})
	}
	return e.load(st, addr, t)
}

// store writes a cell.
func (e *Engine) store(st *State, addr, val *Term, typ types.Type) {
	if s, ok := isStruct(typ); ok && addr.op != OIdx && !(addr.op == OFld && rootInElem(addr)) {
		delete(st.mem, addr)
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, mkFld(addr, i, s.Field(i).Type()), mkFieldOf(val, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	switch addr.op {
	case OIdx:
		base := addr.args[0]
		seq := e.loadArr(st, base)
		e.setCell(st, base, mkUpd(seq, addr.args[1], val))
		return
	case OFld:
		if addr.ival.Int64() < 1000 && rootInElem(addr) && addr.args[0].op != OApp {
			base := addr.args[0]
			bt := base.typ
			old := e.load(st, base, bt)
			s, ok := isStruct(bt)
			if ok {
				f := make([]*Term, s.NumFields())
				for i := range f {
					f[i] = mkFieldOf(old, i, s.Field(i).Type())
				}
				f[addr.ival.Int64()] = val
				e.store(st, base, mkStruct(bt, f), bt)
				return
			}
		}
	}
	e.setCell(st, addr, val)
}

func (e *Engine) setCell(st *State, addr, val *Term) {
	r := rootOf(addr)
	if r.op != OObj && r.op != OGlob && addr.op == OFld {
		// a write through a pointer we cannot name exactly may hit the same
		// field of another unnamed object of that type
		for a := range st.mem {
			if a != addr && a.op == OFld && a.ival.Cmp(addr.ival) == 0 {
				ra := rootOf(a)
				if ra.op != OObj && ra.op != OGlob && ra != r && mayAlias(a.args[0], addr.args[0]) {
					st.mem[a] = mkSym(fmt.Sprintf("alias:%d:%d", a.id, val.id), nil)
				}
			}
		}
	}
	st.mem[addr] = val
}

// mayAlias: two symbolic pointers of the same type, neither a parameter root.
func mayAlias(a, b *Term) bool {
	if a.typ == nil || b.typ == nil || !types.Identical(a.typ, b.typ) {
		return false
	}
	if a.op == OSym || b.op == OSym {
		return false
	}
	if a.op == OAt && b.op == OAt && a.args[0] == b.args[0] {
		d := mkSubt(a.args[1], b.args[1])
		return !(d.isInt() && d.ival.Sign() != 0)
	}
	return true
}

// alloc makes a fresh zeroed object.
func (e *Engine) alloc(st *State, name string, ptr types.Type) *Term {
	o := intern(&Term{op: OObj, sym: name})
	if ptr != nil {
		o.typ = ptr
	}
	for a := range st.mem {
		if rootOf(a) == o {
			delete(st.mem, a)
		}
	}
	if st.hav[o] {
		h := map[*Term]bool{}
		for k := range st.hav {
			if k != o {
				h[k] = true
			}
		}
		st.hav = h
	}
	e.allocLog = append(e.allocLog, o)
	return o
}

// newSlice allocates a backing array with the given content.
func (e *Engine) newSlice(st *State, name string, content *Term, elem types.Type) *Term {
	o := e.alloc(st, name, nil)
	n := lenOf(content)
	if elem != nil && o.typ == nil {
		o.typ = types.NewSlice(elem)
	}
	st.mem[o] = content
	return mkSlice(o, tZero, n, n)
}

// sliceParts views any slice value as (backing, offset, length, capacity).
func (e *Engine) sliceParts(st *State, v *Term) (obj, off, n, c *Term) {
	switch v.op {
	case OSlice:
		return v.args[0], v.args[1], v.args[2], v.args[3]
	case ONil:
		return tNil, tZero, tZero, tZero
	case OApp:
		if v.sym == "newslice" {
			n := lenOf(v.args[0])
			return mkApp("ptr", nil, v), tZero, n, n
		}
	}
	return mkApp("ptr", nil, v), tZero, mkLenOfValue(v), mkApp("cap", tyInt, v)
}

// content is the sequence a slice or string value denotes now.
func (e *Engine) content(st *State, v *Term) *Term {
	if v.op == ONil {
		return tEmpty
	}
	if isSeqOp(v) || v.typ != nil && isSeqType(v.typ) {
		return v
	}
	if v.op == OAlt {
		var na []*Term
		for k := 0; k < len(v.args); k += 2 {
			na = append(na, v.args[k], e.content(st, v.args[k+1]))
		}
		return mkAlt(na...)
	}
	obj, off, n, _ := e.sliceParts(st, v)
	if obj == tNil {
		return tEmpty
	}
	return mkSub(e.loadArr(st, obj), off, n)
}

// wholeOf is the sequence itself where its prefix is known to be all of it.
func wholeOf(st *State, s *Term) *Term {
	if s.op == OSub && s.args[1].isK(0) && s.args[2].isInt() && st.facts.prove(mkEq(lenOf(s.args[0]), s.args[2], true)) {
		return s.args[0]
	}
	return s
}

// reify replaces references to fresh objects by their present contents.
func (e *Engine) reify(st *State, v *Term) *Term {
	return e.reifyD(st, e.written(st, e.reifyD(st, v, map[*Term]bool{})), map[*Term]bool{})
}

func (e *Engine) reifyD(st *State, v *Term, busy map[*Term]bool) *Term {
	switch v.op {
	case OSlice:
		if v.args[0].op == OApp && v.args[0].sym == "ptr" {
			// view of a symbolic slice
			if v.args[1].isK(0) && v.args[2] == mkLenOfValue(v.args[0].args[0]) && st.mem[v.args[0]] == nil {
				return v.args[0].args[0]
			}
		}
		c := e.content(st, v)
		if lenOf(c).isK(0) {
			c = tEmpty
		}
		return mkApp("newslice", v.typ, e.reifyD(st, c, busy))
	case OObj:
		if busy[v] {
			return v
		}
		busy[v] = true
		defer delete(busy, v)
		if b, ok := st.mem[mkFld(v, cellBig, nil)]; ok {
			return mkApp("newobj", v.typ, e.reifyD(st, b, busy))
		}
		if v.typ != nil {
			if p, ok := v.typ.Underlying().(*types.Pointer); ok {
				if isBigInt(p.Elem()) {
					return mkApp("newobj", v.typ, tZero)
				}
				if _, ok := isStruct(p.Elem()); ok {
					return mkApp("newobj", v.typ, e.reifyD(st, e.load(st, v, p.Elem()), busy))
				}
				if _, ok := p.Elem().Underlying().(*types.Array); ok {
					return mkApp("newobj", v.typ, e.reifyD(st, e.load(st, v, p.Elem()), busy))
				}
			}
		}
		return v
	}
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Slice); ok && !isSeqOp(v) && v.op != OAlt {
			if st.mem[mkApp("ptr", nil, v)] != nil && !busy[v] {
				// a caller's slice whose elements have been written
				busy[v] = true
				defer delete(busy, v)
				if c := e.content(st, v); c != e.content(newState(), v) {
					return mkApp("newslice", v.typ, e.reifyD(st, c, busy))
				}
			}
		}
	}
	if len(v.args) == 0 || v.op != OTup && !hasObj(v) {
		return v
	}
	args := make([]*Term, len(v.args))
	ch := false
	for i, a := range v.args {
		args[i] = e.reifyD(st, a, busy)
		ch = ch || args[i] != a
	}
	if !ch {
		return v
	}
	return rebuild(v, args)
}

func hasObj(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == OObj || t.op == OSlice {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

// havocObj forgets everything reachable from a value.
func (e *Engine) havoc(st *State, v *Term, tag string) {
	seen := map[*Term]bool{}
	var reach func(t *Term)
	sym := false
	reach = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OObj {
			for a, c := range st.mem {
				if rootOf(a) == t {
					reach(c)
				}
			}
		}
		if t.op == OSym || t.op == OLd || t.op == OApp && t.sym == "ptr" || t.op == OAt {
			sym = true
		}
		for _, a := range t.args {
			reach(a)
		}
	}
	reach(v)
	h := map[*Term]bool{}
	for k := range st.hav {
		h[k] = true
	}
	for t := range seen {
		if t.op == OObj {
			h[t] = true
		}
	}
	st.hav = h
	var addrs []*Term
	for a := range st.mem {
		r := rootOf(a)
		if seen[r] && (r.op == OObj || sym) {
			addrs = append(addrs, a)
		}
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
	for _, a := range addrs {
		if seq := st.mem[a]; isSeqOp(seq) {
			st.mem[a] = mkApp("havoc:"+e.side+tag, seq.typ, append([]*Term{a, lenOf(seq)}, e.iters...)...)
			continue
		}
		st.mem[a] = mkApp("havoc:"+e.side+tag, st.mem[a].typ, append([]*Term{a}, e.iters...)...)
	}
	if sym {
		e.frames++
		st.epoch++
	}
}

// ---- values ----

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return intern(&Term{op: OFloat, sym: c.Value.ExactString()})
		}
		v, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return mkBig(v)
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			iv := constant.ToInt(c.Value)
			if iv.Kind() == constant.Int {
				v, _ := new(big.Int).SetString(iv.ExactString(), 10)
				return mkBig(v)
			}
		}
		return intern(&Term{op: OFloat, sym: c.Value.ExactString()})
	}
	return mkSym("const:"+c.Value.ExactString(), c.Type())
}

func globTerm(g *ssa.Global) *Term {
	return intern(&Term{op: OGlob, sym: g.Pkg.Pkg.Path() + "." + g.Name(), typ: g.Type(), any: g})
}

func funcTerm(f *ssa.Function) *Term {
	return intern(&Term{op: OFunc, sym: f.String(), typ: f.Type(), any: f})
}

func (e *Engine) val(fr *frame, p *Part, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return globTerm(v)
	case *ssa.Function:
		return funcTerm(v)
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == v {
				if i < len(fr.bindings) {
					return fr.bindings[i]
				}
				return mkSym("free:"+fr.fn.String()+":"+v.Name(), v.Type())
			}
		}
	case *ssa.Builtin:
		return mkSym("builtin:"+v.Name(), nil)
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	panic(&budgetError{fmt.Sprintf("value %s of %s has no abstract value", v.Name(), fr.fn)})
}

// ---- running functions ----

func (e *Engine) where(fr *frame, in ssa.Instruction) string {
	s := e.prog.FuncName(fr.fn)
	if in != nil && in.Pos().IsValid() {
		s += " at " + e.prog.Pos(in.Pos())
	}
	return s
}

func (fr *frame) path(e *Engine) string {
	var s []string
	for f := fr; f != nil; f = f.parent {
		s = append([]string{e.prog.FuncName(f.fn)}, s...)
	}
	return strings.Join(s, " > ")
}

// Run analyses a function from a state with given arguments.
func (e *Engine) Run(fn *ssa.Function, st *State, args []*Term) []Outcome {
	return e.inline(nil, nil, fn, nil, args, st)
}

func (e *Engine) inline(parent *frame, site ssa.Instruction, fn *ssa.Function, bindings, args []*Term, st *State) []Outcome {
	if e.quiet == 0 || e.seenFn[fn] == 0 {
		e.seenFn[fn]++
	}
	fr := &frame{fn: fn, info: e.info(fn), parent: parent, site: site, bindings: bindings, args: args}
	if fr.info.irred {
		panic(&budgetError{"irreducible control flow in " + fn.String()})
	}
	fr.ctx = fn.Name()
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.ctx = fmt.Sprintf("%s/%d.%s", parent.ctx, instrID(site), fn.Name())
	}
	p := &Part{env: map[ssa.Value]*Term{}, st: st}
	for i, prm := range fn.Params {
		p.env[prm] = args[i]
	}
	e.active[fn]++
	logStart := len(e.allocLog)
	out := e.runRegion(fr, fn.Blocks[0], []*Part{p}, nil, nil)
	e.active[fn]--
	mine := map[*Term]bool{}
	for _, o := range e.allocLog[logStart:] {
		mine[o] = true
	}
	return e.mergeOutcomes(fr, out.outs, args, mine)
}

func instrID(in ssa.Instruction) int {
	if in == nil {
		return 0
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return b.Index*1000 + i
		}
	}
	return -1
}

// gc drops cells of objects allocated by a finished call that nothing refers to.
func (e *Engine) gc(st *State, roots []*Term, mine map[*Term]bool) {
	reach := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			visit(a)
		}
	}
	byRoot := map[*Term][]*Term{}
	for a := range st.mem {
		r := rootOf(a)
		if mine[r] {
			byRoot[r] = append(byRoot[r], a)
		} else {
			visit(st.mem[a])
			visit(a)
		}
	}
	for _, r := range roots {
		if r != nil {
			visit(r)
		}
	}
	for ch := true; ch; {
		ch = false
		for r, as := range byRoot {
			if reach[r] {
				for _, a := range as {
					visit(st.mem[a])
				}
				delete(byRoot, r)
				ch = true
			}
		}
	}
	for _, as := range byRoot {
		for _, a := range as {
			delete(st.mem, a)
		}
	}
}

func (e *Engine) isErrOutcome(fn *ssa.Function, o Outcome) bool {
	res := fn.Signature.Results()
	if o.panic || res.Len() == 0 || o.res == nil {
		return false
	}
	lt := res.At(res.Len() - 1).Type()
	if !types.Identical(lt, types.Universe.Lookup("error").Type()) {
		return false
	}
	v := o.res
	if res.Len() > 1 {
		v = o.res.args[res.Len()-1]
	}
	return o.st.facts.prove(mkNot(mkEq(v, tNil, false)))
}

func (e *Engine) mergeOutcomes(fr *frame, outs []Outcome, args []*Term, mine map[*Term]bool) []Outcome {
	var res []Outcome
	groups := map[string][]int{}
	var errOut *Outcome
	for _, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		roots := append([]*Term{o.res}, args...)
		e.gc(o.st, roots, mine)
		if e.mergeErr && fr.parent != nil && e.isErrOutcome(fr.fn, o) {
			if errOut == nil {
				c := o
				errOut = &c
			} else {
				*errOut = e.joinOutcome(fr, *errOut, o)
			}
			continue
		}
		k := memKey(o.st)
		if o.res != nil {
			k = fmt.Sprintf("%d|", o.res.id) + k
		}
		merged := false
		for _, j := range groups[k] {
			if m, ok := e.mergeFacts(res[j].st.facts, o.st.facts); ok {
				res[j].st.facts = m
				merged = true
				break
			}
		}
		if merged {
			continue
		}
		if e.exact && len(groups[k]) >= e.maxParts {
			j := groups[k][0]
			res[j].st.facts = meetFacts(res[j].st.facts, o.st.facts)
			continue
		}
		groups[k] = append(groups[k], len(res))
		res = append(res, o)
	}
	if errOut != nil {
		res = append(res, *errOut)
	}
	return res
}

// joinOutcome merges two failing ends of a call.
func (e *Engine) joinOutcome(fr *frame, a, b Outcome) Outcome {
	st := a.st
	st.facts = meetFacts(a.st.facts, b.st.facts)
	e.joinMem(st, b.st, fr.ctx)
	n := fr.fn.Signature.Results().Len()
	if a.res != b.res {
		if n == 1 {
			a.res = joinVal(fr.ctx, 0, a.res, b.res)
		} else {
			var r []*Term
			for i := 0; i < n; i++ {
				if i == n-1 {
					r = append(r, joinErr(fr.ctx, a.res.args[i], b.res.args[i]))
				} else {
					r = append(r, joinVal(fr.ctx, i, a.res.args[i], b.res.args[i]))
				}
			}
			a.res = mkTup(r...)
		}
		if n == 1 {
			a.res = joinErr(fr.ctx, a.res, b.res)
		}
	}
	return a
}

func joinErr(ctx string, a, b *Term) *Term {
	if a == b {
		return a
	}
	return mkApp("err", types.Universe.Lookup("error").Type(), mkSym("anyof:"+ctx, nil))
}

func joinVal(ctx string, i int, a, b *Term) *Term {
	if a == b {
		return a
	}
	return mkSym(fmt.Sprintf("onerr:%s:%d", ctx, i), a.typ)
}

func (e *Engine) joinMem(st, o *State, tag string) {
	if o.fields > st.fields {
		st.fields = o.fields
	}
	if o.epoch > st.epoch {
		st.epoch = o.epoch
	}
	if len(o.hav) > 0 {
		h := map[*Term]bool{}
		for k := range st.hav {
			h[k] = true
		}
		for k := range o.hav {
			h[k] = true
		}
		st.hav = h
	}
	keys := map[*Term]bool{}
	for a := range st.mem {
		keys[a] = true
	}
	for a := range o.mem {
		keys[a] = true
	}
	for a := range keys {
		x, ok1 := st.mem[a]
		y, ok2 := o.mem[a]
		if ok1 && ok2 && x == y {
			continue
		}
		var t types.Type
		if x != nil {
			t = x.typ
		} else if y != nil {
			t = y.typ
		}
		st.mem[a] = mkSym(fmt.Sprintf("join:%s:%d", tag, a.id), t)
	}
}

func memKey(st *State) string {
	ids := make([][2]int, 0, len(st.mem))
	for a, v := range st.mem {
		ids = append(ids, [2]int{a.id, v.id})
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i][0] < ids[j][0] })
	b := make([]byte, 0, len(ids)*6)
	for _, x := range ids {
		b = binary.AppendUvarint(b, uint64(x[0]))
		b = binary.AppendUvarint(b, uint64(x[1]))
	}
	b = binary.AppendUvarint(b, uint64(st.epoch))
	b = binary.AppendUvarint(b, uint64(st.fields))
	return string(b)
}

type regionOut struct {
	exits []exitPart
	back  []*Part
	outs  []Outcome
}

type exitPart struct {
	from, to *ssa.BasicBlock
	p        *Part
}

// edge moves a partition along a control-flow edge, evaluating phis.
func (e *Engine) edge(fr *frame, p *Part, from, to *ssa.BasicBlock) {
	var phis []*ssa.Phi
	var vals []*Term
	idx := -1
	for i, pr := range to.Preds {
		if pr == from {
			idx = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(fr, p, phi.Edges[idx]))
	}
	for i, phi := range phis {
		p.env[phi] = vals[i]
	}
	// forget what is dead
	live := fr.info.liveIn[to]
	for v := range p.env {
		if !live[v] {
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == to {
				continue
			}
			delete(p.env, v)
		}
	}
}

func (e *Engine) partKey(p *Part) string {
	ids := make([][2]int, 0, len(p.env))
	type named interface{ Name() string }
	names := make([]string, 0, len(p.env))
	for v, t := range p.env {
		names = append(names, fmt.Sprintf("%s=%d", v.Name(), t.id))
	}
	sort.Strings(names)
	_ = ids
	return strings.Join(names, ",") + fmt.Sprintf("|%d|", len(p.defers)) + memKey(p.st)
}

func (e *Engine) joinParts(fr *frame, b *ssa.BasicBlock, ps []*Part) []*Part {
	if len(ps) < 2 {
		return ps
	}
	idx := map[string][]int{}
	var out []*Part
next:
	for _, p := range ps {
		k := e.partKey(p)
		for _, j := range idx[k] {
			if m, ok := e.mergeFacts(out[j].st.facts, p.st.facts); ok {
				out[j].st.facts = m
				continue next
			}
		}
		idx[k] = append(idx[k], len(out))
		out = append(out, p)
	}
	if len(out) > e.maxParts {
		// give up on telling apart partitions that differ in facts only
		var o2 []*Part
		first := map[string]*Part{}
		for _, p := range out {
			k := e.partKey(p)
			if q := first[k]; q != nil {
				q.st.facts = meetFacts(q.st.facts, p.st.facts)
				continue
			}
			first[k] = p
			o2 = append(o2, p)
		}
		out = o2
	}
	if len(out) > e.maxParts {
		e.note("join at " + e.prog.FuncName(fr.fn))
		base := out[0]
		for _, p := range out[1:] {
			base.st.facts = meetFacts(base.st.facts, p.st.facts)
			e.joinMem(base.st, p.st, fmt.Sprintf("%s:b%d", fr.ctx, b.Index))
			for v, t := range p.env {
				if base.env[v] != t {
					base.env[v] = mkSym(fmt.Sprintf("join:%s:b%d:%s", fr.ctx, b.Index, v.Name()), v.Type())
				}
			}
		}
		out = []*Part{base}
	}
	return out
}

// runRegion runs the blocks of a region (a function body or one loop body) in
// reverse postorder, summarising inner loops, until every partition has left it.
func (e *Engine) runRegion(fr *frame, entry *ssa.BasicBlock, parts []*Part, in map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) regionOut {
	var out regionOut
	pending := map[*ssa.BasicBlock][]*Part{entry: parts}
	first := true
	deliver := func(from, to *ssa.BasicBlock, p *Part) {
		if in != nil && !in[to] {
			out.exits = append(out.exits, exitPart{from, to, p})
			return
		}
		if to == header {
			out.back = append(out.back, p)
			return
		}
		pending[to] = append(pending[to], p)
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || fr.info.rpo[c] < fr.info.rpo[b] {
				b = c
			}
		}
		ps := pending[b]
		delete(pending, b)
		ps = e.joinParts(fr, b, ps)
		e.blocksN[b] = true
		if l := fr.info.loops[b]; l != nil && !(b == header && first) {
			first = false
			for _, p := range ps {
				lo := e.loop(fr, l, p)
				out.outs = append(out.outs, lo.outs...)
				for _, x := range lo.exits {
					deliver(x.from, x.to, x.p)
				}
			}
			continue
		}
		first = false
		for _, p := range ps {
			e.runBlock(fr, b, p, deliver, &out)
		}
	}
	return out
}

// runBlock executes one block for one partition (calls may split it).
func (e *Engine) runBlock(fr *frame, b *ssa.BasicBlock, p *Part, deliver func(from, to *ssa.BasicBlock, p *Part), out *regionOut) {
	e.runFrom(fr, b, 0, p, deliver, out)
}

func (e *Engine) runFrom(fr *frame, b *ssa.BasicBlock, i int, p *Part, deliver func(from, to *ssa.BasicBlock, p *Part), out *regionOut) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.budget {
			panic(&budgetError{"analysis budget exceeded in " + fr.path(e)})
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(fr, p, x.Cond)
			e.branch(fr, b, c, p, deliver)
			return
		case *ssa.Jump:
			e.edge(fr, p, b, b.Succs[0])
			deliver(b, b.Succs[0], p)
			return
		case *ssa.Return:
			var r []*Term
			for _, v := range x.Results {
				r = append(r, e.val(fr, p, v))
			}
			if e.hooks.Return != nil && e.quiet == 0 {
				e.hooks.Return(fr, p.st, x, r)
			}
			o := Outcome{st: p.st, instr: x}
			if len(r) == 1 {
				o.res = r[0]
			} else if len(r) > 1 {
				o.res = mkTup(r...)
			}
			out.outs = append(out.outs, o)
			return
		case *ssa.Panic:
			if e.hooks.Panic != nil && e.quiet == 0 {
				e.hooks.Panic(fr, p.st, x)
			}
			out.outs = append(out.outs, Outcome{st: p.st, panic: true, instr: x, why: e.where(fr, x)})
			return
		case *ssa.Call:
			outs := e.call(fr, p, x, &x.Call)
			e.resume(fr, b, i, p, x, outs, deliver, out)
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call, instr: x}
			if !x.Call.IsInvoke() {
				d.fn = e.val(fr, p, x.Call.Value)
			} else {
				d.fn = e.val(fr, p, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(fr, p, a))
			}
			p.defers = append(p.defers[:len(p.defers):len(p.defers)], d)
		case *ssa.RunDefers:
			if len(p.defers) > 0 {
				d := p.defers[len(p.defers)-1]
				p.defers = p.defers[:len(p.defers)-1]
				outs := e.callWith(fr, p.st, d.instr, d.call, d.fn, d.args)
				// run the remaining defers before going on
				for k, o := range outs {
					if o.panic {
						out.outs = append(out.outs, o)
						continue
					}
					q := p
					if k < len(outs)-1 {
						q = p.clone()
					}
					q.st = o.st
					e.runFrom(fr, b, i, q, deliver, out)
				}
				return
			}
		case *ssa.BinOp, *ssa.Convert, *ssa.UnOp:
			e.simple(fr, p, in)
			if !e.wide {
				continue
			}
			forks := e.wrap64Forks(p, in.(ssa.Value))
			if len(forks) == 0 {
				return
			}
			for _, f := range forks[1:] {
				e.runFrom(fr, b, i+1, f, deliver, out)
			}
			p = forks[0]
		case *ssa.Go:
			var args []*Term
			for _, a := range x.Call.Args {
				args = append(args, e.val(fr, p, a))
			}
			_ = args
		case *ssa.Next:
			e.next(fr, p, x)
		case *ssa.TypeAssert:
			forks := e.typeAssert(fr, p, x)
			for k, f := range forks {
				if k == len(forks)-1 {
					break
				}
				e.runFrom(fr, b, i+1, f, deliver, out)
			}
			if len(forks) == 0 {
				return
			}
			p = forks[len(forks)-1]
		case *ssa.Lookup:
			forks := e.lookup(fr, p, x)
			for k, f := range forks {
				if k == len(forks)-1 {
					break
				}
				e.runFrom(fr, b, i+1, f, deliver, out)
			}
			p = forks[len(forks)-1]
		default:
			e.simple(fr, p, in)
		}
	}
}

// wrap64Forks follows, in wide mode, the sums, differences and conversions of
// 64-bit integers that may leave their type apart from those that do not.
func (e *Engine) wrap64Forks(p *Part, x ssa.Value) []*Part {
	t := x.Type()
	bits, _, ok := intWidth(t)
	one := []*Part{p}
	if !ok || bits != 64 {
		return one
	}
	switch y := x.(type) {
	case *ssa.UnOp:
		if y.Op != token.SUB || !e.wideInt && types.Identical(t.Underlying(), types.Typ[types.Int]) {
			return one
		}
	case *ssa.BinOp:
		if y.Op != token.ADD && y.Op != token.SUB || !e.wideInt && types.Identical(t.Underlying(), types.Typ[types.Int]) {
			return one
		}
	case *ssa.Convert:
		if !isInteger(y.X.Type()) {
			return one
		}
	}
	r := p.env[x]
	if r == nil || r.op == OAlt || r.op == OApp && r.sym == "sext" {
		return one
	}
	lo, hi := typeBounds(t)
	over, under := mkLt(mkBig(hi), r), mkLt(r, mkBig(lo))
	mayOver, mayUnder := !p.st.facts.prove(mkNot(over)), !p.st.facts.prove(mkNot(under))
	if !mayOver && !mayUnder {
		return one
	}
	var out []*Part
	fork := func(v *Term, lits ...*Term) {
		q := p.clone()
		for _, l := range lits {
			if !q.st.facts.assume(l) {
				return
			}
		}
		q.env[x] = v
		out = append(out, q)
	}
	fork(r, mkNot(over), mkNot(under))
	if mayOver {
		fork(mkSubt(r, mkBig(pow2(64))), over)
	}
	if mayUnder {
		fork(mkAdd(r, mkBig(pow2(64))), under)
	}
	return out
}

func (e *Engine) resume(fr *frame, b *ssa.BasicBlock, i int, p *Part, x *ssa.Call, outs []Outcome, deliver func(from, to *ssa.BasicBlock, p *Part), out *regionOut) {
	// results never read again need not keep partitions apart
	n := 0
	for _, o := range outs {
		if !o.panic {
			n++
		}
	}
	for _, o := range outs {
		if o.panic {
			out.outs = append(out.outs, o)
			continue
		}
		n--
		q := p
		if n > 0 {
			q = &Part{env: make(map[ssa.Value]*Term, len(p.env)+4), defers: p.defers[:len(p.defers):len(p.defers)]}
			for k, v := range p.env {
				q.env[k] = v
			}
		}
		q.st = o.st
		if o.res != nil {
			q.env[x] = o.res
		} else {
			q.env[x] = mkTup()
		}
		e.runFrom(fr, b, i+1, q, deliver, out)
	}
}

func (e *Engine) branch(fr *frame, b *ssa.BasicBlock, c *Term, p *Part, deliver func(from, to *ssa.BasicBlock, p *Part)) {
	yes, no := b.Succs[0], b.Succs[1]
	if c.op == OAlt {
		// a guarded condition is decided guard by guard
		var rest []*Part
		for k := 0; k < len(c.args); k += 2 {
			q := p.clone()
			if q.st.facts.assume(c.args[k]) {
				e.branch(fr, b, c.args[k+1], q, deliver)
			}
		}
		_ = rest
		return
	}
	if c == tTrue || p.st.facts.prove(c) {
		e.edge(fr, p, b, yes)
		deliver(b, yes, p)
		return
	}
	nc := mkNot(c)
	if c == tFalse || p.st.facts.prove(nc) {
		e.edge(fr, p, b, no)
		deliver(b, no, p)
		return
	}
	q := p.clone()
	if p.st.facts.assume(c) {
		e.edge(fr, p, b, yes)
		deliver(b, yes, p)
	}
	if q.st.facts.assume(nc) {
		e.edge(fr, q, b, no)
		deliver(b, no, q)
	}
}

// mergeFacts merges the facts of two partitions with equal values; in exact
// mode only when the result is their disjunction.
func (e *Engine) mergeFacts(a, b *Facts) (*Facts, bool) {
	if !e.exact {
		return meetFacts(a, b), true
	}
	var da, db []*Term
	for g := range a.m {
		if !b.m[g] {
			da = append(da, g)
		}
	}
	for g := range b.m {
		if !a.m[g] {
			db = append(db, g)
		}
	}
	if len(da) == 0 {
		return a, true
	}
	if len(db) == 0 {
		return b, true
	}
	if len(da) == 1 && len(db) == 1 && da[0] == mkNot(db[0]) {
		a.del(da[0])
		return a, true
	}
	implied := func(f *Facts, gs []*Term) bool {
		for _, g := range gs {
			if g.op == OAll || !f.prove(g) {
				return false
			}
		}
		return true
	}
	if implied(b, da) {
		return a, true
	}
	if implied(a, db) {
		return b, true
	}
	return nil, false
}

// flatElems: the elements of the slice type hold no struct fields.
func flatElems(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			return false
		}
		return true
	case *types.Basic:
		return true
	}
	return false
}
