package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePackage: standard-library functions whose results depend only on the
// contents of their arguments and which change nothing the caller can see.
func purePackage(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "strconv.", "errors.", "fmt.Sprint", "fmt.Errorf", "math.", "math/bits.", "unicode", "encoding/hex.", "encoding/base64.", "math/big.Jacobi", "net.ParseIP", "(net.IP)", "unicode/utf8.", "path", "crypto/sha256.Sum", "crypto/sha512.Sum", "sort.Search", "crypto/subtle.", "(time.Time)", "time.Unix", "encoding/asn1.Marshal"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (c *callCtx) name2() string {
	return fmt.Sprintf("%s/%d", c.fr.ctx, instrID(c.instr.(ssa.Instruction)))
}

func (c *callCtx) ret(vals ...*Term) []Outcome {
	switch len(vals) {
	case 0:
		return []Outcome{{st: c.st}}
	case 1:
		return []Outcome{{st: c.st, res: vals[0]}}
	}
	return []Outcome{{st: c.st, res: mkTup(vals...)}}
}

var tyError = types.Universe.Lookup("error").Type()

func (c *callCtx) content(i int) *Term { return c.e.content(c.st, c.args[i]) }

// errTerm is a fresh non-nil error made at this call.
func (c *callCtx) errTerm(extra ...*Term) *Term {
	return mkApp("err", tyError, append([]*Term{mkSym(c.name2(), nil)}, extra...)...)
}

func (c *callCtx) bytesOut(content *Term) *Term {
	return c.e.newSlice(c.st, c.name2(), content, tyByte)
}

func bigCell(p *Term) *Term { return mkFld(p, cellBig, nil) }

func (c *callCtx) big(i int) *Term { return c.e.bigVal(c.st, c.args[i]) }

func (e *Engine) bigVal(st *State, p *Term) *Term {
	if v, ok := st.mem[bigCell(p)]; ok {
		return v
	}
	if p.op == OAlt {
		var na []*Term
		for k := 0; k < len(p.args); k += 2 {
			na = append(na, p.args[k], e.bigVal(st, p.args[k+1]))
		}
		return mkAlt(na...)
	}
	if p.op == OApp && p.sym == "newobj" {
		return p.args[0]
	}
	if v, ok := e.globals[bigCell(p)]; ok && !st.hav[p] {
		return v
	}
	if p.op == OObj && !st.hav[p] {
		return tZero
	}
	return mkApp("bigof", nil, p)
}

func (c *callCtx) setBig(p, v *Term) { c.e.setCell(c.st, bigCell(p), v) }

func newBig(c *callCtx, v *Term) *Term {
	o := c.e.alloc(c.st, c.name2(), types.NewPointer(types.Typ[types.Int]))
	o.typ = bigPtrType(c)
	c.st.mem[bigCell(o)] = v
	return o
}

var bigPtr types.Type

func bigPtrType(c *callCtx) types.Type {
	if bigPtr != nil {
		return bigPtr
	}
	for _, p := range c.e.prog.SSA.AllPackages() {
		if p.Pkg.Path() == "math/big" {
			bigPtr = types.NewPointer(p.Pkg.Scope().Lookup("Int").Type())
		}
	}
	return bigPtr
}

func seqCell(p *Term) *Term { return mkFld(p, cellSeq, nil) }

func (e *Engine) seqOf(st *State, p *Term) *Term {
	if v, ok := st.mem[seqCell(p)]; ok {
		return v
	}
	if p.op == OObj {
		return tEmpty
	}
	return mkApp("written", types.NewSlice(tyByte), p)
}

// splitCond forks the state on a literal.
func (c *callCtx) splitOn(lit *Term, yes, no func(st *State) Outcome) []Outcome {
	if c.st.facts.prove(lit) {
		return []Outcome{yes(c.st)}
	}
	if c.st.facts.prove(mkNot(lit)) {
		return []Outcome{no(c.st)}
	}
	s2 := c.st.clone()
	var out []Outcome
	if c.st.facts.assume(lit) {
		out = append(out, yes(c.st))
	}
	if s2.facts.assume(mkNot(lit)) {
		out = append(out, no(s2))
	}
	return out
}

func hashKind(c *Term) string {
	if c.op == OApp && strings.HasPrefix(c.sym, "hasher:") {
		return c.sym[len("hasher:"):]
	}
	return ""
}

func stdModels(e *Engine) {
	m := e.models
	pure1 := func(f func(c *callCtx) *Term) Model {
		return func(c *callCtx) ([]Outcome, bool) {
			r := f(c)
			if r == nil {
				return nil, false
			}
			return c.ret(r), true
		}
	}
	// errors
	for _, n := range []string{"errors.New", "fmt.Errorf"} {
		m[n] = func(c *callCtx) ([]Outcome, bool) {
			var a []*Term
			for _, x := range c.args {
				a = append(a, c.e.reify(c.st, x))
			}
			return c.ret(c.errTerm(a...)), true
		}
	}
	// big integers
	bin := func(f func(x, y *Term) *Term) Model {
		return func(c *callCtx) ([]Outcome, bool) {
			x, y := c.big(1), c.big(2)
			c.setBig(c.args[0], f(x, y))
			return c.ret(c.args[0]), true
		}
	}
	big := "(*math/big.Int)."
	m["math/big.NewInt"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(newBig(c, c.args[0])), true }
	m[big+"Add"] = bin(mkAdd)
	m[big+"Sub"] = bin(mkSubt)
	m[big+"Mul"] = bin(mkMul)
	m[big+"Mod"] = bin(mkMod)
	m[big+"Rem"] = bin(mkRem)
	m[big+"Quo"] = bin(func(x, y *Term) *Term { return mkQuo(x, y) })
	m[big+"Div"] = bin(func(x, y *Term) *Term {
		if nonNeg(x) {
			return mkQuo(x, y)
		}
		return mkApp("ediv", nil, x, y)
	})
	m[big+"And"] = bin(func(x, y *Term) *Term {
		if y.isInt() && y.ival.Sign() >= 0 {
			n := y.ival.BitLen()
			if pow2(n).Cmp(newInt(y.ival).Add(y.ival, bigOne)) == 0 {
				return mkMod(x, mkBig(pow2(n)))
			}
		}
		if x.id > y.id {
			x, y = y, x
		}
		return mkApp("band", nil, x, y)
	})
	m[big+"Or"] = bin(func(x, y *Term) *Term {
		if r := orDisjoint(x, y); r != nil {
			return r
		}
		if r := orDisjoint(y, x); r != nil {
			return r
		}
		if x.id > y.id {
			x, y = y, x
		}
		return mkApp("bor", nil, x, y)
	})
	m[big+"Xor"] = bin(func(x, y *Term) *Term { return mkXor(nil, x, y) })
	m[big+"ModInverse"] = func(c *callCtx) ([]Outcome, bool) {
		x, n := mkMod(c.big(1), c.big(2)), c.big(2)
		if c.big(2).isInt() {
			c.setBig(c.args[0], mkApp("inv", nil, x, n))
		} else {
			c.setBig(c.args[0], mkApp("inv", nil, c.big(1), n))
		}
		return c.ret(c.args[0]), true
	}
	m[big+"ModSqrt"] = func(c *callCtx) ([]Outcome, bool) {
		x, n := mkMod(c.big(1), c.big(2)), c.big(2)
		lit := mkApp("isqr", tyBool, x, n)
		return c.splitOn(lit, func(st *State) Outcome {
			c.e.setCell(st, bigCell(c.args[0]), mkApp("sqrt", nil, x, n))
			return Outcome{st: st, res: c.args[0]}
		}, func(st *State) Outcome { return Outcome{st: st, res: tNil} }), true
	}
	m[big+"Exp"] = func(c *callCtx) ([]Outcome, bool) {
		x, y := c.big(1), c.big(2)
		if c.args[3] == tNil {
			c.setBig(c.args[0], mkPow(x, y))
			return c.ret(c.args[0]), true
		}
		n := c.big(3)
		if k, ok := y.int64(); ok && k >= 0 && k <= 4 {
			r := tOne
			for i := int64(0); i < k; i++ {
				r = mkMul(r, x)
			}
			c.setBig(c.args[0], mkMod(r, n))
		} else {
			c.setBig(c.args[0], mkApp("modexp", nil, mkMod(x, n), y, n))
		}
		return c.ret(c.args[0]), true
	}
	m[big+"Set"] = func(c *callCtx) ([]Outcome, bool) { c.setBig(c.args[0], c.big(1)); return c.ret(c.args[0]), true }
	m[big+"Neg"] = func(c *callCtx) ([]Outcome, bool) {
		c.setBig(c.args[0], mkNeg(c.big(1)))
		return c.ret(c.args[0]), true
	}
	m[big+"Abs"] = func(c *callCtx) ([]Outcome, bool) {
		v := c.big(1)
		if !nonNeg(v) {
			v = mkApp("abs", nil, v)
		}
		c.setBig(c.args[0], v)
		return c.ret(c.args[0]), true
	}
	for _, n := range []string{"SetInt64", "SetUint64"} {
		m[big+n] = func(c *callCtx) ([]Outcome, bool) { c.setBig(c.args[0], c.args[1]); return c.ret(c.args[0]), true }
	}
	m[big+"SetBytes"] = func(c *callCtx) ([]Outcome, bool) {
		c.setBig(c.args[0], mkUintBE(c.content(1)))
		return c.ret(c.args[0]), true
	}
	m[big+"SetString"] = func(c *callCtx) ([]Outcome, bool) {
		if c.args[1].op == OStr && c.args[2].isInt() {
			v, ok := newInt(nil).SetString(c.args[1].sym, int(c.args[2].ival.Int64()))
			if ok {
				c.setBig(c.args[0], mkBig(v))
				return c.ret(c.args[0], tTrue), true
			}
			return c.ret(tNil, tFalse), true
		}
		ok := mkApp("bigparse#ok", tyBool, c.args[1], c.args[2])
		return c.splitOn(ok, func(st *State) Outcome {
			c.e.setCell(st, bigCell(c.args[0]), mkApp("bigparse", nil, c.args[1], c.args[2]))
			return Outcome{st: st, res: mkTup(c.args[0], tTrue)}
		}, func(st *State) Outcome { return Outcome{st: st, res: mkTup(tNil, tFalse)} }), true
	}
	m[big+"Lsh"] = func(c *callCtx) ([]Outcome, bool) {
		if k, ok := c.args[2].int64(); ok {
			c.setBig(c.args[0], mkScale(c.big(1), pow2(int(k))))
		} else {
			c.setBig(c.args[0], mkMul(c.big(1), mkApp("pow2", nil, c.args[2])))
		}
		return c.ret(c.args[0]), true
	}
	m[big+"Rsh"] = func(c *callCtx) ([]Outcome, bool) {
		if k, ok := c.args[2].int64(); ok {
			c.setBig(c.args[0], shrLin(c.big(1), int(k)))
		} else {
			c.setBig(c.args[0], mkApp("shr", nil, c.big(1), c.args[2]))
		}
		return c.ret(c.args[0]), true
	}
	m[big+"DivMod"] = func(c *callCtx) ([]Outcome, bool) {
		x, y := c.big(1), c.big(2)
		q := mkApp("ediv", nil, x, y)
		if nonNeg(x) {
			q = mkQuo(x, y)
		}
		c.setBig(c.args[3], mkMod(x, y))
		c.setBig(c.args[0], q)
		return c.ret(c.args[0], c.args[3]), true
	}
	m[big+"QuoRem"] = m[big+"DivMod"]
	m[big+"Cmp"] = pure1(func(c *callCtx) *Term { return mkSgn(mkSubt(c.big(0), c.big(1))) })
	m[big+"Sign"] = pure1(func(c *callCtx) *Term { return mkSgn(c.big(0)) })
	m[big+"Bytes"] = func(c *callCtx) ([]Outcome, bool) {
		b := mkBigBytes(c.big(0))
		if b.op == OApp && b.sym == "bigbytes" {
			// no longer than the bound of the value allows
			if _, hi := bounds(c.big(0)); hi != nil {
				c.st.facts.assumeQuiet(mkLe(lenOf(b), mkInt(int64((hi.BitLen()+7)/8))))
			}
			// a value known below n is no longer than n
			_, hi := c.st.facts.interval(c.big(0))
			if hi != nil {
				c.st.facts.assumeQuiet(mkLe(lenOf(b), mkInt(int64((hi.BitLen()+7)/8))))
			}
		}
		return c.ret(c.bytesOut(b)), true
	}
	m[big+"FillBytes"] = func(c *callCtx) ([]Outcome, bool) {
		obj, off, n, _ := c.e.sliceParts(c.st, c.args[1])
		c.e.setCell(c.st, obj, c.e.spliceIn(c.st, c.e.loadArr(c.st, obj), off, mkPad(c.big(0), n)))
		return c.ret(c.args[1]), true
	}
	m[big+"Int64"] = pure1(func(c *callCtx) *Term {
		v := c.big(0)
		if lo, hi := c.st.facts.interval(v); lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() < 64 {
			return v
		}
		return mkApp("bigint64", tyI64, v)
	})
	m[big+"Uint64"] = pure1(func(c *callCtx) *Term {
		v := c.big(0)
		if lo, hi := c.st.facts.interval(v); lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= 64 {
			return v
		}
		return mkApp("biguint64", tyU64, v)
	})
	m[big+"BitLen"] = pure1(func(c *callCtx) *Term {
		if v := c.big(0); v.isInt() {
			return mkInt(int64(v.ival.BitLen()))
		}
		return mkApp("bitlen", tyInt, c.big(0))
	})
	m[big+"Bit"] = pure1(func(c *callCtx) *Term {
		v := c.big(0)
		if k, ok := c.args[1].int64(); ok {
			if v.isInt() {
				return mkInt(int64(v.ival.Bit(int(k))))
			}
			if k == 0 {
				return mkApp("mod", nil, v, mkInt(2))
			}
		}
		return mkApp("bit", types.Typ[types.Uint], v, c.args[1])
	})
	m[big+"String"] = pure1(func(c *callCtx) *Term { return mkApp("bigstr", types.Typ[types.String], c.big(0)) })
	m["math/big.Jacobi"] = pure1(func(c *callCtx) *Term {
		y := mkMod(c.big(0), c.big(1))
		j := mkApp("jacobi", tyInt, y, c.big(1))
		// zero is neither a residue nor a non-residue
		c.st.facts.assume(mkNot(mkAnd([]*Term{mkEq0(y), mkNot(mkEq0(j))})))
		return j
	})

	// hashing
	sum := func(kind string) Model {
		return pure1(func(c *callCtx) *Term { return mkApp(kind, nil, c.content(0)) })
	}
	m["crypto/sha256.Sum256"] = sum("sha256")
	m["crypto/sha512.Sum512"] = sum("sha512")
	newHash := func(kind string) Model {
		return func(c *callCtx) ([]Outcome, bool) {
			o := c.e.alloc(c.st, c.name2(), nil)
			c.st.mem[mkFld(o, cellAux, nil)] = mkApp("hasher:"+kind, nil)
			c.st.mem[seqCell(o)] = tEmpty
			return c.ret(intern(&Term{op: OIface, sym: "hash", args: []*Term{o}})), true
		}
	}
	m["crypto/sha256.New"] = newHash("sha256")
	m["crypto/sha512.New"] = newHash("sha512")
	m["xcrypto/ripemd160.New"] = newHash("ripemd160")
	m["crypto/hmac.New"] = func(c *callCtx) ([]Outcome, bool) {
		kind := "?"
		if f := c.args[0]; f.op == OFunc {
			switch f.sym {
			case "crypto/sha256.New":
				kind = "sha256"
			case "crypto/sha512.New":
				kind = "sha512"
			}
		}
		o := c.e.alloc(c.st, c.name2(), nil)
		aux := mkApp("hasher:hmac-"+kind, nil, c.content(1))
		if kind == "?" {
			aux = mkApp("hasher:hmac", nil, c.content(1), c.args[0])
		}
		c.st.mem[mkFld(o, cellAux, nil)] = aux
		c.st.mem[seqCell(o)] = tEmpty
		return c.ret(intern(&Term{op: OIface, sym: "hash", args: []*Term{o}})), true
	}
	hashObj := func(c *callCtx) *Term {
		if c.args[0].op == OIface {
			return c.args[0].args[0]
		}
		return c.args[0]
	}
	write := func(c *callCtx) ([]Outcome, bool) {
		o := hashObj(c)
		if o.op != OObj || c.st.mem[mkFld(o, cellAux, nil)] == nil {
			return nil, false
		}
		b := c.content(1)
		c.st.mem[seqCell(o)] = mkCat(c.e.seqOf(c.st, o), b)
		return c.ret(lenOf(b), tNil), true
	}
	m["invoke (io.Writer).Write"] = write
	m["invoke (hash.Hash).Write"] = write
	m["invoke (hash.Hash).Sum"] = func(c *callCtx) ([]Outcome, bool) {
		o := hashObj(c)
		aux := c.st.mem[mkFld(o, cellAux, nil)]
		if aux == nil {
			return nil, false
		}
		d := mkApp(hashKind(aux), tyBytes, append(append([]*Term{}, aux.args...), c.e.seqOf(c.st, o))...)
		return c.ret(c.bytesOut(mkCat(c.content(1), d))), true
	}
	m["invoke (hash.Hash).Reset"] = func(c *callCtx) ([]Outcome, bool) {
		o := hashObj(c)
		if c.st.mem[mkFld(o, cellAux, nil)] == nil {
			return nil, false
		}
		c.st.mem[seqCell(o)] = tEmpty
		return c.ret(), true
	}
	m["invoke (hash.Hash).Size"] = func(c *callCtx) ([]Outcome, bool) {
		aux := c.st.mem[mkFld(hashObj(c), cellAux, nil)]
		if aux == nil {
			return nil, false
		}
		if n, ok := fixedLen[hashKind(aux)]; ok {
			return c.ret(mkInt(n)), true
		}
		return c.ret(mkApp("hashsize", tyInt, aux)), true
	}
	// bytes.Buffer
	bb := "(*bytes.Buffer)."
	m["bytes.NewBuffer"] = func(c *callCtx) ([]Outcome, bool) {
		o := c.e.alloc(c.st, c.name2(), nil)
		c.st.mem[seqCell(o)] = c.content(0)
		return c.ret(o), true
	}
	m["bytes.NewReader"] = func(c *callCtx) ([]Outcome, bool) {
		o := c.e.alloc(c.st, c.name2(), nil)
		c.st.mem[seqCell(o)] = c.content(0)
		return c.ret(o), true
	}
	m[bb+"Write"] = func(c *callCtx) ([]Outcome, bool) {
		b := c.content(1)
		c.e.setCell(c.st, seqCell(c.args[0]), mkCat(c.e.seqOf(c.st, c.args[0]), b))
		return c.ret(lenOf(b), tNil), true
	}
	m[bb+"WriteString"] = m[bb+"Write"]
	m[bb+"WriteByte"] = func(c *callCtx) ([]Outcome, bool) {
		c.e.setCell(c.st, seqCell(c.args[0]), mkCat(c.e.seqOf(c.st, c.args[0]), mkUnit(c.args[1])))
		return c.ret(tNil), true
	}
	m[bb+"Bytes"] = func(c *callCtx) ([]Outcome, bool) { return c.ret(c.bytesOut(c.e.seqOf(c.st, c.args[0]))), true }
	m[bb+"String"] = pure1(func(c *callCtx) *Term { return c.e.seqOf(c.st, c.args[0]) })
	m[bb+"Len"] = pure1(func(c *callCtx) *Term { return lenOf(c.e.seqOf(c.st, c.args[0])) })
	m[bb+"Reset"] = func(c *callCtx) ([]Outcome, bool) {
		c.e.setCell(c.st, seqCell(c.args[0]), tEmpty)
		return c.ret(), true
	}
	// trimming bytes or the same bytes as text
	for _, t := range []string{"TrimRight", "TrimLeft", "Trim"} {
		t := t
		m["strings."+t] = pure1(func(c *callCtx) *Term { return mkApp("trim:"+t, types.Typ[types.String], c.args[0], c.args[1]) })
		m["bytes."+t] = func(c *callCtx) ([]Outcome, bool) {
			return c.ret(c.bytesOut(mkApp("trim:"+t, types.Typ[types.String], c.content(0), c.args[1]))), true
		}
	}
	// encoding/binary
	for _, w := range []struct {
		n string
		b int
	}{{"16", 2}, {"32", 4}, {"64", 8}} {
		w := w
		for _, le := range []bool{true, false} {
			le := le
			recv := "(encoding/binary.bigEndian)."
			if le {
				recv = "(encoding/binary.littleEndian)."
			}
			put := func(c *callCtx) ([]Outcome, bool) {
				obj, off, n, _ := c.e.sliceParts(c.st, c.args[1])
				if c.e.hooks.Slice != nil && c.e.quiet == 0 {
					c.e.hooks.Slice(c.fr, c.st, c.instr.(ssa.Instruction), tZero, mkInt(int64(w.b)), n)
				}
				enc := mkBE(w.b, c.args[2])
				if le {
					enc = mkLE(w.b, c.args[2])
				}
				c.st.facts.assumeQuiet(mkLe(mkInt(int64(w.b)), n))
				c.e.setCell(c.st, obj, c.e.spliceIn(c.st, c.e.loadArr(c.st, obj), off, enc))
				return c.ret(), true
			}
			get := func(c *callCtx) ([]Outcome, bool) {
				n := mkLenOfValue(c.args[1])
				if c.args[1].op == OSlice {
					n = c.args[1].args[2]
				}
				if c.e.hooks.Slice != nil && c.e.quiet == 0 {
					c.e.hooks.Slice(c.fr, c.st, c.instr.(ssa.Instruction), tZero, mkInt(int64(w.b)), n)
				}
				c.st.facts.assumeQuiet(mkLe(mkInt(int64(w.b)), n))
				s := mkSub(c.content(1), tZero, mkInt(int64(w.b)))
				if le {
					return c.ret(mkUintLE(s)), true
				}
				return c.ret(mkUintBE(s)), true
			}
			app := func(c *callCtx) ([]Outcome, bool) {
				enc := mkBE(w.b, c.args[2])
				if le {
					enc = mkLE(w.b, c.args[2])
				}
				return c.ret(c.bytesOut(mkCat(c.content(1), enc))), true
			}
			m[recv+"PutUint"+w.n] = put
			m[recv+"Uint"+w.n] = get
			m[recv+"AppendUint"+w.n] = app
		}
	}
	// comparisons and copies
	m["bytes.Equal"] = pure1(func(c *callCtx) *Term { return mkEq(c.content(0), c.content(1), false) })
	m["bytes.Compare"] = pure1(func(c *callCtx) *Term { return mkApp("bytescmp", tyInt, c.content(0), c.content(1)) })
	m["crypto/hmac.Equal"] = m["bytes.Equal"]
	m["crypto/subtle.ConstantTimeCompare"] = func(c *callCtx) ([]Outcome, bool) {
		return c.splitOn(mkEq(c.content(0), c.content(1), false), func(st *State) Outcome { return Outcome{st: st, res: tOne} }, func(st *State) Outcome { return Outcome{st: st, res: tZero} }), true
	}
	m["bytes.Repeat"] = func(c *callCtx) ([]Outcome, bool) {
		x := c.content(0)
		return c.ret(c.bytesOut(mkStar(c.args[1], x, x.bvmax+1))), true
	}
	m["strings.Repeat"] = pure1(func(c *callCtx) *Term { x := c.args[0]; return mkStar(c.args[1], x, x.bvmax+1) })
	m["bytes.HasPrefix"] = func(c *callCtx) ([]Outcome, bool) { return hasPrefix(c, c.content(0), c.content(1)), true }
	m["strings.HasPrefix"] = func(c *callCtx) ([]Outcome, bool) { return hasPrefix(c, c.args[0], c.args[1]), true }
	m["strings.ToLower"] = pure1(func(c *callCtx) *Term { return caseMap(strings.ToLower, "lower", c.args[0]) })
	m["strings.ToUpper"] = pure1(func(c *callCtx) *Term { return caseMap(strings.ToUpper, "upper", c.args[0]) })
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		n := n
		m[n] = pure1(func(c *callCtx) *Term {
			s := c.content(0)
			return placeOf(c, n, s, c.args[1])
		})
	}
	m["unicode/utf8.DecodeRuneInString"] = func(c *callCtx) ([]Outcome, bool) {
		s, f := c.args[0], c.st.facts
		r := mkApp("rune", types.Typ[types.Int32], s)
		w := mkApp("runewidth", tyInt, s)
		f.assumeQuiet(mkLe(tZero, r))
		f.assumeQuiet(mkLe(r, mkInt(0x10ffff)))
		f.assumeQuiet(mkLe(tZero, w))
		f.assumeQuiet(mkLe(w, mkInt(4)))
		f.assumeQuiet(mkLe(w, lenOf(s)))
		if f.prove(mkLe(tOne, lenOf(s))) {
			f.assumeQuiet(mkLe(tOne, w))
			if f.prove(mkLe(mkInt(0x80), mkAt(s, tZero))) {
				f.assumeQuiet(mkLe(mkInt(0x80), r))
			}
		}
		return c.ret(r, w), true
	}
	for _, n := range []string{"strings.IndexRune", "bytes.IndexRune", "strings.Index", "strings.LastIndex"} {
		n := n
		m[n] = func(c *callCtx) ([]Outcome, bool) {
			s, x := c.content(0), c.args[1]
			if x.op == OStr {
				if len(x.sym) != 1 {
					return nil, false
				}
				x = mkInt(int64(x.sym[0]))
			} else if !strings.HasSuffix(n, "Rune") {
				return nil, false
			}
			lo, hi := c.st.facts.interval(x)
			if lo == nil || lo.Sign() < 0 {
				return nil, false
			}
			if hi == nil || hi.Cmp(pow2(7)) >= 0 {
				// only text of plain bytes is known not to hold it
				if s.op != OStr || lo.Cmp(pow2(7)) < 0 {
					return nil, false
				}
				for i := 0; i < len(s.sym); i++ {
					if s.sym[i] >= 0x80 {
						return nil, false
					}
				}
				return c.ret(mkInt(-1)), true
			}
			return c.ret(placeOf(c, n, s, x)), true
		}
	}
	m["encoding/hex.DecodeString"] = func(c *callCtx) ([]Outcome, bool) {
		lit := mkApp("ishex", tyBool, c.args[0])
		return c.splitOn(lit, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(c.e.newSlice(st, c.name2(), mkApp("unhex", tyBytes, c.args[0]), tyByte), tNil)}
		}, func(st *State) Outcome {
			return Outcome{st: st, res: mkTup(c.e.newSlice(st, c.name2(), mkApp("unhexpart", tyBytes, c.args[0]), tyByte), c.errTerm(c.args[0]))}
		}), true
	}
	m["encoding/hex.EncodeToString"] = pure1(func(c *callCtx) *Term { return mkApp("hex", types.Typ[types.String], c.content(0)) })
	m["strings.Fields"] = pure1(func(c *callCtx) *Term { return mkApp("fields", c.sig.Results().At(0).Type(), c.args[0]) })
	m["strings.Join"] = pure1(func(c *callCtx) *Term {
		return mkApp("join", types.Typ[types.String], c.content(0), c.args[1])
	})
	m["strings.Split"] = pure1(func(c *callCtx) *Term {
		t := mkApp("split", c.sig.Results().At(0).Type(), c.args...)
		if c.args[1].op == OStr && c.args[1].sym != "" {
			c.st.facts.assumeQuiet(mkLe(tOne, mkLenOfValue(t)))
		}
		return t
	})
	// locks
	for _, k := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		for _, n := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			m[k+n] = func(c *callCtx) ([]Outcome, bool) { return c.ret(), true }
		}
	}
	m["(*sync.Once).Do"] = func(c *callCtx) ([]Outcome, bool) {
		f := c.args[1]
		switch f.op {
		case OClo:
			return c.e.callFn(c, f.args[0].any.(*ssa.Function), f.args[1:], nil), true
		case OFunc:
			return c.e.callFn(c, f.any.(*ssa.Function), nil, nil), true
		}
		return nil, false
	}
	// output only
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString"} {
		n := n
		m[n] = func(c *callCtx) ([]Outcome, bool) {
			if n == "io.WriteString" {
				return nil, false
			}
			return c.ret(mkApp("printed", tyInt), tNil), true
		}
	}
	// the repository's own error constructor
	m["xerror.NewError"] = func(c *callCtx) ([]Outcome, bool) {
		return c.ret(mkApp("nonnil", c.sig.Results().At(0).Type(), mkSym("xerror", nil), c.args[1])), true
	}
	m["math/bits.RotateLeft32"] = pure1(func(c *callCtx) *Term { return mkRotl(c.args[0], c.args[1]) })
	m["crypto/elliptic.P256"] = pure1(func(c *callCtx) *Term { return mkApp("nonnil", nil, mkSym("P256", nil)) })
	floatModels(m)
	// readers that fill the caller's buffer
	m["crypto/rand.Read"] = func(c *callCtx) ([]Outcome, bool) { return fillRandom(c, 0) }
	m["io.ReadFull"] = func(c *callCtx) ([]Outcome, bool) { return fillRandom(c, 1) }
}

// floatVal is a constant floating-point value.
func floatVal(t *Term) (float64, bool) {
	switch {
	case t.op == OFloat:
		v := constant.MakeFromLiteral(t.sym, token.FLOAT, 0)
		if r, ok := new(big.Rat).SetString(t.sym); ok {
			f, _ := r.Float64()
			return f, true
		}
		f, _ := constant.Float64Val(v)
		return f, v.Kind() == constant.Float
	case t.op == OApp && t.sym == "float" && t.args[0].isInt():
		f, _ := new(big.Float).SetInt(t.args[0].ival).Float64()
		return f, true
	}
	return 0, false
}

func mkFloat(f float64) *Term {
	return intern(&Term{op: OFloat, sym: new(big.Rat).SetFloat64(f).RatString()})
}

func floatModels(m map[string]Model) {
	pure1 := func(f func(c *callCtx) *Term) Model {
		return func(c *callCtx) ([]Outcome, bool) { return c.ret(f(c)), true }
	}
	for n, f := range map[string]func(uint64) int{"Len": bits.Len64, "Len32": bits.Len64, "Len64": bits.Len64, "TrailingZeros": bits.TrailingZeros64, "TrailingZeros64": bits.TrailingZeros64, "OnesCount": bits.OnesCount64, "OnesCount64": bits.OnesCount64} {
		n, f := n, f
		m["math/bits."+n] = pure1(func(c *callCtx) *Term {
			if x := c.args[0]; x.isInt() && x.ival.IsUint64() {
				return mkInt(int64(f(x.ival.Uint64())))
			}
			return mkApp("math/bits."+n, tyInt, c.args[0])
		})
	}
	one := map[string]func(float64) float64{"Log2": math.Log2, "Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Log": math.Log, "Log10": math.Log10, "Round": math.Round, "Trunc": math.Trunc, "Exp2": math.Exp2, "Abs": math.Abs}
	for n, f := range one {
		n, f := n, f
		m["math."+n] = pure1(func(c *callCtx) *Term {
			if x, ok := floatVal(c.args[0]); ok {
				if y := f(x); !math.IsInf(y, 0) && !math.IsNaN(y) {
					return mkFloat(y)
				}
			}
			return mkApp("math."+n, types.Typ[types.Float64], c.args[0])
		})
	}
	m["math.Pow"] = pure1(func(c *callCtx) *Term {
		x, ok1 := floatVal(c.args[0])
		y, ok2 := floatVal(c.args[1])
		if ok1 && ok2 {
			if z := math.Pow(x, y); !math.IsInf(z, 0) && !math.IsNaN(z) {
				return mkFloat(z)
			}
		}
		return mkApp("math.Pow", types.Typ[types.Float64], c.args[0], c.args[1])
	})
}

// drawNumber counts the draws from random sources on the way here: the k-th
// draws of two functions are the same draw.
func (e *Engine) drawNumber(st *State) *Term {
	cell := mkSym("lv:draws", tyInt)
	k, ok := st.mem[cell]
	if !ok {
		k = tZero
	}
	e.setCell(st, cell, mkAddK(k, 1))
	return k
}

// fillRandom: the buffer's content becomes the next bytes of the source, or an error is returned.
func fillRandom(c *callCtx, bi int) ([]Outcome, bool) {
	obj, off, n, _ := c.e.sliceParts(c.st, c.args[bi])
	var src *Term
	if bi == 1 {
		src = c.e.reify(c.st, c.args[0])
		if c.args[0].op == OLd && c.args[0].args[0].op == OGlob {
			src = mkSym("source:"+c.args[0].args[0].sym, nil)
		}
	} else {
		src = mkSym("source:crypto/rand.Reader", nil)
	}
	tag := append([]*Term{src, mkSym("@"+c.name2(), nil)}, c.e.iters...)
	if c.e.seqRand {
		tag = []*Term{src, c.e.drawNumber(c.st)}
	}
	data := mkApp("drawn", tyBytes, append([]*Term{n}, tag...)...)
	ok := mkApp("drawok", tyBool, tag...)
	return c.splitOn(ok, func(st *State) Outcome {
		c.e.setCell(st, obj, c.e.spliceIn(st, c.e.loadArr(st, obj), off, mkSub(data, tZero, n)))
		return Outcome{st: st, res: mkTup(n, tNil)}
	}, func(st *State) Outcome {
		c.e.havoc(st, c.args[bi], c.name2())
		return Outcome{st: st, res: mkTup(mkApp("readn", tyInt, tag...), c.errTerm())}
	}), true
}

func hasPrefix(c *callCtx, s, p *Term) []Outcome {
	n := lenOf(p)
	lit := mkLe(n, lenOf(s))
	return c.splitOn(lit, func(st *State) Outcome {
		return Outcome{st: st, res: mkEq(mkSub(s, tZero, n), p, false)}
	}, func(st *State) Outcome { return Outcome{st: st, res: tFalse} })
}

func caseMap(f func(string) string, name string, s *Term) *Term {
	if s.op == OStr {
		return mkStr(f(s.sym))
	}
	return mkApp(name, types.Typ[types.String], s)
}

// mkPow is x to the y for integers.
func mkPow(x, y *Term) *Term {
	if y.isInt() && y.ival.IsInt64() && y.ival.Sign() >= 0 {
		if x.isInt() && y.ival.Int64() < 4096 {
			return mkBig(newInt(nil).Exp(x.ival, y.ival, nil))
		}
		if y.ival.Int64() <= 4 {
			r := tOne
			for i := int64(0); i < y.ival.Int64(); i++ {
				r = mkMul(r, x)
			}
			return r
		}
	}
	return mkApp("pow", nil, x, y)
}

// placeOf is the first (or last) place of a byte in s.
func placeOf(c *callCtx, n string, s, x *Term) *Term {
	last := strings.Contains(n, "Last")
	if s.op == OStr {
		if x.isInt() {
			if last {
				return mkInt(int64(strings.LastIndexByte(s.sym, byte(x.ival.Int64()))))
			}
			return mkInt(int64(strings.IndexByte(s.sym, byte(x.ival.Int64()))))
		}
		// a byte no byte of the text can be
		lo, hi := c.st.facts.interval(x)
		out := lo != nil || hi != nil
		for i := 0; i < len(s.sym); i++ {
			b := mkInt(int64(s.sym[i])).ival
			if (lo == nil || b.Cmp(lo) >= 0) && (hi == nil || b.Cmp(hi) <= 0) {
				out = false
			}
		}
		if out {
			return mkInt(-1)
		}
	}
	t := mkApp("indexbyte", tyInt, s, x)
	if last {
		t = mkApp("lastindexbyte", tyInt, s, x)
	}
	c.st.facts.assumeQuiet(mkLe(mkInt(-1), t))
	c.st.facts.assumeQuiet(mkLt(t, lenOf(s)))
	return t
}
