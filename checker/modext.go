package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What functions outside the repository do to memory they are given. Those
// not listed only read it and return fresh memory.

var bigMutators = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Abs Add And AndNot Binomial Div DivMod Exp GCD Lsh Mod ModInverse ModSqrt Mul MulRange Neg Not Or Quo QuoRem Rand Rem Rsh Set SetBit SetBits SetBytes SetInt64 SetString SetUint64 Sqrt Sub Xor Scan UnmarshalJSON UnmarshalText GobDecode") {
		bigMutators[n] = true
	}
}

// argument numbers written (the receiver is 0), and those the result refers to
var extWrites = map[string][]int{
	"io.ReadFull": {0, 1}, "io.ReadAtLeast": {0, 1}, "io.ReadAll": {0}, "io.Copy": {0, 1},
	"crypto/rand.Read": {0}, "math/rand.Read": {0},
	"encoding/binary.Read": {0, 2}, "encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0},
	"encoding/json.Unmarshal": {1}, "encoding/asn1.Unmarshal": {1}, "encoding/asn1.UnmarshalWithParams": {1},
	"(*encoding/json.Decoder).Decode": {0, 1},
	"encoding/hex.Decode":             {0}, "encoding/hex.Encode": {0},
	"sort.Ints": {0}, "sort.Strings": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"crypto/subtle.XORBytes": {0}, "crypto/subtle.ConstantTimeCopy": {1},
	"(*bytes.Buffer).Read": {0, 1}, "(*bytes.Reader).Read": {0, 1}, "(*bufio.Reader).Read": {0, 1}, "(*strings.Reader).Read": {0, 1},
	"(*math/big.Int).FillBytes": {1}, "strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendQuote": {0}, "(*math/big.Int).Append": {1},
	"invoke (io.Reader).Read": {0, 1}, "invoke (net.Conn).Read": {1}, "invoke (io.ReadWriter).Read": {0, 1},
	"invoke (hash.Hash).Sum": {1}, "invoke (hash.Hash).Write": {0}, "invoke (hash.Hash).Reset": {0},
	"fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Sscan": {1}, "fmt.Sscanf": {2}, "fmt.Fscan": {1},
	"unicode/utf8.AppendRune": {0}, "unicode/utf8.EncodeRune": {0},
	"encoding/base64.Decode": {1}, "container/heap.Push": {0}, "slices.Reverse": {0}, "slices.Sort": {0}, "slices.SortFunc": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "slices.Compact": {0},
	"maps.Copy": {0}, "math/rand.Shuffle": {},
}

var extAliases = map[string][]int{
	"(*math/big.Int).FillBytes": {1}, "invoke (hash.Hash).Sum": {1}, "(*math/big.Int).Append": {1},
	"bufio.NewReader": {0}, "bufio.NewWriter": {0}, "bufio.NewReaderSize": {0}, "bufio.NewReadWriter": {0, 1},
	"bytes.TrimSpace": {0}, "bytes.Trim": {0}, "bytes.TrimLeft": {0}, "bytes.TrimRight": {0}, "bytes.TrimPrefix": {0}, "bytes.TrimSuffix": {0}, "bytes.TrimFunc": {0}, "bytes.TrimLeftFunc": {0}, "bytes.TrimRightFunc": {0},
	"slices.Insert": {0}, "slices.Delete": {0}, "slices.Compact": {0}, "slices.Grow": {0}, "slices.Clip": {0},
	"encoding/asn1.Unmarshal": {0}, "strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "fmt.Append": {0}, "fmt.Appendf": {0},
	"invoke (context.Context).Value": {0},
}

func (in *minfo) external(x ssa.CallInstruction, name string, args []mval) {
	if i := strings.IndexByte(name, '['); i > 0 && !strings.HasPrefix(name, "invoke") {
		name = name[:i]
	}
	res := x.Common().Signature().Results()
	v, _ := x.(*ssa.Call)
	arg := func(k int) maset {
		if k < len(args) {
			return args[k][""]
		}
		return nil
	}
	// interfaces hold slices in a box
	mem := func(k int) maset {
		s := bareSet(arg(k))
		out := merge(s, nil)
		for a := range s {
			if a.o.kind == mAlloc && a.o.typ != nil && boxed(a.o.typ) {
				for b := range in.content(a) {
					out[b] = true
				}
			}
		}
		return out
	}
	pos := x.Pos()
	what := "passes to " + strings.TrimPrefix(name, "invoke ") + ", which overwrites,"
	alias := func(s maset) {
		if v != nil && len(s) > 0 {
			q := ""
			if res.Len() > 1 {
				q = "#0"
			}
			in.addVal(v, q, s)
		}
	}
	deref := func(s maset, p string) maset {
		out := maset{}
		for a := range s {
			if a.o.kind == mFunc {
				continue
			}
			a = a.bare()
			for b := range in.content(maddr{a.o, a.p + p}) {
				out[b] = true
			}
		}
		return out
	}
	if m, ok := strings.CutPrefix(name, "(*math/big.Int)."); ok {
		mut := func(s maset) {
			in.write(s, pos, "computes "+m+" into")
			in.write(deref(s, ".1"), pos, "computes "+m+" into")
		}
		switch {
		case m == "Bits":
			alias(deref(arg(0), ".1"))
			return
		case bigMutators[m]:
			mut(arg(0))
			switch m {
			case "DivMod", "QuoRem":
				mut(arg(3))
			case "GCD":
				mut(arg(1))
				mut(arg(2))
			case "SetBits":
				for a := range arg(0) {
					in.put(maddr{a.o, a.p + ".1"}, arg(1))
				}
			}
			if m == "DivMod" || m == "QuoRem" {
				if v != nil {
					in.addVal(v, "#0", arg(0))
					in.addVal(v, "#1", arg(3))
				}
			} else if m == "SetString" {
				if v != nil {
					in.addVal(v, "#0", arg(0))
				}
			} else {
				alias(arg(0))
			}
			return
		}
	}
	if m, ok := strings.CutPrefix(name, "(*bytes.Buffer)."); ok {
		buf := deref(arg(0), ".0")
		switch {
		case strings.HasPrefix(m, "Write"), m == "Grow", m == "ReadFrom":
			in.write(arg(0), pos, "writes to")
			in.write(buf, pos, "writes to")
			return
		case m == "Bytes", m == "Next", m == "AvailableBuffer":
			alias(buf)
		case strings.HasPrefix(m, "Read"), m == "Reset", m == "Truncate":
			in.write(arg(0), pos, "reads from")
		}
	}
	if name == "bytes.NewBuffer" || name == "bytes.NewReader" {
		o := in.alloc([2]any{x, "buffer"}, pointee(res.At(0).Type()))
		in.store(one(o, ".0"), mval{"": arg(0)})
		alias(one(o, ""))
		return
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		i := strings.LastIndexByte(name, '.')
		switch m := name[i+1:]; {
		case strings.HasPrefix(m, "Put"):
			in.write(mem(1), pos, what)
		case strings.HasPrefix(m, "Append"):
			in.write(mem(1), pos, what)
			alias(arg(1))
		}
	}
	for _, k := range extWrites[name] {
		in.write(mem(k), pos, what)
	}
	for _, k := range extAliases[name] {
		alias(arg(k))
	}
	// functions handed over are called, with memory of their own
	for k, a := range args {
		for f := range a[""] {
			if f.o.kind != mFunc || f.o.fn.Blocks == nil {
				continue
			}
			_ = k
			once := name == "(*sync.Once).Do"
			in.applyCallback(x, f.o, once)
		}
	}
	// sort.Sort and the heap functions call the methods of the value
	if (strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "container/heap.")) && len(args) > 0 {
		for a := range arg(0) {
			if a.o.kind == mAlloc && a.o.typ != nil {
				in.write(mem(0), pos, what)
			}
		}
	}
	in.fresh(x, res)
}

// applyCallback accounts for a call of a function value by code outside.
func (in *minfo) applyCallback(x ssa.CallInstruction, o *mobj, once bool) {
	f := o.fn
	var args []mval
	for k, p := range f.Params {
		mv := mval{}
		for _, q := range leaves(p.Type()) {
			lt, _ := pathType(p.Type(), q)
			mv[q] = one(in.alloc([4]any{x, f, k, q}, pointee(lt)), "")
		}
		args = append(args, mv)
	}
	in.apply(x, f, args, in.bindings(o), once)
}
