package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register(&checkDef{
		id:    "C40",
		rule:  "The value of BlockHash is the double SHA-256 of the 80-byte header for all fields; NewIDFromString and NewIDToString give the reversed bytes and the reversed hexadecimal text for all inputs, and neither writes through its argument.",
		specs: []string{"xprotocol/ids", "xbase/ids"},
		floor: 6,
		run: func(c *Ctx) {
			c.specPairs("xprotocol", "BlockID", true, bufModels)
			c.specPairs("xbase", "ID", true, nil)
		},
	})
	register(&checkDef{
		id:    "C41",
		rule:  "After every call that adds to a list message the list is the previous list followed by the added elements, or unchanged with an error when the published limit would be exceeded; every message constructor puts each argument in its own field.",
		specs: []string{"xprotocol/ids"},
		floor: 8,
		run: func(c *Ctx) {
			c.specPairs("xprotocol", "Add", false, bufModels)
		},
	})
	register(&checkDef{
		id:    "C42",
		rule:  "Every exported numeric constant of a published Bitcoin enumeration has its published value in the type-checked program.",
		floor: 240,
		run:   checkConstants,
	})
}

// publishedOps is the published script word list from 0x4c on, one word per
// value ("/" separates names of one value, "_" leaves a value out).
const publishedOps = `PUSHDATA1 PUSHDATA2 PUSHDATA4 1NEGATE RESERVED 1/TRUE 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16
NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK
2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK
CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2
1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT
BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN
RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY
NOP1 NOP2/CHECKLOCKTIMEVERIFY NOP3/CHECKSEQUENCEVERIFY NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10`

// publishedConstants gives the other enumerations, by package.
var publishedConstants = map[string]map[string]int64{
	"xcore": {
		"SigHashOld": 0, "SigHashAll": 1, "SigHashNone": 2, "SigHashSingle": 3, "SigTypeMask": 0x1f, "SigHashAnyOneCanPay": 0x80,
		"Unit": 100000000, "MaxAmount": 2100000000000000,
	},
	"xprotocol": {
		"InvTypeError": 0, "InvTypeTx": 1, "InvTypeBlock": 2, "InvTypeFilteredBlock": 3,
		"RejectMalformed": 0x01, "RejectInvalid": 0x10, "RejectObsolete": 0x11, "RejectDuplicate": 0x12,
		"RejectNonstandard": 0x40, "RejectDust": 0x41, "RejectInsufficientFee": 0x42, "RejectCheckpoint": 0x43,
		"MaxInvPerMsg": 50000, "MaxBlockHeadersPerMsg": 2000,
	},
	"xcore/bip32": {"HardenedKeyStart": 0x80000000},
}

// checkConstants compares every constant of a published enumeration with its
// published value.
func checkConstants(c *Ctx) {
	want := map[string]map[string]int64{}
	for rel, m := range publishedConstants {
		want[rel] = m
	}
	ops := map[string]int64{"OP_0": 0, "OP_FALSE": 0, "OP_INVALIDOPCODE": 0xff}
	for i := int64(1); i <= 0x4b; i++ {
		ops["OP_DATA_"+strconv.FormatInt(i, 10)] = i
	}
	v := int64(0x4c)
	for _, w := range strings.Fields(publishedOps) {
		for _, n := range strings.Split(w, "/") {
			ops["OP_"+n] = v
		}
		v++
	}
	for ; v <= 0xfe; v++ {
		ops["OP_UNKNOWN"+strconv.FormatInt(v, 10)] = v
	}
	want["xvm"] = ops
	for rel, m := range want {
		pk := c.p.ByRel[rel]
		need("package "+rel, pk != nil)
		for n, val := range m {
			k, ok := pk.Types.Scope().Lookup(n).(*types.Const)
			if !ok {
				continue // the word is not offered
			}
			c.count("constants", 1)
			got, exact := constant.Int64Val(constant.ToInt(k.Val()))
			c.must(exact && got == val, "constant "+rel+"."+n, c.p.Pos(k.Pos()), "%s.%s is %s; its published value is %d", rel, n, k.Val(), val)
		}
	}
	c.sample("every OP_*, SigHash*, InvType* and Reject* constant and the published limits")
}
