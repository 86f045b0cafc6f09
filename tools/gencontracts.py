#!/usr/bin/env python3
"""Writes contracts/internal/wire/maps.go: one contract per typed map codec."""
import os
T = {  # name: (Go type, wire type, encode expression, decode expression)
    "VarintU32": ("uint32", 0, "append({b}, vc.Varint(uint64({x}))...)"),
    "VarintU64": ("uint64", 0, "append({b}, vc.Varint({x})...)"),
    "ZigZag32": ("int32", 0, "append({b}, vc.Varint(zz32({x}))...)"),
    "ZigZag64": ("int64", 0, "append({b}, vc.Varint(zz64({x}))...)"),
    "Fixed32": ("uint32", 5, "le32({b}, {x})"),
    "Fixed64": ("uint64", 1, "le64({b}, {x})"),
    "Bool": ("bool", 0, "bool1({b}, {x})"),
    "Bytes": ("[]byte", 2, "lendelb({b}, {x})"),
    "String": ("string", 2, "lendel({b}, {x})"),
}
o = ["package wire", "", "// Code generated by tools/gencontracts.py. DO NOT EDIT.", "",
     "// Contracts of the typed map codecs (P01-P05, P07).", "",
     'import (', '\t"unsafe"', '', '\t"github.com/cloudwego/prutal/internal/protowire"', '\t"github.com/cloudwego/prutal/internal/vc"', ')', ""]
o.append('''func bool1(b []byte, x bool) []byte {
	if x {
		return append(b, 1)
	}
	return append(b, 0)
}

func lendelb(b []byte, s []byte) []byte {
	b = append(b, vc.Varint(uint64(len(s)))...)
	return append(b, s...)
}

func entry(b []byte, tag uint64, e []byte) []byte {
	b = append(b, vc.Varint(tag)...)
	b = append(b, vc.Varint(uint64(len(e)))...)
	return append(b, e...)
}
''')
keys = ["VarintU32", "VarintU64", "ZigZag32", "ZigZag64", "Fixed32", "Fixed64", "Bool", "String"]
for which, num in (("Key", 1), ("Value", 2)):
    for n in (keys if num == 1 else T):
        g, w, e = T[n]
        e = e.format(b="append(b, %d)" % (num * 8 + w), x="x")
        o.append("func Spec_appendMap%s_%s(b []byte, x %s) []byte {\n\treturn %s\n}\n" % (which, n, g, e))
for k in keys:
    for v in T:
        if v == "Bool" and False: continue
        kg, vg = T[k][0], T[v][0]
        o.append(f'''func Spec_AppendMap_{k}_{v}(b []byte, tag uint64, p unsafe.Pointer) []byte {{
	for k, v := range *(*map[{kg}]{vg})(p) {{
		b = entry(b, tag, Spec_appendMapValue_{v}(Spec_appendMapKey_{k}(nil, k), v))
	}}
	return b
}}
''')

# ---- decoders ----
D = {  # name: (reader, expression)
    "VarintU32": ("rdVarint", "uint32({x})"),
    "VarintU64": ("rdVarint", "{x}"),
    "ZigZag32": ("rdVarint", "unzz32({x})"),
    "ZigZag64": ("rdVarint", "unzz64({x})"),
    "Fixed32": ("rdFixed32", "{x}"),
    "Fixed64": ("rdFixed64", "{x}"),
    "Bool": ("rdVarint", "{x} != 0"),
}
o.append('''// rd* read a one byte tag of field num and a value: the value and how many
// bytes both take, 0 if they are not there
func rdVarint(b []byte, num int32) (uint64, int) {
	if len(b) == 0 || b[0] != byte(num)<<3 {
		return 0, 0
	}
	v, n := protowire.ConsumeVarint(b[1:])
	if n < 0 {
		return 0, 0
	}
	return v, n + 1
}

func rdFixed32(b []byte, num int32) (uint32, int) {
	if len(b) < 5 || b[0] != byte(num)<<3|5 {
		return 0, 0
	}
	return uint32(b[1]) | uint32(b[2])<<8 | uint32(b[3])<<16 | uint32(b[4])<<24, 5
}

func rdFixed64(b []byte, num int32) (uint64, int) {
	if len(b) < 9 || b[0] != byte(num)<<3|1 {
		return 0, 0
	}
	return uint64(b[1]) | uint64(b[2])<<8 | uint64(b[3])<<16 | uint64(b[4])<<24 |
		uint64(b[5])<<32 | uint64(b[6])<<40 | uint64(b[7])<<48 | uint64(b[8])<<56, 9
}

func Requires_decodeMap_Varint(b []byte, num int32) bool  { return num == 1 || num == 2 }
func Requires_decodeMap_Fixed32(b []byte, num int32) bool { return num == 1 || num == 2 }
func Requires_decodeMap_Fixed64(b []byte, num int32) bool { return num == 1 || num == 2 }
func Requires_decodeMap_Bool(b []byte, num int32) bool    { return num == 1 || num == 2 }

func Spec_decodeMap_Varint(b []byte, num int32) (uint64, int, error) {
	v, n := rdVarint(b, num)
	if n == 0 {
		return 0, 0, vc.Err()
	}
	return v, n, nil
}

func Spec_decodeMap_Fixed32(b []byte, num int32) (uint32, int, error) {
	v, n := rdFixed32(b, num)
	if n == 0 {
		return 0, 0, vc.Err()
	}
	return v, n, nil
}

func Spec_decodeMap_Fixed64(b []byte, num int32) (uint64, int, error) {
	v, n := rdFixed64(b, num)
	if n == 0 {
		return 0, 0, vc.Err()
	}
	return v, n, nil
}

func Spec_decodeMap_Bool(b []byte, num int32) (bool, int, error) {
	v, n := rdVarint(b, num)
	if n == 0 {
		return false, 0, vc.Err()
	}
	return v != 0, n, nil
}
''')
for k in keys:
    for v in D:
        if k == "String": continue
        kg, vg = T[k][0], T[v][0]
        o.append(f'''func Spec_DecodeMap_{k}_{v}(b []byte, mp unsafe.Pointer) error {{
	k, n := {D[k][0]}(b, 1)
	if n == 0 {{
		return vc.Err()
	}}
	v, n := {D[v][0]}(b[n:], 2)
	if n == 0 {{
		return vc.Err()
	}}
	m := (*map[{kg}]{vg})(mp)
	if *m == nil {{
		*m = make(map[{kg}]{vg})
	}}
	(*m)[{D[k][1].format(x="k")}] = {D[v][1].format(x="v")}
	return nil
}}
''')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../contracts/internal/wire/maps.go")
open(p, "w").write("\n".join(o))

# ---- registries ----
o = ["package wire", "", "// Code generated by tools/gencontracts.py. DO NOT EDIT.", "",
     "// Contracts of the codec tables: whatever is registered for a kind of field",
     "// does what the wire format says for that kind.", "",
     'import (', '\t"unsafe"', '', '\t"github.com/cloudwego/prutal/internal/vc"', ')', ""]
K = {"CoderVarintU32": "VarintU32", "CoderVarintI32": "VarintI32", "CoderVarint64": "VarintU64", "CoderZigZag32": "ZigZag32",
     "CoderZigZag64": "ZigZag64", "CoderFixed32": "Fixed32", "CoderFixed64": "Fixed64", "CoderBytes": "Bytes", "CoderString": "String", "CoderBool": "Bool"}
GT = {n: T[n][0] for n in T}
GT["VarintI32"] = "int32"
SZ = {"VarintU32": "vc.VarintLen(uint64(x))", "VarintU64": "vc.VarintLen(x)", "VarintI32": "vc.VarintLen(uint64(int64(x)))",
      "ZigZag32": "vc.VarintLen(zz32(x))", "ZigZag64": "vc.VarintLen(zz64(x))", "Fixed32": "4", "Fixed64": "8", "Bool": "1",
      "Bytes": "vc.VarintLen(uint64(len(x))) + len(x)", "String": "vc.VarintLen(uint64(len(x))) + len(x)"}
STRICT = ("GetAppendListFunc", "GetSizeFunc", "GetAppendFunc")  # an entry may not be missing
def table(name, params, args, res, cases, default="nil"):
    o.append(f"func Spec_{name}({params}) {res} {{")
    o.append("\tswitch {")
    for c, r in cases:
        o.append(f"\tcase {c}:\n\t\treturn {r}" if name in STRICT else f"\tcase {c}:\n\t\treturn vc.OrNil[{res}]({r})")
    o.append("\t}\n\treturn nil\n}\n")
ks = [k for k in K if K[k] not in ("Bytes",)]
def both(k, v): return f"k == {k} && v == {v}"
# encoders of maps; a VarintI32 key or value has no typed encoder the contract could name
enc = [(both(k, v), f"Spec_AppendMap_{K[k]}_{K[v]}") for k in ks for v in K if "VarintI32" not in (K[k], K[v])]
table("GetMapEncoderFunc", "k, v CoderType", "", "AppendRepeatedFunc", enc)
dn = {k: ("VarintU32" if K[k] == "VarintI32" else K[k]) for k in K}
dec = [(both(k, v), f"Spec_DecodeMap_{dn[k]}_{dn[v]}") for k in ks for v in K if K[k] != "String" and K[v] not in ("Bytes", "String")]
table("GetMapDecoderFunc", "k, v CoderType", "", "DecodeFunc", dec)
for n in SZ:
    o.append(f"func size_{n}(x {GT[n]}) int {{ return {SZ[n]} }}")
o.append("")
sz = []
for k in ks:
    for v in K:
        a, b = K[k], K[v]
        sz.append((both(k, v), f"sizeMap_{a}_{b}"))
        o.append(f"""func sizeMap_{a}_{b}(p unsafe.Pointer, wireTagSize int) int {{
	n := 0
	for k, v := range *(*map[{GT[a]}]{GT[b]})(p) {{
		e := 2 + size_{a}(k) + size_{b}(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}}
	return n
}}
""")
table("GetMapSizeFunc", "k, v CoderType", "", "SizeMapFunc", sz)
num = [k for k in K if K[k] not in ("Bytes", "String")]
table("GetPackedDecoderFunc", "c CoderType", "", "DecodeFunc", [(f"c == {k}", f"Spec_DecodePacked{dn[k]}") for k in num])
allk = list(K)
def up(k): return K[k] if K[k] != "Bytes" else "Bytes"
table("GetAppendListFunc", "t CoderType", "", "AppendRepeatedFunc", [(f"t == {k}", f"Spec_UnsafeAppend{K[k]}List") for k in allk])
table("GetSizeFunc", "t CoderType", "", "SizeFunc", [(f"t == {k}", f"Spec_UnsafeSize{'String' if K[k]=='Bytes' else K[k]}") for k in allk])
table("GetAppendFunc", "t CoderType, packed bool", "", "AppendFunc",
      [(f"packed && t == {k}", f"Spec_UnsafeAppendPacked{K[k]}") for k in num] +
      [(f"!packed && t == {k}", f"Spec_UnsafeAppend{'String' if K[k]=='Bytes' else K[k]}") for k in allk])
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../contracts/internal/wire/tables.go")
open(p, "w").write("\n".join(o))
