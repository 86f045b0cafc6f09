# Per-property configuration of the checks.
RT = "random message types (static ones and reflect.StructOf types drawn per seed), random values or wire bytes of them, compared with an independent reference encoder/decoder; "

PROPS = {
    "P01": dict(harness="rt", quick=10, thorough=240, level="exploration",
                rule=RT + "a case is non-trivial when the value has at least one set field; distinct by printed sample"),
    "P02": dict(harness="rt", quick=10, thorough=240, level="exploration", rule=RT + "size against marshaled length; non-trivial: encoding not empty"),
    "P03": dict(harness="rt", quick=10, thorough=240, level="exploration", rule=RT + "buffers of random length, capacity and stale contents; non-trivial: encoding not empty"),
    "P04": dict(harness="rt", quick=10, thorough=240, level="exploration", rule=RT + "round trip; non-trivial: encoding not empty"),
    "P05": dict(harness="rt", quick=10, thorough=240, level="exploration", rule=RT + "random well-formed wire (reordered, chunked, padded varints); non-trivial: at least one record of a declared field"),
    "P06": dict(harness="rt", quick=10, thorough=240, level="exploration", rule=RT + "wire mixing known and unknown records; non-trivial: an unknown record is present"),
    "P07": dict(harness="rt", quick=14, thorough=300, level="exploration", rule=RT + "mutated and hostile bytes behind a guard page; non-trivial: input not empty"),
    "P08": dict(harness="rt", quick=14, thorough=240, level="exploration", rule="nestings around the limit through every mixture of field kinds; non-trivial: depth within 3 of the limit or beyond"),
    "P09": dict(harness="rt", quick=14, thorough=300, level="exploration", rule=RT + "address ranges of everything reachable are disjoint, aligned and stay unchanged over later decodes and mutation of the input; non-trivial: something allocated"),
    "P10": dict(harness="rt", quick=10, thorough=240, level="exploration", rule="random tag strings on random Go types against a table of representable combinations; non-trivial: a tag is present"),
    "P11": dict(harness="rt", quick=14, thorough=240, level="exploration", independent=False,
                builds=[("plain", [], 0.6), ("race", ["-race", "-gcflags=all=-d=checkptr=0"], 0.4)],
                rule="8 goroutines using 150 fresh types per round, preferring types sharing a hash slot, plain and under the race detector; non-trivial: at least two types share a slot"),
    "P12": dict(harness="rt", quick=10, thorough=240, level="exploration", rule="random values, prefixes, suffixes and truncations for every codec; distinct by value"),
}
GEN = "random sets of .proto files (syntaxes, packages, imports, nesting, options, directives) run through the loader and the code generator, output parsed and type-checked, compared with an independent model of the declarations; "
PROPS.update({
    "P13": dict(harness="gen", quick=10, thorough=240, level="exploration", rule=GEN + "tag of every field; non-trivial: at least one field"),
    "P14": dict(harness="gen", quick=10, thorough=240, level="exploration", rule=GEN + "Go type and getter of every field; non-trivial: at least one field"),
    "P15": dict(harness="gen", quick=10, thorough=240, level="exploration", rule=GEN + "numbers moved onto and next to limits, reserved ranges and each other; distinct by text"),
    "P16": dict(harness="gen", quick=10, thorough=240, level="exploration", rule=GEN + "shadowed and partially qualified names; non-trivial: at least one reference to a declared type"),
    "P17": dict(harness="gen", quick=14, thorough=240, level="exploration", rule=GEN + "names from a pool made to collide, random string literals; non-trivial: at least one field"),
    "P18": dict(harness="gen", quick=10, thorough=240, level="exploration", rule=GEN + "every declaration in the output; non-trivial: accepted and free of clashes the generator leaves to the author"),
})
for p in PROPS:
    if p != "P12" and PROPS[p]["harness"] == "rt":
        PROPS[p]["exclude"] = ["p12.go"]

NOT_APPLICABLE = []

# The contracts each property rests on (targets of govc), and what they leave open.
WENC = ["wire.Append*", "wire.append*", "wire.UnsafeAppend*", "wire.Get*Append*", "wire.GetMapEncoderFunc", "wire.EncodeTag", "wire.Len*", "wire.lenPack*"]
WSIZE = ["wire.sz*", "wire.UnsafeSize*", "wire.SizeVarint", "wire.Get*Size*"]
PENC = ["protowire.Append*", "protowire.Encode*", "protowire.Size*"]
ENC = ["prutal.Encoder_*", "prutal.append*"]
SIZE = ["prutal.Size*", "prutal.size*", "prutal.Lemma_size*"]
DEC = ["protowire.Consume*", "protowire.consume*", "protowire.Decode*", "protowire.ParseError", "protowire.Number_IsValid", "wire.Decode*", "wire.decode*", "wire.Get*Decoder*", "wire.ConsumeKVTag"]
PDEC = ["prutal.Decoder_DecodeMap*", "prutal.Decoder_ReallocSlice", "prutal.resetUnknownFields", "prutal.appendToUnknownFields", "prutal.concatBytesRecords", "prutal.zeroRecord"]
FIELDS = ["prutal.Decoder_DecodeStruct*"]  # three minutes: part of one quick check, of every thorough one
ALLOC = ["prutal.Lemma_span*", "prutal.Lemma_Decoder_Malloc"]
TECH = "contracts discharged by govc (verification conditions from Go SSA, z3/cvc5) + bounded harness"
CONTRACTS = {
    "P01": dict(contracts=WENC + PENC + ENC, level="proof", technique=TECH,
                note="every function from AppendStruct down to the scalar codecs under contract"),
    "P02": dict(contracts=WENC + WSIZE + PENC + ENC + SIZE, level="proof", technique=TECH,
                note="sizer and encoder proved against the same ghost encoding"),
    "P03": dict(contracts=WENC + PENC + ENC + SIZE, level="proof", technique=TECH,
                note="every append function: result = old content ++ f(message), input memory unchanged"),
    "P08": dict(contracts=["prutal.Encoder_*", "prutal.Size*", "prutal.size*"], level="proof", technique=TECH,
                note="depth argument of every recursive call"),
    "P04": dict(contracts=WENC + PENC + ENC + DEC + PDEC + FIELDS, technique=TECH,
                note="encoder, message decoder (field loop) and the scalar, packed and map decoders under contract; descriptor construction and the normalisation of map entries are decided by the bounded harness"),
    "P05": dict(contracts=DEC + PDEC, deep=FIELDS, technique=TECH,
                note="scalar, packed and map decoders under contract, in the thorough check the message decoder (field loop) too; the normalisation of map entries is decided by the bounded harness"),
    "P06": dict(contracts=["protowire.*onsume*", "prutal.*UnknownFields", "prutal.Encoder_AppendStruct"], deep=FIELDS, technique=TECH,
                note="record skipper, collection and re-emission under contract; the field loop which calls them in the thorough check and in P04"),
    "P07": dict(contracts=DEC + PDEC, deep=FIELDS, technique=TECH,
                note="record parser, scalar, packed and map decoders proved never to panic or read outside their input, in the thorough check (and in P04) the message decoder too; the normalisation of map entries is decided by the bounded harness"),
    "P09": dict(contracts=ALLOC + PDEC + ["wire.Decode*", "wire.decode*"], deep=FIELDS, technique=TECH,
                note="block allocator (alignment, containment, disjointness from every earlier allocation), slice growth and the copies of map keys and values under contract, in the thorough check (and in P04) the message decoder too"),
    "P10": dict(contracts=["desc.*"], technique=TECH, note="acceptance table and codec selection under contract"),
    "P12": dict(contracts=["protowire.*", "wire.*"], level="proof", technique=TECH,
                note="every function of internal/protowire and internal/wire under contract for all inputs and iterations; inverse-pair lemmas over the contracts; trusted: see evidence"),
}
G = lambda *names: ["prutalgen." + n for n in names]
OPTS = G("Options_*", "isfalse", "istrue", "Directives_*")
SCOPE = G("*getType", "*getDeclaredType", "*searchType", "findType", "hasPackage", "*PathPrefix")
CONTRACTS.update({
    "P11": dict(contracts=["desc.mapStructDesc_*"], technique=TECH,
                note="the table of descriptors (lookup finds the entry of exactly that type, insertion keeps every other entry) under contract as a sequential object; interleavings are decided by the bounded harness, plain and under the race detector"),
    "P13": dict(contracts=OPTS + G("GoCodeGen_FieldStructTag", "Field_IsPackedEncoding", "Field_isRequired", "Field_IsMap", "Type_EncodingType", "Type_IsMessage"), technique=TECH,
                note="the text of the tag proved for every field from resolved types and options; parsing and emission are decided by the bounded harness"),
    "P14": dict(contracts=OPTS + G("Field_Go*", "Field_Is*", "Field_is*", "Field_gen*", "goTypeName", "Type_Go*", "Type_go*", "Type_proto", "GoCodeGen_FieldGen", "GoCodeGen_MessageGen", "GoCodeGen_OneofGen"), technique=TECH,
                note="Go type, presence, zero value and the text of every field and getter proved; parsing and the compiled output are decided by the bounded harness"),
    "P15": dict(contracts=OPTS + G("*verify*", "reservedRanges_*", "*IsReservedField", "Enum_allowAlias"), technique=TECH,
                note="the verification pass proved to accept exactly the valid numberings at every depth; parsing is decided by the bounded harness"),
    "P16": dict(contracts=SCOPE + G("Type_*", "Field_resolve", "Method_resolve", "Service_resolve", "*FullName"), technique=TECH,
                note="scope search and type resolution proved; the set of visible files and import naming are decided by the bounded harness"),
    "P17": dict(contracts=["strs.*"] + G("*Conflicts", "*_resolve", "Field_OneofStructName", "Oneof_Field*", "*FullName"), technique=TECH,
                note="the camel-case rule and the renaming passes proved; unescaping and top-level names are decided by the bounded harness"),
    "P18": dict(contracts=OPTS + G("Message_gen*", "Enum_gen*", "EnumField_gen*", "*_resolve", "GoCodeGen_*"), technique=TECH,
                note="the text generated for a file, its enums, messages, oneofs and fields proved to be the contract's; parsing, the import block and formatting are decided by the bounded harness"),
})
for p, c in CONTRACTS.items():
    PROPS[p].update(c)
