//go:build go1.22

// Package main is the bounded concrete harness for the runtime library. It is
// placed inside the module under check with an overlay and only compares what
// the library does with an independent reference implementation of protobuf.
package main

import "reflect"

type Enum int32

// T2 is a recursive message with every kind of embedding.
type Node struct {
	V     int32            `protobuf:"varint,1,opt,name=v"`
	Next  *Node            `protobuf:"bytes,2,opt,name=next"`
	List  []*Node          `protobuf:"bytes,3,rep,name=list"`
	VList []Leaf           `protobuf:"bytes,4,rep,name=vlist"`
	MS    map[string]*Node `protobuf:"bytes,5,rep,name=ms" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M32   map[uint32]*Node `protobuf:"bytes,6,rep,name=m32" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M64   map[int64]*Node  `protobuf:"bytes,7,rep,name=m64" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MB    map[bool]*Node   `protobuf:"bytes,8,rep,name=mb" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MV    map[uint64]VNode `protobuf:"bytes,9,rep,name=mv" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Emb   VNode            `protobuf:"bytes,10,opt,name=emb"`
	O     isNode_O         `protobuf_oneof:"o"`
	VNs   []VNode          `protobuf:"bytes,12,rep,name=vns"`
	MSV   map[string]VNode `protobuf:"bytes,13,rep,name=msv" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M32s  map[int32]*Node  `protobuf:"bytes,14,rep,name=m32s" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M32f  map[int32]*Node  `protobuf:"bytes,15,rep,name=m32f" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M32i  map[int32]*Node  `protobuf:"bytes,16,rep,name=m32i" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M64f  map[uint64]*Node `protobuf:"bytes,17,rep,name=m64f" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M64u  map[uint64]*Node `protobuf:"bytes,18,rep,name=m64u" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`

	unknownFields []byte
}

type isNode_O interface{ isNode_O() }
type Node_Sub struct {
	Sub *Node `protobuf:"bytes,11,opt,name=sub,oneof"`
}

func (*Node_Sub) isNode_O()                    {}
func (*Node) XXX_OneofWrappers() []interface{} { return []interface{}{(*Node_Sub)(nil)} }

type VNode struct {
	A  int64 `protobuf:"varint,1,opt,name=a"`
	Ns *Node `protobuf:"bytes,2,opt,name=ns"`

	XXX_unrecognized []byte
}

type Leaf struct {
	S string `protobuf:"bytes,1,opt,name=s"`
	B []byte `protobuf:"bytes,2,opt,name=b"`
	F uint32 `protobuf:"fixed32,3,opt,name=f"`
}

type Small struct {
	X int32 `protobuf:"zigzag32,1,opt,name=x"`
}

type Empty struct{}

// Uns has only the pointer form of the unknown fields store.
type Uns struct {
	A             int32    `protobuf:"varint,1,opt,name=a"`
	L             []string `protobuf:"bytes,70000,rep,name=l"`
	unknownFields *[]byte
}

// Proto2 uses pointers and the old store name.
type Proto2 struct {
	I32  *int32   `protobuf:"varint,1,req,name=i32"`
	U32  *uint32  `protobuf:"varint,2,opt,name=u32"`
	I64  *int64   `protobuf:"varint,3,opt,name=i64"`
	U64  *uint64  `protobuf:"varint,4,opt,name=u64"`
	S32  *int32   `protobuf:"zigzag32,5,opt,name=s32"`
	S64  *int64   `protobuf:"zigzag64,6,opt,name=s64"`
	F32  *uint32  `protobuf:"fixed32,7,opt,name=f32"`
	F64  *uint64  `protobuf:"fixed64,8,opt,name=f64"`
	SF32 *int32   `protobuf:"fixed32,9,opt,name=sf32"`
	SF64 *int64   `protobuf:"fixed64,10,opt,name=sf64"`
	Fl   *float32 `protobuf:"fixed32,11,opt,name=fl"`
	Db   *float64 `protobuf:"fixed64,12,opt,name=db"`
	B    *bool    `protobuf:"varint,13,opt,name=b"`
	S    *string  `protobuf:"bytes,14,opt,name=s"`
	Bs   []byte   `protobuf:"bytes,15,opt,name=bs"`
	E    *Enum    `protobuf:"varint,16,opt,name=e"`
	M    *Leaf    `protobuf:"bytes,17,opt,name=m"`
	UL   []int32  `protobuf:"varint,18,rep,name=ul"`

	XXX_unrecognized []byte
}

// One has two oneofs with members of every kind; their numbers interleave with plain fields.
type One struct {
	A isOne_A `protobuf_oneof:"a"`
	X int32   `protobuf:"varint,7,opt,name=x"`
	B isOne_B `protobuf_oneof:"b"`
	Y string  `protobuf:"bytes,30,opt,name=y"`

	unknownFields []byte
}
type isOne_A interface{ isOne_A() }
type isOne_B interface{ isOne_B() }
type One_I32 struct {
	V int32 `protobuf:"varint,1,opt,name=i32,oneof"`
}
type One_U32 struct {
	V uint32 `protobuf:"varint,2,opt,name=u32,oneof"`
}
type One_I64 struct {
	V int64 `protobuf:"varint,3,opt,name=i64,oneof"`
}
type One_U64 struct {
	V uint64 `protobuf:"varint,4,opt,name=u64,oneof"`
}
type One_S32 struct {
	V int32 `protobuf:"zigzag32,5,opt,name=s32,oneof"`
}
type One_S64 struct {
	V int64 `protobuf:"zigzag64,6,opt,name=s64,oneof"`
}
type One_F32 struct {
	V uint32 `protobuf:"fixed32,8,opt,name=f32,oneof"`
}
type One_F64 struct {
	V uint64 `protobuf:"fixed64,9,opt,name=f64,oneof"`
}
type One_Fl struct {
	V float32 `protobuf:"fixed32,10,opt,name=fl,oneof"`
}
type One_Db struct {
	V float64 `protobuf:"fixed64,11,opt,name=db,oneof"`
}
type One_Bo struct {
	V bool `protobuf:"varint,12,opt,name=bo,oneof"`
}
type One_S struct {
	V string `protobuf:"bytes,13,opt,name=s,oneof"`
}
type One_Bs struct {
	V []byte `protobuf:"bytes,14,opt,name=bs,oneof"`
}
type One_M struct {
	V *Leaf `protobuf:"bytes,2000,opt,name=m,oneof"`
}
type One_N struct {
	V *Node `protobuf:"bytes,16,opt,name=n,oneof"`
}
type One_E struct {
	V Enum `protobuf:"varint,1001,opt,name=e,oneof"`
}
type One_BI struct {
	V int64 `protobuf:"varint,20,opt,name=bi,oneof"`
}
type One_BS struct {
	V string `protobuf:"bytes,21,opt,name=bs2,oneof"`
}
type One_BM struct {
	V *One `protobuf:"bytes,22,opt,name=bm,oneof"`
}

func (*One_I32) isOne_A() {}
func (*One_U32) isOne_A() {}
func (*One_I64) isOne_A() {}
func (*One_U64) isOne_A() {}
func (*One_S32) isOne_A() {}
func (*One_S64) isOne_A() {}
func (*One_F32) isOne_A() {}
func (*One_F64) isOne_A() {}
func (*One_Fl) isOne_A()  {}
func (*One_Db) isOne_A()  {}
func (*One_Bo) isOne_A()  {}
func (*One_S) isOne_A()   {}
func (*One_Bs) isOne_A()  {}
func (*One_M) isOne_A()   {}
func (*One_N) isOne_A()   {}
func (*One_E) isOne_A()   {}
func (*One_BI) isOne_B()  {}
func (*One_BS) isOne_B()  {}
func (*One_BM) isOne_B()  {}

func (*One) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*One_I32)(nil), (*One_U32)(nil), (*One_I64)(nil), (*One_U64)(nil), (*One_S32)(nil), (*One_S64)(nil),
		(*One_F32)(nil), (*One_F64)(nil), (*One_Fl)(nil), (*One_Db)(nil), (*One_Bo)(nil), (*One_S)(nil), (*One_Bs)(nil),
		(*One_M)(nil), (*One_N)(nil), (*One_E)(nil), (*One_BI)(nil), (*One_BS)(nil), (*One_BM)(nil)}
}

// All has every scalar kind singular, packed and unpacked.
type All struct {
	I32  int32   `protobuf:"varint,1,opt,name=i32"`
	U32  uint32  `protobuf:"varint,2,opt,name=u32"`
	I64  int64   `protobuf:"varint,3,opt,name=i64"`
	U64  uint64  `protobuf:"varint,4,opt,name=u64"`
	S32  int32   `protobuf:"zigzag32,5,opt,name=s32"`
	S64  int64   `protobuf:"zigzag64,6,opt,name=s64"`
	F32  uint32  `protobuf:"fixed32,7,opt,name=f32"`
	F64  uint64  `protobuf:"fixed64,8,opt,name=f64"`
	SF32 int32   `protobuf:"fixed32,9,opt,name=sf32"`
	SF64 int64   `protobuf:"fixed64,10,opt,name=sf64"`
	Fl   float32 `protobuf:"fixed32,11,opt,name=fl"`
	Db   float64 `protobuf:"fixed64,12,opt,name=db"`
	B    bool    `protobuf:"varint,13,opt,name=b"`
	S    string  `protobuf:"bytes,14,opt,name=s"`
	Bs   []byte  `protobuf:"bytes,15,opt,name=bs"`
	E    Enum    `protobuf:"varint,16,opt,name=e"`

	PI32  []int32   `protobuf:"varint,21,rep,packed,name=pi32"`
	PU32  []uint32  `protobuf:"varint,22,rep,packed,name=pu32"`
	PI64  []int64   `protobuf:"varint,23,rep,packed,name=pi64"`
	PU64  []uint64  `protobuf:"varint,24,rep,packed,name=pu64"`
	PS32  []int32   `protobuf:"zigzag32,25,rep,packed,name=ps32"`
	PS64  []int64   `protobuf:"zigzag64,26,rep,packed,name=ps64"`
	PF32  []uint32  `protobuf:"fixed32,27,rep,packed,name=pf32"`
	PF64  []uint64  `protobuf:"fixed64,28,rep,packed,name=pf64"`
	PSF32 []int32   `protobuf:"fixed32,29,rep,packed,name=psf32"`
	PSF64 []int64   `protobuf:"fixed64,30,rep,packed,name=psf64"`
	PFl   []float32 `protobuf:"fixed32,31,rep,packed,name=pfl"`
	PDb   []float64 `protobuf:"fixed64,32,rep,packed,name=pdb"`
	PB    []bool    `protobuf:"varint,33,rep,packed,name=pb"`
	PE    []Enum    `protobuf:"varint,36,rep,packed,name=pe"`

	LI32  []int32   `protobuf:"varint,1021,rep,name=li32"`
	LU32  []uint32  `protobuf:"varint,1022,rep,name=lu32"`
	LI64  []int64   `protobuf:"varint,1023,rep,name=li64"`
	LU64  []uint64  `protobuf:"varint,1024,rep,name=lu64"`
	LS32  []int32   `protobuf:"zigzag32,1025,rep,name=ls32"`
	LS64  []int64   `protobuf:"zigzag64,1026,rep,name=ls64"`
	LF32  []uint32  `protobuf:"fixed32,1027,rep,name=lf32"`
	LF64  []uint64  `protobuf:"fixed64,1028,rep,name=lf64"`
	LSF32 []int32   `protobuf:"fixed32,1029,rep,name=lsf32"`
	LSF64 []int64   `protobuf:"fixed64,1030,rep,name=lsf64"`
	LFl   []float32 `protobuf:"fixed32,1031,rep,name=lfl"`
	LDb   []float64 `protobuf:"fixed64,1032,rep,name=ldb"`
	LB    []bool    `protobuf:"varint,1033,rep,name=lb"`
	LS    []string  `protobuf:"bytes,1034,rep,name=ls"`
	LBs   [][]byte  `protobuf:"bytes,1035,rep,name=lbs"`
	LE    []Enum    `protobuf:"varint,1036,rep,name=le"`
	LM    []*Leaf   `protobuf:"bytes,1037,rep,name=lm"`
	LV    []Small   `protobuf:"bytes,1038,rep,name=lv"`
	LEm   []Empty   `protobuf:"bytes,1039,rep,name=lem"`

	unknownFields []byte
}

// Odd declares its fields out of order, with numbers on both sides of every internal boundary.
type Odd struct {
	Z string           `protobuf:"bytes,536870911,opt,name=z"`
	Y []int64          `protobuf:"varint,1001,rep,packed,name=y"`
	X map[int32]uint32 `protobuf:"bytes,1000,rep,name=x" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	W *Odd             `protobuf:"bytes,16,opt,name=w"`
	V uint32           `protobuf:"varint,15,opt,name=v"`
	U Leaf             `protobuf:"bytes,2048,opt,name=u"`
	T []*Odd           `protobuf:"bytes,2047,rep,name=t"`
	S *string          `protobuf:"bytes,262143,opt,name=s"`
	R bool             `protobuf:"varint,999,opt,name=r"`
	Q *bool            `protobuf:"varint,33554432,opt,name=q"`
	P *[]byte          `protobuf:"bytes,1,opt,name=p"`
	O []Odd2           `protobuf:"bytes,4096,rep,name=o"`
}
type Odd2 struct {
	A *Small `protobuf:"bytes,3,opt,name=a"`
	B int32  `protobuf:"varint,1999,opt,name=b"`

	unknownFields *[]byte
}

// Pr provides its wrappers the way current protoc-gen-go messages do.
type Pr struct {
	O isPr_O `protobuf_oneof:"o"`
	K int32  `protobuf:"varint,3,opt,name=k"`
}
type isPr_O interface{ isPr_O() }
type Pr_A struct {
	V bool `protobuf:"varint,1,opt,name=a,oneof"`
}
type Pr_B struct {
	V *Pr `protobuf:"bytes,2,opt,name=b,oneof"`
}

func (*Pr_A) isPr_O() {}
func (*Pr_B) isPr_O() {}

type prInfo struct {
	Name  string
	Inner prInner
}
type prInner struct {
	N             int
	OneofWrappers []interface{}
}

var prI = prInfo{Inner: prInner{OneofWrappers: []interface{}{(*Pr_A)(nil), (*Pr_B)(nil)}}}

func (*Pr) ProtoReflect() *prInfo { return &prI }

// MapEnum and named map types.
type StrMap map[string]string
type Named struct {
	A StrMap             `protobuf:"bytes,1,rep,name=a" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	B map[Enum]Enum      `protobuf:"bytes,2,rep,name=b" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	C map[string]Empty   `protobuf:"bytes,3,rep,name=c" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	D map[uint32]Empty   `protobuf:"bytes,4,rep,name=d" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	E map[int64]Empty    `protobuf:"bytes,5,rep,name=e" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F map[bool][]byte    `protobuf:"bytes,6,rep,name=f" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G map[string]Leaf    `protobuf:"bytes,7,rep,name=g" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	H map[bool]Leaf      `protobuf:"bytes,8,rep,name=h" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	I map[string]float64 `protobuf:"bytes,9,rep,name=i" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`

	XXX_unrecognized []byte
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(Node{}), reflect.TypeOf(One{}), reflect.TypeOf(All{}), reflect.TypeOf(Proto2{}),
	reflect.TypeOf(Odd{}), reflect.TypeOf(Named{}), reflect.TypeOf(Pr{}), reflect.TypeOf(Uns{}),
	reflect.TypeOf(VNode{}), reflect.TypeOf(Leaf{}), reflect.TypeOf(Small{}), reflect.TypeOf(Empty{}), reflect.TypeOf(Odd2{}),
}
