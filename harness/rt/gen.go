//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"unsafe"
)

type rng struct{ *rand.Rand }

func newRng(seed int64) *rng { return &rng{rand.New(rand.NewSource(seed))} }

func (r *rng) p(num, den int) bool { return r.Intn(den) < num }

func (r *rng) u64() uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return ^uint64(0) - uint64(r.Intn(3))
	case 2, 3, 4:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 5:
		return -(uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1)
	case 6:
		return math.Float64bits([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64}[r.Intn(8)])
	}
	return r.Uint64()
}

func (r *rng) u32() uint32 {
	switch r.Intn(8) {
	case 0:
		return uint32(r.Intn(3))
	case 1:
		return ^uint32(0) - uint32(r.Intn(3))
	case 2, 3, 4:
		return uint32(1)<<uint(r.Intn(32)) + uint32(r.Intn(3)) - 1
	case 5:
		return -(uint32(1)<<uint(r.Intn(32)) + uint32(r.Intn(3)) - 1)
	case 6:
		return math.Float32bits([]float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Copysign(0, -1)), 1, -1.5, math.MaxFloat32}[r.Intn(6)])
	}
	return r.Uint32()
}

// length picks a length near the interesting boundaries.
func (r *rng) length(big bool) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1, 2:
		return 120 + r.Intn(20)
	case 3:
		if big {
			return []int{16380, 16383, 16384, 16390, 1020, 1024, 1025, 4095, 4096, 5000}[r.Intn(10)]
		}
		return 1
	}
	return r.Intn(12)
}

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	if n > 64 {
		x := byte(r.Intn(256))
		for i := range b {
			b[i] = x + byte(i)
		}
		return b
	}
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

// ---- random values ----

type vgen struct {
	*rng
	budget int  // number of further embedded messages
	big    bool // allow long strings
	sparse int  // out of 10: how often a field stays unset
	nilEl  bool // allow nil list elements and map values
}

func (g *vgen) scalar(t reflect.Type, p unsafe.Pointer) {
	switch t.Kind() {
	case reflect.String:
		*(*string)(p) = string(g.bytes(g.length(g.big)))
	case reflect.Slice:
		*(*[]byte)(p) = g.bytes(g.length(g.big))
	case reflect.Bool:
		*(*bool)(p) = g.p(1, 2)
	default:
		if t.Size() == 4 {
			*(*uint32)(p) = g.u32()
		} else {
			*(*uint64)(p) = g.u64()
		}
	}
}

func (g *vgen) listLen() int {
	switch g.Intn(20) {
	case 0:
		return 0
	case 1:
		return 7 + g.Intn(4)
	case 2:
		return 15 + g.Intn(20)
	case 3:
		if g.big {
			return 120 + g.Intn(300)
		}
	}
	return 1 + g.Intn(4)
}

func (g *vgen) msgPtr(t reflect.Type) unsafe.Pointer {
	x := reflect.New(t).UnsafePointer()
	g.msg(schemaOf(t), x)
	return x
}

func (g *vgen) msg(m *msgT, p unsafe.Pointer) {
	g.budget--
	if m.unk != 0 && g.p(1, 3) {
		m.setUnk(p, genUnknown(g.rng, m, 1+g.Intn(3)))
	}
	picked := map[uintptr]int{}
	for _, f := range m.fields {
		if f.oneof {
			picked[f.offset]++
		}
	}
	chosen := map[uintptr]int{}
	for _, f := range m.fields { // in order, for determinism
		if f.oneof {
			if _, ok := chosen[f.offset]; !ok {
				chosen[f.offset] = g.Intn(picked[f.offset] + 1)
			}
		}
	}
	seen := map[uintptr]int{}
	for _, f := range m.fields {
		if f.oneof {
			k := seen[f.offset]
			seen[f.offset]++
			if k != chosen[f.offset] || isMsg(f.base) && g.budget <= 0 {
				continue
			}
			w := reflect.New(f.wrapper)
			if !g.p(1, 4) || f.ptr { // else: zero value
				g.singular(f, w.UnsafePointer())
			}
			at(f.ifaceT, unsafe.Add(p, f.offset)).Set(w)
			continue
		}
		if g.Intn(10) < g.sparse {
			continue
		}
		g.field(f, unsafe.Add(p, f.offset))
	}
}

func (g *vgen) singular(f *fieldT, q unsafe.Pointer) {
	if f.ptr {
		x := reflect.New(f.base)
		if isMsg(f.base) {
			if !g.p(1, 5) {
				g.msg(schemaOf(f.base), x.UnsafePointer())
			}
		} else if !g.p(1, 4) {
			g.scalar(f.base, x.UnsafePointer())
		}
		at(f.t, q).Set(x)
		return
	}
	if isMsg(f.base) {
		g.msg(schemaOf(f.base), q)
		return
	}
	g.scalar(f.base, q)
}

func (g *vgen) field(f *fieldT, q unsafe.Pointer) {
	switch {
	case f.isMap:
		n := g.listLen()
		if isMsg(f.vBase) && n > g.budget {
			n = max(0, min(n, g.budget))
		}
		mv := reflect.MakeMap(f.t)
		for i := 0; i < n; i++ {
			k := reflect.New(f.t.Key()).Elem()
			g.scalar(f.t.Key(), addrOf(k))
			v := reflect.New(f.t.Elem()).Elem()
			switch {
			case f.vPtr:
				if !g.nilEl || !g.p(1, 6) {
					v.Set(reflect.New(f.vBase))
					g.msg(schemaOf(f.vBase), v.UnsafePointer())
				}
			case isMsg(f.vBase):
				g.msg(schemaOf(f.vBase), addrOf(v))
			default:
				g.scalar(f.vBase, addrOf(v))
			}
			mv.SetMapIndex(k, v)
		}
		at(f.t, q).Set(mv)
	case f.rep:
		n := g.listLen()
		if isMsg(f.base) {
			n = max(0, min(n, g.budget))
		}
		lv := reflect.MakeSlice(f.t, n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			e := lv.Index(i)
			switch {
			case f.elemPtr:
				if !g.nilEl || !g.p(1, 6) {
					e.Set(reflect.New(f.base))
					g.msg(schemaOf(f.base), e.UnsafePointer())
				}
			case isMsg(f.base):
				g.msg(schemaOf(f.base), addrOf(e))
			default:
				g.scalar(f.base, addrOf(e))
			}
		}
		at(f.t, q).Set(lv)
	default:
		if isMsg(f.base) && g.budget <= 0 {
			return
		}
		g.singular(f, q)
	}
}

func genValue(r *rng, t reflect.Type) unsafe.Pointer {
	g := &vgen{rng: r, budget: 1 + r.Intn(12), big: r.p(1, 4), sparse: []int{0, 3, 6, 9}[r.Intn(4)], nilEl: true}
	x := reflect.New(t)
	g.msg(schemaOf(t), x.UnsafePointer())
	return x.UnsafePointer()
}

// ---- random wire data ----

// padVarint encodes v with extra bytes now and then.
func (r *rng) padVarint(b []byte, v uint64, pad bool) []byte {
	n := len(b)
	b = putVarint(b, v)
	if pad && r.p(1, 4) {
		k := len(b) - n
		want := k + r.Intn(10-k+1)
		for len(b)-n < want {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
	}
	return b
}

func genRawValue(r *rng, num int64, wt int, depth int) []byte {
	switch wt {
	case 0:
		return r.padVarint(nil, r.u64(), true)
	case 1:
		return r.bytes(8)
	case 5:
		return r.bytes(4)
	case 2:
		x := r.bytes(r.length(false))
		return append(r.padVarint(nil, uint64(len(x)), true), x...)
	}
	var b []byte
	if depth > 0 {
		for i := r.Intn(3); i > 0; i-- {
			n := 1 + int64(r.Intn(40))
			w := []int{0, 1, 2, 3, 5}[r.Intn(5)]
			b = r.padVarint(b, uint64(n)<<3|uint64(w), true)
			b = append(b, genRawValue(r, n, w, depth-1)...)
		}
	}
	return r.padVarint(b, uint64(num)<<3|4, true)
}

func genUnknown(r *rng, m *msgT, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		num := int64(1 + r.Intn(40))
		switch r.Intn(4) {
		case 0:
			num = 1 + r.Int63n(maxNum)
		case 1:
			num = []int64{1000, 1001, 999, 15, 16, 2047, 2048, maxNum, 40000, 262144}[r.Intn(10)]
		}
		if m.byNum[num] != nil {
			continue
		}
		w := []int{0, 1, 2, 3, 5}[r.Intn(5)]
		b = r.padVarint(b, uint64(num)<<3|uint64(w), true)
		b = append(b, genRawValue(r, num, w, 3)...)
	}
	return b
}

type wgen struct {
	*rng
	budget int
	pad    bool
	big    bool
	unk    bool
}

func (g *wgen) len(b []byte, x []byte) []byte {
	b = g.padVarint(b, uint64(len(x)), g.pad)
	return append(b, x...)
}

func (g *wgen) scalar(b []byte, enc string, t reflect.Type) []byte {
	switch wtOf(enc) {
	case 0:
		v := g.u64()
		if g.p(1, 3) {
			v = uint64(g.u32())
		}
		if enc == "varint" && t.Kind() == reflect.Bool && g.p(3, 4) {
			v = uint64(g.Intn(2))
		}
		return g.padVarint(b, v, g.pad)
	case 1:
		return putLE(b, g.u64(), 8)
	case 5:
		return putLE(b, uint64(g.u32()), 4)
	}
	return g.len(b, g.bytes(g.length(g.big)))
}

func (g *wgen) tag(b []byte, num int64, wt int) []byte {
	return g.padVarint(b, uint64(num)<<3|uint64(wt), g.pad)
}

// msg generates a well-formed encoding of a message of type m. If pre is not nil, the records
// are meant for that message, and records merging into one of its embedded messages are left out.
func (g *wgen) msg(m *msgT, pre unsafe.Pointer) []byte {
	g.budget--
	var b []byte
	n := g.Intn(10)
	if g.p(1, 10) {
		n = 30
	}
	used := map[*fieldT]bool{}
	var last *fieldT
	for i := 0; i < n; i++ {
		if len(m.fields) == 0 || g.unk && g.p(1, 5) {
			b = append(b, genUnknown(g.rng, m, 1)...)
			continue
		}
		f := m.fields[g.Intn(len(m.fields))]
		if last != nil && g.p(1, 2) {
			f = last
		}
		last = f
		if !f.isMap && !f.rep && isMsg(f.base) {
			// merging of repeated records of an embedded message is outside this generator
			if g.budget <= 0 || used[f] {
				continue
			}
			if pre != nil {
				q := unsafe.Add(pre, f.offset)
				if f.oneof {
					if _, ok := f.selected(pre); ok {
						continue
					}
				} else if !f.ptr || *(*unsafe.Pointer)(q) != nil {
					continue
				}
			}
			used[f] = true
			b = g.tag(b, f.num, 2)
			b = g.len(b, g.msg(schemaOf(f.base), nil))
			continue
		}
		switch {
		case f.isMap:
			if isMsg(f.vBase) && g.budget <= 0 {
				continue
			}
			b = g.tag(b, f.num, 2)
			b = g.len(b, g.entry(f))
		case f.rep && f.enc != "bytes" && g.p(1, 2):
			var x []byte
			k := g.Intn(6)
			if g.p(1, 8) {
				k = 40 + g.Intn(100)
			}
			for j := 0; j < k; j++ {
				x = g.scalar(x, f.enc, f.base)
			}
			b = g.tag(b, f.num, 2)
			b = g.len(b, x)
		case isMsg(f.base):
			if g.budget <= 0 {
				continue
			}
			b = g.tag(b, f.num, 2)
			b = g.len(b, g.msg(schemaOf(f.base), nil))
		default:
			b = g.tag(b, f.num, wtOf(f.enc))
			b = g.scalar(b, f.enc, f.base)
		}
	}
	return b
}

func (g *wgen) entry(f *fieldT) []byte {
	key := func(b []byte) []byte {
		b = g.tag(b, 1, wtOf(f.kEnc))
		if g.p(1, 2) { // few keys, to get duplicates
			switch wtOf(f.kEnc) {
			case 0:
				return g.padVarint(b, uint64(g.Intn(3)), g.pad)
			case 1:
				return putLE(b, uint64(g.Intn(3)), 8)
			case 5:
				return putLE(b, uint64(g.Intn(3)), 4)
			}
			return g.len(b, g.bytes(g.Intn(2)))
		}
		return g.scalar(b, f.kEnc, f.t.Key())
	}
	val := func(b []byte) []byte {
		b = g.tag(b, 2, wtOf(f.vEnc))
		if isMsg(f.vBase) {
			return g.len(b, g.msg(schemaOf(f.vBase), nil))
		}
		return g.scalar(b, f.vEnc, f.vBase)
	}
	unk := func(b []byte) []byte {
		num := int64(3 + g.Intn(30))
		w := []int{0, 1, 2, 3, 5}[g.Intn(5)]
		b = g.tag(b, num, w)
		return append(b, genRawValue(g.rng, num, w, 2)...)
	}
	if g.p(2, 3) {
		return val(key(nil))
	}
	var b []byte
	nv := 0
	for i := g.Intn(4); i > 0; i-- {
		switch g.Intn(5) {
		case 0, 1:
			b = key(b)
		case 2, 3:
			if isMsg(f.vBase) && nv > 0 { // no merging
				continue
			}
			nv++
			b = val(b)
		default:
			b = unk(b)
		}
	}
	return b
}

func genWire(r *rng, t reflect.Type, pre unsafe.Pointer) []byte {
	g := &wgen{rng: r, budget: 1 + r.Intn(12), pad: r.p(1, 2), big: r.p(1, 6), unk: r.p(2, 3)}
	return g.msg(schemaOf(t), pre)
}

// ---- random types ----

var scalarKinds = []struct {
	enc string
	t   reflect.Type
}{
	{"varint", reflect.TypeOf(int32(0))}, {"varint", reflect.TypeOf(uint32(0))}, {"varint", reflect.TypeOf(int64(0))}, {"varint", reflect.TypeOf(uint64(0))},
	{"varint", reflect.TypeOf(false)}, {"varint", reflect.TypeOf(Enum(0))},
	{"zigzag32", reflect.TypeOf(int32(0))}, {"zigzag64", reflect.TypeOf(int64(0))},
	{"fixed32", reflect.TypeOf(uint32(0))}, {"fixed32", reflect.TypeOf(int32(0))}, {"fixed32", reflect.TypeOf(float32(0))},
	{"fixed64", reflect.TypeOf(uint64(0))}, {"fixed64", reflect.TypeOf(int64(0))}, {"fixed64", reflect.TypeOf(float64(0))},
	{"bytes", reflect.TypeOf("")}, {"bytes", bytesT},
}

var keyKinds = func() (r []int) {
	for i, k := range scalarKinds {
		if k.t.Kind() != reflect.Float32 && k.t.Kind() != reflect.Float64 && k.t != bytesT {
			r = append(r, i)
		}
	}
	return
}()

// genType builds a struct type from the seed; the same seed gives the same (identical) type.
func genType(r *rng, depth int) reflect.Type {
	n := 1 + r.Intn(9)
	nums := map[int64]bool{}
	var fs []reflect.StructField
	sub := func() reflect.Type {
		if depth > 0 && r.p(1, 2) {
			return genType(r, depth-1)
		}
		return staticTypes[r.Intn(len(staticTypes))]
	}
	unkAt := -1
	if r.p(1, 2) {
		unkAt = r.Intn(n + 1)
	}
	addUnk := func() {
		f := reflect.StructField{Name: "XXX_unrecognized", Type: bytesT}
		if r.p(1, 4) {
			f.Type = reflect.PointerTo(bytesT)
		}
		if r.p(1, 2) {
			f.Name, f.PkgPath = "unknownFields", "main"
		}
		fs = append(fs, f)
	}
	for i := 0; i < n; i++ {
		if i == unkAt {
			addUnk()
		}
		if r.p(1, 6) { // an untagged field, to move offsets
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Pad%d", i), Type: []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf([3]byte{})}[r.Intn(3)]})
		}
		var num int64
		for {
			switch r.Intn(4) {
			case 0:
				num = []int64{15, 16, 999, 1000, 1001, 2047, 2048, 262143, 262144, 33554431, 33554432, maxNum, maxNum - 1}[r.Intn(13)]
			case 1:
				num = 1 + r.Int63n(maxNum)
			default:
				num = 1 + r.Int63n(30)
			}
			if !nums[num] {
				break
			}
		}
		nums[num] = true
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		k := scalarKinds[r.Intn(len(scalarKinds))]
		tag := func(enc, rest string) {
			f.Tag = reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,%s"`, enc, num, rest))
		}
		switch r.Intn(10) {
		case 0, 1:
			f.Type = k.t
			tag(k.enc, "opt,name=x,proto3")
		case 2:
			f.Type = reflect.PointerTo(k.t)
			tag(k.enc, "opt,name=x")
		case 3:
			f.Type = reflect.SliceOf(k.t)
			tag(k.enc, "rep,name=x")
		case 4:
			f.Type = reflect.SliceOf(k.t)
			if k.enc == "bytes" {
				tag(k.enc, "rep,name=x")
			} else {
				tag(k.enc, "rep,packed,name=x")
			}
		case 5, 6:
			kk := scalarKinds[keyKinds[r.Intn(len(keyKinds))]]
			vt, venc := k.t, k.enc
			if r.p(1, 3) {
				vt, venc = sub(), "bytes"
				if r.p(2, 3) {
					vt = reflect.PointerTo(vt)
				}
			}
			f.Type = reflect.MapOf(kk.t, vt)
			f.Tag = reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,rep,name=x" protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, num, kk.enc, venc))
		case 7:
			f.Type = reflect.PointerTo(sub())
			tag("bytes", "opt,name=x")
		case 8:
			f.Type = sub()
			if r.p(1, 2) {
				f.Type = reflect.PointerTo(f.Type)
			}
			f.Type = reflect.SliceOf(f.Type)
			tag("bytes", "rep,name=x")
		case 9:
			f.Type = sub()
			tag("bytes", "opt,name=x")
		}
		fs = append(fs, f)
	}
	if n == unkAt {
		addUnk()
	}
	return reflect.StructOf(fs)
}

var (
	typeMu   sync.Mutex
	typePool = map[int64]reflect.Type{}
)

// pickType returns a static type or one of a bounded number of random types.
func pickType(r *rng, seed int64) reflect.Type {
	if r.p(1, 2) {
		return staticTypes[r.Intn(len(staticTypes))]
	}
	id := seed*1000 + int64(r.Intn(300))
	typeMu.Lock()
	defer typeMu.Unlock()
	if t := typePool[id]; t != nil {
		return t
	}
	t := genType(newRng(id*7919+13), 2)
	typePool[id] = t
	return t
}
