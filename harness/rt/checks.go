//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
)

type ctx struct {
	seed       int64
	idx        int64
	nontrivial bool
	sample     string
	input      []byte // the input to report
	typ        reflect.Type
}

func (c *ctx) note(t reflect.Type, b []byte, nontrivial bool) {
	c.typ, c.input, c.nontrivial = t, b, nontrivial
	c.sample = fmt.Sprintf("%s: %s", short(describe(t), 300), hx(b))
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func iface(t reflect.Type, p unsafe.Pointer) interface{} { return reflect.NewAt(t, p).Interface() }

type checkFn func(r *rng, c *ctx) error

var checks = map[string]checkFn{
	"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06,
	"P07": p07, "P08": p08, "P09": p09, "P10": p10, "P11": p11,
}

// safely runs f and turns a panic into an error.
func safely(what string, f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%s panicked: %v\n%s", what, x, short(string(debug.Stack()), 1500))
		}
	}()
	return f()
}

func marshal(t reflect.Type, p unsafe.Pointer, b []byte) (ret []byte, err error, bad error) {
	bad = safely("Marshal", func() error {
		ret, err = prutal.MarshalAppend(b, iface(t, p))
		return nil
	})
	return
}

func size(t reflect.Type, p unsafe.Pointer) (n int, err error, bad error) {
	bad = safely("Size", func() error {
		n, err = prutal.Size(iface(t, p))
		return nil
	})
	return
}

func unmarshal(t reflect.Type, p unsafe.Pointer, b []byte) (err error, bad error) {
	bad = safely("Unmarshal", func() error {
		err = prutal.Unmarshal(b, iface(t, p))
		return nil
	})
	return
}

// bigValue makes a value whose nested length prefixes need 3 or 4 bytes.
func bigValue(r *rng) (reflect.Type, unsafe.Pointer) {
	n := []int{1<<21 - 3, 1<<21 - 20, 1 << 21, 1<<21 + 9, 16383, 16384, 16380}[r.Intn(7)]
	s := string(make([]byte, n))
	leaf := &Leaf{S: s}
	in := &Node{V: 1, VList: []Leaf{*leaf}}
	switch r.Intn(5) {
	case 0:
		in = &Node{Next: in}
	case 1:
		in = &Node{List: []*Node{in, {V: 2}}}
	case 2:
		in = &Node{MS: map[string]*Node{"k": in}}
	case 3:
		in = &Node{O: &Node_Sub{Sub: in}, V: 7}
	case 4:
		in = &Node{M64: map[int64]*Node{-5: in}}
	}
	if r.p(1, 3) {
		a := &All{PU64: make([]uint64, n/8+3), PB: make([]bool, n), LBs: [][]byte{[]byte(s)}}
		for i := range a.PU64 {
			a.PU64[i] = 1 << 50
		}
		return reflect.TypeOf(*a), unsafe.Pointer(a)
	}
	return reflect.TypeOf(*in), unsafe.Pointer(in)
}

func value(r *rng, c *ctx) (reflect.Type, unsafe.Pointer) {
	if c.idx%97 == 5 {
		return bigValue(r)
	}
	t := pickType(r, c.seed)
	return t, genValue(r, t)
}

func p01(r *rng, c *ctx) error {
	t, v := value(r, c)
	b, err, bad := marshal(t, v, nil)
	c.note(t, b, len(b) > 2)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("Marshal of a supported message failed: %v", err)
	}
	return match(schemaOf(t), v, b)
}

func p02(r *rng, c *ctx) error {
	if r.p(1, 40) {
		n := depthLimit() + r.Intn(5) - 2
		d := buildDeep(r, n, -1)
		t := reflect.TypeOf(*d)
		_, e1, bad := marshal(t, unsafe.Pointer(d), nil)
		if bad != nil {
			return bad
		}
		_, e2, bad := size(t, unsafe.Pointer(d))
		if bad != nil {
			return bad
		}
		c.note(t, nil, true)
		c.sample = fmt.Sprintf("chain of %d nested messages", n)
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("%d nested messages: Marshal error %v, Size error %v", n, e1, e2)
		}
		return nil
	}
	t, v := value(r, c)
	b, e1, bad := marshal(t, v, nil)
	c.note(t, b, len(b) > 2)
	if bad != nil {
		return bad
	}
	n, e2, bad := size(t, v)
	if bad != nil {
		return bad
	}
	if (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("Marshal error %v, Size error %v", e1, e2)
	}
	if e1 == nil && n != len(b) {
		return fmt.Errorf("Size is %d, Marshal produced %d bytes", n, len(b))
	}
	return nil
}

func p03(r *rng, c *ctx) error {
	t, v := value(r, c)
	m := schemaOf(t)
	before := cloneMsg(m, v)
	raw := append([]byte{}, unsafe.Slice((*byte)(v), t.Size())...)
	ref, err, bad := marshal(t, v, nil)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("Marshal failed: %v", err)
	}
	c.note(t, ref, len(ref) > 2)
	pre := r.bytes(r.Intn(40))
	spare := 0
	switch r.Intn(5) {
	case 0:
	case 1:
		spare = r.Intn(8)
	case 2:
		spare = len(ref) + r.Intn(10)
	case 3:
		if len(ref) > 0 {
			spare = r.Intn(len(ref))
		}
	case 4:
		spare = 3*len(ref) + 100
	}
	full := make([]byte, len(pre)+spare+16)
	for i := range full {
		full[i] = 0xa5 ^ byte(i)
	}
	guard := append([]byte{}, full[len(pre)+spare:]...)
	buf := full[: len(pre) : len(pre)+spare]
	copy(buf, pre)
	keep := buf
	got, err, bad := marshal(t, v, buf)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("Marshal into a buffer of len %d cap %d failed: %v", len(pre), len(pre)+spare, err)
	}
	if !bytes.Equal(keep, pre) {
		return fmt.Errorf("existing bytes of the caller's buffer changed from %s to %s", hx(pre), hx(keep))
	}
	if !bytes.Equal(full[len(pre)+spare:], guard) {
		return fmt.Errorf("bytes behind the capacity of the caller's buffer changed")
	}
	if len(got) < len(pre) || !bytes.Equal(got[:len(pre)], pre) {
		return fmt.Errorf("result does not start with the existing bytes %s: %s", hx(pre), hx(got))
	}
	if err := match(m, v, got[len(pre):]); err != nil {
		return fmt.Errorf("appended to a buffer with len %d cap %d: %w", len(pre), len(pre)+spare, err)
	}
	if len(got)-len(pre) != len(ref) {
		return fmt.Errorf("appended %d bytes, into an empty buffer %d", len(got)-len(pre), len(ref))
	}
	if _, _, bad = size(t, v); bad != nil {
		return bad
	}
	if err := equal(m, before, v, ""); err != nil {
		return fmt.Errorf("message changed: %w", err)
	}
	if !bytes.Equal(raw, unsafe.Slice((*byte)(v), t.Size())) {
		return fmt.Errorf("memory of the message changed")
	}
	// a later call must not change an earlier result
	again := append([]byte{}, got...)
	t2, v2 := value(r, c)
	if _, _, bad = marshal(t2, v2, nil); bad != nil {
		return bad
	}
	if !bytes.Equal(again, got) {
		return fmt.Errorf("a later Marshal changed an earlier result")
	}
	c.note(t, ref, len(ref) > 2)
	return nil
}

func p04(r *rng, c *ctx) error {
	t, v := value(r, c)
	m := schemaOf(t)
	var b []byte
	var err, bad error
	codec := r.p(1, 8)
	if codec {
		bad = safely("PrutalCodec.Marshal", func() error { b, err = grpccodec.PrutalCodec{}.Marshal(iface(t, v)); return nil })
	} else {
		b, err, bad = marshal(t, v, nil)
	}
	c.note(t, b, len(b) > 2)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("Marshal failed: %v", err)
	}
	x := reflect.New(t).UnsafePointer()
	if codec {
		bad = safely("PrutalCodec.Unmarshal", func() error { err = grpccodec.PrutalCodec{}.Unmarshal(b, iface(t, x)); return nil })
	} else {
		err, bad = unmarshal(t, x, b)
	}
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("Unmarshal of marshaled bytes failed: %v", err)
	}
	return equal(m, v, x, describe(t))
}

func p05(r *rng, c *ctx) error {
	t := pickType(r, c.seed)
	m := schemaOf(t)
	pre := reflect.New(t).UnsafePointer()
	if r.p(1, 3) {
		pre = genValue(r, t)
		fixNil(m, pre)
	}
	b := genWire(r, t, pre)
	if r.p(1, 5) {
		// a mutation may still be well-formed
		x := mutate(r, b)
		if decode(m, reflect.New(t).UnsafePointer(), x, 900) == nil {
			c.note(t, x, true)
			err, bad := unmarshal(t, reflect.New(t).UnsafePointer(), x)
			if bad != nil {
				return bad
			}
			if err != nil {
				return fmt.Errorf("well-formed input %s rejected: %v", hx(x), err)
			}
			return nil
		}
	}
	c.note(t, b, len(b) > 2)
	want := cloneMsg(m, pre)
	if err := decode(m, want, b, 900); err != nil {
		return fmt.Errorf("harness: generated input is malformed: %v", err)
	}
	err, bad := unmarshal(t, pre, b)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("well-formed input %s rejected: %v", hx(b), err)
	}
	if err := equal(m, want, pre, describe(t)); err != nil {
		return fmt.Errorf("decoding %s (want != got): %w", hx(b), err)
	}
	return nil
}

// fixNil resets what a decoder may see as set or unset at will (typed nil wrappers).
func fixNil(m *msgT, p unsafe.Pointer) {}

func p06(r *rng, c *ctx) error {
	t := pickType(r, c.seed)
	for i := 0; i < 4 && schemaOf(t).unk == 0; i++ {
		t = pickType(r, c.seed)
	}
	m := schemaOf(t)
	g := &wgen{rng: r, budget: 1 + r.Intn(5), pad: r.p(1, 2), unk: true}
	pre := reflect.New(t).UnsafePointer()
	if m.unk != 0 && r.p(1, 3) {
		m.setUnk(pre, genUnknown(r, m, 3))
	}
	var b []byte
	var recs []rec
	for i := 2 + r.Intn(6); i > 0; i-- {
		if r.p(1, 2) {
			b = append(b, genUnknown(r, m, 1+r.Intn(2))...)
		} else if i == 1 {
			b = append(b, g.msg(m, pre)...)
		}
	}
	_ = recs
	c.note(t, b, len(b) > 2)
	want := cloneMsg(m, pre)
	if err := decode(m, want, b, 900); err != nil {
		return fmt.Errorf("harness: generated input is malformed: %v", err)
	}
	in := append([]byte{}, b...)
	err, bad := unmarshal(t, pre, in)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("input with unknown fields %s rejected: %v", hx(b), err)
	}
	if x, y := m.unkStore(want), m.unkStore(pre); !bytes.Equal(x, y) {
		return fmt.Errorf("input %s: kept %s of the unknown fields, want %s", hx(b), hx(y), hx(x))
	}
	if err := equal(m, want, pre, describe(t)); err != nil {
		return fmt.Errorf("input %s (want != got): %w", hx(b), err)
	}
	for i := range in {
		in[i] = 0xff
	}
	out, err, bad := marshal(t, pre, nil)
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if err := match(m, pre, out); err != nil {
		return fmt.Errorf("after decoding %s: %w", hx(b), err)
	}
	return nil
}

func mutate(r *rng, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 1, 2:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
		case 3:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 4:
			i := r.Intn(len(b) + 1)
			x := putVarint(nil, r.u64())
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 5:
			if len(b) > 1 {
				i := r.Intn(len(b))
				j := i + r.Intn(min(len(b)-i, 6))
				b = append(b[:i:i], b[j:]...)
			}
		case 6:
			i := r.Intn(len(b) + 1)
			x := bytes.Repeat([]byte{0x80 | byte(r.Intn(128))}, r.Intn(12))
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 7:
			b = append(b, r.bytes(1+r.Intn(6))...)
		}
	}
	return b
}

var guardOnce sync.Once
var guardMem []byte

// guarded places b at the end of readable memory.
func guarded(b []byte) []byte {
	guardOnce.Do(func() {
		const sz = 1 << 20
		mem, err := syscall.Mmap(-1, 0, sz+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err == nil {
			syscall.Mprotect(mem[sz:], syscall.PROT_NONE)
			guardMem = mem[:sz:sz]
		}
	})
	if guardMem == nil || len(b) > len(guardMem) {
		return b
	}
	g := guardMem[len(guardMem)-len(b) : len(guardMem) : len(guardMem)]
	copy(g, b)
	return g
}

func p07(r *rng, c *ctx) error {
	debug.SetPanicOnFault(true)
	t := pickType(r, c.seed)
	m := schemaOf(t)
	var b []byte
	switch r.Intn(10) {
	case 0:
		b = r.bytes(r.Intn(30))
	case 1:
		b = hostile(r, m)
	default:
		b = mutate(r, genWire(r, t, nil))
	}
	c.note(t, b, len(b) > 0)
	ref := decode(m, reflect.New(t).UnsafePointer(), b, 900)
	g := guarded(b)
	if len(b) == 0 {
		g = nil
	}
	err, bad := unmarshal(t, reflect.New(t).UnsafePointer(), g)
	if bad != nil {
		return fmt.Errorf("input %s: %w", hx(b), bad)
	}
	if err == nil && ref != nil && ref != errDepth {
		return fmt.Errorf("malformed input %s accepted, reference: %v", hx(b), ref)
	}
	return nil
}

// hostile makes inputs around one defect in an otherwise fine record of a declared field.
func hostile(r *rng, m *msgT) []byte {
	num := int64(1 + r.Intn(20))
	wt := r.Intn(8)
	if len(m.fields) > 0 && r.p(4, 5) {
		f := m.fields[r.Intn(len(m.fields))]
		num = f.num
		wt = wtOf(f.enc)
		if f.rep && f.enc != "bytes" && r.p(1, 2) {
			wt = 2
		}
	}
	switch r.Intn(8) {
	case 0: // wrong wire type
		wt = r.Intn(8)
		x := putTag(nil, num, wt)
		return append(x, r.bytes(12)...)
	case 1: // varint overflow
		x := putTag(nil, num, 0)
		x = append(x, bytes.Repeat([]byte{0xff}, 9)...)
		return append(x, byte(r.Intn(4)))
	case 2: // huge length
		x := putTag(nil, num, 2)
		x = putVarint(x, r.u64())
		return append(x, r.bytes(r.Intn(10))...)
	case 3: // field number out of range
		v := uint64(maxNum+1) << 3
		if r.p(1, 2) {
			v = r.u64() &^ 7
		}
		if r.p(1, 3) { // aliases of a declared number
			v = (uint64(num) + uint64(1)<<uint(29+r.Intn(32))) << 3
		}
		x := putVarint(nil, v|uint64(wt&7))
		return append(x, genRawValue(r, num, []int{0, 1, 2, 5}[r.Intn(4)], 1)...)
	case 4: // groups
		x := putTag(nil, num+100000, 3)
		x = append(x, genUnknown(r, &msgT{}, 1)...)
		if r.p(1, 2) {
			x = putTag(x, num+100000+int64(r.Intn(2)), 4)
		}
		if r.p(1, 3) {
			x = append(putTag(nil, num, 4), x...)
		}
		return x
	case 5: // truncated fixed
		x := putTag(nil, num, []int{1, 5}[r.Intn(2)])
		return append(x, r.bytes(r.Intn(9))...)
	case 6: // field number zero, reserved wire types
		x := putVarint(nil, uint64(r.Intn(8)))
		if r.p(1, 2) {
			x = putTag(nil, num, 6+r.Intn(2))
		}
		return append(x, r.bytes(9)...)
	}
	// record inside a length-delimited record, cut short
	x := genRawValue(r, num, 0, 0)
	y := putTag(nil, num, 2)
	y = putVarint(y, uint64(len(x)))
	return append(y, x[:r.Intn(len(x))]...)
}

// ---- P08 ----

// Deep nests through every kind of embedding. It has no message held by value in a singular field.
type Deep struct {
	V    int32            `protobuf:"varint,1,opt,name=v"`
	Next *Deep            `protobuf:"bytes,2,opt,name=next"`
	List []*Deep          `protobuf:"bytes,3,rep,name=list"`
	VL   []Deep           `protobuf:"bytes,4,rep,name=vl"`
	MS   map[string]*Deep `protobuf:"bytes,5,rep,name=ms" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M32  map[uint32]*Deep `protobuf:"bytes,6,rep,name=m32" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M64  map[int64]*Deep  `protobuf:"bytes,7,rep,name=m64" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MB   map[bool]*Deep   `protobuf:"bytes,8,rep,name=mb" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MV   map[uint64]DeepV `protobuf:"bytes,9,rep,name=mv" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSV  map[string]DeepV `protobuf:"bytes,10,rep,name=msv" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O    isDeep_O         `protobuf_oneof:"o"`
	Back *Deep            `protobuf:"bytes,12,opt,name=back"`
}
type DeepV struct {
	D *Deep `protobuf:"bytes,1,opt,name=d"`
}
type isDeep_O interface{ isDeep_O() }
type Deep_Sub struct {
	Sub *Deep `protobuf:"bytes,11,opt,name=sub,oneof"`
}

func (*Deep_Sub) isDeep_O()                    {}
func (*Deep) XXX_OneofWrappers() []interface{} { return []interface{}{(*Deep_Sub)(nil)} }

const nEdges = 10

// edge returns a message holding d and how many levels were added.
func edge(kind int, d *Deep, r *rng) (*Deep, int) {
	x := &Deep{}
	if r.p(1, 10) {
		x.V = int32(r.Intn(300))
	}
	switch kind {
	case 0:
		x.Next = d
	case 1:
		x.List = []*Deep{d}
		if r.p(1, 4) {
			x.List = []*Deep{{V: 1}, d}
		}
	case 2:
		x.VL = []Deep{*d}
	case 3:
		x.MS = map[string]*Deep{"a": d}
	case 4:
		x.M32 = map[uint32]*Deep{7: d}
	case 5:
		x.M64 = map[int64]*Deep{-7: d}
	case 6:
		x.MB = map[bool]*Deep{true: d}
	case 7:
		x.MV = map[uint64]DeepV{3: {D: d}}
		return x, 2
	case 8:
		x.MSV = map[string]DeepV{"b": {D: d}}
		return x, 2
	case 9:
		x.O = &Deep_Sub{Sub: d}
	}
	return x, 1
}

// buildDeep builds a chain of exactly n levels.
func buildDeep(r *rng, n int, kind int) *Deep {
	d := &Deep{}
	for have := 1; have < n; {
		k := kind
		if k < 0 {
			k = r.Intn(nEdges)
		}
		if have+2 > n && (k == 7 || k == 8) {
			k = 0
		}
		var add int
		d, add = edge(k, d, r)
		have += add
	}
	return d
}

var (
	limOnce sync.Once
	lim     int
)

// depthLimit finds the nesting limit of Marshal on plain fields.
func depthLimit() int {
	limOnce.Do(func() {
		lo, hi := 1, 200000
		r := newRng(1)
		for lo+1 < hi {
			mid := (lo + hi) / 2
			if _, err := prutal.Marshal(buildDeep(r, mid, 0)); err == nil {
				lo = mid
			} else {
				hi = mid
			}
		}
		lim = lo
	})
	return lim
}

func p08(r *rng, c *ctx) error {
	t := reflect.TypeOf(Deep{})
	m := schemaOf(t)
	switch c.idx % 6 {
	case 4: // cyclic values
		d := &Deep{}
		k := r.Intn(nEdges)
		for i := r.Intn(3); i >= 0; i-- {
			kk := r.Intn(nEdges)
			if kk == 2 {
				kk = 0
			}
			d, _ = edge(kk, d, r)
		}
		if k == 2 {
			k = 0
		}
		y, _ := edge(k, d, r)
		e := deepest(d)
		e.Back = y
		c.note(t, nil, true)
		c.sample = fmt.Sprintf("cyclic value through edge %d", k)
		if _, err, bad := marshal(t, unsafe.Pointer(y), nil); bad != nil || err == nil {
			return fmt.Errorf("Marshal of a cyclic value: error %v, %v", err, bad)
		}
		if _, err, bad := size(t, unsafe.Pointer(y)); bad != nil || err == nil {
			return fmt.Errorf("Size of a cyclic value: error %v, %v", err, bad)
		}
		return nil
	case 5: // hostile bytes
		if r.p(1, 2) {
			n := 200000 + r.Intn(1000000)
			b := bytes.Repeat(putTag(nil, 1000, 3), n)
			c.note(t, b[:20], true)
			err, bad := unmarshal(t, reflect.New(t).UnsafePointer(), b)
			if bad != nil || err == nil {
				return fmt.Errorf("%d nested groups: error %v, %v", n, err, bad)
			}
			return nil
		}
		n := depthLimit() + 1 + r.Intn(2000)
		b := deepBytes(r, n, c.idx%2 == 0)
		c.note(t, b[:min(len(b), 60)], true)
		err, bad := unmarshal(t, reflect.New(t).UnsafePointer(), b)
		if bad != nil {
			return bad
		}
		if err == nil {
			return fmt.Errorf("%d nested messages (limit %d) decoded without an error", n, depthLimit())
		}
		return nil
	}
	l := depthLimit()
	if l > 100000 {
		return fmt.Errorf("%d nested messages are marshaled without an error", l)
	}
	n := l + r.Intn(5) - 2
	if r.p(1, 3) {
		n = 1 + r.Intn(l)
	}
	kind := -1
	if r.p(1, 2) {
		kind = r.Intn(nEdges)
	}
	d := buildDeep(r, n, kind)
	c.note(t, nil, true)
	c.sample = fmt.Sprintf("%d nested messages, edge kind %d, limit %d", n, kind, l)
	b, e1, bad := marshal(t, unsafe.Pointer(d), nil)
	if bad != nil {
		return bad
	}
	_, e2, bad := size(t, unsafe.Pointer(d))
	if bad != nil {
		return bad
	}
	ref, err := encode(nil, m, unsafe.Pointer(d), 1000000)
	if err != nil {
		return err
	}
	out := reflect.New(t).UnsafePointer()
	e3, bad := unmarshal(t, out, ref)
	if bad != nil {
		return bad
	}
	want := n > l
	if (e1 != nil) != want || (e2 != nil) != want || (e3 != nil) != want {
		return fmt.Errorf("%d nested messages (edge kind %d) with the limit at %d: Marshal error %v, Size error %v, Unmarshal error %v", n, kind, l, e1, e2, e3)
	}
	if e1 == nil {
		if e, bad := unmarshal(t, reflect.New(t).UnsafePointer(), b); bad != nil || e != nil {
			return fmt.Errorf("%d nested messages were marshaled but not unmarshaled: %v %v", n, e, bad)
		}
	}
	return nil
}

func deepest(d *Deep) *Deep {
	for {
		var n *Deep
		switch {
		case d.Next != nil:
			n = d.Next
		case len(d.List) > 0:
			n = d.List[len(d.List)-1]
		case len(d.VL) > 0:
			n = &d.VL[0]
		case d.MS != nil:
			n = d.MS["a"]
		case d.M32 != nil:
			n = d.M32[7]
		case d.M64 != nil:
			n = d.M64[-7]
		case d.MB != nil:
			n = d.MB[true]
		case d.MV != nil:
			n = d.MV[3].D
		case d.MSV != nil:
			n = d.MSV["b"].D
		case d.O != nil:
			n = d.O.(*Deep_Sub).Sub
		}
		if n == nil {
			return d
		}
		d = n
	}
}

// deepBytes encodes n nested messages directly.
func deepBytes(r *rng, n int, mixed bool) []byte {
	var b []byte
	for i := 1; i < n; i++ {
		num := int64(2)
		var pre []byte
		if mixed {
			switch r.Intn(6) {
			case 0:
				num = 3
			case 1:
				num = 4
			case 2:
				num = 11
			case 3:
				num, pre = 5, []byte{0x0a, 1, 'k'}
			case 4:
				num, pre = 8, []byte{0x08, 1}
			case 5:
				num, pre = 6, []byte{0x08, 5}
			}
		}
		if pre != nil {
			x := append(pre, 0x12)
			x = putVarint(x, uint64(len(b)))
			b = append(x, b...)
		}
		x := putTag(nil, num, 2)
		x = putVarint(x, uint64(len(b)))
		b = append(x, b...)
	}
	return b
}

// ---- P09 ----

type region struct {
	lo, hi uintptr
	what   string
}

type regions struct {
	rs  []region
	err error
}

func (g *regions) add(p unsafe.Pointer, n uintptr, align int, what string) {
	if n == 0 || p == nil {
		return
	}
	if align > 1 && uintptr(p)%uintptr(align) != 0 && g.err == nil {
		g.err = fmt.Errorf("%s at %p is not aligned to %d", what, p, align)
	}
	g.rs = append(g.rs, region{uintptr(p), uintptr(p) + n, what})
}

func (g *regions) val(t reflect.Type, p unsafe.Pointer, path string) {
	if isMsg(t) {
		g.msg(schemaOf(t), p, path)
		return
	}
	switch t.Kind() {
	case reflect.String:
		s := *(*string)(p)
		g.add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), 1, path)
	case reflect.Slice:
		s := *(*[]byte)(p)
		if cap(s) > 0 {
			g.add(unsafe.Pointer(unsafe.SliceData(s)), uintptr(cap(s)), 1, path)
		}
	}
}

func (g *regions) msg(m *msgT, p unsafe.Pointer, path string) {
	if p == nil {
		return
	}
	if u := m.unkStore(p); cap(u) > 0 {
		g.add(unsafe.Pointer(unsafe.SliceData(u)), uintptr(cap(u)), 1, path+".unknownFields")
	}
	if m.unk == 2 {
		if x := *(**[]byte)(unsafe.Add(p, m.unkOff)); x != nil {
			g.add(unsafe.Pointer(x), 24, 8, path+".*unknownFields")
		}
	}
	for _, f := range m.fields {
		q := unsafe.Add(p, f.offset)
		fp := path + "." + f.name
		if f.oneof {
			var ok bool
			if q, ok = f.selected(p); !ok {
				continue
			}
			g.add(q, f.wrapper.Size(), f.wrapper.Align(), fp+"(wrapper)")
		}
		switch {
		case f.isMap:
			it := at(f.t, q).MapRange()
			i := 0
			for it.Next() {
				k := reflect.New(f.t.Key()).Elem()
				k.Set(it.Key())
				v := reflect.New(f.t.Elem()).Elem()
				v.Set(it.Value())
				g.val(f.t.Key(), addrOf(k), fmt.Sprintf("%s.key(%d)", fp, i))
				vp := addrOf(v)
				if f.vPtr {
					vp = *(*unsafe.Pointer)(vp)
					g.add(vp, f.vBase.Size(), f.vBase.Align(), fp+"(value)")
				}
				g.val(f.vBase, vp, fmt.Sprintf("%s.val(%d)", fp, i))
				i++
			}
		case f.rep:
			lv := at(f.t, q)
			if lv.Cap() > 0 {
				g.add(lv.UnsafePointer(), uintptr(lv.Cap())*f.t.Elem().Size(), f.t.Elem().Align(), fp+"(list)")
			}
			for i := 0; i < lv.Len(); i++ {
				ep := addrOf(lv.Index(i))
				if f.elemPtr {
					ep = *(*unsafe.Pointer)(ep)
					g.add(ep, f.base.Size(), f.base.Align(), fp+"(elem)")
				}
				g.val(f.base, ep, fmt.Sprintf("%s[%d]", fp, i))
			}
		default:
			if f.ptr {
				q = *(*unsafe.Pointer)(q)
				if q == nil {
					continue
				}
				g.add(q, f.base.Size(), f.base.Align(), fp+"(ptr)")
			}
			g.val(f.base, q, fp)
		}
	}
}

func (g *regions) check() error {
	if g.err != nil {
		return g.err
	}
	sort.Slice(g.rs, func(i, j int) bool { return g.rs[i].lo < g.rs[j].lo })
	for i := 1; i < len(g.rs); i++ {
		if g.rs[i].lo < g.rs[i-1].hi {
			return fmt.Errorf("memory of %s [%#x,%#x) overlaps %s [%#x,%#x)", g.rs[i-1].what, g.rs[i-1].lo, g.rs[i-1].hi, g.rs[i].what, g.rs[i].lo, g.rs[i].hi)
		}
	}
	return nil
}

type held struct {
	t    reflect.Type
	p    unsafe.Pointer
	want unsafe.Pointer
}

var churn [][]byte
var churnP []*Leaf

func p09(r *rng, c *ctx) error {
	var hs []held
	n := 3 + r.Intn(6)
	var total []byte
	for i := 0; i < n; i++ {
		var t reflect.Type
		var b []byte
		if r.p(1, 2) {
			t = pickType(r, c.seed)
			b = genWire(r, t, nil)
		} else {
			t = pickType(r, c.seed)
			v := genValue(r, t)
			b, _ = encode(nil, schemaOf(t), v, 900)
		}
		m := schemaOf(t)
		want := reflect.New(t).UnsafePointer()
		if err := decode(m, want, b, 900); err != nil {
			continue
		}
		p := reflect.New(t).UnsafePointer()
		in := append([]byte{}, b...)
		err, bad := unmarshal(t, p, in)
		if bad != nil {
			return bad
		}
		if err != nil {
			return fmt.Errorf("well-formed input %s rejected: %v", hx(b), err)
		}
		total = b
		g := &regions{}
		g.msg(m, p, describe(t))
		if len(in) > 0 {
			g.add(unsafe.Pointer(&in[0]), uintptr(len(in)), 1, "the input buffer")
		}
		if err := g.check(); err != nil {
			c.note(t, b, true)
			return fmt.Errorf("decoding %s: %w", hx(b), err)
		}
		for j := range in {
			in[j] = ^in[j]
		}
		runtime.KeepAlive(in)
		hs = append(hs, held{t, p, want})
	}
	if len(hs) == 0 {
		return nil
	}
	c.note(hs[len(hs)-1].t, total, true)
	all := &regions{}
	for i, h := range hs {
		all.add(h.p, h.t.Size(), h.t.Align(), fmt.Sprintf("message %d", i))
		all.msg(schemaOf(h.t), h.p, fmt.Sprintf("message %d (%s)", i, short(describe(h.t), 100)))
	}
	if err := all.check(); err != nil {
		return err
	}
	if c.idx%10 == 0 {
		runtime.GC()
		churn, churnP = nil, nil
		for i := 0; i < 200; i++ {
			x := make([]byte, 1+r.Intn(600))
			for j := range x {
				x[j] = 0xee
			}
			churn = append(churn, x)
			churnP = append(churnP, &Leaf{S: "churn", F: 0xeeeeeeee})
		}
		x := make([]byte, 4096)
		for j := range x {
			x[j] = 0xee
		}
		churn = append(churn, x)
	}
	for i, h := range hs {
		if err := equal(schemaOf(h.t), h.want, h.p, describe(h.t)); err != nil {
			return fmt.Errorf("message %d changed after later work (want != got): %w", i, err)
		}
	}
	// writing to everything one message owns must not show in the others
	for i, h := range hs {
		scramble(schemaOf(h.t), h.p)
		for j := i + 1; j < len(hs); j++ {
			if err := equal(schemaOf(hs[j].t), hs[j].want, hs[j].p, describe(hs[j].t)); err != nil {
				return fmt.Errorf("changing message %d changed message %d: %w", i, j, err)
			}
		}
	}
	return nil
}

// scramble overwrites the bytes and numbers a message owns, including the spare capacity of its lists of scalars.
func scramble(m *msgT, p unsafe.Pointer) {
	if p == nil {
		return
	}
	fill := func(q unsafe.Pointer, n int) {
		b := unsafe.Slice((*byte)(q), n)
		for i := range b {
			b[i] ^= 0xff
		}
	}
	if u := m.unkStore(p); cap(u) > 0 {
		fill(unsafe.Pointer(unsafe.SliceData(u)), cap(u))
	}
	for _, f := range m.fields {
		q := unsafe.Add(p, f.offset)
		if f.oneof {
			var ok bool
			if q, ok = f.selected(p); !ok {
				continue
			}
		}
		switch {
		case f.isMap:
			it := at(f.t, q).MapRange()
			for it.Next() {
				if f.vPtr && !it.Value().IsNil() {
					scramble(schemaOf(f.vBase), it.Value().UnsafePointer())
				}
				if f.vBase == bytesT && it.Value().Cap() > 0 {
					fill(it.Value().UnsafePointer(), it.Value().Cap())
				}
			}
		case f.rep:
			lv := at(f.t, q)
			if isMsg(f.base) || f.enc == "bytes" {
				for i := 0; i < lv.Len(); i++ {
					ep := addrOf(lv.Index(i))
					if f.elemPtr {
						ep = *(*unsafe.Pointer)(ep)
					}
					if isMsg(f.base) {
						scramble(schemaOf(f.base), ep)
					} else if f.base == bytesT {
						if x := *(*[]byte)(ep); cap(x) > 0 {
							fill(unsafe.Pointer(unsafe.SliceData(x)), cap(x))
						}
					}
				}
			} else if lv.Cap() > 0 {
				fill(lv.UnsafePointer(), lv.Cap()*int(f.base.Size()))
			}
		default:
			if f.ptr {
				if q = *(*unsafe.Pointer)(q); q == nil {
					continue
				}
			}
			switch {
			case isMsg(f.base):
				scramble(schemaOf(f.base), q)
			case f.base == bytesT:
				if x := *(*[]byte)(q); cap(x) > 0 {
					fill(unsafe.Pointer(unsafe.SliceData(x)), cap(x))
				}
			case f.base.Kind() == reflect.String:
			default:
				fill(q, int(f.base.Size()))
			}
		}
	}
}

// ---- P10 ----

type badT struct {
	v    interface{}
	what string
}

type BadDup struct {
	A int32  `protobuf:"varint,1,opt,name=a"`
	B string `protobuf:"bytes,1,opt,name=b"`
}
type BadDupBig struct {
	A int32  `protobuf:"varint,5000,opt,name=a"`
	C int32  `protobuf:"varint,1,opt,name=c"`
	B string `protobuf:"bytes,5000,opt,name=b"`
}
type BadOneofDup struct {
	X int32        `protobuf:"varint,1,opt,name=x"`
	O isBadOneof_O `protobuf_oneof:"o"`
}
type isBadOneof_O interface{ isBadOneof_O() }
type BadOneofDup_A struct {
	A int32 `protobuf:"varint,1,opt,name=a,oneof"`
}

func (*BadOneofDup_A) isBadOneof_O()                  {}
func (*BadOneofDup) XXX_OneofWrappers() []interface{} { return []interface{}{(*BadOneofDup_A)(nil)} }

type BadOneofRep struct {
	O isBadOneofRep_O `protobuf_oneof:"o"`
}
type isBadOneofRep_O interface{ isBadOneofRep_O() }
type BadOneofRep_A struct {
	A []int32 `protobuf:"varint,1,rep,name=a,oneof"`
}

func (*BadOneofRep_A) isBadOneofRep_O()               {}
func (*BadOneofRep) XXX_OneofWrappers() []interface{} { return []interface{}{(*BadOneofRep_A)(nil)} }

type BadOneofNotIface struct {
	O int32 `protobuf_oneof:"o"`
}
type BadOneofTwo struct {
	O isBadOneofTwo_O `protobuf_oneof:"o"`
}
type isBadOneofTwo_O interface{ isBadOneofTwo_O() }
type BadOneofTwo_A struct {
	A int32 `protobuf:"varint,1,opt,name=a,oneof"`
	B int32 `protobuf:"varint,2,opt,name=b,oneof"`
}

func (*BadOneofTwo_A) isBadOneofTwo_O()               {}
func (*BadOneofTwo) XXX_OneofWrappers() []interface{} { return []interface{}{(*BadOneofTwo_A)(nil)} }

type BadOneofNoTag struct {
	O isBadOneofNoTag_O `protobuf_oneof:"o"`
}
type isBadOneofNoTag_O interface{ isBadOneofNoTag_O() }
type BadOneofNoTag_A struct{ A int32 }

func (*BadOneofNoTag_A) isBadOneofNoTag_O() {}
func (*BadOneofNoTag) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*BadOneofNoTag_A)(nil)}
}

type BadOneofVal struct {
	O isBadOneofVal_O `protobuf_oneof:"o"`
}
type isBadOneofVal_O interface{ isBadOneofVal_O() }
type BadOneofVal_A struct {
	A int32 `protobuf:"varint,1,opt,name=a,oneof"`
}

func (BadOneofVal_A) isBadOneofVal_O() {}
func (*BadOneofVal) XXX_OneofWrappers() []interface{} {
	return []interface{}{BadOneofVal_A{}, nil}
}

// BadRec refers to itself and to a type that is rejected.
type BadRec struct {
	R *BadRec  `protobuf:"bytes,1,opt,name=r"`
	D *BadDup  `protobuf:"bytes,2,opt,name=d"`
	G *GoodRef `protobuf:"bytes,3,opt,name=g"`
}

// GoodRef is fine by itself.
type GoodRef struct {
	A int32    `protobuf:"varint,1,opt,name=a"`
	L *GoodRef `protobuf:"bytes,2,opt,name=l"`
}

var badTypes = []badT{
	{&BadDup{}, "duplicate number"}, {&BadDupBig{}, "duplicate large number"}, {&BadOneofDup{}, "number shared with a oneof member"},
	{&BadOneofRep{}, "repeated oneof member"}, {&BadOneofNotIface{}, "oneof that is no interface"}, {&BadOneofTwo{}, "wrapper with two fields"},
	{&BadOneofNoTag{}, "wrapper without tag"}, {&BadOneofVal{}, "wrapper that is no pointer"}, {&BadRec{}, "reference to a rejected type"},
	{new(int), "no struct"}, {new([]int32), "no struct"}, {new(map[string]string), "no struct"},
}

type tcase struct {
	t      reflect.Type
	accept bool
	why    string
}

var goKinds = []reflect.Type{
	reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(false),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), bytesT, reflect.TypeOf(Enum(0)), reflect.TypeOf(Leaf{}),
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint(0)),
	reflect.TypeOf(uintptr(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf([4]byte{}), reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(Empty{}), reflect.TypeOf(unsafe.Pointer(nil)),
}

func scalarOK(enc string, t reflect.Type, key bool) bool {
	k := t.Kind()
	switch enc {
	case "varint":
		return k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Bool
	case "zigzag32":
		return k == reflect.Int32
	case "zigzag64":
		return k == reflect.Int64
	case "fixed32":
		return k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Float32 && !key
	case "fixed64":
		return k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Float64 && !key
	case "bytes":
		return k == reflect.String || t == bytesT && !key
	}
	return false
}

func p10(r *rng, c *ctx) error {
	if c.idx%25 == 0 {
		x := badTypes[r.Intn(len(badTypes))]
		c.note(reflect.TypeOf(x.v), nil, true)
		c.sample = fmt.Sprintf("%T: %s", x.v, x.what)
		for i := 0; i < 2; i++ {
			if err := rejected(x.v); err != nil {
				return fmt.Errorf("%T (%s), use %d: %w", x.v, x.what, i+1, err)
			}
		}
		g := &GoodRef{A: 1, L: &GoodRef{A: 2}}
		b, err, bad := marshal(reflect.TypeOf(*g), unsafe.Pointer(g), nil)
		if bad != nil || err != nil {
			return fmt.Errorf("valid type after a rejected one: %v %v", err, bad)
		}
		return match(schemaOf(reflect.TypeOf(*g)), unsafe.Pointer(g), b)
	}
	encs := []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes"}
	enc := encs[r.Intn(6)]
	kt := goKinds[r.Intn(len(goKinds))]
	if r.p(1, 2) { // mostly matching pairs
		k := scalarKinds[r.Intn(len(scalarKinds))]
		enc, kt = k.enc, k.t
	}
	num := fmt.Sprint(1 + r.Intn(3000))
	numOK := true
	switch r.Intn(12) {
	case 0:
		num, numOK = []string{"0", "536870912", "4294967295", "4294967296", "4294967297", "18446744073709551617", "-1", "", "x", "99999999999999999999"}[r.Intn(10)], false
	case 1:
		num = []string{"536870911", "1000", "1001", "19000", "262144"}[r.Intn(5)]
	}
	label := []string{"opt", "req", "rep"}[r.Intn(3)]
	rep := label == "rep"
	packed := r.p(1, 4)
	encOK := true
	etok := enc
	switch r.Intn(20) {
	case 0:
		etok, encOK = "group", false
	case 1:
		etok, encOK = "", false
	case 2:
		etok, encOK = "Varint", false
	case 3:
		etok, encOK = "zigzag", false
	}
	toks := []string{etok, num, label}
	if packed {
		toks = append(toks, "packed")
	}
	toks = append(toks, "name=f")
	if r.p(1, 4) {
		toks = append(toks, "json=f", "proto3")
	}
	tag := fmt.Sprintf(`protobuf:"%s"`, strings.Join(toks, ","))

	isM := kt.Kind() == reflect.Struct
	elemOK := scalarOK(enc, kt, false) || isM && enc == "bytes"
	ft := kt
	ok := encOK && numOK
	shape := r.Intn(10)
	switch shape {
	case 0, 1: // plain
		ok = ok && elemOK && !rep && !packed
	case 2: // pointer
		ft = reflect.PointerTo(kt)
		ok = ok && elemOK && !rep && !packed
	case 3, 4: // list
		ft = reflect.SliceOf(kt)
		if ft == bytesT { // a list of uint8 is a byte string
			ok = ok && enc == "bytes" && !rep && !packed
		} else {
			ok = ok && elemOK && rep && (!packed || enc != "bytes")
		}
	case 5: // list of pointers
		ft = reflect.SliceOf(reflect.PointerTo(kt))
		ok = ok && isM && enc == "bytes" && rep && !packed
	case 6: // double pointers, lists of lists, pointers to lists
		switch r.Intn(5) {
		case 0:
			ft = reflect.PointerTo(reflect.PointerTo(kt))
			ok = false
		case 1:
			ft = reflect.SliceOf(reflect.SliceOf(kt))
			ok = ok && reflect.SliceOf(kt) == bytesT && enc == "bytes" && rep && !packed
		case 2:
			ft = reflect.PointerTo(reflect.SliceOf(kt))
			ok = ok && reflect.SliceOf(kt) == bytesT && enc == "bytes" && !rep && !packed
		case 3:
			ft = reflect.SliceOf(reflect.PointerTo(reflect.PointerTo(kt)))
			ok = false
		case 4:
			ft = reflect.PointerTo(reflect.MapOf(reflect.TypeOf(int32(0)), reflect.TypeOf("")))
			tag += ` protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
			ok = false
		}
	default: // map
		kk := scalarKinds[r.Intn(len(scalarKinds))]
		kenc, venc := kk.enc, enc
		if r.p(1, 6) {
			kenc = encs[r.Intn(6)]
		}
		mapKey := kk.t
		if mapKey == bytesT {
			mapKey = reflect.TypeOf([2]byte{})
		}
		vt := kt
		vOK := scalarOK(venc, kt, false) || isM && venc == "bytes"
		switch r.Intn(6) {
		case 0:
			vt = reflect.PointerTo(kt)
			vOK = isM && venc == "bytes"
		case 1:
			vt = reflect.SliceOf(kt)
			vOK = vt == bytesT && venc == "bytes"
		}
		if r.p(1, 10) {
			venc = []string{"", "group", "Bytes"}[r.Intn(3)]
			vOK = false
		}
		if r.p(1, 10) {
			kenc = []string{"", "group", "Bytes"}[r.Intn(3)]
		}
		if r.p(3, 4) && encOK {
			toks[0], enc = "bytes", "bytes"
		}
		if r.p(3, 4) {
			toks[2], rep = "rep", true
		}
		tag = fmt.Sprintf(`protobuf:"%s" protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, strings.Join(toks, ","), kenc, venc)
		if vt.Kind() == reflect.Func || vt.Kind() == reflect.Chan {
			vOK = false
		}
		ft = reflect.MapOf(mapKey, vt)
		ok = ok && enc == "bytes" && rep && !packed && scalarOK(kenc, mapKey, true) && vOK
	}
	fs := []reflect.StructField{{Name: "F", Type: ft, Tag: reflect.StructTag(tag)}}
	if r.p(1, 2) {
		fs = append(fs, reflect.StructField{Name: "G", Type: reflect.TypeOf(int64(0)), Tag: `protobuf:"varint,4000,opt,name=g"`})
	}
	if r.p(1, 8) && numOK { // duplicate number
		fs = append(fs, reflect.StructField{Name: "H", Type: reflect.TypeOf(false), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%s,opt,name=h"`, num))})
		ok = false
	}
	t := reflect.StructOf(fs)
	if r.p(1, 5) { // inside another message
		t = reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.PointerTo(t), Tag: `protobuf:"bytes,1,opt,name=n"`}})
	}
	c.note(t, nil, true)
	c.sample = fmt.Sprintf("%v accept=%v", t, ok)
	x := reflect.New(t)
	if !ok {
		for i := 0; i < 2; i++ {
			if err := rejected(x.Interface()); err != nil {
				return fmt.Errorf("invalid type %v, use %d: %w", t, i+1, err)
			}
		}
		return nil
	}
	for i := 0; i < 3; i++ {
		v := genValue(r, t)
		b, err, bad := marshal(t, v, nil)
		if bad != nil || err != nil {
			return fmt.Errorf("valid type %v: Marshal %v %v", t, err, bad)
		}
		if err := match(schemaOf(t), v, b); err != nil {
			return fmt.Errorf("valid type %v: %w", t, err)
		}
		y := reflect.New(t).UnsafePointer()
		err, bad = unmarshal(t, y, b)
		if bad != nil || err != nil {
			return fmt.Errorf("valid type %v: Unmarshal %v %v", t, err, bad)
		}
		if err := equal(schemaOf(t), v, y, ""); err != nil {
			return fmt.Errorf("valid type %v: %w", t, err)
		}
	}
	return nil
}

// rejected checks that every entry point reports an error for the type of v.
func rejected(v interface{}) error {
	var e1, e2, e3 error
	if bad := safely("Marshal", func() error { _, e1 = prutal.Marshal(v); return nil }); bad != nil {
		return bad
	}
	if bad := safely("Unmarshal", func() error { e2 = prutal.Unmarshal(nil, v); return nil }); bad != nil {
		return bad
	}
	if bad := safely("Size", func() error { _, e3 = prutal.Size(v); return nil }); bad != nil {
		return bad
	}
	if e1 == nil || e2 == nil || e3 == nil {
		return fmt.Errorf("no error (Marshal %v, Unmarshal %v, Size %v)", e1, e2, e3)
	}
	return nil
}

// ---- P11 ----

func typeWord(v interface{}) uintptr { return *(*uintptr)(unsafe.Pointer(&v)) }

var (
	p11n     int64
	slotMu   sync.Mutex
	slotKept []reflect.Type // types used in earlier rounds
)

func freshType(r *rng, id int64, nested []reflect.Type) reflect.Type {
	fs := []reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(uint64(0)), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt,name=a%d"`, 1+id%5000, id))},
		{Name: "S", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,opt,name=s"`, 5001+id%5000))},
	}
	if len(nested) > 0 && r.p(1, 3) {
		n := nested[r.Intn(len(nested))]
		fs = append(fs, reflect.StructField{Name: "N", Type: reflect.PointerTo(n), Tag: `protobuf:"bytes,20000,opt,name=n"`},
			reflect.StructField{Name: "L", Type: reflect.SliceOf(reflect.PointerTo(n)), Tag: `protobuf:"bytes,20001,rep,name=l"`},
			reflect.StructField{Name: "M", Type: reflect.MapOf(reflect.TypeOf(int32(0)), reflect.PointerTo(n)), Tag: `protobuf:"bytes,20002,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`})
	}
	if r.p(1, 6) {
		fs = append(fs, reflect.StructField{Name: "X", Type: reflect.TypeOf((*Node)(nil)), Tag: `protobuf:"bytes,20003,opt,name=x"`})
	}
	return reflect.StructOf(fs)
}

func p11(r *rng, c *ctx) error {
	// many fresh types, preferring groups that share a hash slot
	var ts []reflect.Type
	slots := map[uintptr][]reflect.Type{}
	var nested []reflect.Type
	for i := 0; i < 150; i++ {
		id := atomic.AddInt64(&p11n, 1)
		t := freshType(r, id, nested)
		nested = append(nested, t)
		w := typeWord(reflect.New(t).Interface()) & 0xffff
		slots[w] = append(slots[w], t)
		ts = append(ts, t)
	}
	slotMu.Lock()
	for _, t := range slotKept {
		w := typeWord(reflect.New(t).Interface()) & 0xffff
		if len(slots[w]) > 0 {
			slots[w] = append(slots[w], t)
		}
	}
	slotKept = append(slotKept, ts...)
	if len(slotKept) > 6000 {
		slotKept = slotKept[len(slotKept)-6000:]
	}
	slotMu.Unlock()
	shared := 0
	var order []reflect.Type
	for _, t := range ts {
		w := typeWord(reflect.New(t).Interface()) & 0xffff
		if g := slots[w]; len(g) > 1 {
			shared++
			order = append(order, g...)
		} else if r.p(1, 4) {
			order = append(order, t)
		}
	}
	c.note(ts[0], nil, shared > 0)
	c.sample = fmt.Sprintf("%d fresh types, %d sharing a hash slot with another", len(ts), shared)
	const G = 8
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make(chan error, G)
	for g := 0; g < G; g++ {
		rr := newRng(r.Int63())
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			perm := rr.Perm(len(order))
			if rr.p(1, 2) {
				for i := range perm {
					perm[i] = i
				}
			}
			for _, i := range perm {
				if err := useType(rr, order[i]); err != nil {
					select {
					case errs <- err:
					default:
					}
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	// every type still works, single-threaded
	for _, t := range order {
		if err := useType(r, t); err != nil {
			return fmt.Errorf("after all types are registered: %w", err)
		}
	}
	return nil
}

func useType(r *rng, t reflect.Type) error {
	g := &vgen{rng: r, budget: 3, sparse: 1}
	v := reflect.New(t).UnsafePointer()
	g.msg(schemaOf(t), v)
	m := schemaOf(t)
	b, _ := encode(nil, m, v, 900)
	for i := 0; i < 2; i++ {
		switch r.Intn(3) {
		case 0:
			x, err, bad := marshal(t, v, nil)
			if bad != nil || err != nil {
				return fmt.Errorf("Marshal of %v: %v %v", t, err, bad)
			}
			if err := match(m, v, x); err != nil {
				return fmt.Errorf("Marshal of %v: %w", t, err)
			}
		case 1:
			n, err, bad := size(t, v)
			if bad != nil || err != nil || n != len(b) {
				return fmt.Errorf("Size of %v: %d, want %d: %v %v", t, n, len(b), err, bad)
			}
		case 2:
			y := reflect.New(t).UnsafePointer()
			err, bad := unmarshal(t, y, b)
			if bad != nil || err != nil {
				return fmt.Errorf("Unmarshal of %v: %v %v", t, err, bad)
			}
			if err := equal(m, v, y, ""); err != nil {
				return fmt.Errorf("Unmarshal of %v: %w", t, err)
			}
		}
	}
	return nil
}
