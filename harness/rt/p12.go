//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/cloudwego/prutal/internal/protowire"
	"github.com/cloudwego/prutal/internal/wire"
)

// coderT pairs a coder with the wire encoding and the Go types it stands for.
type coderT struct {
	c   wire.CoderType
	enc string
	t   reflect.Type
}

var coderTs = []coderT{
	{wire.CoderVarintU32, "varint", reflect.TypeOf(uint32(0))},
	{wire.CoderVarintI32, "varint", reflect.TypeOf(int32(0))},
	{wire.CoderVarint64, "varint", reflect.TypeOf(int64(0))},
	{wire.CoderVarint64, "varint", reflect.TypeOf(uint64(0))},
	{wire.CoderZigZag32, "zigzag32", reflect.TypeOf(int32(0))},
	{wire.CoderZigZag64, "zigzag64", reflect.TypeOf(int64(0))},
	{wire.CoderFixed32, "fixed32", reflect.TypeOf(uint32(0))},
	{wire.CoderFixed32, "fixed32", reflect.TypeOf(float32(0))},
	{wire.CoderFixed64, "fixed64", reflect.TypeOf(int64(0))},
	{wire.CoderFixed64, "fixed64", reflect.TypeOf(float64(0))},
	{wire.CoderBool, "varint", reflect.TypeOf(false)},
	{wire.CoderString, "bytes", reflect.TypeOf("")},
	{wire.CoderBytes, "bytes", reflect.TypeOf([]byte(nil))},
}

func init() { checks["P12"] = p12 }

func p12(r *rng, c *ctx) error {
	return safely("codec", func() error {
		c.nontrivial = true
		switch r.Intn(6) {
		case 0, 1:
			return p12wire(r, c)
		case 2:
			return p12field(r, c)
		case 3, 4:
			return p12coder(r, c)
		}
		return p12len(r, c)
	})
}

// dirty returns a prefix with spare capacity holding arbitrary bytes.
func dirty(r *rng) []byte {
	if r.p(1, 8) {
		return nil
	}
	b := r.bytes(r.Intn(40))
	x := r.bytes(len(b) + r.Intn(40))
	copy(x, b)
	return x[:len(b)]
}

func appended(what string, pre, got, want []byte) error {
	if !bytes.Equal(got, append(append([]byte{}, pre...), want...)) {
		return fmt.Errorf("%s appended to %d bytes: got %s want the prefix and %s", what, len(pre), hx(got), hx(want))
	}
	return nil
}

func p12wire(r *rng, c *ctx) error {
	v := r.u64()
	c.sample = fmt.Sprintf("value %#x", v)
	sfx := r.bytes(r.Intn(12))
	pre := dirty(r)
	pre0 := append([]byte{}, pre...)
	full := func() []byte { return append(make([]byte, 0, len(pre)+r.Intn(16)), pre...) }
	w := putVarint(nil, v)
	for name, f := range map[string]func([]byte, uint64) []byte{
		"protowire.AppendVarint": protowire.AppendVarint, "wire.AppendVarint": wire.AppendVarint, "wire.AppendVarintSmall": wire.AppendVarintSmall,
	} {
		if err := appended(fmt.Sprintf("%s(%#x)", name, v), pre0, f(full(), v), w); err != nil {
			return err
		}
	}
	if n := protowire.SizeVarint(v); n != len(w) {
		return fmt.Errorf("SizeVarint(%#x) = %d, want %d", v, n, len(w))
	}
	if n := wire.SizeVarint(v); n != len(w) {
		return fmt.Errorf("wire.SizeVarint(%#x) = %d, want %d", v, n, len(w))
	}
	if x, n := protowire.ConsumeVarint(append(w[:len(w):len(w)], sfx...)); x != v || n != len(w) {
		return fmt.Errorf("ConsumeVarint(%x ++ %x) = %#x, %d", w, sfx, x, n)
	}
	// arbitrary varint bytes against the reference parser
	raw := r.bytes(r.Intn(12))
	if r.p(1, 2) {
		for i := range raw {
			raw[i] |= 0x80
		}
		if len(raw) > 0 && r.p(1, 2) {
			raw[len(raw)-1] &= 0x7f >> uint(r.Intn(7))
		}
		raw = append(raw, sfx...)
	}
	x, n := protowire.ConsumeVarint(raw)
	if rx, rn, err := getVarint(raw); err != nil {
		if n >= 0 {
			return fmt.Errorf("ConsumeVarint(%x) = %#x, %d, want an error", raw, x, n)
		}
	} else if x != rx || n != rn {
		return fmt.Errorf("ConsumeVarint(%x) = %#x, %d, want %#x, %d", raw, x, n, rx, rn)
	}
	// fixed
	f32, f64 := putLE(nil, uint64(uint32(v)), 4), putLE(nil, v, 8)
	if err := appended("AppendFixed32", pre0, protowire.AppendFixed32(full(), uint32(v)), f32); err != nil {
		return err
	}
	if err := appended("AppendFixed64", pre0, protowire.AppendFixed64(full(), v), f64); err != nil {
		return err
	}
	if x, n := protowire.ConsumeFixed32(append(f32, sfx...)); x != uint32(v) || n != 4 {
		return fmt.Errorf("ConsumeFixed32(%x) = %#x, %d", f32, x, n)
	}
	if x, n := protowire.ConsumeFixed64(append(f64, sfx...)); x != v || n != 8 {
		return fmt.Errorf("ConsumeFixed64(%x) = %#x, %d", f64, x, n)
	}
	if k := r.Intn(8); k < 4 {
		if _, n := protowire.ConsumeFixed32(f32[:k]); n >= 0 {
			return fmt.Errorf("ConsumeFixed32 of %d bytes: %d", k, n)
		}
	} else if _, n := protowire.ConsumeFixed64(f64[:k]); n >= 0 {
		return fmt.Errorf("ConsumeFixed64 of %d bytes: %d", k, n)
	}
	// zigzag, bool
	zz := uint64(int64(v)<<1) ^ uint64(int64(v)>>63)
	if protowire.EncodeZigZag(int64(v)) != zz || protowire.DecodeZigZag(zz) != int64(v) || protowire.EncodeZigZag(protowire.DecodeZigZag(v)) != v {
		return fmt.Errorf("zigzag of %d: encoded %#x, decoded %d", int64(v), protowire.EncodeZigZag(int64(v)), protowire.DecodeZigZag(zz))
	}
	if b := r.p(1, 2); protowire.DecodeBool(protowire.EncodeBool(b)) != b {
		return fmt.Errorf("bool %v", b)
	}
	// bytes, string
	data := r.bytes(r.length(r.p(1, 20)))
	wb := append(putVarint(nil, uint64(len(data))), data...)
	if err := appended("AppendBytes", pre0, protowire.AppendBytes(full(), data), wb); err != nil {
		return err
	}
	if err := appended("AppendString", pre0, protowire.AppendString(full(), string(data)), wb); err != nil {
		return err
	}
	if n := protowire.SizeBytes(len(data)); n != len(wb) {
		return fmt.Errorf("SizeBytes(%d) = %d", len(data), n)
	}
	if x, n := protowire.ConsumeBytes(append(wb[:len(wb):len(wb)], sfx...)); !bytes.Equal(x, data) || n != len(wb) {
		return fmt.Errorf("ConsumeBytes(%s) = %s, %d", hx(wb), hx(x), n)
	}
	if x, n := protowire.ConsumeString(append(wb[:len(wb):len(wb)], sfx...)); x != string(data) || n != len(wb) {
		return fmt.Errorf("ConsumeString(%s) = %s, %d", hx(wb), hx([]byte(x)), n)
	}
	if len(data) > 0 {
		if _, n := protowire.ConsumeBytes(wb[:r.Intn(len(wb))]); n >= 0 {
			return fmt.Errorf("ConsumeBytes of a truncated value: %d", n)
		}
	}
	// a length larger than the rest
	hb := append(putVarint(nil, uint64(len(sfx)+1)+v>>uint(1+r.Intn(63))), sfx...)
	if _, n := protowire.ConsumeBytes(hb); n >= 0 {
		return fmt.Errorf("ConsumeBytes(%s): %d", hx(hb), n)
	}
	// tags
	num := int64(1 + v%maxNum)
	wt := r.Intn(6)
	tag := putTag(nil, num, wt)
	if err := appended("AppendTag", pre0, protowire.AppendTag(full(), protowire.Number(num), protowire.Type(wt)), tag); err != nil {
		return err
	}
	if n := protowire.SizeTag(protowire.Number(num)); n != len(tag) {
		return fmt.Errorf("SizeTag(%d) = %d", num, n)
	}
	if a, b, n := protowire.ConsumeTag(append(tag[:len(tag):len(tag)], sfx...)); int64(a) != num || int(b) != wt || n != len(tag) {
		return fmt.Errorf("ConsumeTag(%x) = %d, %d, %d", tag, a, b, n)
	}
	u := uint64(num)<<3 | uint64(wt)
	if protowire.EncodeTag(protowire.Number(num), protowire.Type(wt)) != u || wire.EncodeTag(int32(num), wire.Type(wt)) != u {
		return fmt.Errorf("EncodeTag(%d, %d)", num, wt)
	}
	if a, b := protowire.DecodeTag(u); int64(a) != num || int(b) != wt {
		return fmt.Errorf("DecodeTag(%#x) = %d, %d", u, a, b)
	}
	if a, b := wire.DecodeTag(u); int64(a) != num || int(b) != wt {
		return fmt.Errorf("wire.DecodeTag(%#x) = %d, %d", u, a, b)
	}
	kt := putTag(nil, 1, wt)
	if err := appended("AppendKeyTag", pre0, wire.AppendKeyTag(full(), wire.Type(wt)), kt); err != nil {
		return err
	}
	vt := putTag(nil, 2, wt)
	if err := appended("AppendValTag", pre0, wire.AppendValTag(full(), wire.Type(wt)), vt); err != nil {
		return err
	}
	if a, b := wire.ConsumeKVTag(append(kt, sfx...)); a != 1 || int(b) != wt {
		return fmt.Errorf("ConsumeKVTag(%x) = %d, %d", kt, a, b)
	}
	if a, b := wire.ConsumeKVTag(append(vt, sfx...)); a != 2 || int(b) != wt {
		return fmt.Errorf("ConsumeKVTag(%x) = %d, %d", vt, a, b)
	}
	return nil
}

// p12field compares the record skipper with the reference on well- and ill-formed records.
func p12field(r *rng, c *ctx) error {
	num := int64(1 + r.u64()%maxNum)
	if r.p(1, 2) {
		num = int64(1 + r.Intn(4))
	}
	wt := []int{0, 1, 2, 3, 5}[r.Intn(5)]
	v := genRawValue(r, num, wt, 3)
	sfx := r.bytes(r.Intn(10))
	b := append(append([]byte{}, v...), sfx...)
	if r.p(1, 3) {
		b = mutate(r, b)
	}
	if r.p(1, 10) {
		wt = r.Intn(8)
	}
	c.sample = fmt.Sprintf("field %d wire type %d value %x", num, wt, b[:min(len(b), 60)])
	n := protowire.ConsumeFieldValue(protowire.Number(num), protowire.Type(wt), b)
	rn, err := getValue(num, wt, b, 10000)
	if (err == nil) != (n >= 0) || err == nil && n != rn {
		return fmt.Errorf("ConsumeFieldValue(%d, %d, %s) = %d, reference %d, %v", num, wt, hx(b), n, rn, err)
	}
	fb := append(putTag(nil, num, wt), b...)
	a, t, k := protowire.ConsumeField(fb)
	if (err == nil) != (k >= 0) || err == nil && (int64(a) != num || int(t) != wt || k != len(putTag(nil, num, wt))+rn) {
		return fmt.Errorf("ConsumeField(%s) = %d, %d, %d", hx(fb), a, t, k)
	}
	if wt == 3 && err == nil {
		g, k := protowire.ConsumeGroup(protowire.Number(num), b)
		end := putTag(nil, num, 4)
		if k != rn || !bytes.HasPrefix(b, g) || len(g) > rn-1 {
			return fmt.Errorf("ConsumeGroup(%d, %s) = %x, %d, want length %d", num, hx(b), g, k, rn)
		}
		if err := appended("AppendGroup", nil, protowire.AppendGroup(nil, protowire.Number(num), g), append(append([]byte{}, g...), end...)); err != nil {
			return err
		}
		if s := protowire.SizeGroup(protowire.Number(num), len(g)); s != len(g)+len(end) {
			return fmt.Errorf("SizeGroup(%d, %d) = %d", num, len(g), s)
		}
	}
	return nil
}

func p12coder(r *rng, c *ctx) error {
	k := coderTs[r.Intn(len(coderTs))]
	g := &vgen{rng: r}
	pre := dirty(r)
	pre0 := append([]byte{}, pre...)
	x := reflect.New(k.t)
	g.scalar(k.t, x.UnsafePointer())
	w := scalarBytes(k.enc, k.t, x.UnsafePointer())
	c.sample = fmt.Sprintf("%s %v: %s", k.enc, k.t, hx(w))
	f := wire.GetAppendFunc(k.c, false)
	if f == nil {
		return fmt.Errorf("no append function for %s %v", k.enc, k.t)
	}
	if err := appended(k.enc+" "+k.t.String(), pre0, f(pre, x.UnsafePointer()), w); err != nil {
		return err
	}
	if s := wire.GetSizeFunc(k.c); s == nil || s(x.UnsafePointer()) != len(w) {
		return fmt.Errorf("size of %s %v value %s", k.enc, k.t, hx(w))
	}
	// lists
	n := r.Intn(6)
	if r.p(1, 8) {
		n = r.Intn(400)
	}
	tag := uint64(1+r.u64()%maxNum)<<3 | uint64(wtOf(k.enc))
	l := reflect.MakeSlice(reflect.SliceOf(k.t), n, n+r.Intn(3))
	var wl, wp []byte
	for i := 0; i < n; i++ {
		p := addrOf(l.Index(i))
		g.scalar(k.t, p)
		e := scalarBytes(k.enc, k.t, p)
		wl = append(putVarint(wl, tag), e...)
		wp = append(wp, e...)
	}
	lp := reflect.New(l.Type())
	lp.Elem().Set(l)
	lf := wire.GetAppendListFunc(k.c)
	if lf == nil {
		return fmt.Errorf("no list function for %s %v", k.enc, k.t)
	}
	full := func() []byte { return append(make([]byte, 0, len(pre0)+r.Intn(30)), pre0...) }
	if err := appended("list of "+k.enc+" "+k.t.String(), pre0, lf(full(), tag, lp.UnsafePointer()), wl); err != nil {
		return err
	}
	if pf := wire.GetAppendFunc(k.c, true); (pf == nil) != (k.enc == "bytes") {
		return fmt.Errorf("packed function for %s %v: %v", k.enc, k.t, pf != nil)
	} else if pf != nil {
		if n > 0 {
			want := append(putVarint(nil, uint64(len(wp))), wp...)
			if err := appended("packed "+k.enc+" "+k.t.String(), pre0, pf(full(), lp.UnsafePointer()), want); err != nil {
				return err
			}
		}
		df := wire.GetPackedDecoderFunc(k.c)
		if df == nil {
			return fmt.Errorf("no packed decoder for %s %v", k.enc, k.t)
		}
		// appends to what is there
		n0 := r.Intn(3)
		d := reflect.New(l.Type())
		d.Elem().Set(reflect.MakeSlice(l.Type(), n0, n0+r.Intn(3)))
		for i := 0; i < n0; i++ {
			g.scalar(k.t, addrOf(d.Elem().Index(i)))
		}
		want := reflect.AppendSlice(reflect.AppendSlice(reflect.MakeSlice(l.Type(), 0, 0), d.Elem()), l)
		if err := df(wp, d.UnsafePointer()); err != nil {
			return fmt.Errorf("packed decoder of %s %v on %s: %v", k.enc, k.t, hx(wp), err)
		}
		if d.Elem().Len() != want.Len() {
			return fmt.Errorf("packed decoder of %s %v on %s: %d elements, want %d", k.enc, k.t, hx(wp), d.Elem().Len(), want.Len())
		}
		for i := 0; i < want.Len(); i++ {
			if err := valEqual(k.t, addrOf(want.Index(i)), addrOf(d.Elem().Index(i)), fmt.Sprintf("packed %s %v [%d]", k.enc, k.t, i)); err != nil {
				return err
			}
		}
	}
	// maps
	var kk coderT
	for kk = coderTs[r.Intn(len(coderTs))]; kk.t.Kind() == reflect.Slice || kk.t.Kind() == reflect.Float32 || kk.t.Kind() == reflect.Float64; {
		kk = coderTs[r.Intn(len(coderTs))]
	}
	mt := reflect.MapOf(kk.t, k.t)
	m := reflect.New(mt)
	m.Elem().Set(reflect.MakeMap(mt))
	nm := 1 + r.Intn(3)
	for i := 0; i < nm; i++ {
		a, b := reflect.New(kk.t).Elem(), reflect.New(k.t).Elem()
		g.scalar(kk.t, addrOf(a))
		g.scalar(k.t, addrOf(b))
		m.Elem().SetMapIndex(a, b)
	}
	name := fmt.Sprintf("map of %s %v to %s %v", kk.enc, kk.t, k.enc, k.t)
	mtag := uint64(1+r.u64()%maxNum)<<3 | 2
	entry := func(a, b reflect.Value) []byte {
		x := append(putTag(nil, 1, wtOf(kk.enc)), scalarBytes(kk.enc, kk.t, addrOf(a))...)
		x = append(putTag(x, 2, wtOf(k.enc)), scalarBytes(k.enc, k.t, addrOf(b))...)
		return x
	}
	wants := map[string]int{}
	total := 0
	for it := m.Elem().MapRange(); it.Next(); {
		a, b := reflect.New(kk.t).Elem(), reflect.New(k.t).Elem()
		a.Set(it.Key())
		b.Set(it.Value())
		x := entry(a, b)
		x = append(putVarint(putVarint(nil, mtag), uint64(len(x))), x...)
		wants[string(x)]++
		total += len(x)
	}
	if ef := wire.GetMapEncoderFunc(kk.c, k.c); ef != nil {
		got := ef(full(), mtag, m.UnsafePointer())
		if !bytes.HasPrefix(got, pre0) {
			return fmt.Errorf("%s: the buffer's contents changed", name)
		}
		got = got[len(pre0):]
		rs, err := records(got)
		if err != nil || len(got) != total {
			return fmt.Errorf("%s: encoded as %s (%v), want %d bytes", name, hx(got), err, total)
		}
		for _, x := range rs {
			e := string(x.tag) + string(x.val)
			if wants[e]--; wants[e] < 0 {
				return fmt.Errorf("%s: unexpected entry %s", name, hx([]byte(e)))
			}
		}
	}
	if sf := wire.GetMapSizeFunc(kk.c, k.c); sf != nil {
		if s := sf(m.UnsafePointer(), len(putVarint(nil, mtag))); s != total {
			return fmt.Errorf("%s: size %d, want %d", name, s, total)
		}
	}
	if df := wire.GetMapDecoderFunc(kk.c, k.c); df != nil {
		d := reflect.New(mt)
		for it := m.Elem().MapRange(); it.Next(); {
			a, b := reflect.New(kk.t).Elem(), reflect.New(k.t).Elem()
			a.Set(it.Key())
			b.Set(it.Value())
			e := entry(a, b)
			if err := df(e, d.UnsafePointer()); err != nil {
				return fmt.Errorf("%s: decoding entry %s: %v", name, hx(e), err)
			}
			got := d.Elem().MapIndex(a)
			if !got.IsValid() {
				return fmt.Errorf("%s: decoding entry %s sets no value for its key", name, hx(e))
			}
			y := reflect.New(k.t).Elem()
			y.Set(got)
			if err := valEqual(k.t, addrOf(b), addrOf(y), name); err != nil {
				return err
			}
		}
		if d.Elem().Len() != m.Elem().Len() {
			return fmt.Errorf("%s: %d of %d entries", name, d.Elem().Len(), m.Elem().Len())
		}
	}
	return nil
}

// p12len checks the in-place length prefix.
func p12len(r *rng, c *ctx) error {
	pre := dirty(r)
	pre0 := append([]byte{}, pre...)
	n := r.length(r.p(1, 4))
	data := r.bytes(n)
	c.sample = fmt.Sprintf("length %d behind %d bytes", n, len(pre))
	b := wire.LenReserve(pre)
	b = append(b, data...)
	if r.p(1, 2) {
		b = b[:len(b):len(b)]
	}
	return appended("LenPack", pre0, wire.LenPack(b, len(data)), append(putVarint(nil, uint64(n)), data...))
}
