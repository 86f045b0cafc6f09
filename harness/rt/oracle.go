//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"unsafe"
)

// ---- wire primitives, written from the protobuf encoding specification ----

func putVarint(b []byte, v uint64) []byte {
	for v > 127 {
		b = append(b, byte(v&127)|128)
		v /= 128
	}
	return append(b, byte(v))
}

func putTag(b []byte, num int64, wt int) []byte { return putVarint(b, uint64(num)*8+uint64(wt)) }

func putLE(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v))
		v >>= 8
	}
	return b
}

var errBad = errors.New("malformed")

func getVarint(b []byte) (uint64, int, error) {
	var v uint64
	for i := 0; i < len(b); i++ {
		if i == 9 && b[i] > 1 {
			return 0, 0, fmt.Errorf("varint overflow: %w", errBad)
		}
		v |= uint64(b[i]&127) << (7 * uint(i))
		if b[i] < 128 {
			return v, i + 1, nil
		}
		if i == 9 {
			return 0, 0, fmt.Errorf("varint overflow: %w", errBad)
		}
	}
	return 0, 0, fmt.Errorf("truncated varint: %w", errBad)
}

func getLE(b []byte, n int) (uint64, error) {
	if len(b) < n {
		return 0, fmt.Errorf("truncated fixed%d: %w", 8*n, errBad)
	}
	var v uint64
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, nil
}

const maxNum = 1<<29 - 1

// getTag parses one tag.
func getTag(b []byte) (num int64, wt int, n int, err error) {
	v, n, err := getVarint(b)
	if err != nil {
		return 0, 0, 0, err
	}
	if v>>3 > maxNum || v>>3 == 0 {
		return 0, 0, 0, fmt.Errorf("invalid field number %d: %w", v>>3, errBad)
	}
	return int64(v >> 3), int(v & 7), n, nil
}

// getValue returns the length of the record value of wire type wt.
func getValue(num int64, wt int, b []byte, depth int) (int, error) {
	switch wt {
	case 0:
		_, n, err := getVarint(b)
		return n, err
	case 1:
		_, err := getLE(b, 8)
		return 8, err
	case 5:
		_, err := getLE(b, 4)
		return 4, err
	case 2:
		l, n, err := getVarint(b)
		if err != nil {
			return 0, err
		}
		if l > uint64(len(b)-n) {
			return 0, fmt.Errorf("truncated length-delimited record: %w", errBad)
		}
		return n + int(l), nil
	case 3:
		if depth <= 0 {
			return 0, errDepth
		}
		i := 0
		for {
			n2, w2, n, err := getTag(b[i:])
			if err != nil {
				return 0, err
			}
			i += n
			if w2 == 4 {
				if n2 != num {
					return 0, fmt.Errorf("mismatched end group: %w", errBad)
				}
				return i, nil
			}
			n, err = getValue(n2, w2, b[i:], depth-1)
			if err != nil {
				return 0, err
			}
			i += n
		}
	}
	return 0, fmt.Errorf("wire type %d: %w", wt, errBad)
}

var errDepth = errors.New("too deep")

// ---- scalars ----

func wtOf(enc string) int {
	switch enc {
	case "varint", "zigzag32", "zigzag64":
		return 0
	case "fixed64":
		return 1
	case "fixed32":
		return 5
	}
	return 2
}

func bits32(p unsafe.Pointer) uint32 { return *(*uint32)(p) }
func bits64(p unsafe.Pointer) uint64 { return *(*uint64)(p) }

func addrOf(v reflect.Value) unsafe.Pointer { return v.Addr().UnsafePointer() }

// scalarBytes is the canonical encoding of a scalar value (with its length prefix for bytes).
func scalarBytes(enc string, t reflect.Type, p unsafe.Pointer) []byte {
	switch enc {
	case "varint":
		switch t.Kind() {
		case reflect.Int32:
			return putVarint(nil, uint64(int64(*(*int32)(p))))
		case reflect.Int64:
			return putVarint(nil, uint64(*(*int64)(p)))
		case reflect.Uint32:
			return putVarint(nil, uint64(*(*uint32)(p)))
		case reflect.Uint64:
			return putVarint(nil, *(*uint64)(p))
		case reflect.Bool:
			if *(*bool)(p) {
				return []byte{1}
			}
			return []byte{0}
		}
	case "zigzag32":
		x := *(*int32)(p)
		u := uint32(x) << 1
		if x < 0 {
			u = ^u
		}
		return putVarint(nil, uint64(u))
	case "zigzag64":
		x := *(*int64)(p)
		u := uint64(x) << 1
		if x < 0 {
			u = ^u
		}
		return putVarint(nil, u)
	case "fixed32":
		return putLE(nil, uint64(bits32(p)), 4)
	case "fixed64":
		return putLE(nil, bits64(p), 8)
	case "bytes":
		if t.Kind() == reflect.String {
			s := *(*string)(p)
			return append(putVarint(nil, uint64(len(s))), s...)
		}
		s := *(*[]byte)(p)
		return append(putVarint(nil, uint64(len(s))), s...)
	}
	panic("scalarBytes: " + enc + " " + t.String())
}

// setScalar decodes one scalar record value at b (wire type already checked) into *p.
func setScalar(enc string, t reflect.Type, p unsafe.Pointer, b []byte) error {
	switch wtOf(enc) {
	case 0:
		v, _, err := getVarint(b)
		if err != nil {
			return err
		}
		switch enc {
		case "zigzag32":
			u := uint32(v)
			x := int32(u >> 1)
			if u&1 == 1 {
				x = ^x
			}
			v = uint64(int64(x))
		case "zigzag64":
			x := int64(v >> 1)
			if v&1 == 1 {
				x = ^x
			}
			v = uint64(x)
		}
		switch t.Kind() {
		case reflect.Bool:
			*(*bool)(p) = v != 0
		case reflect.Int32, reflect.Uint32:
			*(*uint32)(p) = uint32(v)
		default:
			*(*uint64)(p) = v
		}
	case 1:
		v, err := getLE(b, 8)
		if err != nil {
			return err
		}
		*(*uint64)(p) = v
	case 5:
		v, err := getLE(b, 4)
		if err != nil {
			return err
		}
		*(*uint32)(p) = uint32(v)
	case 2:
		l, n, err := getVarint(b)
		if err != nil {
			return err
		}
		if l > uint64(len(b)-n) {
			return errBad
		}
		c := append([]byte{}, b[n:n+int(l)]...)
		if t.Kind() == reflect.String {
			*(*string)(p) = string(c)
		} else {
			*(*[]byte)(p) = c
		}
	}
	return nil
}

func isMsg(t reflect.Type) bool { return t.Kind() == reflect.Struct }

func zeroScalar(t reflect.Type, p unsafe.Pointer) bool {
	switch t.Kind() {
	case reflect.String:
		return len(*(*string)(p)) == 0
	case reflect.Slice:
		return len(*(*[]byte)(p)) == 0
	}
	switch t.Size() {
	case 1:
		return *(*uint8)(p) == 0
	case 4:
		return bits32(p) == 0
	}
	return bits64(p) == 0
}

// ---- reference encoder ----

type limits struct{ max int }

// encode appends the reference encoding of the message at p (nil: empty message).
func encode(b []byte, m *msgT, p unsafe.Pointer, depth int) ([]byte, error) {
	if depth == 0 {
		return nil, errDepth
	}
	if p == nil {
		return b, nil
	}
	var err error
	msgRec := func(num int64, t reflect.Type, q unsafe.Pointer) error {
		x, err := encode(nil, schemaOf(t), q, depth-1)
		if err != nil {
			return err
		}
		b = putTag(b, num, 2)
		b = putVarint(b, uint64(len(x)))
		b = append(b, x...)
		return nil
	}
	for _, f := range m.fields {
		q := unsafe.Add(p, f.offset)
		if f.oneof {
			var ok bool
			if q, ok = f.selected(p); !ok {
				continue
			}
			if f.ptr && *(*unsafe.Pointer)(q) == nil {
				continue
			}
		}
		switch {
		case f.isMap:
			mv := at(f.t, q)
			it := mv.MapRange()
			for it.Next() {
				k := reflect.New(f.t.Key()).Elem()
				k.Set(it.Key())
				v := reflect.New(f.t.Elem()).Elem()
				v.Set(it.Value())
				x := putTag(nil, 1, wtOf(f.kEnc))
				x = append(x, scalarBytes(f.kEnc, f.t.Key(), addrOf(k))...)
				x = putTag(x, 2, wtOf(f.vEnc))
				if isMsg(f.vBase) {
					vp := addrOf(v)
					if f.vPtr {
						vp = *(*unsafe.Pointer)(vp)
					}
					y, err := encode(nil, schemaOf(f.vBase), vp, depth-1)
					if err != nil {
						return nil, err
					}
					x = putVarint(x, uint64(len(y)))
					x = append(x, y...)
				} else {
					x = append(x, scalarBytes(f.vEnc, f.vBase, addrOf(v))...)
				}
				b = putTag(b, f.num, 2)
				b = putVarint(b, uint64(len(x)))
				b = append(b, x...)
			}
		case f.rep:
			lv := at(f.t, q)
			n := lv.Len()
			if n == 0 {
				continue
			}
			if f.packed {
				var x []byte
				for i := 0; i < n; i++ {
					x = append(x, scalarBytes(f.enc, f.base, addrOf(lv.Index(i)))...)
				}
				b = putTag(b, f.num, 2)
				b = putVarint(b, uint64(len(x)))
				b = append(b, x...)
				continue
			}
			for i := 0; i < n; i++ {
				ep := addrOf(lv.Index(i))
				if isMsg(f.base) {
					if f.elemPtr {
						ep = *(*unsafe.Pointer)(ep)
					}
					if err = msgRec(f.num, f.base, ep); err != nil {
						return nil, err
					}
					continue
				}
				b = putTag(b, f.num, wtOf(f.enc))
				b = append(b, scalarBytes(f.enc, f.base, ep)...)
			}
		default:
			vp := q
			if f.ptr {
				if vp = *(*unsafe.Pointer)(q); vp == nil {
					continue
				}
			}
			if isMsg(f.base) {
				if err = msgRec(f.num, f.base, vp); err != nil {
					return nil, err
				}
				continue
			}
			if !f.ptr && !f.oneof && zeroScalar(f.base, vp) {
				continue
			}
			b = putTag(b, f.num, wtOf(f.enc))
			b = append(b, scalarBytes(f.enc, f.base, vp)...)
		}
	}
	return append(b, m.unkStore(p)...), nil
}

// ---- matching an encoding against a value, up to the order of fields and of map entries ----

type rec struct {
	num int64
	wt  int
	tag []byte
	val []byte
}

func records(b []byte) ([]rec, error) {
	var rs []rec
	for i := 0; i < len(b); {
		num, wt, n, err := getTag(b[i:])
		if err != nil {
			return nil, err
		}
		if n != len(putTag(nil, num, wt)) {
			return nil, fmt.Errorf("tag of field %d is not minimal", num)
		}
		k, err := getValue(num, wt, b[i+n:], 10000)
		if err != nil {
			return nil, err
		}
		rs = append(rs, rec{num, wt, b[i : i+n], b[i+n : i+n+k]})
		i += n + k
	}
	return rs, nil
}

// payload checks that the length prefix of a record is canonical and returns the contents.
func payload(v []byte) ([]byte, error) {
	l, n, err := getVarint(v)
	if err != nil {
		return nil, err
	}
	if len(putVarint(nil, l)) != n {
		return nil, fmt.Errorf("length prefix %x is not minimal", v[:n])
	}
	return v[n:], nil
}

// match reports how b differs from the encoding of the message at p.
func match(m *msgT, p unsafe.Pointer, b []byte) error {
	if p == nil { // an empty message; embedded non-pointer messages may be emitted as empty records
		p = reflect.New(m.t).UnsafePointer()
	}
	if u := m.unkStore(p); len(u) > 0 {
		if !bytes.HasSuffix(b, u) {
			return fmt.Errorf("%s: stored unknown fields are not the end of the encoding", describe(m.t))
		}
		b = b[:len(b)-len(u)]
	}
	rs, err := records(b)
	if err != nil {
		return fmt.Errorf("%s: %w", describe(m.t), err)
	}
	by := map[int64][]rec{}
	for _, r := range rs {
		if m.byNum[r.num] == nil {
			return fmt.Errorf("%s: record of undeclared field %d", describe(m.t), r.num)
		}
		by[r.num] = append(by[r.num], r)
	}
	for _, f := range m.fields {
		if err := f.match(p, by[f.num]); err != nil {
			return fmt.Errorf("%s.%s: %w", describe(m.t), f.name, err)
		}
	}
	return nil
}

func msgMatch(t reflect.Type, p unsafe.Pointer, r rec) error {
	if r.wt != 2 {
		return fmt.Errorf("wire type %d for a message", r.wt)
	}
	x, err := payload(r.val)
	if err != nil {
		return err
	}
	return match(schemaOf(t), p, x)
}

func scalarMatch(enc string, t reflect.Type, p unsafe.Pointer, r rec) error {
	if r.wt != wtOf(enc) {
		return fmt.Errorf("wire type %d, want %d", r.wt, wtOf(enc))
	}
	if w := scalarBytes(enc, t, p); !bytes.Equal(w, r.val) {
		return fmt.Errorf("value %s encoded as %s, want %s", showVal(t, p), hx(r.val), hx(w))
	}
	return nil
}

func (f *fieldT) match(p unsafe.Pointer, rs []rec) error {
	q := unsafe.Add(p, f.offset)
	if f.oneof {
		var ok bool
		q, ok = f.selected(p)
		if !ok || f.ptr && *(*unsafe.Pointer)(q) == nil {
			if len(rs) != 0 {
				return fmt.Errorf("%d records for an unselected oneof member", len(rs))
			}
			return nil
		}
	}
	switch {
	case f.isMap:
		mv := at(f.t, q)
		if mv.Len() != len(rs) {
			return fmt.Errorf("%d records for %d map entries", len(rs), mv.Len())
		}
		seen := map[string]bool{}
		for _, r := range rs {
			x, err := payload(r.val)
			if err != nil {
				return err
			}
			es, err := records(x)
			if err != nil {
				return fmt.Errorf("map entry: %w", err)
			}
			if r.wt != 2 || len(es) != 2 || es[0].num != 1 || es[1].num != 2 || es[0].wt != wtOf(f.kEnc) || es[1].wt != wtOf(f.vEnc) {
				return fmt.Errorf("map entry %s is not one key and one value record", hx(x))
			}
			if seen[string(es[0].val)] {
				return fmt.Errorf("two records for the key %s", hx(es[0].val))
			}
			seen[string(es[0].val)] = true
			k := reflect.New(f.t.Key()).Elem()
			if err := setScalar(f.kEnc, f.t.Key(), addrOf(k), es[0].val); err != nil {
				return err
			}
			if err := scalarMatch(f.kEnc, f.t.Key(), addrOf(k), es[0]); err != nil {
				return fmt.Errorf("map key: %w", err)
			}
			mvv := mv.MapIndex(k)
			if !mvv.IsValid() {
				return fmt.Errorf("record for key %s which the map does not hold", hx(es[0].val))
			}
			v := reflect.New(f.t.Elem()).Elem()
			v.Set(mvv)
			vp := addrOf(v)
			if isMsg(f.vBase) {
				if f.vPtr {
					vp = *(*unsafe.Pointer)(vp)
				}
				err = msgMatch(f.vBase, vp, es[1])
			} else {
				err = scalarMatch(f.vEnc, f.vBase, vp, es[1])
			}
			if err != nil {
				return fmt.Errorf("value of key %s: %w", hx(es[0].val), err)
			}
		}
	case f.rep:
		lv := at(f.t, q)
		n := lv.Len()
		if f.packed {
			if n == 0 {
				if len(rs) != 0 {
					return fmt.Errorf("record for an empty list")
				}
				return nil
			}
			if len(rs) != 1 || rs[0].wt != 2 {
				return fmt.Errorf("%d records for a packed list", len(rs))
			}
			x, err := payload(rs[0].val)
			if err != nil {
				return err
			}
			var w []byte
			for i := 0; i < n; i++ {
				w = append(w, scalarBytes(f.enc, f.base, addrOf(lv.Index(i)))...)
			}
			if !bytes.Equal(w, x) {
				return fmt.Errorf("packed list of %d elements encoded as %s, want %s", n, hx(x), hx(w))
			}
			return nil
		}
		if len(rs) != n {
			return fmt.Errorf("%d records for %d list elements", len(rs), n)
		}
		for i, r := range rs {
			ep := addrOf(lv.Index(i))
			var err error
			if isMsg(f.base) {
				if f.elemPtr {
					ep = *(*unsafe.Pointer)(ep)
				}
				err = msgMatch(f.base, ep, r)
			} else {
				err = scalarMatch(f.enc, f.base, ep, r)
			}
			if err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
	default:
		vp := q
		if f.ptr {
			vp = *(*unsafe.Pointer)(q)
		}
		if vp == nil || !f.ptr && !f.oneof && !isMsg(f.base) && zeroScalar(f.base, vp) {
			if len(rs) != 0 {
				return fmt.Errorf("record for an unset field")
			}
			return nil
		}
		if !f.ptr && !f.oneof && isMsg(f.base) && len(rs) == 0 {
			// an embedded message held by value has no presence: it may be left out when empty
			x, err := encode(nil, schemaOf(f.base), vp, 100000)
			if err == nil && len(x) == 0 {
				return nil
			}
		}
		if len(rs) != 1 {
			return fmt.Errorf("%d records for a set singular field", len(rs))
		}
		if isMsg(f.base) {
			return msgMatch(f.base, vp, rs[0])
		}
		return scalarMatch(f.enc, f.base, vp, rs[0])
	}
	return nil
}

// ---- reference decoder ----

// decode applies the records of b to the message at p.
func decode(m *msgT, p unsafe.Pointer, b []byte, depth int) error {
	if depth == 0 {
		return errDepth
	}
	var unk []byte
	for i := 0; i < len(b); {
		start := i
		num, wt, n, err := getTag(b[i:])
		if err != nil {
			return err
		}
		i += n
		n, err = getValue(num, wt, b[i:], 10000)
		if err != nil {
			return err
		}
		v := b[i : i+n]
		i += n
		f := m.byNum[num]
		if f == nil {
			unk = append(unk, b[start:i]...)
			continue
		}
		if err := f.decode(p, wt, v, depth); err != nil {
			return err
		}
	}
	if m.unk != 0 && (len(unk) > 0 || len(m.unkStore(p)) > 0) {
		m.setUnk(p, unk)
	}
	return nil
}

func typeErr(f *fieldT, wt int) error {
	return fmt.Errorf("wire type %d for field %v: %w", wt, f, errBad)
}

func contents(v []byte) []byte {
	_, n, _ := getVarint(v)
	return v[n:]
}

func (f *fieldT) decode(p unsafe.Pointer, wt int, v []byte, depth int) error {
	q := unsafe.Add(p, f.offset)
	switch {
	case f.isMap:
		if wt != 2 {
			return typeErr(f, wt)
		}
		k := reflect.New(f.t.Key()).Elem()
		val := reflect.New(f.t.Elem()).Elem()
		vp := addrOf(val)
		if f.vPtr {
			val.Set(reflect.New(f.vBase))
			vp = val.UnsafePointer()
		}
		if !isMsg(f.vBase) && f.vBase == bytesT {
			val.SetBytes([]byte{})
		}
		b := contents(v)
		for i := 0; i < len(b); {
			num, wt, n, err := getTag(b[i:])
			if err != nil {
				return err
			}
			i += n
			n, err = getValue(num, wt, b[i:], 10000)
			if err != nil {
				return err
			}
			rv := b[i : i+n]
			i += n
			switch num {
			case 1:
				if wt != wtOf(f.kEnc) {
					return typeErr(f, wt)
				}
				if err := setScalar(f.kEnc, f.t.Key(), addrOf(k), rv); err != nil {
					return err
				}
			case 2:
				if wt != wtOf(f.vEnc) {
					return typeErr(f, wt)
				}
				if isMsg(f.vBase) {
					if err := decode(schemaOf(f.vBase), vp, contents(rv), depth-1); err != nil {
						return err
					}
				} else if err := setScalar(f.vEnc, f.vBase, vp, rv); err != nil {
					return err
				}
			}
		}
		mv := at(f.t, q)
		if mv.IsNil() {
			mv.Set(reflect.MakeMap(f.t))
		}
		mv.SetMapIndex(k, val)
	case f.rep:
		lv := at(f.t, q)
		if wt == 2 && f.enc != "bytes" { // packed
			b := contents(v)
			for i := 0; i < len(b); {
				n, err := getValue(1, wtOf(f.enc), b[i:], 1)
				if err != nil {
					return err
				}
				e := reflect.New(f.base).Elem()
				if err := setScalar(f.enc, f.base, addrOf(e), b[i:i+n]); err != nil {
					return err
				}
				lv.Set(reflect.Append(lv, e))
				i += n
			}
			return nil
		}
		if wt != wtOf(f.enc) {
			return typeErr(f, wt)
		}
		e := reflect.New(f.base)
		if isMsg(f.base) {
			if err := decode(schemaOf(f.base), e.UnsafePointer(), contents(v), depth-1); err != nil {
				return err
			}
		} else if err := setScalar(f.enc, f.base, e.UnsafePointer(), v); err != nil {
			return err
		}
		if !f.elemPtr {
			e = e.Elem()
		}
		lv.Set(reflect.Append(lv, e))
	default:
		if wt != wtOf(f.enc) {
			return typeErr(f, wt)
		}
		if f.oneof {
			w := reflect.New(f.wrapper)
			q = w.UnsafePointer()
			at(f.ifaceT, unsafe.Add(p, f.offset)).Set(w)
		}
		if f.ptr {
			x := reflect.New(f.base)
			at(f.t, q).Set(x)
			q = x.UnsafePointer()
		}
		if isMsg(f.base) {
			return decode(schemaOf(f.base), q, contents(v), depth-1)
		}
		return setScalar(f.enc, f.base, q, v)
	}
	return nil
}

// ---- equality, cloning ----

// equal reports how two messages differ (nil and empty lists, maps, bytes and list or map elements are the same).
func equal(m *msgT, a, b unsafe.Pointer, path string) error {
	if a == nil || b == nil {
		if a == b {
			return nil
		}
		z := reflect.New(m.t).UnsafePointer()
		if a == nil {
			a = z
		} else {
			b = z
		}
	}
	if x, y := m.unkStore(a), m.unkStore(b); !bytes.Equal(x, y) {
		return fmt.Errorf("%s: unknown fields %s != %s", path, hx(x), hx(y))
	}
	for _, f := range m.fields {
		if err := f.equal(a, b, path+"."+f.name); err != nil {
			return err
		}
	}
	return nil
}

func valEqual(t reflect.Type, a, b unsafe.Pointer, path string) error {
	if isMsg(t) {
		return equal(schemaOf(t), a, b, path)
	}
	var same bool
	switch t.Kind() {
	case reflect.String:
		same = *(*string)(a) == *(*string)(b)
	case reflect.Slice:
		same = bytes.Equal(*(*[]byte)(a), *(*[]byte)(b))
	default:
		switch t.Size() {
		case 1:
			same = *(*uint8)(a) == *(*uint8)(b)
		case 4:
			same = bits32(a) == bits32(b)
		default:
			same = bits64(a) == bits64(b)
		}
	}
	if !same {
		return fmt.Errorf("%s: %s != %s", path, showVal(t, a), showVal(t, b))
	}
	return nil
}

func (f *fieldT) equal(a, b unsafe.Pointer, path string) error {
	qa, qb := unsafe.Add(a, f.offset), unsafe.Add(b, f.offset)
	if f.oneof {
		var oka, okb bool
		qa, oka = f.selected(a)
		qb, okb = f.selected(b)
		if oka && f.ptr && *(*unsafe.Pointer)(qa) == nil {
			oka = false
		}
		if okb && f.ptr && *(*unsafe.Pointer)(qb) == nil {
			okb = false
		}
		if oka != okb {
			return fmt.Errorf("%s: oneof member %v selected %v != %v", path, f, oka, okb)
		}
		if !oka {
			return nil
		}
	}
	switch {
	case f.isMap:
		ma, mb := at(f.t, qa), at(f.t, qb)
		if ma.Len() != mb.Len() {
			return fmt.Errorf("%s: %d != %d map entries", path, ma.Len(), mb.Len())
		}
		it := ma.MapRange()
		for it.Next() {
			o := mb.MapIndex(it.Key())
			if !o.IsValid() {
				return fmt.Errorf("%s: key %v missing", path, it.Key())
			}
			x, y := reflect.New(f.t.Elem()).Elem(), reflect.New(f.t.Elem()).Elem()
			x.Set(it.Value())
			y.Set(o)
			xp, yp := addrOf(x), addrOf(y)
			if f.vPtr {
				xp, yp = *(*unsafe.Pointer)(xp), *(*unsafe.Pointer)(yp)
			}
			if err := valEqual(f.vBase, xp, yp, fmt.Sprintf("%s[%v]", path, it.Key())); err != nil {
				return err
			}
		}
	case f.rep:
		la, lb := at(f.t, qa), at(f.t, qb)
		if la.Len() != lb.Len() {
			return fmt.Errorf("%s: %d != %d elements", path, la.Len(), lb.Len())
		}
		for i := 0; i < la.Len(); i++ {
			xp, yp := addrOf(la.Index(i)), addrOf(lb.Index(i))
			if f.elemPtr {
				xp, yp = *(*unsafe.Pointer)(xp), *(*unsafe.Pointer)(yp)
			}
			if err := valEqual(f.base, xp, yp, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	default:
		if f.ptr {
			qa, qb = *(*unsafe.Pointer)(qa), *(*unsafe.Pointer)(qb)
			if (qa == nil) != (qb == nil) {
				return fmt.Errorf("%s: set %v != %v", path, qa != nil, qb != nil)
			}
			if qa == nil {
				return nil
			}
		}
		return valEqual(f.base, qa, qb, path)
	}
	return nil
}

func cloneMsg(m *msgT, p unsafe.Pointer) unsafe.Pointer {
	if p == nil {
		return nil
	}
	r := reflect.New(m.t)
	copyMsg(m, r.UnsafePointer(), p)
	return r.UnsafePointer()
}

func copyVal(t reflect.Type, dst, src unsafe.Pointer) {
	if isMsg(t) {
		copyMsg(schemaOf(t), dst, src)
		return
	}
	switch t.Kind() {
	case reflect.String:
		*(*string)(dst) = string(append([]byte(nil), *(*string)(src)...))
	case reflect.Slice:
		if s := *(*[]byte)(src); s != nil {
			*(*[]byte)(dst) = append([]byte{}, s...)
		}
	default:
		switch t.Size() {
		case 1:
			*(*uint8)(dst) = *(*uint8)(src)
		case 4:
			*(*uint32)(dst) = *(*uint32)(src)
		default:
			*(*uint64)(dst) = *(*uint64)(src)
		}
	}
}

func copyMsg(m *msgT, dst, src unsafe.Pointer) {
	if u := m.unkStore(src); u != nil {
		m.setUnk(dst, append([]byte{}, u...))
	}
	for _, f := range m.fields {
		d, s := unsafe.Add(dst, f.offset), unsafe.Add(src, f.offset)
		if f.oneof {
			var ok bool
			if s, ok = f.selected(src); !ok {
				continue
			}
			w := reflect.New(f.wrapper)
			at(f.ifaceT, d).Set(w)
			d = w.UnsafePointer()
		}
		switch {
		case f.isMap:
			sm := at(f.t, s)
			if sm.IsNil() {
				continue
			}
			dm := reflect.MakeMap(f.t)
			it := sm.MapRange()
			for it.Next() {
				k := reflect.New(f.t.Key()).Elem()
				kk := reflect.New(f.t.Key()).Elem()
				kk.Set(it.Key())
				copyVal(f.t.Key(), addrOf(k), addrOf(kk))
				x, y := reflect.New(f.t.Elem()).Elem(), reflect.New(f.t.Elem()).Elem()
				x.Set(it.Value())
				if f.vPtr {
					if !x.IsNil() {
						y.Set(at(reflect.PointerTo(f.vBase), ptrTo(cloneMsg(schemaOf(f.vBase), x.UnsafePointer()))))
					}
				} else {
					copyVal(f.vBase, addrOf(y), addrOf(x))
				}
				dm.SetMapIndex(k, y)
			}
			at(f.t, d).Set(dm)
		case f.rep:
			sl := at(f.t, s)
			if sl.IsNil() {
				continue
			}
			dl := reflect.MakeSlice(f.t, sl.Len(), sl.Len())
			for i := 0; i < sl.Len(); i++ {
				x, y := addrOf(sl.Index(i)), addrOf(dl.Index(i))
				if f.elemPtr {
					*(*unsafe.Pointer)(y) = cloneMsg(schemaOf(f.base), *(*unsafe.Pointer)(x))
				} else {
					copyVal(f.base, y, x)
				}
			}
			at(f.t, d).Set(dl)
		default:
			if f.ptr {
				if sp := *(*unsafe.Pointer)(s); sp != nil {
					x := reflect.New(f.base)
					copyVal(f.base, x.UnsafePointer(), sp)
					at(f.t, d).Set(x)
				}
				continue
			}
			copyVal(f.base, d, s)
		}
	}
}

func ptrTo(p unsafe.Pointer) unsafe.Pointer {
	x := new(unsafe.Pointer)
	*x = p
	return unsafe.Pointer(x)
}

func hx(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x..(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func showVal(t reflect.Type, p unsafe.Pointer) string {
	s := fmt.Sprintf("%#v", at(t, p))
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}
