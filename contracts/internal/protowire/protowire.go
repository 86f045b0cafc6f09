package protowire

// Contracts of the scalar codecs (P12, P07). Spec_F is what F must equal on
// every input; Ensures_F is what callers may rely on; Lemma_X are obligations
// over the contracts.

import "github.com/cloudwego/prutal/internal/vc"

// ---- varints ----

func Spec_AppendVarint(b []byte, v uint64) []byte { return append(b, vc.Varint(v)...) }

// value and length of the varint at the start of b
func Spec_ConsumeVarint(b []byte) (v uint64, n int) {
	var y uint64
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, -1
		}
		c := b[i]
		if i == 9 && c > 1 {
			return 0, -3
		}
		y |= uint64(c&0x7f) << uint(7*i)
		if c < 0x80 {
			return y, i + 1
		}
	}
	return 0, -3
}

func Ensures_ConsumeVarint(b []byte, v uint64, n int) bool {
	if !(n < 0 && n >= -6 && v == 0 || n >= 1 && n <= 10 && n <= len(b)) {
		return false
	}
	if len(b) >= 1 && b[0] < 0x80 {
		return n == 1 && v == uint64(b[0])
	}
	if len(b) >= 2 && b[1] < 0x80 {
		return n == 2 && v == uint64(b[0]&0x7f)|uint64(b[1])<<7
	}
	return n < 0 || n > 2
}

func Spec_SizeVarint(v uint64) int { return vc.VarintLen(v) }

// ---- fixed words ----

func Spec_AppendFixed32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func Spec_AppendFixed64(b []byte, v uint64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func Spec_ConsumeFixed32(b []byte) (v uint32, n int) {
	if len(b) < 4 {
		return 0, -1
	}
	for i := 3; i >= 0; i-- {
		v = v<<8 | uint32(b[i])
	}
	return v, 4
}

func Spec_ConsumeFixed64(b []byte) (v uint64, n int) {
	if len(b) < 8 {
		return 0, -1
	}
	for i := 7; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, 8
}

func Spec_SizeFixed32() int { return 4 }
func Spec_SizeFixed64() int { return 8 }

// ---- bytes and strings ----

func Spec_AppendBytes(b []byte, v []byte) []byte {
	b = append(b, vc.Varint(uint64(len(v)))...)
	return append(b, v...)
}

func Spec_AppendString(b []byte, v string) []byte {
	b = append(b, vc.Varint(uint64(len(v)))...)
	return append(b, v...)
}

func Spec_ConsumeBytes(b []byte) (v []byte, n int) {
	m, n := ConsumeVarint(b)
	if n < 0 {
		return nil, n
	}
	if m > uint64(len(b)-n) {
		return nil, -1
	}
	return b[n : n+int(m)], n + int(m)
}

func Ensures_ConsumeBytes(b []byte, v []byte, n int) bool {
	return n < 0 && n >= -6 && v == nil || n >= 1 && n <= len(b) && len(v) < n
}

func Spec_ConsumeString(b []byte) (string, int) {
	v, n := ConsumeBytes(b)
	return string(v), n
}

func Spec_SizeBytes(n int) int { return vc.VarintLen(uint64(n)) + n }

// ---- tags ----

func Spec_Number_IsValid(n Number) bool { return n >= 1 && n <= 1<<29-1 }

func Spec_EncodeTag(num Number, typ Type) uint64 { return uint64(num)*8 + uint64(typ&7) }

func Spec_DecodeTag(x uint64) (Number, Type) {
	if x >= 1<<34 {
		return -1, 0
	}
	return Number(x / 8), Type(x % 8)
}

func Spec_AppendTag(b []byte, num Number, typ Type) []byte {
	return append(b, vc.Varint(uint64(num)<<3|uint64(typ&7))...)
}

func Spec_SizeTag(num Number) int { return vc.VarintLen(uint64(num) << 3) }

func Spec_ConsumeTag(b []byte) (Number, Type, int) {
	v, n := ConsumeVarint(b)
	if n < 0 {
		return 0, 0, n
	}
	f := v / 8
	if f < 1 || f > 1<<29-1 {
		return 0, 0, -2
	}
	return Number(f), Type(v % 8), n
}

func Ensures_ConsumeTag(b []byte, num Number, typ Type, n int) bool {
	return n < 0 && n >= -6 && num == 0 && typ == 0 || n >= 1 && n <= 10 && n <= len(b) && num >= 1 && num <= 1<<29-1 && typ >= 0 && typ <= 7
}

func Spec_AppendGroup(b []byte, num Number, v []byte) []byte {
	b = append(b, v...)
	return append(b, vc.Varint(uint64(num)<<3|4)...)
}

func Spec_SizeGroup(num Number, n int) int { return n + vc.VarintLen(uint64(num)<<3) }

// ---- zigzag and bool ----

func Spec_EncodeZigZag(x int64) uint64 {
	if x < 0 {
		return uint64(^x)*2 + 1
	}
	return uint64(x) * 2
}

func Spec_DecodeZigZag(x uint64) int64 {
	if x&1 == 1 {
		return ^int64(x / 2)
	}
	return int64(x / 2)
}

func Spec_DecodeBool(x uint64) bool { return x != 0 }

func Spec_EncodeBool(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

// ---- field skipping ----

// consumeFieldValueD: how many bytes a field value of the given type takes;
// groups end at their own end marker and nest at most depth deep
func Spec_consumeFieldValueD(num Number, typ Type, b []byte, depth int) (n int) {
	if typ == 0 {
		_, n := ConsumeVarint(b)
		return n
	}
	if typ == 5 {
		if len(b) < 4 {
			return -1
		}
		return 4
	}
	if typ == 1 {
		if len(b) < 8 {
			return -1
		}
		return 8
	}
	if typ == 2 {
		_, n := ConsumeBytes(b)
		return n
	}
	if typ == 4 {
		return -5
	}
	if typ != 3 {
		return -4
	}
	if depth < 0 {
		return -6
	}
	rest := b
	for {
		num2, typ2, k := ConsumeTag(rest)
		if k < 0 {
			return k
		}
		rest = rest[k:]
		if typ2 == 4 {
			if num2 != num {
				return -5
			}
			return len(b) - len(rest)
		}
		k = consumeFieldValueD(num2, typ2, rest, depth-1)
		if k < 0 {
			return k
		}
		rest = rest[k:]
	}
}

func Ensures_consumeFieldValueD(num Number, typ Type, b []byte, depth int, n int) bool {
	return n < 0 || n <= len(b)
}

func Spec_ConsumeFieldValue(num Number, typ Type, b []byte) (n int) {
	return consumeFieldValueD(num, typ, b, 10000)
}

func Spec_ConsumeField(b []byte) (Number, Type, int) {
	num, typ, n := ConsumeTag(b)
	if n < 0 {
		return 0, 0, n
	}
	m := ConsumeFieldValue(num, typ, b[n:])
	if m < 0 {
		return 0, 0, m
	}
	return num, typ, n + m
}

func Spec_ParseError(n int) error {
	if n < 0 {
		return vc.Err()
	}
	return nil
}

// ---- P12: the pairs are inverse, whatever follows ----

func Lemma_VarintRoundTrip(v uint64, tail []byte) {
	b := append(vc.Varint(v), tail...)
	w, n := Spec_ConsumeVarint(b)
	vc.Assert(w == v)
	vc.Assert(n == vc.VarintLen(v))
}

// no shorter sequence of bytes is a varint of v: a varint of n bytes has a
// value below 2^(7n), which the canonical form of v needs n bytes to reach
func Lemma_VarintShortest(b []byte) {
	v, n := Spec_ConsumeVarint(b)
	if n > 0 {
		vc.Assert(vc.VarintLen(v) <= n)
	}
}

func Lemma_Fixed32RoundTrip(v uint32, b []byte, tail []byte) {
	e := append(Spec_AppendFixed32(nil, v), tail...)
	w, n := Spec_ConsumeFixed32(e)
	vc.Assert(w == v && n == 4)
}

func Lemma_Fixed64RoundTrip(v uint64, tail []byte) {
	e := append(Spec_AppendFixed64(nil, v), tail...)
	w, n := Spec_ConsumeFixed64(e)
	vc.Assert(w == v && n == 8)
}

func Lemma_ZigZag64(x int64) {
	vc.Assert(Spec_DecodeZigZag(Spec_EncodeZigZag(x)) == x)
}

func Lemma_ZigZag64Inv(x uint64) {
	vc.Assert(Spec_EncodeZigZag(Spec_DecodeZigZag(x)) == x)
}

func Lemma_TagBijection(num Number, typ Type) {
	if num >= 0 && typ >= 0 && typ <= 7 {
		n, t := Spec_DecodeTag(Spec_EncodeTag(num, typ))
		vc.Assert(n == num && t == typ)
	}
}

func Lemma_TagBijectionInv(x uint64) {
	n, t := Spec_DecodeTag(x)
	if n >= 0 {
		vc.Assert(Spec_EncodeTag(n, t) == x)
	}
}

func Lemma_Bool(x bool) {
	vc.Assert(Spec_DecodeBool(Spec_EncodeBool(x)) == x)
}

func Lemma_BytesRoundTrip(v []byte, tail []byte) {
	e := append(Spec_AppendBytes(nil, v), tail...)
	m, n := Spec_ConsumeVarint(e)
	vc.Assert(n > 0 && m == uint64(len(v)))
	vc.Assert(m <= uint64(len(e)-n))
	w := e[n : n+int(m)]
	vc.Assert(vc.SameBytes(w, v))
	vc.Assert(n+int(m) == Spec_SizeBytes(len(v)))
}
