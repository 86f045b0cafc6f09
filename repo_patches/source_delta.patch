From 43141ae64f0cbee69757ffc6fce6ace4628db673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 01/25] fix: count one nesting level per map value when
 decoding

---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..cca74dc 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -282,7 +282,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth-1); err != nil {
+					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
-- 
2.43.0


From 23a89f58d2427df44d7de05a4b42bf015c0998b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 02/25] fix: encode and size a selected oneof member that holds
 a zero value

---
 internal/prutal/encoder.go | 2 +-
 internal/prutal/sizer.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..41edeb9 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -78,7 +78,7 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		case t.SliceLike: // for slice or string, both can use StringHeader
 			skipzero = ((*hack.StringHeader)(p)).Len == 0
 		}
-		if skipzero {
+		if skipzero && (!f.IsOneof() || t.IsPointer) { // a selected oneof member has presence
 			continue
 		}
 
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..6c866ce 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -60,7 +60,7 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		case t.SliceLike:
 			skipzero = ((*hack.StringHeader)(p)).Len == 0
 		}
-		if skipzero {
+		if skipzero && (!f.IsOneof() || t.IsPointer) { // a selected oneof member has presence
 			continue
 		}
 
-- 
2.43.0


From 4ae8097759573c86b3cfa56c02e27328e2bdda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 03/25] fix: append every packed record to the list and decode
 packed bools as varints

---
 internal/wire/decoder_packed.go | 40 +++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..aa3a956 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -34,6 +34,23 @@ func init() {
 	packedDecoderFuncs[CoderBool] = DecodePackedBool
 }
 
+// growSlice returns s with capacity for n more elements.
+//
+// A packed field may be split into any number of records,
+// so the decoders below always append to the elements decoded so far.
+func growSlice[T any](s []T, n int) []T {
+	if cap(s)-len(s) >= n {
+		return s
+	}
+	c := len(s) + n
+	if c < 2*len(s) {
+		c = 2 * len(s)
+	}
+	ret := make([]T, len(s), c)
+	copy(ret, s)
+	return ret
+}
+
 func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 	sz := 0
 	for _, v := range b {
@@ -41,7 +58,7 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint64, 0, sz)
+	vv := growSlice(*(*[]uint64)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -71,7 +88,7 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint32, 0, sz)
+	vv := growSlice(*(*[]uint32)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -101,7 +118,7 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int64, 0, sz)
+	vv := growSlice(*(*[]int64)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -131,7 +148,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int32, 0, sz)
+	vv := growSlice(*(*[]int32)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -158,7 +175,7 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 	if len(b)&7 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint64, 0, len(b)/8)
+	vv := growSlice(*(*[]uint64)(h), len(b)/8)
 	for len(b) > 0 {
 		_ = b[7]
 		vv = append(vv,
@@ -174,7 +191,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 	if len(b)&3 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint32, 0, len(b)/4)
+	vv := growSlice(*(*[]uint32)(h), len(b)/4)
 	for len(b) > 0 {
 		_ = b[3]
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
@@ -185,9 +202,14 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, len(b))
-	for i, c := range b {
-		vv[i] = c > 0
+	vv := growSlice(*(*[]bool)(h), len(b))
+	for len(b) > 0 {
+		v, n := protowire.ConsumeVarint(b)
+		if n < 0 {
+			return io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From 12586515daa733bb16d96123740172ccf3ddc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 04/25] fix: decode any nonzero bool varint as true

---
 internal/prutal/decoder.go   | 12 ++++++------
 internal/wire/decoder_map.go | 10 ++--------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index cca74dc..5a8a227 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -199,8 +199,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool: // any nonzero varint is true
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -342,8 +342,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any nonzero varint is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -448,8 +448,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any nonzero varint is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..338b26c 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -170,14 +170,8 @@ func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
 	if len(b) < 2 {
 		return false, 0, io.ErrUnexpectedEOF
 	}
-	fn, typ := ConsumeKVTag(b)
-	if fn != num {
-		return false, 0, newFieldNumErr(fn, num)
-	}
-	if typ != TypeVarint {
-		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
-	}
-	return b[1] != 0, 2, nil
+	v, n, err := decodeMap_Varint(b, num)
+	return v != 0, n, err
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
-- 
2.43.0


From 65cb7d7253ed9ff263ca5852e8bd01f5c149e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 05/25] fix: truncate sint32 varints to 32 bits before the
 zigzag decoding

---
 internal/prutal/decoder.go      | 13 ++++++++++---
 internal/wire/decoder_map.go    | 26 +++++++++++++-------------
 internal/wire/decoder_packed.go |  2 +-
 internal/wire/utils.go          | 11 +++++++++++
 4 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 5a8a227..0686493 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -18,6 +18,7 @@ package prutal
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sync"
 	"unsafe"
@@ -187,7 +188,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if n < 0 {
 				return 0, protowire.ParseError(n)
 			}
-			if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+			if tag == desc.TypeZigZag32 {
+				u64 = uint64(protowire.DecodeZigZag(u64 & math.MaxUint32))
+			} else if tag == desc.TypeZigZag64 {
 				u64 = uint64(protowire.DecodeZigZag(u64))
 			}
 			switch t.Kind {
@@ -330,7 +333,9 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
-		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+		if tag == desc.TypeZigZag32 {
+			u64 = uint64(protowire.DecodeZigZag(u64 & math.MaxUint32))
+		} else if tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
 		switch t.Kind {
@@ -436,7 +441,9 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
-		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+		if tag == desc.TypeZigZag32 {
+			u64 = uint64(protowire.DecodeZigZag(u64 & math.MaxUint32))
+		} else if tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
 		switch t.Kind {
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index 338b26c..8aaeeb6 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -230,7 +230,7 @@ func DecodeMap_VarintU32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[uint32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[uint32(k)] = decodeZigZag32(v)
 	return nil
 }
 
@@ -335,7 +335,7 @@ func DecodeMap_VarintU64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
@@ -440,7 +440,7 @@ func DecodeMap_ZigZag64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int64, int32](mp)
-	(*m)[protowire.DecodeZigZag(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag(k)] = decodeZigZag32(v)
 	return nil
 }
 
@@ -500,7 +500,7 @@ func DecodeMap_ZigZag32_VarintU64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -515,7 +515,7 @@ func DecodeMap_ZigZag32_VarintU32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = uint32(v)
+	(*m)[decodeZigZag32(k)] = uint32(v)
 	return nil
 }
 
@@ -530,7 +530,7 @@ func DecodeMap_ZigZag32_ZigZag64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = protowire.DecodeZigZag(v)
+	(*m)[decodeZigZag32(k)] = protowire.DecodeZigZag(v)
 	return nil
 }
 
@@ -545,7 +545,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = int32(protowire.DecodeZigZag(v))
+	(*m)[decodeZigZag32(k)] = int32(protowire.DecodeZigZag(v))
 	return nil
 }
 
@@ -560,7 +560,7 @@ func DecodeMap_ZigZag32_Fixed64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -575,7 +575,7 @@ func DecodeMap_ZigZag32_Fixed32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -590,7 +590,7 @@ func DecodeMap_ZigZag32_Bool(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, bool](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -650,7 +650,7 @@ func DecodeMap_Fixed64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
@@ -756,7 +756,7 @@ func DecodeMap_Fixed32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
@@ -862,7 +862,7 @@ func DecodeMap_Bool_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[bool, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index aa3a956..865fb2e 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -164,7 +164,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 		if n < 0 {
 			return io.ErrUnexpectedEOF
 		}
-		vv = append(vv, int32(protowire.DecodeZigZag(v)))
+		vv = append(vv, decodeZigZag32(v))
 		b = b[n:]
 	}
 	*(*[]int32)(h) = vv
diff --git a/internal/wire/utils.go b/internal/wire/utils.go
index 80727e1..221efc7 100644
--- a/internal/wire/utils.go
+++ b/internal/wire/utils.go
@@ -16,6 +16,17 @@
 
 package wire
 
+import (
+	"math"
+
+	"github.com/cloudwego/prutal/internal/protowire"
+)
+
+// decodeZigZag32 decodes a sint32, the varint is truncated to 32 bits first.
+func decodeZigZag32(v uint64) int32 {
+	return int32(protowire.DecodeZigZag(v & math.MaxUint32))
+}
+
 func toUint64s(vv []uint32) []uint64 {
 	xx := make([]uint64, len(vv))
 	for i, v := range vv {
-- 
2.43.0


From b859ef83eba008aac4287c812427dacaf915191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 06/25] fix: reject field numbers and Go types the wire format
 can not represent

Field numbers outside 1..2^29-1 were accepted, numbers above 2^31-1 panicked.
Slices without rep, pointers to lists or maps, pointers to scalars as
list elements or map values, repeated oneof members and float map keys
were accepted, but they panicked or corrupted memory when used.
---
 internal/desc/desc.go  | 37 ++++++++++++++++++++++++++-----------
 internal/desc/tag.go   |  4 ++++
 internal/desc/type.go  |  9 +++++++++
 internal/desc/utils.go |  6 +++---
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..60a19da 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -279,19 +279,28 @@ func (f *FieldDesc) checkTypeMatch() error {
 			return fmt.Errorf("repeated field is not slice or map")
 		}
 		if t.IsSlice {
-			// The element type (after at most one pointer indirection) must be a
-			// scalar/struct, not another slice or map. Otherwise RealKind would
-			// flatten e.g. [][]int32 to int32 and pass validation, and the decoder
-			// would write a scalar slice header into a slice-of-slice element,
-			// causing type confusion.
-			el := t.V
-			if el.IsPointer {
-				el = el.V
-			}
-			if el.IsSlice || el.Kind == reflect.Map {
-				return fmt.Errorf("unsupported nested repeated field type %s", t.T)
+			// The element type must be a scalar/struct, not another slice or map.
+			// Otherwise RealKind would flatten e.g. [][]int32 to int32 and pass
+			// validation, and the decoder would write a scalar slice header into
+			// a slice-of-slice element, causing type confusion.
+			if err := t.V.checkElem(); err != nil {
+				return err
 			}
 		}
+		if f.IsOneof() {
+			return errors.New("oneof field can not be repeated")
+		}
+	} else {
+		vt := t
+		if t.IsPointer { // optional field
+			vt = t.V
+		}
+		if vt.IsSlice {
+			return errors.New("slice field is not repeated field")
+		}
+	}
+	if t.IsPointer && t.V.Kind == reflect.Map {
+		return fmt.Errorf("unsupported field type %s", t.T)
 	}
 
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
@@ -301,6 +310,12 @@ func (f *FieldDesc) checkTypeMatch() error {
 		if !f.Repeated {
 			return errors.New("must be repeated field for map")
 		}
+		if err := t.K.checkElem(); err != nil {
+			return err
+		}
+		if err := t.V.checkElem(); err != nil {
+			return err
+		}
 		if err := IsFieldKeyTypeMatchReflectKind(f.KeyType, t.K.RealKind()); err != nil {
 			return err
 		}
diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..e8a2256 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -22,6 +22,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/cloudwego/prutal/internal/protowire"
 	"github.com/cloudwego/prutal/internal/wire"
 )
 
@@ -68,6 +69,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
+	if !protowire.Number(p.ID).IsValid() {
+		return fmt.Errorf("field number %d out of range", p.ID)
+	}
 	if p.Packed {
 		p.WireTag = wire.EncodeTag(p.ID, wire.TypeBytes)
 	} else {
diff --git a/internal/desc/type.go b/internal/desc/type.go
index 368e514..c25d65b 100644
--- a/internal/desc/type.go
+++ b/internal/desc/type.go
@@ -74,6 +74,15 @@ func (t *Type) RealKind() reflect.Kind {
 	return t.Kind
 }
 
+// checkElem returns an error if t can't be an element of a list, or a key or value of a map.
+// It must be a scalar, a struct or a pointer to struct.
+func (t *Type) checkElem() error {
+	if t.IsSlice || t.Kind == reflect.Map || (t.IsPointer && t.V.Kind != reflect.Struct) {
+		return fmt.Errorf("unsupported element type %s of a repeated or map field", t.T)
+	}
+	return nil
+}
+
 func (t *Type) finalizeType() error {
 	if t.finalized {
 		return nil
diff --git a/internal/desc/utils.go b/internal/desc/utils.go
index 603d419..a63c9f4 100644
--- a/internal/desc/utils.go
+++ b/internal/desc/utils.go
@@ -23,7 +23,7 @@ import (
 )
 
 // IsFieldKeyTypeMatchReflectKind returns nil if t match k for map key type
-// It's same as IsFieldTypeMatchReflectKind except k can't be `[]byte` or `struct`
+// It's same as IsFieldTypeMatchReflectKind except k can't be `[]byte`, `struct` or float
 func IsFieldKeyTypeMatchReflectKind(t TagType, k reflect.Kind) error {
 	ok := false
 	switch t {
@@ -36,9 +36,9 @@ func IsFieldKeyTypeMatchReflectKind(t TagType, k reflect.Kind) error {
 	case TypeZigZag64:
 		ok = k == reflect.Int64
 	case TypeFixed32:
-		ok = k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Float32
+		ok = k == reflect.Int32 || k == reflect.Uint32
 	case TypeFixed64:
-		ok = k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Float64
+		ok = k == reflect.Int64 || k == reflect.Uint64
 	case TypeBytes:
 		ok = k == reflect.String
 	}
-- 
2.43.0


From af3cb6eb0770949be1cbe5f92977ba324a12d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 07/25] fix: do not reuse incomplete descriptors after a type
 is rejected

---
 internal/desc/desc.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 60a19da..603876f 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -66,6 +66,7 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 
 	t, err := parseType(rt)
 	if err != nil {
+		resetParseCache()
 		return nil, err
 	}
 	s := t.S
@@ -73,12 +74,22 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		panic("t.S == nil")
 	}
 	if err := s.FinalizeFields(); err != nil {
+		resetParseCache()
 		return nil, err
 	}
 	cache.Set(typ, s)
 	return s, nil
 }
 
+// resetParseCache drops all types parsed so far.
+//
+// When parsing fails, other types referring to the failed one (cyclic refs)
+// may be already in the cache, and they must not be used since they're incomplete.
+func resetParseCache() {
+	cachedTypes = map[reflect.Type]*Type{}
+	cachedStructs = map[reflect.Type]*StructDesc{}
+}
+
 const maxDirectFieldMapID = 1000
 
 type StructDesc struct {
-- 
2.43.0


From 6273252aaf8922ebb6af469a4009a376fcb1e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 08/25] fix: report malformed oneof declarations as errors
 instead of panicking

---
 internal/desc/desc.go  | 11 ++++++++++-
 internal/desc/utils.go |  8 +++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 603876f..6c6f49d 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -358,6 +358,9 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 		tag := sf.Tag.Get("protobuf")
 		if tag == "" {
 			if sf.Tag.Get("protobuf_oneof") != "" {
+				if sf.Type.Kind() != reflect.Interface {
+					return nil, fmt.Errorf("parse field %q err: oneof is not interface", sf.Name)
+				}
 				oneofs = append(oneofs, sf)
 			}
 			continue
@@ -372,16 +375,22 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 	if len(oneofs) > 0 {
 		for _, v := range searchOneofWrappers(rt) {
 			rt := reflect.TypeOf(v)
+			if rt == nil || rt.Kind() != reflect.Pointer || rt.Elem().Kind() != reflect.Struct {
+				return nil, fmt.Errorf("oneof wrapper %v is not pointer to struct", rt)
+			}
 			for _, o := range oneofs {
 				if !rt.Implements(o.Type) {
 					continue
 				}
 				// Pointer -> Struct
-				rt = rt.Elem()
+				rt := rt.Elem()
 				if rt.NumField() != 1 { // The struct must contains exactly one field
 					return nil, fmt.Errorf("parse field %q oneof %q err: field number != 1", o.Name, rt.String())
 				}
 				field := rt.Field(0)
+				if field.Tag.Get("protobuf") == "" {
+					return nil, fmt.Errorf("parse field %q oneof %q err: no protobuf tag", o.Name, rt.String())
+				}
 				f := &FieldDesc{Name: o.Name, Offset: o.Offset, Tag: field.Tag, OneofType: reflect.PointerTo(rt)}
 				f.IfaceTab = hack.IfaceTab(o.Type, rt)
 				if err = f.parse(field.Type); err != nil {
diff --git a/internal/desc/utils.go b/internal/desc/utils.go
index a63c9f4..80b4640 100644
--- a/internal/desc/utils.go
+++ b/internal/desc/utils.go
@@ -94,6 +94,8 @@ const (
 	methodOneofWrappers = "XXX_OneofWrappers"
 )
 
+var oneofWrappersType = reflect.TypeOf([]any(nil))
+
 func searchOneofWrappers(t reflect.Type) []any {
 	kd := t.Kind()
 	for kd == reflect.Pointer || kd == reflect.Interface {
@@ -105,12 +107,12 @@ func searchOneofWrappers(t reflect.Type) []any {
 	}
 	pt := reflect.PointerTo(t)
 	m, ok := pt.MethodByName(methodProtoReflect)
-	if ok {
+	if ok && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 {
 		args := []reflect.Value{reflect.NewAt(t, nil)}
 		return searchFieldOneofWrappers(m.Func.Call(args)[0], 5)
 	}
 	m, ok = pt.MethodByName(methodOneofWrappers)
-	if ok {
+	if ok && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0) == oneofWrappersType {
 		args := []reflect.Value{reflect.NewAt(t, nil)}
 		return m.Func.Call(args)[0].Interface().([]any)
 	}
@@ -130,7 +132,7 @@ func searchFieldOneofWrappers(v reflect.Value, maxdepth int) []any {
 		return nil
 	}
 	oneofs := v.FieldByName(fieldOneofWrappers)
-	if oneofs.IsValid() {
+	if oneofs.IsValid() && oneofs.Type() == oneofWrappersType {
 		// same as oneofs.Interface().([]any)
 		// fix: cannot return value obtained from unexported field or method
 		ret := []any{}
-- 
2.43.0


From 35a770517dee31e39696c86b884784e57cfe71c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 09/25] fix: accept packed records for repeated fields not
 declared as packed

---
 internal/desc/desc.go      | 2 +-
 internal/desc/funcs.go     | 7 ++++---
 internal/prutal/decoder.go | 6 ++----
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 6c6f49d..ea4e279 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -203,7 +203,7 @@ type FieldDesc struct {
 
 	SizeMapFunc wire.SizeMapFunc
 
-	// only for packed types, and some map types
+	// only for scalar lists (packed records), and some map types
 	DecodeFunc func(b []byte, p unsafe.Pointer) error
 
 	T *Type
diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..d93bec9 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,11 +65,12 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.IsList {
+		// Returns optimized decoder for (packed) repeated scalar fields
+		// Returns nil for repeated string, bytes or struct
 		return getPackedDecodeFunc(f)
 	}
-	// Non-packed, non-map fields use generic decoding
+	// Non-list, non-map fields use generic decoding
 	return nil
 }
 
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 0686493..f3210ec 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -149,11 +149,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
+			if typ == wire.TypeBytes && f.DecodeFunc != nil {
 				// packed repeated fields, only scalar types except string or bytes
-				if f.DecodeFunc == nil {
-					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-				}
+				// parsers must accept packed records even if the field is not declared as packed
 				packed, n := protowire.ConsumeBytes(b[i:])
 				if n < 0 {
 					return i, protowire.ParseError(n)
-- 
2.43.0


From 66d5f112ba21ee675c162389bf4a992518a12fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 10/25] fix: reject field numbers above the protobuf maximum
 when decoding

---
 internal/protowire/wire.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protowire/wire.go b/internal/protowire/wire.go
index 204de0a..96ceee5 100644
--- a/internal/protowire/wire.go
+++ b/internal/protowire/wire.go
@@ -170,7 +170,7 @@ func ConsumeTag(b []byte) (Number, Type, int) {
 		return 0, 0, n // forward error code
 	}
 	num, typ := DecodeTag(v)
-	if num < MinValidNumber {
+	if !num.IsValid() {
 		return 0, 0, errCodeFieldNumber
 	}
 	return num, typ, n
-- 
2.43.0


From 86aced8b14685b45b7a1d05265fcfef6de22e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 11/25] fix: decode map entries with missing, reordered,
 repeated or unknown records

and reject map entries followed by malformed data.
---
 internal/prutal/decoder.go | 62 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index f3210ec..f069b85 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -266,6 +266,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					*(*string)(p) = ""
 				}
 			case reflect.Map:
+				fb, err := normalizeMapEntry(fb, f)
+				if err != nil {
+					return i, err
+				}
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
@@ -308,6 +312,64 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 	return i, nil
 }
 
+// normalizeMapEntry validates the map entry b and returns it as one key record followed by one value record.
+//
+// Encoders normally write entries in that form and then b is returned as is, but like any other message,
+// the records of an entry may be missing (zero value), reordered, repeated (last one wins) or unknown (skipped).
+func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
+	var k, v []byte // the last key and value record without tag
+	kpos, vpos := -1, -1
+	for i := 0; i < len(b); {
+		num, typ, n := protowire.ConsumeTag(b[i:])
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		i += n
+		if num == 1 && typ != f.KeyWireType {
+			return nil, newWireTypeNotMatch(typ, f.KeyType)
+		}
+		if num == 2 && typ != f.ValWireType {
+			return nil, newWireTypeNotMatch(typ, f.ValType)
+		}
+		n = protowire.ConsumeFieldValue(num, typ, b[i:])
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		switch num {
+		case 1:
+			k, kpos = b[i:i+n], i
+		case 2:
+			v, vpos = b[i:i+n], i
+		}
+		i += n
+	}
+	if kpos == 1 && vpos == kpos+len(k)+1 && vpos+len(v) == len(b) {
+		return b, nil // normal case
+	}
+	if k == nil {
+		k = zeroRecord(f.KeyWireType)
+	}
+	if v == nil {
+		v = zeroRecord(f.ValWireType)
+	}
+	ret := make([]byte, 0, 2+len(k)+len(v))
+	ret = append(wire.AppendKeyTag(ret, f.KeyWireType), k...)
+	ret = append(wire.AppendValTag(ret, f.ValWireType), v...)
+	return ret, nil
+}
+
+// zeroRecord returns the encoded zero value of the wire type t
+func zeroRecord(t wire.Type) []byte {
+	switch t {
+	case wire.TypeFixed32:
+		return make([]byte, 4)
+	case wire.TypeFixed64:
+		return make([]byte, 8)
+	default: // varint 0, or LEN 0
+		return make([]byte, 1)
+	}
+}
+
 // DecodeMapKey ...
 // keyType = "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 // "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string"
-- 
2.43.0


From fae73c39eaf131caa08fb41dfe70f45654734891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 12/25] fix: accept enum values in the range reserved for field
 numbers

---
 prutalgen/pkg/prutalgen/enum.go     | 3 ++-
 prutalgen/pkg/prutalgen/reserved.go | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..07d588a 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,8 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	// 19000-19999 is only reserved for field numbers, it's available for enum values.
+	return e.reserved.declared(v)
 }
 
 func (e *Enum) genNoPrefix() bool {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..82aa23e 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -39,6 +39,12 @@ func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.declared(v)
+}
+
+// declared reports whether v is in one of the ranges of the `reserved` statements.
+// Unlike In, it does not include the field numbers reserved by protobuf implementation.
+func (rr reservedRanges) declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
-- 
2.43.0


From 5d6e1e59e05de2aee205eac6e62eb970ad782152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 13/25] fix: reject field numbers out of the protobuf range

---
 prutalgen/pkg/prutalgen/message.go  | 4 +++-
 prutalgen/pkg/prutalgen/reserved.go | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..80e2169 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -213,7 +213,9 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if x.FieldNumber < minFieldNumber || x.FieldNumber > maxFieldNumber {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range", x.Name, x.FieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 82aa23e..a3f669f 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -26,6 +26,10 @@ const (
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
+
+	// valid field numbers of a message
+	minFieldNumber = 1
+	maxFieldNumber = 1<<29 - 1
 )
 
 type reservedRange struct {
-- 
2.43.0


From 2fe06dafbedd223ed2e8efc4c2708b3f819e5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 14/25] fix: accept octal and hex numbers in reserved ranges

---
 prutalgen/pkg/prutalgen/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..0528988 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -67,7 +67,7 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
+	v, err := strconv.ParseInt(c.GetText(), 0, 32) // may be octal or hex
 	if err != nil {
 		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
 	}
-- 
2.43.0


From 7c7d788377babf1278eb33591d1dc9f42d704d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 15/25] fix: accept the minimum int32 as an enum value

---
 prutalgen/pkg/prutalgen/enum.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 07d588a..08536bb 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -186,15 +186,16 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
+	lit := c.IntLit().GetText()
+	if t := c.MINUS(); t != nil {
+		lit = "-" + lit // parse with the sign, or the min value of int32 overflows
+	}
+	if num, ok := text.UnmarshalI32(lit); !ok {
 		t := c.IntLit()
-		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
+		x.Fatalf("%s - parse enum %q err", getTokenPos(t), lit)
 	} else {
 		f.Value = num
 	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
-	}
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
-- 
2.43.0


From 7332bffc46bac4d669dec25375b8ac4838c547ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 16/25] fix: generate enums nested in embedded messages

---
 prutalgen/pkg/prutalgen/code.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..97d73d8 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -118,10 +118,7 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	// always generate enums before messages
 	// same order as protobuf
 	for _, m := range p.Messages {
-		for _, e := range m.Enums {
-			w.F("")
-			g.EnumGen(e, w)
-		}
+		g.nestedEnumsGen(m, w)
 	}
 
 	for _, m := range p.Messages {
@@ -130,6 +127,17 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	}
 }
 
+// nestedEnumsGen generates enums declared in m and, recursively, in its embedded messages
+func (g *GoCodeGen) nestedEnumsGen(m *Message, w *CodeWriter) {
+	for _, e := range m.Enums {
+		w.F("")
+		g.EnumGen(e, w)
+	}
+	for _, x := range m.Messages {
+		g.nestedEnumsGen(x, w)
+	}
+}
+
 func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
-- 
2.43.0


From 9a91b98d9f678ca06fbc45bf84f63a575a0a4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 17/25] fix: honor packed = false of proto3 fields

---
 prutalgen/pkg/prutalgen/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..f42d32c 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -106,7 +106,7 @@ func (f *Field) IsPackedEncoding() bool {
 		}
 		return v == "PACKED"
 	}
-	return true // proto3
+	return !f.Options.Is(option_packed, "false") // proto3, packed by default
 }
 
 func (f *Field) resolve() {
-- 
2.43.0


From e128b115a9e5b0f3ed88d6aa3d621811f9c7c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 18/25] fix: support the LEGACY_REQUIRED field presence of
 editions

---
 prutalgen/pkg/prutalgen/code.go  |  2 +-
 prutalgen/pkg/prutalgen/field.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 97d73d8..51f1a66 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -322,7 +322,7 @@ func (g *GoCodeGen) FieldStructTag(f *Field) []byte {
 		if f.IsPackedEncoding() {
 			b = append(b, ",packed"...)
 		}
-	} else if f.Required {
+	} else if f.isRequired() {
 		b = append(b, "req"...)
 	} else {
 		b = append(b, "opt"...)
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index f42d32c..41131ad 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -189,17 +189,24 @@ func (f *Field) IsPointer() bool {
 	if p.IsEdition2023() {
 		s, ok := f.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s != "IMPLICIT" // EXPLICIT or LEGACY_REQUIRED
 		}
 		s, ok = p.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s != "IMPLICIT"
 		}
 		return true // Default: EXPLICIT, which is same as proto2
 	}
 	return false // proto3?
 }
 
+// isRequired reports whether the field is a required field of proto2,
+// or uses the equivalent feature of editions.
+func (f *Field) isRequired() bool {
+	return f.Required || (f.Msg != nil && f.Msg.Proto.IsEdition2023() &&
+		f.Options.Is(f_field_presence, "LEGACY_REQUIRED"))
+}
+
 // GoZero returns the Go zero value for the field's type.
 func (f *Field) GoZero() string {
 	if f.IsMap() || f.Repeated {
-- 
2.43.0


From 4ddf4db461a4af03e22aa34c9648fec5c8b9c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 19/25] fix: resolve type names by the protobuf scoping rules

---
 prutalgen/pkg/prutalgen/proto.go |  26 +++++-
 prutalgen/pkg/prutalgen/type.go  | 133 ++++++++++++++++++++-----------
 2 files changed, 112 insertions(+), 47 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..28203d9 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -81,7 +81,8 @@ func (p *Proto) setGoPackage(s string) {
 	}
 }
 
-func (p *Proto) getType(name string) any {
+// getDeclaredType returns the type declared in the proto, without considering imports
+func (p *Proto) getDeclaredType(name string) any {
 	for _, m := range p.Messages {
 		if v := m.getType(name); v != nil {
 			return v
@@ -92,6 +93,29 @@ func (p *Proto) getType(name string) any {
 			return e
 		}
 	}
+	return nil
+}
+
+// visibleProtos returns the protos which types can be used in p:
+// p itself, its imports and what the imports publicly import.
+func (p *Proto) visibleProtos() []*Proto {
+	ret := []*Proto{p}
+	seen := map[*Proto]bool{p: true}
+	for i := 0; i < len(ret); i++ {
+		for _, x := range ret[i].Imports {
+			if (i == 0 || x.Public) && !seen[x.Proto] {
+				seen[x.Proto] = true
+				ret = append(ret, x.Proto)
+			}
+		}
+	}
+	return ret
+}
+
+func (p *Proto) getType(name string) any {
+	if v := p.getDeclaredType(name); v != nil {
+		return v
+	}
 	for _, x := range p.Imports {
 		if !x.Public {
 			continue
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..4c607d3 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -137,65 +137,106 @@ func (t *Type) resolve(allowScalar bool) {
 		}
 	}
 
-	if m != nil {
-		if v := m.getType(t.Name); v != nil {
-			t.typ = v
-			return
-		}
-	}
-
 	//  (DOT)? (ident DOT)* ident
+	name := strings.TrimLeft(t.Name, ".")
+	absolute := name != t.Name
+	t.Name = name
+
+	var x *Proto
+	if absolute {
+		// fully-qualified name
+		t.typ, x = findType(p.visibleProtos(), name)
+	} else {
+		t.typ, x = p.searchType(m, name)
+	}
+	if t.typ == nil {
+		p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+		return
+	}
+	if x != nil && x.GoImport != p.GoImport {
+		t.p = x
+	}
+}
 
-	// search Message
-	if m != nil {
-		for x := m; x != nil; x = x.Msg {
-			t.typ = x.getType(t.Name)
-			if t.typ != nil {
-				return
-			}
-			for _, e := range x.Enums {
-				if e.Name == t.Name {
-					t.typ = e
-					return
-				}
-			}
-			for _, m := range x.Messages {
-				if v := m.getType(t.Name); v != nil {
-					t.typ = v
-					return
-				}
+// searchType searches the type by a relative name from the innermost scope to the outermost:
+// m and its parents if it's not nil, then the package of the proto and its parents.
+//
+// Same as protobuf, the first scope which contains the first part of the name wins.
+// The returned *Proto is nil if the type is declared in m or its parents.
+func (p *Proto) searchType(m *Message, name string) (any, *Proto) {
+	for x := m; x != nil; x = x.Msg {
+		if v, ok := x.searchType(name); ok {
+			return v, nil
+		}
+	}
+	protos := p.visibleProtos()
+	first, _, compound := strings.Cut(name, ".")
+	for scope := p.Package; ; {
+		prefix := ""
+		if scope != "" {
+			prefix = scope + "."
+		}
+		if !compound {
+			if v, x := findType(protos, prefix+name); v != nil {
+				return v, x
 			}
+		} else if v, _ := findType(protos, prefix+first); v != nil || hasPackage(protos, prefix+first) {
+			return findType(protos, prefix+name)
+		}
+		if scope == "" {
+			return nil, nil
 		}
+		i := strings.LastIndexByte(scope, '.')
+		if i < 0 {
+			i = 0
+		}
+		scope = scope[:i]
 	}
+}
 
-	// search proto and imports
-	protos := make([]*Proto, 0, len(p.Imports)+1)
-	protos = append(protos, p) // always check p
-	for _, x := range p.Imports {
-		if p.Package == x.Package { // same package
-			protos = append(protos, x.Proto)
+// searchType searches the type by the name relative to m.
+// It returns true if the first part of the name is declared in m.
+func (m *Message) searchType(name string) (any, bool) {
+	first, _, compound := strings.Cut(name, ".")
+	for _, x := range m.Messages {
+		if x.Name == first {
+			return x.getType(name), true
 		}
 	}
-
-	// if name starts with "." it means the type is in local package
-	if !strings.HasPrefix(t.Name, ".") {
-		for _, x := range p.Imports {
-			if hasPathPrefix(t.Name, x.Package) {
-				protos = append(protos, x.Proto)
+	for _, x := range m.Enums {
+		if x.Name == first {
+			if compound {
+				return nil, true
 			}
+			return x, true
 		}
-	} else {
-		// trim "." for searching type
-		t.Name = strings.TrimLeft(t.Name, ".")
 	}
+	return nil, false
+}
+
+// findType searches the type by the full name
+func findType(protos []*Proto, fullname string) (any, *Proto) {
 	for _, x := range protos {
-		t.typ = x.getType(t.Name)
-		if t.typ != nil {
-			if x.GoImport != p.GoImport {
-				t.p = x
+		name := fullname
+		if x.Package != "" {
+			var ok bool
+			if name, ok = trimPathPrefix(fullname, x.Package); !ok {
+				continue
 			}
-			return
+		}
+		if v := x.getDeclaredType(name); v != nil {
+			return v, x
+		}
+	}
+	return nil, nil
+}
+
+// hasPackage reports whether the name is a package or a parent of packages
+func hasPackage(protos []*Proto, name string) bool {
+	for _, x := range protos {
+		if x.Package == name || hasPathPrefix(x.Package, name) {
+			return true
 		}
 	}
-	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+	return false
 }
-- 
2.43.0


From 734fdfa6910d7f2208f7df8a6138aa93e1cb8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 20/25] fix: reference imported Go packages by a valid and
 unique package name

---
 prutalgen/pkg/prutalgen/code.go  |  4 +--
 prutalgen/pkg/prutalgen/field.go |  3 +--
 prutalgen/pkg/prutalgen/proto.go | 42 ++++++++++++++++++++++++++++++--
 prutalgen/pkg/prutalgen/type.go  | 21 ++++++++++++++--
 4 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 51f1a66..11f0096 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -362,10 +362,10 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.goPkgName())
 	}
 	if f.Key != nil && f.Key.IsExternalType() {
-		w.UsePkg(f.Key.GoImport(), "")
+		w.UsePkg(f.Key.GoImport(), f.Key.goPkgName())
 	}
 }
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 41131ad..720486a 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -223,7 +222,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.goPkgName() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 28203d9..7212e3c 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,10 +19,13 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
 	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
@@ -75,12 +78,47 @@ func (p *Proto) setGoPackage(s string) {
 	pkg = strings.TrimSpace(pkg)
 	p.GoImport = imp
 	if pkg != "" {
-		p.GoPackage = pkg
+		p.GoPackage = strs.GoSanitized(pkg)
 	} else if p.GoImport != "" {
-		p.GoPackage = path.Base(p.GoImport)
+		p.GoPackage = strs.GoSanitized(path.Base(p.GoImport))
 	}
 }
 
+// goPkgName returns the package name for referencing the Go package of x in the generated code of p.
+//
+// It's GoPackage of x by default. A number is appended if the name is not unique in p.
+func (p *Proto) goPkgName(x *Proto) string {
+	used := map[string]bool{
+		// packages imported by the generated code
+		"strconv": true,
+		"prutal":  true,
+	}
+	seen := map[string]bool{p.GoImport: true}
+	for _, v := range p.visibleProtos() {
+		if seen[v.GoImport] {
+			continue
+		}
+		seen[v.GoImport] = true
+		name := v.defaultGoPkgName()
+		orig := name
+		for i := 1; used[name] || types.Universe.Lookup(name) != nil; i++ {
+			name = orig + strconv.Itoa(i)
+		}
+		used[name] = true
+		if v.GoImport == x.GoImport {
+			return name
+		}
+	}
+	return x.defaultGoPkgName()
+}
+
+func (p *Proto) defaultGoPkgName() string {
+	if p.GoPackage != "" {
+		return p.GoPackage
+	}
+	return strs.GoSanitized(path.Base(p.GoImport))
+}
+
 // getDeclaredType returns the type declared in the proto, without considering imports
 func (p *Proto) getDeclaredType(name string) any {
 	for _, m := range p.Messages {
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 4c607d3..b583017 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -17,7 +17,6 @@
 package prutalgen
 
 import (
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -59,7 +58,25 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.goPkgName() + "." + ret
+}
+
+// proto returns the Proto which uses the type
+func (t *Type) proto() *Proto {
+	if t.f != nil && t.f.Msg != nil {
+		return t.f.Msg.Proto
+	} else if t.m != nil {
+		return t.m.Service.Proto
+	}
+	return nil
+}
+
+// goPkgName returns the package name for referencing an external type
+func (t *Type) goPkgName() string {
+	if p := t.proto(); p != nil {
+		return p.goPkgName(t.p)
+	}
+	return t.p.defaultGoPkgName()
 }
 
 func (t *Type) IsExternalType() bool {
-- 
2.43.0


From 465eab8e5c9abd65d620b2d0dd4af68996e72166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 21/25] fix: rename oneofs and oneof wrappers colliding with
 getters, methods or other wrappers

---
 prutalgen/pkg/prutalgen/message.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 80e2169..d37537d 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -143,8 +143,8 @@ func (m *Message) resolve() {
 }
 
 // resolveOneofTypeConflicts ensures the wrapper struct name of each oneof
-// field does not collide with a sibling nested message or enum GoName by
-// appending '_' to the wrapper name (not the field's GoName).
+// field does not collide with a sibling nested message or enum GoName, or with
+// the wrapper struct name of another field, by appending '_' to the wrapper name (not the field's GoName).
 //
 // Mirrors the second pass in protoc-gen-go's protogen.newMessage.
 func (m *Message) resolveOneofTypeConflicts() {
@@ -162,6 +162,7 @@ func (m *Message) resolveOneofTypeConflicts() {
 		for nested[f.OneofStructName()] {
 			f.oneofTypeSuffix += "_"
 		}
+		nested[f.OneofStructName()] = true // it may collide with wrappers of other fields
 	}
 }
 
@@ -183,6 +184,9 @@ func (m *Message) resolveFieldConflicts() {
 		"ExtensionMap":        true,
 		"Descriptor":          true,
 	}
+	if len(m.Oneofs) > 0 {
+		usedNames["XXX_OneofWrappers"] = true // see MessageGen
+	}
 	for _, f := range m.Fields {
 		for usedNames[f.GoName] || usedNames["Get"+f.GoName] {
 			f.GoName += "_"
@@ -191,10 +195,11 @@ func (m *Message) resolveFieldConflicts() {
 		usedNames["Get"+f.GoName] = true
 		if f.Oneof != nil && f.Oneof.Fields[0] == f {
 			o := f.Oneof
-			for usedNames[o.GoName] {
+			for usedNames[o.GoName] || usedNames["Get"+o.GoName] {
 				o.GoName += "_"
 			}
 			usedNames[o.GoName] = true
+			usedNames["Get"+o.GoName] = true
 		}
 	}
 }
-- 
2.43.0


From 135170a0a0c0532b710585dc3e59f2eaafad640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 22/25] fix: truncate sint32 values of sint32 keyed maps to 32
 bits before zigzag

---
 internal/wire/decoder_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index 8aaeeb6..910b667 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -545,7 +545,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[decodeZigZag32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[decodeZigZag32(k)] = decodeZigZag32(v)
 	return nil
 }
 
-- 
2.43.0


From e30a4e64f879edea781352cd5712f9116cc9f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 23/25] fix: merge repeated message values of one map entry

---
 internal/prutal/decoder.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index f069b85..7986993 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -339,7 +339,12 @@ func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 		case 1:
 			k, kpos = b[i:i+n], i
 		case 2:
-			v, vpos = b[i:i+n], i
+			if v != nil && f.ValAppendFunc == nil { // repeated messages are merged
+				v = concatBytesRecords(v, b[i:i+n])
+			} else {
+				v = b[i : i+n]
+			}
+			vpos = i
 		}
 		i += n
 	}
@@ -358,6 +363,15 @@ func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 	return ret, nil
 }
 
+// concatBytesRecords returns a LEN record without tag with the contents of x followed by the contents of y.
+// x and y must be valid LEN records.
+func concatBytesRecords(x, y []byte) []byte {
+	x, _ = protowire.ConsumeBytes(x)
+	y, _ = protowire.ConsumeBytes(y)
+	ret := protowire.AppendVarint(make([]byte, 0, len(x)+len(y)+5), uint64(len(x)+len(y)))
+	return append(append(ret, x...), y...)
+}
+
 // zeroRecord returns the encoded zero value of the wire type t
 func zeroRecord(t wire.Type) []byte {
 	switch t {
-- 
2.43.0


From 3af56dfd7d0a5702f97e0cbe0f558147d9c83b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 24/25] fix: concatenate back-to-back string literals of
 options

---
 prutalgen/internal/protobuf/text/decode_string.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..0b18f65 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -162,9 +162,18 @@ func indexNeedEscapeInString(s string) int {
 }
 
 // UnmarshalString returns an unescaped string given a textproto string value.
-// String value needs to contain single or double quotes. This is only used by
-// internal/encoding/defval package for unmarshaling bytes.
+// String value needs to contain single or double quotes.
+// Back-to-back string literals are concatenated, see parseStringValue.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	ret, err := d.parseString()
+	for err == nil && len(d.in) > 0 && (d.in[0] == '"' || d.in[0] == '\'') {
+		var next string
+		next, err = d.parseString()
+		ret += next
+	}
+	if err != nil {
+		return "", err
+	}
+	return ret, nil
 }
-- 
2.43.0


From f9f2096c793c1c41c5771a0fdb42f71773ff8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 25/25] fix: do not rename an imported Go package to the last
 element of its path

---
 prutalgen/pkg/prutalgen/proto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 7212e3c..34309c6 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -101,7 +101,9 @@ func (p *Proto) goPkgName(x *Proto) string {
 		seen[v.GoImport] = true
 		name := v.defaultGoPkgName()
 		orig := name
-		for i := 1; used[name] || types.Universe.Lookup(name) != nil; i++ {
+		for i := 1; used[name] || types.Universe.Lookup(name) != nil ||
+			// CodeWriter omits the alias in this case, but it's not the package name
+			(name != orig && name == path.Base(v.GoImport)); i++ {
 			name = orig + strconv.Itoa(i)
 		}
 		used[name] = true
-- 
2.43.0

